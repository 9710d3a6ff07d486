"""C21: concurrent histories of the node list, judged by ListTrace; unordered accesses to its maps, seen by the race detector."""
import json, os, random, re
import common, models, scen
from frames import hx, report, discovery
from gen_link import sched

MS = 1000


def lists(sid, seed, profile):
    """One history.  profile: plain (spread out), tight (all at the same time), load, stress, quiet (stress, not recorded)"""
    r = random.Random('lists-%s-%s-%s' % (sid, seed, profile))
    net = r.sample(range(2, 30), r.choice([0, 1, 3, 8]))
    own = r.sample(range(31, 233), r.choice([1, 2, 4, 12]))
    tok = [0]
    nid = [0]

    def op(**k):
        nid[0] += k.get('rep', 0) + 1
        o = {'at': 0, 'node': 0, 'tok': 0, 'keep': -1, 'rep': 0, 'v': r.randrange(1000)}
        o.update(k)
        o['id'] = nid[0] - k.get('rep', 0)
        if o['op'] == 'add':
            o['busy'] = r.random() < .4
            o['tok'] = tok[0] + 1
            tok[0] += o['rep'] + 1
        return o

    file = {}
    if profile == 'load' or r.random() < .5:
        for n in r.sample(net, min(len(net), r.randrange(0, 4))) + r.sample(own, min(len(own), r.randrange(0, 4))) + r.sample(range(234, 256), r.randrange(0, 3)):
            tok[0] += 1
            file[str(n)] = 'T%d' % tok[0]
    stress = profile in ('stress', 'quiet')
    span = r.choice([200, 5 * MS, 400 * MS]) if profile != 'tight' else 20
    if stress:
        span = 200 * MS
    any_ = net + own + [int(x) for x in file] + [r.randrange(1, 256)]
    procs = []
    for p in range(r.randrange(2, 8)):
        ops = []
        # what this caller mostly does
        kinds = r.choice([['add'], ['add', 'get'], ['all', 'json', 'get'], ['report', 'json'], ['add', 'report', 'all', 'json', 'get', 'control'],
                          ['json'], ['all'], ['report', 'control'], ['save', 'report']])
        if profile == 'load' or r.random() < .1:
            kinds = kinds + ['load']
        for _ in range(r.randrange(2, 9)):
            k = r.choice(kinds)
            rep = 0
            if profile == 'quiet':
                rep = r.choice([3, 20, 60])
            elif stress:
                rep = r.choice([0, 1, 4]) if k == 'add' else r.choice([0, 2, 8])
            if k == 'load':
                rep = min(rep, 2)
            ops.append(op(op=k, at=r.randrange(0, span) if r.random() < .8 else span // 2, node=r.choice(own if k == 'add' else any_), rep=rep,
                          keep=r.choice([-1, 0, 50, 3 * MS, 300 * MS])))
        ops.sort(key=lambda o: o['at'])
        # identifiers rise in the order of the operations, wherever they are
        procs.append(ops)
    if any(o['op'] == 'load' for p in procs for o in p):
        # What would be loaded is what was in the file at first
        procs = [[o for o in p if o['op'] != 'save'] for p in procs]
    if profile == 'load' and not any(o['op'] == 'add' for p in procs for o in p):
        procs.append([op(op='add', node=r.choice(own), at=r.randrange(span)) for _ in range(3)])
    feed = []
    for _ in range(r.choice([0, 3, 20]) if not stress else r.choice([5, 40])):
        feed.append({'t': r.randrange(0, span + 2000), 'b': hx(report(r.choice(any_), r.choice([[0x25, 3, r.choice([0, 255])], [0x31, 5, r.randrange(1, 20), 1, r.randrange(256)]]))), 'fail': ''})
    feed.sort(key=lambda x: x['t'])
    sc = {'id': sid, 'profile': profile, 'file': file, 'net': hx(discovery(net)), 'net_at': r.choice([2000, 2000 + r.randrange(0, span + 1)]), 'feed': feed,
          'procs': procs, 'par': profile in ('tight', 'stress', 'quiet'), 'end': 2 * span + 1000 * MS, 'quiet': profile == 'quiet', 'meta': {'net': net}}
    sc['sched'], sc['slack'] = ({}, 2000) if profile == 'quiet' else sched(r)
    if stress and sc['sched']:
        sc['sched'].update(prob=min(100, sc['sched']['prob']), max=min(30, sc['sched']['max']))
    return sc


def script(sid, x, r):
    """A script of MCList, at moments so close that any order is possible."""
    sc = {'id': sid, 'profile': 'script %d of MCList' % x['n'], 'file': {'2': 'T12', '4': 'T14'}, 'net': hx(discovery([])), 'net_at': 2000, 'feed': [],
          'procs': [], 'par': True, 'end': 1000 * MS, 'quiet': False, 'meta': {'net': []}}
    tok = 100
    for q, ops in enumerate(x['ops']):
        l = []
        for j, o in enumerate(ops):
            tok += 1
            l.append({'op': o['op'], 'id': 10 * (q + 1) + j, 'at': r.choice([0, 0, 1, 3, 10]), 'node': o['n'], 'tok': tok, 'keep': r.choice([-1, 0, 20]), 'rep': 0, 'v': r.randrange(1000), 'busy': False})
        sc['procs'].append(sorted(l, key=lambda o: o['at']))
    sc['sched'] = {'seed': r.randrange(1 << 30), 'prob': r.choice([300, 700, 1000]), 'max': r.choice([1, 3, 10]), 'rare': 0, 'rare_max': 0, 'budget': 4000}
    sc['slack'] = 6000
    return sc


RACE = re.compile(r'WARNING: DATA RACE\n(.*?)\n={10,}', re.S)
MAPOP = re.compile(r'runtime\.map|internal/runtime/maps|reflect\.map|maps\.')


def races(text):
    """Unordered accesses to a map by the library, of those that the race detector saw."""
    out = []
    for m in RACE.finditer(text):
        b = m.group(1)
        stacks = re.split(r'\n\n', b)[:2]
        if any(MAPOP.search(s) for s in stacks) and all(common.REPO + '/' in s for s in stacks):
            out.append(b)
    return out


def check(ctx, prop):
    binary = common.build(ctx)
    n = 420 * (12 if ctx.thorough else 1)
    profs = ['plain', 'tight', 'load', 'stress', 'tight', 'plain', 'stress']
    for s in range(1, n + 1, 2000):
        scens = [lists(i, ctx.seed, profs[i % len(profs)]) for i in range(s, min(n + 1, s + 2000))]
        good, bad, amb, by = scen.run(ctx, prop, scens, 'ListTrace', binary, test='TestLists')
        scen.report(ctx, prop, good, bad, by)
        ov = sum(1 for t in good.values() if overlapping(t))
        ctx.add(traces_validated_against_impl=len(good), ambiguous=0,
                distinct_nontrivial=len(set(json.dumps(t) for t in good.values() if overlapping(t))),
                samples=[{'scenario': by[i]['profile'], 'trace': good[i][:25]} for i in sorted(good)[:1]])
    # what TLC has explored in every interleaving, in some interleavings of the real list
    m = models.Model(ctx, 'MCList', 1000 if ctx.thorough else 40, 4096 if ctx.thorough else 400, timeout=2000 if ctx.thorough else 300)
    r = random.Random('mclist-%d' % ctx.seed)
    scens = [script(i + 1, x, r) for i, x in enumerate(x for x in m.scripts for _ in range(3 if ctx.thorough else 2))]
    good, bad, amb, by = scen.run(ctx, prop, scens, 'ListTrace', binary, test='TestLists')
    scen.report(ctx, prop, good, bad, by)
    ctx.add(traces_validated_against_impl=len(good), model_scripts_replayed=len(m.scripts))
    m.join()
    # the same with real parallelism, unrecorded, under the race detector
    try:
        rb = common.build(ctx, instrument=False, race=True, name='race.test')
    except common.CheckError as e:
        ctx.log('no race detector:', str(e)[-300:])
        rb = None
    if rb:
        n = 160 * (8 if ctx.thorough else 1)
        scens = [lists(i, ctx.seed, 'quiet') for i in range(1, n + 1)]
        errs = []
        good, bad, amb, by = scen.run(ctx, prop, scens, 'ListTrace', rb, test='TestLists', errs=errs)
        scen.report(ctx, prop, good, bad, by)
        seen = set()
        for text in errs:
            for b in races(text):
                key = tuple(re.findall(re.escape(common.REPO) + r'/(\S+):\d+', b)[:2])
                if key not in seen:
                    seen.add(key)
                    ctx.violation('unordered-map-access', 'the nodes, or what a node holds, are read and changed at the same time: ' + ' and '.join(key),
                                  {'kind': 'race', 'report': b[:6000]})
        ctx.add(parallel_histories=len(good))
    ctx.cov['rule'] = ('random concurrent histories of additions, loads, lookups, listings, serialisations and reports from VERIF_SEED; every result judged by ListTrace.tla, '
                       'a history in which operations overlap is non-trivial; the same kind of histories in real parallelism under the race detector, for accesses to maps that nothing orders')
    return 'model_checking'


def overlapping(t):
    opened = 0
    for e in t:
        if e['e'] == 'call':
            opened += 1
            if opened > 1:
                return True
        elif e['e'] == 'ret':
            opened -= 1
    return False
