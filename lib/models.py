"""Models that TLC explores, and whose numbered scripts are replayed into the real library."""
import json, os, random, threading
import common, scen
from frames import hx, frame, report, protoinfo, discovery, DISCOVER

MS, S = 1000, 1000000


class Model:
    """One run of a model: TLC in the background, the scripts at once."""

    def __init__(self, ctx, module, model, replay, timeout=800, constants=None):
        self.ctx, self.module, self.model = ctx, module, model
        self.offset = random.Random('%s-%d' % (module, ctx.seed)).randrange(1 << 20)
        self.cfg = module + '.cfg'
        if constants:
            s = open(os.path.join(common.SPEC, self.cfg)).read()
            for k, v in constants.items():
                s = s.replace([l for l in s.split('\n') if l.strip().startswith(k + ' =')][0], '  %s = %s' % (k, v))
            self.cfg = ctx.path(module + '.cfg')
            open(self.cfg, 'w').write(s)
        self.scripts = []
        if replay:
            out = ctx.path(module + '.scripts')
            rc, text = common.tlc(ctx, module, cfg=self.cfg, env=self.env(0, replay, out), timeout=200)
            if rc != 0 or not os.path.exists(out):
                raise common.CheckError('TLC on %s: rc %s\n%s' % (module, rc, tail(text)))
            self.scripts = [json.loads(l) for l in open(out)]
            os.unlink(out)
        self.err = None
        self.th = threading.Thread(target=self.run, args=(timeout,))
        self.th.start()

    def env(self, model, replay, out):
        return {'SEL_MODEL': str(model), 'SEL_REPLAY': str(replay), 'SEL_OFFSET': str(self.offset), 'SCRIPTS_OUT': out}

    def run(self, timeout):
        try:
            out = self.ctx.path(self.module + '.none')
            self.rc, self.text = common.tlc(self.ctx, self.module, cfg=self.cfg, env=self.env(self.model, 1, out), timeout=timeout, workers=4)
        except Exception as e:
            self.err = e

    def join(self):
        """The specification itself must have the properties: if not, the check is broken."""
        self.th.join()
        if self.err:
            raise self.err
        if self.rc != 0:
            raise common.CheckError('the model %s does not have its properties: rc %s\n%s' % (self.module, self.rc, tail(self.text)))
        gen, dist = common.tlc_stats(self.text)
        self.ctx.add(states=dist, transitions=gen, model_states=dist)
        self.ctx.log('%s: %d states of %d scripts, all properties hold' % (self.module, dist, self.model))


def tail(text):
    i = text.find('Error')
    return text[max(0, i):i + 3000]


# ---------------------------------------------------------------- link

TICK = 125 * MS
BYTE = {'ack': '06', 'nak': '15', 'can': '18', 'late': '06'}


def link_scenario(n, x):
    sc = {'id': n, 'profile': 'script %d of MCLink' % x['script']['n'], 'react': {}, 'steps': [], 'callers': [], 'events': 'none', 'open': [],
          'default': {'ctl': '06', 'cd': 2 * TICK, 'ans': []}, 'sched': {}, 'slack': 2000}
    sc['react'][DISCOVER] = [{'ctl': '06', 'cd': 4000, 'ans': [{'d': 20000, 'b': hx(discovery([]))}]}]
    callers = {}
    for i in (0, 1):
        c = x['script']['cmds'][i]
        reacts = [{'ctl': BYTE.get(k, ''), 'cd': (11 if k == 'late' else 2) * TICK, 'ans': []} for k in c['ctl']]
        if c['ans'] >= 0:
            reacts[0]['ans'].append({'d': c['ans'] * TICK + 10 * MS, 'b': hx(x['reply'][i])})
        sc['react'][hx(frame(x['data'][i]))] = reacts
        callers.setdefault(x['caller'][i], []).append(
            {'op': c['kind'], 'id': i + 1, 'data': x['data'][i], 'to': 0 if c['kind'] == 'write' else c['to'] * TICK + 60 * MS,
             'er': 3 if c['kind'] == 'wr' else 0, 'col': 0 if c['kind'] != 'write' else 0, 'at': S + x['at'][i] * TICK})
    sc['callers'] = [callers[k] for k in sorted(callers)]
    sc['end'] = S + 90 * TICK
    return sc


def link(ctx, prop, binary):
    """C06..C10: all behaviours of two commands in the model; the same scripts in the real library."""
    n = 20000 if ctx.thorough else 700
    m = Model(ctx, 'MCLink', 2500 if ctx.thorough else 60, n, timeout=2000 if ctx.thorough else 300)
    for s in range(0, len(m.scripts), 5000):
        scens = [link_scenario(i + 1, x) for i, x in enumerate(m.scripts[s:s + 5000])]
        good, bad, amb, by = scen.run(ctx, prop, scens, 'LinkTrace', binary)
        scen.report(ctx, prop, good, bad, by)
        scen.coverage(ctx, good, amb, by)
        ctx.add(model_scripts_replayed=len(good))
    m.join()


# ---------------------------------------------------------------- the port

def port_scenario(n, x, r):
    import gen_link
    c = x['script']
    sc = {'id': n, 'profile': 'script %d of MCPort' % c['n'], 'react': {}, 'steps': [], 'callers': [], 'events': 'none',
          'default': {'ctl': '06', 'cd': 2 * TICK, 'ans': []}, 'open_time': r.choice([0, 0, 0, 60 * MS])}
    sc['react'][DISCOVER] = [{'ctl': '06', 'cd': 4000, 'ans': [{'d': 20000, 'b': hx(discovery([]))}]}]
    if c['firstfails']:
        sc['open'] = ['err'] + r.choice([[], ['ok'], ['err', 'ok']])
    else:
        sc['open'] = ['ok'] + (['err'] * c['refused'] if c['fail1'] >= 0 else [])
        callers = {}
        for i in (0, 1):
            k = c['cmds'][i]
            reacts = [{'ctl': BYTE.get(y, ''), 'cd': 2 * TICK - 10 * MS, 'ans': []} for y in k['ctl']]
            reacts[0]['ans'].append({'d': 3 * TICK - 10 * MS, 'b': hx(x['reply'][i])})
            sc['react'][hx(frame(x['data'][i]))] = reacts
            callers.setdefault(x['caller'][i], []).append(
                {'op': k['kind'], 'id': i + 1, 'data': x['data'][i], 'to': 0 if k['kind'] == 'write' else 20 * TICK + 60 * MS, 'er': 0, 'col': 0,
                 'at': S + k['at'] * TICK})
        sc['callers'] = [callers[k] for k in sorted(callers)]
        if c['fail1'] >= 0:
            t = S + c['fail1'] * TICK + r.choice([0, 20 * MS, 60 * MS])
            if c['part']:
                sc['steps'].append({'t': t - r.choice([1, 1000, 20 * MS]), 'b': hx(c['part'])})
            sc['steps'].append({'t': t, 'fail': 'x'})
            sc['on_open'] = [[], [{'d': r.choice([0, 0, 10 * MS]), 'b': hx(c['new'])}] if c['new'] else []]
            if c['fail2'] >= 0:
                t += (c['refused'] + 1) * (S + sc['open_time']) + c['fail2'] * TICK + r.choice([20 * MS, 60 * MS, 190 * MS, 210 * MS])
                sc['steps'].append({'t': t, 'fail': 'x'})
            # a report on the last port
            sc['steps'].append({'t': t + (c['refused'] + 3) * S, 'b': hx(report(40, [0x25, 3, 255]))})
    sc['end'] = S + 90 * TICK
    sc['callers'].append([{'op': 'conn', 'at': t} for t in sorted(r.randrange(0, sc['end']) for _ in range(12))])
    sc['sched'], sc['slack'] = gen_link.sched(r) if r.random() < .6 else ({}, 2000)
    return sc


def port(ctx, prop, binary):
    """C11: failures of the port while commands are issued and frames arrive."""
    n = 20000 if ctx.thorough else 700
    m = Model(ctx, 'MCPort', 15000 if ctx.thorough else 1200, n, timeout=2000 if ctx.thorough else 400)
    r = random.Random('port-%d' % ctx.seed)
    for s in range(0, len(m.scripts), 5000):
        scens = [port_scenario(i + 1, x, r) for i, x in enumerate(m.scripts[s:s + 5000])]
        good, bad, amb, by = scen.run(ctx, prop, scens, 'LinkTrace', binary)
        scen.report(ctx, prop, good, bad, by)
        scen.coverage(ctx, good, amb, by)
        ctx.add(model_scripts_replayed=len(good))
    m.join()


# ---------------------------------------------------------------- framing

def framing_scenario(n, xs, r):
    sc = {'id': n, 'profile': 'scripts of MCFraming', 'react': {}, 'steps': [], 'callers': [], 'events': 'none', 'open': [],
          'default': {'ctl': '06', 'cd': 3000, 'ans': []}, 'sched': {}, 'slack': 2000}
    sc['react'][DISCOVER] = [{'ctl': '06', 'cd': 4000, 'ans': [{'d': 20000, 'b': hx(discovery([]))}]}]
    t = S
    for x in xs:
        for p in x['pieces']:
            t += r.randrange(90, 200) * MS if p['silent'] else r.choice([0, 1, 500, 9 * MS, 30 * MS])
            sc['steps'].append({'t': t, 'b': hx(p['b'])})
        t += 100 * MS
        sc['steps'].append({'t': t, 'b': hx(x['whole'])})
        t += 500 * MS
    sc['end'] = t + S
    return sc


def framing(ctx, prop, binary):
    """C01, C02: streams over a small alphabet, cut and interrupted everywhere."""
    n = 60000 if ctx.thorough else 2000
    m = Model(ctx, 'MCFraming', 60000 if ctx.thorough else 4000, n, timeout=2000 if ctx.thorough else 300)
    r = random.Random('framing-%d' % ctx.seed)
    xs = m.scripts
    r.shuffle(xs)
    scens = [framing_scenario(i // 20 + 1, xs[i:i + 20], r) for i in range(0, len(xs), 20)]
    good, bad, amb, by = scen.run(ctx, prop, scens, 'LinkTrace', binary)
    scen.report(ctx, prop, good, bad, by)
    scen.coverage(ctx, good, amb, by)
    ctx.add(model_scripts_replayed=len(xs))
    m.join()


# ---------------------------------------------------------------- reports and alarms

GAP = [0, 53 * MS, 307 * MS, 951 * MS, 1051 * MS, 2203 * MS]


def node_scenario(n, xs, r):
    import gen_nodes
    plain = lambda i: {'id': i, 'aw': 0, 'manu': [], 'names': ['', '', ''], 'cc': [], 'ep': [], 'epset': 0, 'b': [], 'f': [], 'ccnil': True, 'bnil': False}
    sc = gen_nodes.base(n, r, 'scripts of MCNode', [plain(2), plain(3)])
    obs = []
    t = S
    for x in xs:
        for g, b in zip(x['gap'], x['b']):
            g = GAP[g - 1]
            if g == 0 and sc['steps'] and r.random() < .5:
                sc['steps'][-1]['b'] += hx(b)  # in the same read
                continue
            t += g
            sc['steps'].append({'t': t, 'b': hx(b)})
            obs += [{'op': 'obs', 'at': t + r.choice([10, 25, 40]) * MS}, {'op': 'obs', 'at': t + 980 * MS}, {'op': 'obs', 'at': t + 1030 * MS}]
        t += 1500 * MS
    obs.sort(key=lambda o: o['at'])
    sc['callers'].append(obs)
    if r.random() < .75:
        sc['events'], sc['snap'] = 'eager', True
    else:
        gen_nodes.late(sc, r, t - r.randrange(0, 4 * S))
    sc['end'] = t + 2 * S
    return sc


def node(ctx, prop, binary):
    """C15, C16, C17: reports and alarms at all the moments that matter."""
    n = 16000 if ctx.thorough else 800
    m = Model(ctx, 'MCNode', 20000 if ctx.thorough else 300, n, timeout=2000 if ctx.thorough else 300)
    r = random.Random('node-%d' % ctx.seed)
    xs = m.scripts
    r.shuffle(xs)
    scens = [node_scenario(i // 3 + 1, xs[i:i + 3], r) for i in range(0, len(xs), 3)]
    good, bad, amb, by = scen.run(ctx, prop, scens, 'NodeTrace', binary)
    scen.report(ctx, prop, good, bad, by)
    scen.coverage(ctx, good, amb, by)
    ctx.add(model_scripts_replayed=len(xs))
    m.join()


# ---------------------------------------------------------------- the configuration file

def persist_scenario(n, x, r):
    import gen_nodes
    t0 = S
    nid = r.choice([2, 5, 232])
    node = {'id': nid, 'aw': 1, 'manu': [], 'names': ['', '', ''], 'cc': [], 'ep': [], 'epset': 0, 'b': [{'k': 'on', 'v': 0}],
            'f': [{'k': 'level', 'v': [0, 0]}], 'ccnil': True, 'bnil': False}
    sc = gen_nodes.base(n, r, 'script %d of MCPersist' % x['n'], [node])
    sc['meta']['consumer'] = 2000000000
    sc['watch'] = sc['meta']['watch'] = 200 * MS
    fs = gen_nodes.slow(sc, r, r.choice([0, 1000, 40 * MS]))
    t, level, saves = t0, 0, []
    for j, (op, gap) in enumerate(zip(x['op'], x['gap'])):
        t += gap * 100 * MS
        if op == 'save':
            saves.append({'op': 'save', 'at': t})
            continue
        level = 10 + j if op == 'change' else level if op == 'same' else 0
        sc['steps'].append({'t': t, 'b': hx(report(nid, [0x26, 3, level]))})
    if saves:
        sc['callers'].append(saves)
        sc['meta']['explicit'] = 1
    if x['kind'] != 'none':
        fs['faults'].append({'from': t0 + x['from'] * 100 * MS, 'to': t0 + (x['from'] + x['for']) * 100 * MS, 'room': x['room'],
                             'kind': 'full' if x['kind'] == 'write' else x['kind']})
        sc['meta']['faults'] = 1
        t = max(t, fs['faults'][0]['to'])
    sc['end'] = t + 14 * S
    return sc


def persist(ctx, prop, binary):
    """C19, C20: changes, saves and a failing disk in every order."""
    n = 6000 if ctx.thorough else 400
    m = Model(ctx, 'MCPersist', 40000 if ctx.thorough else 1500, n, timeout=2000 if ctx.thorough else 300)
    r = random.Random('persist-%d' % ctx.seed)
    for s in range(0, len(m.scripts), 2000):
        scens = [persist_scenario(s + i + 1, x, r) for i, x in enumerate(m.scripts[s:s + 2000])]
        good, bad, amb, by = scen.run(ctx, prop, scens, 'NodeTrace', binary)
        scen.report(ctx, prop, good, bad, by)
        scen.coverage(ctx, good, amb, by)
        ctx.add(model_scripts_replayed=len(good))
    m.join()


# ---------------------------------------------------------------- identification

HALF = 500 * MS
LIMIT = {'pi': 20, 'manu': 20, 'ep': 4, 'st': 4}


def ident_scenario(n, x, r):
    import gen_ident as g
    mand, prods, allp = g.data()
    ids = r.sample([2, 3, 8, 9, 128, 231, 232] if r.random() < .5 else range(2, 233), 2)
    sensors = [p for p in prods if any(c[0] == 0x31 for c in p['cc'])]
    sc = {'id': n, 'profile': 'script %d of MCIdent' % x['n'], 'use_file': False, 'react': {}, 'steps': [], 'callers': [], 'events': 'eager', 'snap': False, 'watch': 0,
          'default': {'ctl': '06', 'cd': 3000, 'ans': []}}
    start = r.choice([20 * MS, 700 * MS, (1 + x['at']) * HALF])
    sc['react'][DISCOVER] = [{'ctl': '06', 'cd': 4000, 'ans': [{'d': start, 'b': hx(discovery(sorted(ids) + [1], 29))}]}]
    end = 262 * S
    truth, triples, classes, used = [], set(), set(), set()
    for k, i in enumerate(ids):
        h = x['node'][k]
        bare = h['kind'] == 'bare'
        cls = (0xfe, 0) if bare else r.choice([(0x10, 1), (0x11, 1), (0x21, 1)])
        while True:
            info = g.rand_info(r, h['kind'] != 'asleep', cls)
            if g.decode(info) not in used:
                used.add(g.decode(info))
                break
        p = r.choice(sensors)
        manu = [0xff, 0xfe, 0xff, 0xfd, 0xff, i] if bare else [int(p['manu'][j:j + 2], 16) for j in range(0, 12, 2)]
        neps = r.choice([0, 1, 3])
        truth.append({'id': i, 'info': info})
        triples.add(tuple(g.hex3(manu)))
        classes.add(((info + [0])[4], (info + [0])[5]))
        good = {'pi': protoinfo(info), 'manu': report(i, [0x72, 5] + manu), 'ep': report(i, [0x60, 8, 0, neps]), 'st': report(i, [0x31, 2, 1])}
        garbled = {'pi': protoinfo(info[:4]), 'manu': report(i, [0x72, 5] + manu[:5]), 'ep': report(i, [0x60, 8]), 'st': report(i, [0x31, 2])}
        keys = {'pi': hx(frame([0x41, i])), 'manu': '13:%d:72:04' % i, 'ep': '13:%d:60:07' % i, 'st': '13:%d:31:01' % i}
        for s in ('pi', 'manu', 'ep', 'st'):
            l = []
            for f in list(h['fate'][s]) + ['ok']:
                if s == 'pi' and f == 'late':
                    f = 'lost'
                cd = r.choice([500, 2000, 8000])
                y = {'ctl': '15' if f == 'nak' else '06', 'cd': cd, 'ans': []}
                d = {'ok': cd + r.choice([1000, 5 * MS, 50 * MS]), 'garbled': cd + r.choice([1000, 30 * MS]), 'slow': (LIMIT[s] - 2) * HALF, 'late': (LIMIT[s] + 2) * HALF}.get(f)
                if d:
                    y['ans'].append({'d': d, 'b': hx(garbled[s] if f == 'garbled' else good[s])})
                    if f != 'garbled' and h['kind'] == 'asleep' and h['withAnswer'] and f != 'late':
                        y['ans'].append({'d': d + (0 if r.random() < .5 else 45 * MS), 'b': hx(report(i, g.WAKE))})
                l.append(y)
            l[-1]['rep'] = True
            sc['react'][keys[s]] = l
        if h['kind'] == 'asleep':
            t = start + (6 + h['phase']) * HALF + 13 * MS
            while t < end - 10 * S:
                sc['steps'].append({'t': t, 'b': hx(report(i, g.WAKE))})
                t += h['every'] * HALF
    sc['callers'].append([{'op': 'obs', 'at': t} for t in sorted(r.randrange(50 * MS, end) for _ in range(4))] + [{'op': 'obs', 'at': end - 500 * MS}])
    sc['end'] = end
    sc['steps'].sort(key=lambda s: s['t'])
    ps = []
    for tr in sorted(triples):
        p = g.product(tr)
        if p:
            ps.append({'manu': list(tr), 'names': [p['brand'], p['product'], p['descr']], 'cc': [c[0] for c in p['cc']]})
    sc['meta'] = {'nodes': truth, 'restored': [], 'prods': ps, 'mand': [{'g': a, 's': b, 'cc': mand[a, b]} for a, b in sorted(classes) if (a, b) in mand]}
    sc['sched'], sc['slack'] = g.sched(r)
    return sc


def ident(ctx, prop, binary):
    """C12, C13, C14: what becomes of every attempt at every step, and when sleeping nodes wake up."""
    n = 3000 if ctx.thorough else 200
    m = Model(ctx, 'MCIdent', 3000 if ctx.thorough else 60, n, timeout=2000 if ctx.thorough else 300)
    r = random.Random('ident-%d' % ctx.seed)
    for s in range(0, len(m.scripts), 1000):
        scens = [ident_scenario(s + i + 1, x, r) for i, x in enumerate(m.scripts[s:s + 1000])]
        good, bad, amb, by = scen.run(ctx, prop, scens, 'IdentTrace', binary)
        scen.report(ctx, prop, good, bad, by)
        scen.coverage(ctx, good, amb, by)
        ctx.add(model_scripts_replayed=len(good))
    m.join()
