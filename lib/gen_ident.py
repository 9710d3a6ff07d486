"""Scenarios of discovery and identification: networks of truthful devices that lose, refuse, delay and garble answers."""
import random, re
import devdata
from frames import *
from gen_link import S, MS, sched, chunked, near
from gen_nodes import config, canon, norm

_cache = {}


def data():
    if not _cache:
        m = {k: v for k, v in devdata.mandatory().items() if len(v) == 1}
        p = devdata.products()
        _cache['mand'] = m
        _cache['prods'] = [dict(v, manu=k.replace('_', '')) for k, v in p.items() if re.fullmatch('[0-9a-f]{4}_[0-9a-f]{4}_[0-9a-f]{4}', k)]
        _cache['all'] = p
    return _cache['mand'], _cache['prods'], _cache['all']


WAKE = [0x84, 7]


def rand_info(r, listening, cls):
    """The protocol information of a node: capability, security, reserved, basic, generic, specific."""
    g, s = cls
    b = [(0x80 if listening else 0) | r.randrange(128), r.randrange(256), r.randrange(256), r.randrange(256), g, s]
    return b[:5] if s == 0 and r.random() < .5 else b


def decode(info):
    d = info if len(info) > 5 else info + [0]
    return (d[0] >= 128, (d[0] & 64) > 0, d[1] & 0x71, d[0] % 8, (d[0] >> 3) % 8 == 2, d[3], d[4], d[5])


def truth(r, nid, used, sleepy, pick):
    mand, prods, allp = data()
    while True:
        x = r.random()
        cls = r.choice(sorted(mand)) if x < .5 else r.choice([(0x10, 1), (0x11, 1), (0x21, 1), (0x10, 1), (0x11, 6)]) if x < .8 else (r.randrange(256), r.randrange(256)) if x < .9 else (r.randrange(256), 0)
        if cls not in mand and cls in devdata.mandatory():
            continue
        info = rand_info(r, not sleepy, cls)
        if decode(info) not in used:
            used.add(decode(info))
            break
    x = r.random()
    if pick or x < .6:
        # prefer products with classes that have a state to ask for
        p = r.choice(prods)
        if r.random() < .5:
            q = [c for c in (r.choice(prods) for _ in range(8)) if any(i[0] in (0x25, 0x26, 0x31) for i in c['cc'])]
            p = q[0] if q else p
        manu = [int(p['manu'][k:k + 2], 16) for k in range(0, 12, 2)]
    else:
        manu = [r.randrange(256) for _ in range(6)]
    return {'id': nid, 'info': info, 'manu': manu, 'neps': r.choice([0, 0, 1, 2, 3, 4, 8, 127, 255])}


def hex3(manu):
    return ['%02x%02x' % (manu[i], manu[i + 1]) for i in (0, 2, 4)]


def product(manu3):
    return data()[2].get('_'.join(manu3))


def restored(r, nid, t=None):
    """A node as an earlier run may have left it in the file."""
    manu = hex3(t['manu']) if t and r.random() < .6 else []
    p = product(manu) if manu else None
    neps = t['neps'] if t else r.randrange(0, 3)
    epset = 1 if r.random() < .5 else 0
    cc = r.sample([0x25, 0x26, 0x31, 0x72, 0x86], r.randrange(0, 4))
    return {'id': nid, 'aw': r.randrange(2), 'manu': manu, 'names': [p['brand'], p['product'], p['descr']] if p and r.random() < .7 else [r.choice(['', 'Old name']) for _ in range(3)],
            'cc': [{'ID': c, 'InNIF': False, 'Sec': False, 'NonSec': False, 'Version': ''} for c in cc],
            'ep': [{'ID': e, 'CC': [], 'B': [], 'F': []} for e in range(1, neps + 1)] if epset else [], 'epset': epset,
            'b': [{'k': 'on', 'v': r.randrange(2)}] if r.random() < .5 else [],
            'f': [{'k': 'level', 'v': norm(r.randrange(1000), 1)}] if r.random() < .5 else [], 'ccnil': True, 'bnil': False}


def spread(r, lo, hi):
    """Delays over several magnitudes."""
    import math
    return int(math.exp(r.uniform(math.log(lo), math.log(hi))))


def reactions(r, node, answer, bad, garbled, late, sleepy, quick, races=0):
    """Reactions to a request: `bad` failures, then the answer, again and again."""
    l = []
    for _ in range(bad):
        k = r.choice(['lost', 'nak', 'can', 'can', 'garbled', 'noctl', 'late'])
        cd = r.randrange(500, 12 * MS)
        x = {'ctl': '06', 'cd': cd, 'ans': []}
        if k == 'nak':
            x['ctl'] = '15'
        elif k == 'can':
            x['ctl'] = '18'
        elif k == 'noctl':
            x['ctl'] = ''
        elif k == 'garbled' and garbled:
            x['ans'] = [{'d': cd + spread(r, 2000, S), 'b': hx(garbled)}]
        elif k == 'late' and late:
            x['ans'] = [{'d': late + r.choice([60 * MS, r.randrange(60 * MS, 14 * S)]), 'b': hx(answer)}]
        if sleepy and r.random() < .5:
            # a wake-up at an awkward moment: while the request is outstanding, or in the pause after it
            x['ans'].append({'d': cd + spread(r, 2000, 12 * S), 'b': hx(report(node, WAKE))})
        if races and r.random() < .5:  # at about the time when it is over
            if r.random() < .5:
                x['ctl'], x['cd'] = r.choice(['06', '15', '18']), near(r, S)
            else:
                d = near(r, races)
                x['ans'].append({'d': d if late or d <= races else 2 * races - d, 'b': hx(answer)})  # protocol information does not tell whose it is
        l.append(x)
    cd = r.randrange(500, 12 * MS)
    d = cd + spread(r, 2000, quick)
    good = {'ctl': '06' if r.random() < .9 else '', 'cd': cd, 'ans': [{'d': d, 'b': hx(answer)}], 'rep': True}
    if sleepy and r.random() < .6:
        good['ans'].append({'d': r.choice([cd + 1 * MS, max(cd, d - 30 * MS), d + 100 * MS, d + spread(r, 100 * MS, 20 * S)]), 'b': hx(report(node, WAKE))})
    if r.random() < .1 and late:
        good['ans'].append({'d': d + r.randrange(100 * MS, 3 * S), 'b': hx(answer)})  # twice
    if races and r.random() < .3:
        good['cd'] = near(r, S)
    l.append(good)
    return l


def ident(sid, seed, profile):
    r = random.Random('%s-%s-%s' % (sid, seed, profile))
    n = {'few': r.choice([1, 2, 3, 4]), 'sleepy': r.choice([1, 1, 2, 3]), 'many': r.choice([5, 5, 8, 12, 12, 30]), 'restored': r.choice([1, 2, 3, 5]),
         'discovery': r.choice([0, 1, 2, 3, 5, 9, 9, 12, 20, 40, 231]), 'control': r.choice([1, 2, 3]), 'port': r.choice([1, 2, 3]), 'races': r.choice([1, 1, 2, 3]), 'stubborn': r.choice([1, 1, 2])}[profile]
    pool = list(range(2, 233))
    ids = sorted(r.sample(pool, n)) if r.random() < .6 else sorted((pool[:20] + pool[-3:])[:n] if n <= 23 else r.sample(pool, n))
    if profile == 'discovery' and n == 9:
        ids = [8, 9, 16, 17, 24, 25, 231, 232, 2]
    used = set()
    jam = profile == 'many' and r.random() < .4  # many answers outstanding at the same time
    sleepyp = 0 if jam else {'sleepy': 1, 'few': .4, 'discovery': .3, 'control': .2}.get(profile, .4)
    nodes = [truth(r, i, used, r.random() < sleepyp, profile == 'control') for i in sorted(ids)]
    if profile == 'control':
        for t in nodes:
            t['neps'] = r.choice([1, 2, 3, 4])
    by = {t['id']: t for t in nodes}
    old = []
    if profile == 'restored' or r.random() < .2:
        for i in sorted(ids):
            if r.random() < .7 and len(old) < 9:
                old.append(restored(r, i, by[i]))
        for i in r.sample(pool, r.randrange(0, 3)):
            if i not in by and i not in [o['id'] for o in old]:
                old.append(restored(r, i))
    usefile = bool(old) or r.random() < .4
    sc = {'id': sid, 'profile': profile, 'use_file': usefile, 'react': {}, 'steps': [], 'callers': [], 'events': 'eager', 'snap': False, 'watch': 0,
          'default': {'ctl': '06', 'cd': r.choice([500, 3000, 12000]), 'ans': []}}
    if old:
        sc['file'] = config(old)
    bits = sorted(ids) + ([1] if r.random() < .7 else [])
    size = 29 if max(bits + [0]) > 40 or r.random() < .8 else max(6, -(-max(bits + [1]) // 8))
    da = {'ctl': '06', 'cd': 4000, 'ans': [{'d': spread(r, 20 * MS, 4 * S), 'b': hx(discovery(bits, size))}]}
    x = r.random()
    lost = False
    if profile == 'discovery' and x < .15 or x < .03:
        lost = True
        k = r.choice(['lost', 'nak', 'garbled'])
        da = {'ctl': '15' if k == 'nak' else '06', 'cd': 4000, 'ans': [{'d': 20 * MS, 'b': hx(frame([2, 5, 0, 29, 1, 2, 3], typ=1))}] if k == 'garbled' else []}
    elif x < .2:
        sc['react'][DISCOVER] = [{'ctl': '18', 'cd': 4000, 'ans': []}, da]
    if r.random() < .2 and not lost:
        da['ans'].append({'d': da['ans'][0]['d'] + r.randrange(100 * MS, 20 * S), 'b': da['ans'][0]['b']})  # twice
    sc['react'].setdefault(DISCOVER, [da])
    mand = data()[0]
    short = profile == 'discovery' and n > 30
    races = int(profile == 'races')
    worst = r.choice([0, 1, 1, 2, 3]) if n <= 12 else r.choice([0, 1])
    worst = 3 if races else worst
    many = r.choice([10, 15, 30, 45]) if profile == 'stubborn' else 0  # failures of one step, one after the other
    hard = (r.choice(sorted(by)), r.randrange(3)) if many and nodes else None
    for t in nodes:
        i = t['id']
        sl = t['info'][0] < 128
        steps = iter(range(3))
        bad = lambda: 0 if short else many if (i, next(steps)) == hard else r.choice([0, 0, worst, r.randrange(0, worst + 1)])
        pquick = 60 * MS if n > 12 or jam else r.choice([100 * MS, 2 * S, 8 * S])
        # a protocol information answer that comes too late is nobody's: none of those
        sc['react'][hx(frame([0x41, i]))] = reactions(r, i, protoinfo(t['info']), bad(), protoinfo(t['info'][:r.choice([0, 2, 4])]), 0, sl, pquick, 10 * S * races)
        m = report(i, [0x72, 5] + t['manu'])
        sc['react']['13:%d:72:04' % i] = reactions(r, i, m, bad(), report(i, [0x72, 5] + t['manu'][:r.choice([0, 1, 4, 5])]), 10 * S, sl, r.choice([50 * MS, 8 * S]), 10 * S * races)
        if jam:
            sc['react']['13:%d:72:04' % i][-1]['ans'] = [{'d': r.randrange(3 * S, 9 * S), 'b': hx(m)}]
        e = report(i, [0x60, 8, r.randrange(256), t['neps']])
        sc['react']['13:%d:60:07' % i] = reactions(r, i, e, bad(), report(i, [0x60, 8]), 2 * S, sl, r.choice([50 * MS, 1500 * MS]), 2 * S * races)
        v = r.randrange(256)
        for key, a in (('25:02', [0x25, 3, v]), ('26:02', [0x26, 3, r.randrange(100)])):
            if r.random() < .7:
                sc['react']['13:%d:%s' % (i, key)] = [{'ctl': r.choice(['06', '06', '15', '']), 'cd': 3000, 'ans': [{'d': 3000 + spread(r, 2000, 3 * S), 'b': hx(report(i, a))}]}]
        if r.random() < .5:
            sc['react']['13:%d:31:01' % i] = [{'ctl': r.choice(['06', '06', '15', '18', '']), 'cd': 3000,
                                               'ans': [{'d': 3000 + spread(r, 2000, 1500 * MS), 'b': hx(report(i, [0x31, 2, 1]))}] if r.random() < .7 else []}]
    if lost:
        end = 30 * S
    elif short:
        end = 60 * S
    else:
        end = (40 + 30 * worst) * S + n * 5 * S + (n * worst * 14 * S if profile != 'many' else n * worst * 8 * S)
    end += many * 25 * S
    # wake-ups
    for t in nodes:
        if t['info'][0] < 128 and not short:
            tt = r.randrange(100 * MS, 12 * S)
            gap = r.choice([3 * S, 8 * S, 16 * S]) if n < 5 else r.choice([10 * S, 16 * S])
            while tt < end - 10 * S:
                sc['steps'].append({'t': tt, 'b': hx(report(t['id'], WAKE))})
                tt += r.choice([spread(r, 10 * MS, gap), r.randrange(gap // 4, gap)])
    # other traffic: reports of values, manufacturer and endpoint reports nobody asked for
    if r.random() < .5 and nodes and not short:
        for _ in range(r.randrange(1, 12)):
            t = r.choice(nodes)
            i = t['id'] if r.random() < .8 else r.choice(pool)
            k = r.choice(['value', 'value', 'manu', 'ep', 'wake'])
            f = {'value': lambda: report(i, [0x25, 3, r.choice([0, 255])]), 'manu': lambda: report(i, [0x72, 5] + (by[i]['manu'] if i in by else [1, 2, 3, 4, 5, 6])),
                 'ep': lambda: report(i, [0x60, 8, 0, by[i]['neps'] if i in by else 9]), 'wake': lambda: report(i, WAKE)}[k]()
            sc['steps'].append({'t': r.randrange(50 * MS, end - 5 * S), 'b': hx(f)})
    if races and nodes:  # reports that cross a wake-up or an answer
        for st in list(sc['steps']):
            if r.random() < .4:
                t = r.choice(nodes)
                sc['steps'].append({'t': near(r, st['t']), 'b': hx(report(t['id'], r.choice([WAKE, [0x72, 5] + t['manu'], [0x60, 8, 0, t['neps']]])))})
        if r.random() < .3:
            da['ans'] = [{'d': near(r, 5 * S), 'b': da['ans'][0]['b']}] if da['ans'] else []
        if r.random() < .3:
            da['ctl'], da['cd'] = r.choice(['06', '06', '18', '15']), near(r, S)
    if profile == 'port':
        tt = r.randrange(300 * MS, 15 * S)
        for _ in range(r.choice([1, 1, 2])):
            sc['steps'].append({'t': tt, 'fail': 'x'})
            tt += r.randrange(5 * S, 30 * S)
        if r.random() < .4:
            sc['open'] = ['ok'] + ['err'] * r.randrange(0, 3)
        end += 120 * S
    # the application
    k = r.randrange(4, 14)
    obs = [{'op': 'obs', 'at': r.choice([spread(r, 20 * MS, end), r.randrange(20 * MS, end)])} for _ in range(k)]
    for t in nodes:
        if r.random() < .5 and n <= 12:
            obs += [{'op': 'ep', 'id': 0, 'node': t['id'], 'ep': e, 'at': r.choice([spread(r, 20 * MS, end), end - S])} for e in [0, 1, t['neps'], t['neps'] + 1, -1]]
    obs.append({'op': 'obs', 'at': end - 500 * MS})
    sc['callers'].append(sorted(obs, key=lambda o: o['at']))
    oid = 0
    if profile == 'control':
        for c in range(r.randrange(1, 4)):
            ops, tt = [], r.choice([500 * MS, r.randrange(0, max(1, end - 30 * S)), max(S, end - 29 * S)])
            for _ in range(r.randrange(3, 10)):
                oid += 1
                t = r.choice(nodes)
                ops.append({'op': r.choice(['on', 'off', 'level', 'epon', 'epoff', 'eplevel', 'epon', 'eplevel']), 'id': oid, 'node': t['id'],
                            'ep': r.choice([0, 1, t['neps'], t['neps'], t['neps'] + 1, 2]), 'm': r.randrange(-5, 110), 'p': 0, 'at': tt})
                tt += r.choice([0, r.randrange(0, 800 * MS)])
            sc['callers'].append(ops)
        end += 2 * S
    if usefile and profile in ('restored', 'control', 'few') and r.random() < .6:
        sc['callers'].append([{'op': 'save', 'at': end - 3 * S}, {'op': 'reload', 'at': end - 3 * S + 1}])
        sc['explicit'] = 1
    elif usefile:
        # what the library saved on its own
        sc['callers'].append([{'op': 'auto', 'at': t} for t in sorted(r.randrange(S, end) for _ in range(r.randrange(2, 8)))] + [{'op': 'auto', 'at': end - 200 * MS}])
    sc['end'] = end
    sc['steps'].sort(key=lambda s: s['t'])
    triples = {tuple(hex3(t['manu'])) for t in nodes} | {tuple(o['manu']) for o in old if o['manu']} | {('0102', '0304', '0506')}
    prods = []
    for tr in sorted(triples):
        p = product(tr)
        if p:
            prods.append({'manu': list(tr), 'names': [p['brand'], p['product'], p['descr']], 'cc': [c[0] for c in p['cc']]})
    classes = {((t['info'] + [0])[4], (t['info'] + [0])[5]) for t in nodes}
    sc['meta'] = {'nodes': [{'id': t['id'], 'info': t['info']} for t in nodes], 'restored': [canon(o) for o in old], 'prods': prods,
                  'mand': [{'g': g, 's': s, 'cc': mand[g, s]} for g, s in sorted(classes) if (g, s) in mand]}
    sc['sched'], sc['slack'] = sched(r)
    sc['snap'] = r.random() < .7
    return sc
