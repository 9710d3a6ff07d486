"""Scenarios of nodes that are known from the start: reports, alarms, events, file, control."""
import json, random
from frames import *
from gen_link import S, MS, sched, chunked, near

KEYS = ['on', 'level', 'alarm', 'alarmLastType', 'temperature_c', 'power_w']


def rand_node(r, nid, rich=False):
    cc = r.sample([0x25, 0x26, 0x31, 0x71, 0x72, 0x60, 0x84, 0x85, 0x86, 0x20], r.choice([0, 1, 2, 3, 5]))
    neps = r.choice([0, 0, 0, 1, 2, 5, 20, 70, 127] if rich else [0, 0, 1, 2, 3, 7])
    eps = list(range(1, neps + 1))
    if r.random() < .15:
        r.shuffle(eps)
    b = [{'k': k, 'v': r.randrange(2)} for k in r.sample(['on', 'alarm'], r.randrange(0, 3))]
    f = [{'k': k, 'v': norm(r.choice([0, r.randrange(100), r.randrange(-40000, 40000), -2147483648, 2147483647] if rich else [r.randrange(100)]), r.randrange(0, 4))}
         for k in r.sample(['level', 'alarm', 'alarmLastType', 'temperature_c', 'power_w'], r.randrange(0, 4))]
    n = {'id': nid, 'aw': r.randrange(2), 'manu': [] if r.random() < .3 else ['%04x' % r.randrange(65536) for _ in range(3)],
         'names': [r.choice(['', 'Fibargroup', 'Äö "quoted" \\ <tag> & ☃', 'line\nbreak\ttab', 'x' * 300] if rich else ['', 'Brand']) for _ in range(3)],
         'cc': [{'ID': c, 'InNIF': r.random() < .5, 'Sec': r.random() < .2, 'NonSec': r.random() < .2, 'Version': r.choice(['', '1', '2'])} for c in cc],
         'ep': [{'ID': e, 'CC': [{'ID': c, 'InNIF': False, 'Sec': False, 'NonSec': False, 'Version': ''} for c in cc[:2]],
                 'B': [{'k': 'on', 'v': r.randrange(2)}] if r.random() < .3 else [],
                 'F': [{'k': 'level', 'v': [r.randrange(100), 0]}] if r.random() < .3 else []} for e in eps],
         'epset': 1 if neps else r.randrange(2), 'b': sorted(b, key=lambda x: x['k']), 'f': sorted(f, key=lambda x: x['k']),
         'ccnil': r.random() < .5, 'bnil': rich and r.random() < .3}
    return n


def norm(m, p):
    while p > 0 and m % 10 == 0:
        m //= 10
        p -= 1
    return [m, p]


def detail(n):
    r = []
    bi = lambda x: 1 if x else 0
    for c in n['cc']:
        r.append('cc %d %d %d %d %s' % (c['ID'], bi(c['InNIF']), bi(c['Sec']), bi(c['NonSec']), c['Version']))
    for e in n['ep']:
        p = 'ep %d' % e['ID']
        r.append(p)
        for c in e['CC']:
            r.append('%s cc %d %d %d %d %s' % (p, c['ID'], bi(c['InNIF']), bi(c['Sec']), bi(c['NonSec']), c['Version']))
        for x in e['B']:
            r.append('%s b %s %d' % (p, x['k'], x['v']))
        for x in e['F']:
            r.append('%s f %s %d/%d' % (p, x['k'], x['v'][0], x['v'][1]))
    return r


def canon(n):
    """As the specification sees it."""
    return {'id': n['id'], 'aw': n['aw'], 'manu': n['manu'], 'names': n['names'], 'cc': [c['ID'] for c in n['cc']], 'ep': [e['ID'] for e in n['ep']],
            'epset': n['epset'], 'x': detail(n), 'b': n['b'], 'f': n['f']}


def cfg_cc(l):
    return [{'ID': c['ID'], 'InNIF': c['InNIF'], 'Secure': c['Sec'], 'NonSecure': c['NonSec'], 'Version': c['Version']} for c in l]


def fl(v):
    return v[0] / 10 ** v[1]


def config(ns, style=None):
    """The configuration file of these nodes."""
    d = {}
    for n in ns:
        d[str(n['id'])] = {
            'id': n['id'], 'is_awake': n['aw'] == 1,
            'ManufacurerSpecific': {'Manufacturer': n['manu'][0], 'Type': n['manu'][1], 'ID': n['manu'][2]} if n['manu'] else None,
            'Brand': n['names'][0], 'Product': n['names'][1], 'Description': n['names'][2],
            'CommandClasses': cfg_cc(n['cc']) if n['cc'] or not n['ccnil'] else None,
            'Endpoints': [{'Id': e['ID'], 'CommandClasses': cfg_cc(e['CC']), 'StateBool': {x['k']: x['v'] == 1 for x in e['B']},
                           'StateFloat': {x['k']: fl(x['v']) for x in e['F']}} for e in n['ep']] if n['epset'] else None,
            'StateBool': {x['k']: x['v'] == 1 for x in n['b']} if not (n['bnil'] and not n['b']) else None,
            'StateFloat': {x['k']: fl(x['v']) for x in n['f']} if not (n['bnil'] and not n['f']) else None,
        }
    return json.dumps({'Nodes': d}, indent='\t')


def byte(r):
    return r.choice([0, 1, 0x7f, 0x80, 0xfe, 0xff]) if r.random() < .4 else r.randrange(256)


def state_report(r, node, keys=None):
    x = r.random()
    if x < .2:
        return report(node, [0x25, 3, byte(r)])
    if x < .35:
        return report(node, [0x25, 3, r.choice([0, 0, 255, byte(r)]), r.choice([0, 255, byte(r)]), byte(r)])
    if x < .5:
        return report(node, [0x26, 3, r.choice([0, 1, 99, 100, 255, r.randrange(256)])])
    if x < .6:
        return report(node, [0x26, 3, r.choice([0, 99, byte(r)]), byte(r), byte(r)])
    size = r.choice([1, 2, 4])
    ty = r.choice([1, 1, 4, 5, 3, r.randrange(0, 40)])
    return report(node, [0x31, 5, ty, r.randrange(0, 4) * 32 + r.choice([0, 0, 1, 2, 3]) * 8 + size] + [byte(r) for _ in range(size)])


def alarm_report(r, node, active=True):
    return report(node, [0x71, 5, r.choice([0, 1, 7, 7, byte(r)]), byte(r), r.choice([0, 0, byte(r)]), 0xff if active else r.choice([0, 1, 0xfe]), r.choice([0, 7, byte(r)]), byte(r)])


def odd_frame(r, node):
    x = r.random()
    if x < .2:
        return report(node, [0x84, 7])
    if x < .3:
        return report(node, [0x72, 5] + [r.randrange(256) for _ in range(6)])
    if x < .4:
        return report(node, [0x60, 8, r.randrange(256), r.randrange(128)])
    if x < .55:
        return report(node, [0x71, 5, r.randrange(256), r.randrange(256)])
    if x < .7:
        return report(node, [0x25, 3] + [1] * r.choice([0, 2, 4]))
    if x < .85:
        return report(node, [r.randrange(256), r.randrange(256)] + [r.randrange(256) for _ in range(r.randrange(5))])
    return frame([r.choice([0x49, 0x13, 0x02, 0x41])] + [r.randrange(256) for _ in range(r.randrange(8))], typ=r.randrange(2))


def base(sid, r, profile, ns, usefile=True):
    sc = {'id': sid, 'profile': profile, 'use_file': usefile, 'react': {DISCOVER: [{'ctl': '06', 'cd': 4000, 'ans': [{'d': r.randrange(9000, 200000), 'b': hx(discovery([]))}]}]},
          'default': {'ctl': '06', 'cd': r.choice([500, 3000, 12000]), 'ans': []}, 'steps': [], 'callers': [], 'events': 'none', 'snap': False, 'watch': 0}
    if usefile:
        sc['file'] = config(ns)
    sc['meta'] = {'nodes': [canon(n) for n in ns] if usefile else [], 'consumer': 0, 'file': 1 if usefile else 0, 'explicit': 0, 'watch': 0, 'fileok': 1 if usefile else 0,
                  'savemax': 0, 'faults': 0, 'damaged': 0}
    sc['sched'], sc['slack'] = sched(r)
    return sc


def late(sc, r, t):
    """No events are collected before t (µs)."""
    sc['events'] = 'late:%d' % t
    sc['meta']['consumer'] = t


def traffic(sc, r, ids, t0, t1, density, kinds=(.6, .2, .2)):
    """Bursts of frames between t0 and t1."""
    t = t0
    out = []
    while t < t1:
        n = r.choice([1, 1, 2, 4, 8, 20] if density > 1 else [1, 1, 2])
        chunk = []
        for _ in range(n):
            node = r.choice(ids) if r.random() < .92 else r.choice([1, 77, 200, 0, 255])
            x = r.random()
            f = state_report(r, node) if x < kinds[0] else alarm_report(r, node, r.random() < .8) if x < kinds[0] + kinds[1] else odd_frame(r, node)
            if r.random() < .05:
                f = list(f)
                f[r.randrange(len(f))] ^= 1 << r.randrange(8)
            chunk.append(f)
        if r.random() < .5:
            b = sum(chunk, [])
            for i in range(0, len(b), 120):
                for tt, bb in chunked(r, b[i:i + 120], t):
                    out.append({'t': tt, 'b': hx(bb)})
                    t = tt
        else:
            for f in chunk:
                for tt, bb in chunked(r, f, t):
                    out.append({'t': tt, 'b': hx(bb)})
                    t = tt
                t += r.choice([0, 0, r.randrange(0, 3000), r.randrange(0, 20 * MS)])
        t += r.choice([r.randrange(100 * MS, 400 * MS), r.randrange(100 * MS, 2 * S)])
    sc['steps'] += out
    return t


def observers(sc, r, t0, t1, n, ops=('obs', 'obs', 'obs', 'json')):
    l = [{'op': r.choice(ops), 'at': r.randrange(t0, t1)} for _ in range(n)]
    l.sort(key=lambda o: o['at'])
    sc['callers'].append(l)


def pick_ids(r, k):
    return sorted(r.sample(list(range(2, 20)) + [232, 231, 100, 50], k))


def nodes(sid, seed, profile):
    r = random.Random('%s-%s-%s' % (sid, seed, profile))
    f = globals()['p_' + profile]
    sc = f(sid, r)
    sc['steps'].sort(key=lambda s: s['t'])
    for s in sc['callers']:
        s.sort(key=lambda o: o.get('at', 0))
    return sc


def p_reports(sid, r):
    """Bursts of reports, observed in between."""
    ids = pick_ids(r, r.choice([1, 2, 3, 5]))
    sc = base(sid, r, 'reports', [rand_node(r, i) for i in ids])
    sc['events'] = r.choice(['eager', 'eager', 'none'])
    if sc['events'] == 'none':
        sc['meta']['consumer'] = 2000000000
    sc['snap'] = r.random() < .5
    t = traffic(sc, r, ids, 600 * MS, r.randrange(3, 12) * S, 2, (.75, .1, .15))
    observers(sc, r, 300 * MS, t + S, r.randrange(6, 20))
    sc['callers'].append([{'op': 'obs', 'at': t + 3 * S}])
    sc['end'] = t + 4 * S
    return sc


def p_alarms(sid, r):
    ids = pick_ids(r, r.choice([1, 2, 3]))
    sc = base(sid, r, 'alarms', [rand_node(r, i) for i in ids])
    sc['events'] = 'eager'
    sc['snap'] = r.random() < .6
    t = traffic(sc, r, ids, 600 * MS, r.randrange(3, 9) * S, r.choice([1, 2]), (.3, .6, .1))
    observers(sc, r, 300 * MS, t + S, r.randrange(10, 30), ('obs',))
    sc['callers'].append([{'op': 'obs', 'at': t + 3 * S}])
    sc['end'] = t + 4 * S
    return sc


def p_pulse(sid, r):
    """Alarms at about the time when an earlier one ends."""
    ids = pick_ids(r, r.choice([1, 2, 3]))
    sc = base(sid, r, 'pulse', [rand_node(r, i) for i in ids])
    sc['events'] = 'eager'
    sc['snap'] = r.random() < .6
    last = 0
    for i in ids:
        t = r.randrange(600 * MS, 2 * S)
        for _ in range(r.randrange(2, 8)):
            sc['steps'].append({'t': t, 'b': hx(alarm_report(r, i))})
            for _ in range(r.choice([0, 0, 1, 2])):
                sc['steps'].append({'t': near(r, t + S), 'b': hx(state_report(r, i) if r.random() < .7 else odd_frame(r, i))})
            t = near(r, t + S) if r.random() < .8 else t + r.randrange(10 * MS, 2 * S)
        last = max(last, t)
    observers(sc, r, 300 * MS, last + S, r.randrange(10, 30), ('obs',))
    sc['callers'].append([{'op': 'obs', 'at': last + 3 * S}])
    sc['steps'].sort(key=lambda s: s['t'])
    sc['end'] = last + 4 * S
    return sc


def p_events(sid, r):
    """Consumers that are eager, late or absent."""
    ids = pick_ids(r, r.choice([1, 2, 3, 12]))
    sc = base(sid, r, 'events', [rand_node(r, i) for i in ids])
    t = traffic(sc, r, ids, 600 * MS, r.randrange(2, 10) * S, 2, (.8, .1, .1))
    x = r.random()
    sc['snap'] = True
    if x < .4:
        sc['events'] = 'eager'
    elif x < .85:
        late(sc, r, r.randrange(1 * S, t + 2 * S))
    else:
        sc['meta']['consumer'] = 2000000000
    if r.random() < .5:
        t = traffic(sc, r, ids, t + 2500 * MS, t + 5 * S, 1, (.8, .1, .1))
    observers(sc, r, 300 * MS, t + S, 6)
    sc['callers'].append([{'op': 'obs', 'at': t + 3 * S}])
    sc['end'] = t + 5 * S
    return sc


def p_file(sid, r):
    """What reaches the configuration file, and when."""
    ids = pick_ids(r, r.choice([1, 2, 3]))
    usefile = r.random() < .9
    ns = [rand_node(r, i) for i in ids]
    sc = base(sid, r, 'file', ns, usefile)
    sc['events'] = r.choice(['eager', 'none'])
    if sc['events'] == 'none':
        sc['meta']['consumer'] = 2000000000
    sc['watch'] = 200 * MS if usefile else 0
    sc['meta']['watch'] = 200 * MS
    t = r.randrange(600 * MS, 3 * S)
    for _ in range(r.randrange(1, 6)):
        k = r.choice([0, 0, 1, 2])
        if k == 0:  # a short series
            t = traffic(sc, r, ids, t, t + r.randrange(100 * MS, 2 * S), 1, (.7, .2, .1))
        elif k == 1:  # a change now and then, never ten seconds apart
            for _ in range(r.randrange(2, 8)):
                sc['steps'].append({'t': t, 'b': hx(state_report(r, r.choice(ids)))})
                t += r.choice([r.randrange(100 * MS, 9 * S), r.randrange(8 * S, 9700 * MS), r.randrange(10300 * MS, 11 * S)])
        else:  # the same value again
            f = state_report(r, r.choice(ids))
            for _ in range(3):
                sc['steps'].append({'t': t, 'b': hx(f)})
                t += r.randrange(100 * MS, 14 * S)
        t += r.choice([r.randrange(0, 9 * S), r.randrange(11 * S, 30 * S)])
    observers(sc, r, 300 * MS, t, 4, ('obs',))
    if usefile and r.random() < .5:
        sc['callers'].append([{'op': 'reload', 'at': t + 15 * S}])
    sc['end'] = t + 16 * S
    return sc


def p_saveload(sid, r):
    """Save, load with a second controller, compare."""
    n = r.choice([0, 1, 2, 3, 5, 40, 231])
    ids = list(range(2, 233)) if n == 231 else pick_ids(r, n) if n <= 20 else sorted(r.sample(range(2, 233), n))
    ns = [rand_node(r, i, rich=True) for i in ids]
    pre = ns if r.random() < .5 else ns[:len(ns) // 2]
    if r.random() < .2 and len(ns) < 10:
        pre = []
    sc = base(sid, r, 'saveload', pre)
    sc['meta']['explicit'] = 1
    t = 400 * MS
    ops = []
    for n in ns[len(pre):]:
        ops.append({'op': 'add', 'add': dict(n, bnil=False), 'at': t})
        t += r.randrange(1, 30 * MS)
    if pre:
        t = traffic(sc, r, [n['id'] for n in pre], t + S, t + r.randrange(1100 * MS, 4 * S), 1, (.8, .1, .1))
    t += 2 * S
    for _ in range(r.randrange(1, 3)):
        ops.append({'op': 'save', 'at': t})
        ops.append({'op': 'reload', 'at': t + 1})
        ops.append({'op': 'obs', 'at': t + 2})
        t += 2 * S
        if pre and r.random() < .5:
            t = traffic(sc, r, [n['id'] for n in pre], t, t + S, 1, (.8, .1, .1)) + 2 * S
    sc['callers'].append(ops)
    sc['meta']['consumer'] = 2000000000
    sc['end'] = t + S
    return sc


def p_control(sid, r):
    """Switching nodes and endpoints, from several callers."""
    ids = pick_ids(r, r.choice([1, 2, 3, 4]))
    ns = [rand_node(r, i, r.random() < .4) for i in ids]
    for n in ns:
        if r.random() < .8 and not any(c['ID'] in (0x25, 0x26) for c in n['cc']):
            n['cc'].append({'ID': r.choice([0x25, 0x26]), 'InNIF': False, 'Sec': False, 'NonSec': False, 'Version': ''})
    sc = base(sid, r, 'control', ns)
    sc['events'] = 'eager'
    oid = 0
    tend = 0
    for c in range(r.randrange(1, 5)):
        ops = []
        t = r.randrange(600 * MS, 2 * S)
        for _ in range(r.randrange(2, 12)):
            oid += 1
            node = r.choice(ids) if r.random() < .9 else r.choice([1, 30, 230])
            p = r.randrange(0, 3)
            lv = r.choice([r.randrange(0, 100), r.randrange(-10, 120), 99, 100, 0, 1, 1000]) * 10 ** p
            if p:
                lv += r.randrange(10 ** p)
            n = next((n for n in ns if n['id'] == node), None)
            eps = len(n['ep']) if n else 0
            ops.append({'op': r.choice(['on', 'off', 'level', 'level', 'epon', 'epoff', 'eplevel', 'ep']), 'id': oid, 'node': node,
                        'ep': r.choice([0, 1, 2, 3, eps, eps, r.randrange(eps + 1), eps + 1, -1, 200]), 'm': lv, 'p': p, 'at': t})
            t += r.choice([0, r.randrange(0, 400 * MS)])
        tend = max(tend, t)
        sc['callers'].append(ops)
    if r.random() < .4:
        traffic(sc, r, ids, 600 * MS, tend, 1)
    sc['end'] = tend + 6 * S + oid * 150 * MS
    return sc


def p_burst(sid, r):
    """Garbage, split frames and bursts; well-formed reports after silence must get through."""
    ids = pick_ids(r, r.choice([1, 2]))
    sc = base(sid, r, 'burst', [rand_node(r, i) for i in ids])
    sc['events'] = r.choice(['eager', 'none'])
    if sc['events'] == 'none':
        sc['meta']['consumer'] = 2000000000
    t = r.randrange(100 * MS, 900 * MS)
    for _ in range(r.randrange(6, 30)):
        x = r.random()
        if x < .4:
            b = [r.choice([0, 1, 1, 2, 3, 4, 6, 0x15, 0x18, 0xff, r.randrange(256)]) for _ in range(r.randrange(1, 40))]
        elif x < .55:
            f = odd_frame(r, r.choice(ids))
            b = f[:r.randrange(1, len(f))]
        elif x < .75:
            # short frames with a correct checksum
            b = frame([r.choice([2, 4, 0x41, 0x13, r.randrange(256)])] + [r.randrange(256) for _ in range(r.randrange(0, 6))], typ=r.randrange(2))
        else:
            b = odd_frame(r, r.choice(ids))
        for tt, bb in chunked(r, b, t):
            sc['steps'].append({'t': tt, 'b': hx(bb)})
            t = tt
        if r.random() < .5:
            t += r.randrange(80 * MS, 600 * MS)
            f = state_report(r, r.choice(ids)) if r.random() < .8 else alarm_report(r, r.choice(ids))
            for tt, bb in chunked(r, f, t):
                sc['steps'].append({'t': tt, 'b': hx(bb)})
                t = tt
            t += r.choice([r.randrange(0, 2000), r.randrange(80 * MS, 300 * MS)])
        else:
            t += r.choice([r.randrange(0, 2000), r.randrange(80 * MS, 300 * MS)])
    observers(sc, r, 300 * MS, t + S, 8)
    sc['callers'].append([{'op': 'obs', 'at': t + 3 * S}])
    sc['end'] = t + 4 * S
    return sc


# ---- file operations that take time or fail, crashes, damaged files

def slow(sc, r, most):
    """File operations that take up to most (µs)."""
    d = r.choice([[0], [most], [r.randrange(most + 1) for _ in range(5)], [0, 0, most]])
    sc['fs'] = {'delay': d, 'cuts': r.choice([[], [50], [0], [100], [r.randrange(101) for _ in range(3)]]), 'faults': [], 'crash': 6}
    sc['meta']['savemax'] = 12 * max(d) + 1000
    return sc['fs']


def p_slowfile(sid, r):
    """As p_file, on a slow disk."""
    sc = p_file(sid, r)
    sc['profile'] = 'slowfile'
    if sc['use_file']:
        slow(sc, r, r.choice([1000, 40 * MS, 40 * MS, 700 * MS, 700 * MS]))['crash'] = 1
        most = sc['meta']['savemax']
        sc['end'] += 2 * most
        for o in (o for ops in sc['callers'] for o in ops if o['op'] == 'reload'):
            o['at'] += 2 * most
        ids = [n['id'] for n in sc['meta']['nodes']]
        # changes while the changes before them are being saved
        for s in r.sample(sc['steps'], min(3, len(sc['steps']))):
            t = s['t'] + 10 * S + r.randrange(0, max(400 * MS, most))
            if t < sc['end'] - 15 * S - 2 * most:
                sc['steps'].append({'t': t, 'b': hx(state_report(r, r.choice(ids)))})
        if r.random() < .5 and sc['steps']:  # the last change of all, too
            t = max(s['t'] for s in sc['steps']) + 10 * S + r.randrange(0, max(100 * MS, most // 3))
            sc['steps'].append({'t': t, 'b': hx(state_report(r, r.choice(ids)))})
            new = t + 16 * S + 2 * most
            for o in (o for ops in sc['callers'] for o in ops if o['op'] == 'reload'):
                o['at'] = max(o['at'], new - S)
            sc['end'] = max(sc['end'], new)
        sc['steps'].sort(key=lambda s: s['t'])
    return sc


def p_crash(sid, r):
    """Saves that are cut off anywhere, and full disks."""
    ids = pick_ids(r, r.choice([1, 2, 3, 8]))
    ns = [rand_node(r, i) for i in ids]
    sc = base(sid, r, 'crash', ns)
    sc['meta']['consumer'] = 2000000000
    fs = slow(sc, r, r.choice([0, 1000, 40 * MS]))
    if r.random() < .5:
        fs['cuts'] = [r.choice([0, 100, 50, r.randrange(101)]) for _ in range(4)]
    if r.random() < .3:
        sc['tmp'] = r.choice(['', 'x' * 100000, config(ns[:1]), config(ns)[:50]])
    fresh = r.random() < .25
    if fresh:  # no file, the nodes are added
        sc.pop('file')
        sc['meta'].update(nodes=[], fileok=0, explicit=1)
        ops = [{'op': 'add', 'add': dict(n, bnil=False), 'at': 300 * MS + i * MS} for i, n in enumerate(ns)]
        sc['callers'].append(ops)
    else:
        sc['watch'] = sc['meta']['watch'] = 200 * MS
    t = r.randrange(700 * MS, 2 * S)
    for _ in range(r.randrange(1, 5)):
        t0 = t
        if r.random() < .6:
            t = traffic(sc, r, ids, t, t + r.randrange(100 * MS, S), 1, (.9, 0, .1))
        else:
            for _ in range(r.randrange(1, 4)):
                sc['steps'].append({'t': t, 'b': hx(state_report(r, r.choice(ids)))})
                t += r.choice([0, r.randrange(0, 200 * MS), r.randrange(0, 4 * S)])
        if r.random() < .5:
            a = r.choice([t0, t + r.randrange(0, 11 * S)])
            fs['faults'].append({'from': a, 'to': r.choice([t + 13 * S, a + r.randrange(0, 6 * S)]), 'room': r.choice([0, 0, 1, 100, 1000]),
                                 'kind': r.choice(['full', 'full', 'late', 'late', 'open', 'sync', 'close', 'rename', 'unlink'])})
            sc['meta']['faults'] = 1
        if fresh or r.random() < .4:
            sc['meta']['explicit'] = 1
            for _ in range(r.randrange(1, 4)):
                sc['callers'].append([{'op': 'save', 'at': r.choice([t + 3 * S, r.randrange(t, t + 12 * S)])}])
        t += r.choice([11 * S, 12 * S, r.randrange(0, 9 * S)])
    if r.random() < .5:  # at the end all is well
        t = max([t] + [f['to'] for f in fs['faults']]) + S
        sc['steps'].append({'t': t, 'b': hx(state_report(r, r.choice(ids)))})
        if fresh:
            sc['callers'].append([{'op': 'save', 'at': t + 5 * S}, {'op': 'reload', 'at': t + 7 * S}])
    sc['end'] = t + 16 * S
    return sc


ODD = [None, [], {}, '', 'x', 0, 1, -1, 7, 232, 255, 300, 2 ** 31, 2 ** 70, 1e30, 0.5, True, False, [None], {'': None}, {'id': 5}, [[]], '5', [{}]]


def mutate(r, d):
    """Changes something in a JSON tree."""
    paths = []

    def walk(x, p):
        paths.append(p)
        if isinstance(x, dict):
            for k in x:
                walk(x[k], p + [k])
        elif isinstance(x, list):
            for i in range(len(x)):
                walk(x[i], p + [i])
    walk(d, [])
    p = r.choice([q for q in paths if r.random() < .5 or len(q) > 2] or paths)
    if not p:
        return r.choice(ODD)
    x = d
    for k in p[:-1]:
        x = x[k]
    k = p[-1]
    y = r.random()
    if y < .7:
        x[k] = r.choice(ODD)
    elif y < .8:
        del x[k]
    elif isinstance(x, dict):
        x[r.choice(['id', 'Id', 'Nodes', 'x', '7', 'Endpoints', k.upper()])] = x.pop(k)
    else:
        x.append(r.choice(ODD))
    return d


def damage(r, ns, turn):
    t = config(ns)
    y = [.45, .6, r.random(), r.random(), r.random()][turn % 5]
    if y < .25:
        return t[:r.choice([0, 1, len(t) - 1, r.randrange(len(t))])].encode()
    b = bytearray(t.encode())
    if y < .35:
        for _ in range(r.choice([1, 1, 3, 10])):
            b[r.randrange(len(b))] ^= 1 << r.randrange(8)
        return bytes(b)
    if y < .4:
        i = r.randrange(len(b))
        n = r.randrange(1, 200)
        b[i:i + n] = r.choice([b'', b'\0' * n, bytes(r.randrange(256) for _ in range(n))])
        return bytes(b)
    if y < .5:
        l = [b'', b'\n', b'\0' * len(b), b'\xef\xbb\xbf' + bytes(b), bytes(b) + bytes(b), bytes(b) + b'}', b'null', b'[]', b'{}', b'0', b'""', b'{"Nodes":null}',
                         b'{"Nodes":[]}', b'{"Nodes":{}}', b'{"Nodes":{"5":null}}', b'{"Nodes":{"5":{}}}', b'{"Nodes":{"5":[]}}', b'{"Nodes":{"x":{"id":5}}}', b'{"Nodes":{"5":{"id":6},"6":{"id":5}}}',
                         b'{"Nodes":{"5":{"id":5,"StateFloat":{"level":1e400}}}}', b'[' * 20000, b'{"Nodes":' * 5000, b'{"Nodes":{"5":{"id":5},"5":{"id":5}},"Nodes":{"6":{"id":6}}}',
                         b'{"Connection":{},"Nodes":{"5":{"id":5}}}', b'{"nodes":{"5":{"ID":5,"endpoints":[null,{"Id":1}],"commandclasses":[null]}}}',
             b'{"Nodes":{"5":null,"6":{"id":6}}}', b'{"Nodes":{"5":{"id":5,"Endpoints":[null]}}}', b'{"Nodes":{"5":{"id":5,"CommandClasses":[null],"Endpoints":[{"Id":1,"CommandClasses":[null]}]}}}']
        return l[turn // 5 % len(l)]
    d = json.loads(t)
    if turn % 5 == 1 or r.random() < .2:  # nothing where something is expected, in all nodes
        l = ['CommandClasses', 'Endpoints', 'StateBool', 'StateFloat', 'ManufacurerSpecific', 'epCC', 'epBool']
        k = l[turn // 5 % len(l)]
        null = lambda l: r.choice([[None], [None] + (l or []), (l or []) + [None]])
        for n in d['Nodes'].values():
            if k in ('CommandClasses', 'Endpoints'):
                n[k] = null(n[k])
            elif k in ('epCC', 'epBool'):
                for e in n['Endpoints'] or []:
                    if k == 'epCC':
                        e['CommandClasses'] = null(e['CommandClasses'])
                    else:
                        e['StateBool'] = e['StateFloat'] = None
            else:
                n[k] = None
        return json.dumps(d).encode()
    for _ in range(r.choice([1, 1, 1, 2, 3, 6])):
        d = mutate(r, d)
    return json.dumps(d, indent='\t').encode()


def p_damaged(sid, r):
    """A configuration file that is damaged, missing or impossible; then everything goes on."""
    ids = pick_ids(r, r.choice([1, 2, 3]))
    ns = [rand_node(r, i, rich=r.random() < .3) for i in ids]
    sc = base(sid, r, 'damaged', ns)
    sc.pop('file')
    net = sorted(set([i for i in ids if r.random() < .7] + r.sample(range(2, 100), r.choice([0, 1, 2]))))
    sc['react'] = {DISCOVER: [{'ctl': '06', 'cd': 4000, 'ans': [{'d': r.randrange(9000, 200000), 'b': hx(discovery(net))}], 'rep': True}]}
    sc['meta'].update(nodes=[], fileok=0, damaged=1, faults=1, net=net, consumer=2000000000, explicit=1)
    y = r.random()
    if y < .9:
        sc['file_hex'] = hx(damage(r, ns, sid // 2))
        if r.random() < .1:
            sc['tmp'] = config(ns)
        nofile = False
    else:
        sc['path'] = r.choice(['dir', 'gone', 'link', ''])
        nofile = sc['path'] in ('dir', 'gone')
    all_ids = sorted(set(ids + net))
    ops = [{'op': 'adopt', 'at': 2 * S}]
    t = traffic(sc, r, all_ids, 3 * S, 5 * S, 1, (.7, .2, .1)) + 2 * S
    for k in range(r.randrange(0, 8)):
        ops.append({'op': r.choice(['on', 'off', 'level', 'epon', 'epoff', 'eplevel', 'ep', 'obs', 'json']), 'id': 100 + k, 'node': r.choice(all_ids), 'ep': r.choice([0, 1, 2, 3]),
                    'm': r.randrange(101), 'p': 0, 'at': r.randrange(2100 * MS, t)})
    for i in all_ids:
        for k in r.sample(['on', 'level', 'off'], 2) + (['epon'] if r.random() < .5 else []):
            ops.append({'op': k, 'id': 200 + i, 'node': i, 'ep': r.choice([1, 1, 2]), 'm': 5, 'p': 0, 'at': t - 1})
    ops.append({'op': 'obs', 'at': t + S})
    ops.append({'op': 'json', 'at': t + S})
    t += 13 * S
    ops.append({'op': 'save', 'at': t})
    if not nofile:
        ops.append({'op': 'reload', 'at': t + S})
    sc['callers'] = [ops[:1], ops[1:]]
    sc['end'] = t + 5 * S
    return sc
