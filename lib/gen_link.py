"""Scenarios for the link: commands, answers, refusals, cancellations, port failures."""
import random
from frames import *

S = 1000000
MS = 1000
CCS = [0x25, 0x26, 0x31, 0x71, 0x72, 0x60, 0x84]
REPS = {0x25: [3], 0x26: [3], 0x31: [5], 0x71: [5], 0x72: [5], 0x60: [8], 0x84: [7]}


def payload_for(r, cc, cmd):
    """Command class, command and a payload that is often decodable."""
    if r.random() < 0.15:
        return [cc, cmd] + [r.randrange(256) for _ in range(r.randrange(0, 8))]
    if cc in (0x25, 0x26):
        return [cc, cmd] + [r.randrange(256) for _ in range(r.choice([1, 1, 3]))]
    if cc == 0x31:
        size = r.choice([1, 2, 4])
        return [cc, cmd, r.randrange(1, 33), r.randrange(0, 5) * 32 + r.randrange(4) * 8 + size] + [r.randrange(256) for _ in range(size)]
    if cc == 0x71:
        return [cc, cmd] + [r.randrange(256) for _ in range(r.choice([2, 7, 8]))]
    if cc == 0x72:
        return [cc, cmd] + [r.randrange(256) for _ in range(6)]
    if cc == 0x60:
        return [cc, cmd, r.randrange(256), r.randrange(128)]
    return [cc, cmd]


def answer(r, d, er, right=True):
    """A frame that answers (or nearly answers) the payload d."""
    if d[0] != 0x13:
        fn = d[0] if right else r.choice([0x41, 0x15, 0x20])
        if fn == 0x41:
            return frame([0x41] + [r.randrange(256) for _ in range(r.choice([6, 6, 6, 5, 3]))], typ=1)
        return frame([fn] + [r.randrange(256) for _ in range(r.randrange(0, 6))], typ=1)
    node, cc = d[1], (d[3] if len(d) > 3 else 0x25)
    cmd = er or r.choice(REPS.get(cc, [3]))
    if not right:
        k = r.randrange(4)
        if k == 0:
            node = r.choice([n for n in (2, 3, 5, 9, node ^ 1 << r.randrange(8), 0, 255) if n != node])
        elif k == 1:
            if r.random() < .3:
                cc ^= 1 << r.randrange(8)
            else:
                cc = r.choice([c for c in CCS if c != cc])
                cmd = REPS[cc][0]
        elif k == 2:
            cmd = (cmd + r.randrange(1, 5)) % 256 if r.random() < .6 else cmd ^ 1 << r.randrange(8)
        else:
            return frame([r.choice([0x13, 0x49, 0x41, 2]), r.randrange(256), node, 2, cc, cmd])
    return report(node, payload_for(r, cc, cmd), status=r.randrange(256) if r.random() < .3 else 0,
                  tail=[r.randrange(256) for _ in range(r.choice([0, 0, 0, 1, 2]))])


def chunked(r, b, t, span=3000):
    """Split bytes into reads a little apart."""
    if len(b) < 2 or r.random() < .5:
        return [(t, b)]
    cuts = sorted(r.sample(range(1, len(b)), min(len(b) - 1, r.choice([1, 1, 2, 4]))))
    out, p = [], 0
    for c in cuts + [len(b)]:
        out.append((t, b[p:c]))
        t += r.randrange(1, span)
        p = c
    return out


def sched(r):
    """Schedule jitter and the slack it needs."""
    x = r.random()
    if x < .2:
        return {}, 2000
    if x < .75:
        return {'seed': r.randrange(1, 1 << 30), 'prob': r.choice([20, 100, 300]), 'max': r.choice([2, 8, 30]), 'rare': 0, 'rare_max': 0,
                'budget': 4000}, 6000
    return {'seed': r.randrange(1, 1 << 30), 'prob': r.choice([20, 100, 300]), 'max': r.choice([30, 300]), 'rare': r.choice([0, 50]),
            'rare_max': 3000, 'budget': 20000}, 25000


def near(r, t):
    """About the same time."""
    return max(0, t + r.choice([0, 0, -1, 1, r.randrange(-60, 60), r.randrange(-2 * MS, 2 * MS), r.randrange(-8 * MS, 8 * MS), r.randrange(-30 * MS, 30 * MS)]))


def link(sid, seed, profile='mixed'):
    """One random scenario.  profile: mixed, cancel, flood, timeouts, match, port, garbage, firstfail, strays, races"""
    r = random.Random('%s-%s-%s' % (sid, seed, profile))
    sc = {'id': sid, 'react': {}, 'steps': [], 'callers': [], 'events': 'none', 'open': [], 'profile': profile,
          'default': {'ctl': '06', 'cd': r.choice([500, 3000, 12000]), 'ans': []}}
    sc['react'][DISCOVER] = [{'ctl': '06', 'cd': 4000, 'ans': [{'d': r.randrange(9000, 900000), 'b': hx(discovery([]))}]}]
    n = [0]
    nid = [0]
    ncall = {'mixed': r.randrange(1, 6), 'cancel': r.randrange(1, 5), 'flood': r.randrange(4, 9), 'timeouts': r.randrange(2, 6),
             'match': r.randrange(2, 7), 'port': r.randrange(1, 5), 'garbage': r.randrange(1, 4), 'firstfail': 1,
             'strays': r.randrange(1, 4), 'races': r.randrange(1, 4)}[profile]
    nodes = r.choice([[2], [2, 3], [2, 3, 5]])
    if r.random() < .3:
        x = r.randrange(1, 233)
        nodes = [x, (x ^ 1 << r.randrange(8)) or 1]
    ccs = r.sample(CCS, r.choice([1, 2, 3]))
    few = profile == 'match'
    long = 0
    for c in range(ncall):
        ops = []
        t = r.randrange(300 * MS, 2 * S)
        for _ in range(r.randrange(1, 7 if profile != 'flood' else 10)):
            n[0] += 1
            nid[0] += 1
            uniq = [n[0] & 0x7f, r.randrange(256)]
            if r.random() < (.25 if profile != 'match' else .15):
                d = [r.choice([0x41, 0x41, 0x15, 0x20]), r.choice(nodes), r.randrange(256), r.randrange(256)] + uniq
            else:
                cc = r.choice(ccs)
                body = [cc, r.choice([1, 2, 4, 7])] + uniq + [r.randrange(256) for _ in range(r.randrange(0, 3))]
                d = [0x13, r.choice(nodes), len(body)] + body
                if r.random() < .04:
                    d += [r.randrange(256) for _ in range(r.choice([10, 60, 120, 253 - len(d)]))]
            kind = r.choice(['write', 'wt', 'wt', 'wr', 'wr'] if profile != 'flood' else ['write', 'write', 'wr'])
            if kind == 'wr' and d[0] != 0x13:
                kind = 'wt'
            er = 0
            if kind == 'wr':
                er = r.choice([0, 0] + REPS.get(d[3], [3]) * 4 + [6])
            to = 0 if kind == 'write' else r.choice([r.randrange(150 * MS, 900 * MS), r.randrange(1 * S, 6 * S), r.randrange(1 * S, 15 * S)])
            if to and profile == 'timeouts' and r.random() < .06:
                to = r.choice([r.randrange(15 * S, 65 * S), r.randrange(60 * S, 200 * S), r.randrange(60 * S, 400 * S)])
            long = max(long, to)
            col = 0 if kind == 'write' else r.choice([0, 0, 0, 0, r.randrange(1, 4 * S), -1])
            op = {'op': kind, 'id': nid[0], 'data': d, 'to': to, 'er': er, 'col': col, 'at': t}
            ops.append(op)
            t0 = t
            t += r.choice([0, 0, r.randrange(0, 300 * MS), r.randrange(0, 3 * S)])
            # what the device does with it
            reacts = []
            p_can = {'cancel': .6}.get(profile, .12)
            while r.random() < p_can and len(reacts) < 5:
                reacts.append({'ctl': '18', 'cd': r.choice([0, 200, r.randrange(0, 60 * MS), r.randrange(0, 800 * MS)]), 'ans': []})
                if profile == 'races' and r.random() < .6:
                    reacts[-1]['cd'] = near(r, S)
            x = r.random()
            if x < .66:
                ctl, cd = '06', r.choice([0, 300, r.randrange(0, 60 * MS), r.randrange(0, 850 * MS)])
            elif x < .8:
                ctl, cd = '15', r.choice([0, 300, r.randrange(0, 60 * MS), r.randrange(0, 850 * MS)])
            elif x < .88:
                ctl, cd = '', 0
            elif x < .94:
                ctl, cd = r.choice(['06', '15', '18']), r.randrange(1150 * MS, 2500 * MS)
            else:
                ctl, cd = r.choice(['0606', '0618', '1506', '1806', '0615', '060106']), r.randrange(0, 100 * MS)
            if profile == 'races' and r.random() < .5:
                ctl, cd = r.choice(['06', '06', '15', '15', '18', '0606', '0618', '1518', '0615']), near(r, S)
            ans = []
            if profile == 'races':  # things that cross the write
                for _ in range(r.choice([0, 0, 1, 1, 2])):
                    b = [r.choice([0x06, 0x15, 0x18])] if r.random() < .4 else answer(r, d, er, right=r.random() < .9)
                    sc['steps'].append({'t': near(r, t0), 'b': hx(b)})
            for _ in range(r.choice([0, 1, 1, 1, 2, 3] if few else [0, 1, 1, 1, 2])):
                when = r.choice([r.randrange(0, 200 * MS), r.randrange(0, 3 * S)] + ([r.randrange(1, 16 * S)] if profile == 'timeouts' else []))
                if to and r.random() < .3:
                    when = to + r.choice([-1, 1]) * r.randrange(80 * MS, 400 * MS)
                    when = max(0, when)
                if to and profile == 'races' and r.random() < .5:
                    when = near(r, to)
                f = answer(r, d, er, right=r.random() < (.55 if few else .8))
                pieces = chunked(r, f, when)
                if profile == 'races' and r.random() < .25:
                    k = r.randrange(1, len(f))
                    pieces = [(when, f[:k]), (when + near(r, 40 * MS), f[k:])]
                for tt, b in pieces:
                    ans.append({'d': tt, 'b': hx(b)})
            reacts.append({'ctl': ctl, 'cd': cd, 'ans': ans})
            sc['react'][hx(frame(d))] = reacts
        sc['callers'].append(ops)
    # the device on its own
    last = max([o['at'] for ops in sc['callers'] for o in ops] + [0])
    end = last + max(17 * S, long + 2 * S) + 1300 * MS * sum(len(o) for o in sc['callers'])
    t = r.randrange(0, S)
    k = {'garbage': 30, 'strays': 25, 'match': 12}.get(profile, r.choice([0, 3, 8]))
    for _ in range(k):
        t += r.choice([r.randrange(0, 5 * MS), r.randrange(0, 300 * MS), r.randrange(100 * MS, 1500 * MS)])
        x = r.random()
        if profile == 'strays' and x < .6:
            b = [r.choice([0x06, 0x15, 0x18])]
        elif x < .45:
            d = [0x13, r.choice(nodes), 2, r.choice(ccs)]
            b = answer(r, d, 0, right=r.random() < .7)
        elif x < .55:
            b = answer(r, [0x41, 2], 0)
        elif x < .7:
            f = answer(r, [0x13, r.choice(nodes), 2, r.choice(ccs)], 0)
            f[r.randrange(len(f))] ^= 1 << r.randrange(8)
            b = f
        elif x < .8:
            f = answer(r, [0x13, r.choice(nodes), 2, r.choice(ccs)], 0)
            b = f[:r.randrange(1, len(f))]
        elif x < .9:
            b = [r.choice([0, 1, 2, 3, 4, 6, 0x15, 0x18, 0xff, r.randrange(256)]) for _ in range(r.randrange(1, 12))]
        elif x < .92:
            b = []  # an empty read
        else:
            b = [r.randrange(256) for _ in range(r.randrange(1, 4))] + answer(r, [0x13, r.choice(nodes), 2, r.choice(ccs)], 0) + \
                answer(r, [0x13, r.choice(nodes), 2, r.choice(ccs)], 0)
        for tt, bb in chunked(r, b, t):
            sc['steps'].append({'t': tt, 'b': hx(bb)})
            t = tt
    if r.random() < {'garbage': .35, 'races': .2, 'match': .15, 'strays': .15}.get(profile, 0):  # long frames, one right after the other
        t = r.randrange(0, last + 5 * S)
        b = []
        for _ in range(r.choice([1, 2, 3, 5])):
            m = r.choice([r.randrange(60, 249), 248, 249, 249])
            body = [r.choice(ccs), r.choice([3, 5, 6])] + [r.choice([0, 1, 3, 6, 255, r.randrange(256)]) for _ in range(m - 2)]
            b += report(r.choice(nodes), body)
            if r.random() < .4:
                b += answer(r, [0x13, r.choice(nodes), 2, r.choice(ccs)], 0)
        for tt, bb in chunked(r, b, t, r.choice([3000, 3000, 15 * MS])):
            sc['steps'].append({'t': tt, 'b': hx(bb)})
    if profile == 'port':
        t = r.randrange(600 * MS, 4 * S)
        opens = ['ok']
        sc['on_open'] = [[]]
        for _ in range(r.randrange(1, 4)):
            f = answer(r, [0x13, r.choice(nodes), 2, r.choice(ccs)], 0)
            new = []
            if r.random() < .6:  # fails within a frame, the new port delivers at once
                x = r.random()
                k = r.randrange(1, len(f))
                part = f[:k] if x < .5 else [1, r.randrange(5, 120)] + f[2:k + 1]
                sc['steps'].append({'t': t - r.choice([1, 1000, 5000]), 'b': hx(part)})
                if x < .3:  # as if the frame went on
                    new.append((0, f[k:]))
            for _ in range(r.choice([0, 1, 1, 3])):
                new.append((r.choice([0, 0, r.randrange(1, 35 * MS), r.randrange(30 * MS, 300 * MS)]),
                            answer(r, [0x13, r.choice(nodes), 2, r.choice(ccs)], 0)))
            sc['on_open'].append([{'d': d, 'b': hx(b)} for d, b in new])
            sc['steps'].append({'t': t, 'fail': 'x'})
            bad = r.choice([0, 0, 1, 3, 6])
            opens += ['err'] * bad + ['ok']
            t += (bad + 1) * S + r.randrange(100 * MS, 5 * S)
            end += (bad + 2) * S
        sc['open'] = opens
        sc['open_time'] = r.choice([0, 0, 100 * MS])
        # reports arrive on the new port
        for _ in range(6):
            t += r.randrange(100 * MS, S)
            sc['steps'].append({'t': t, 'b': hx(answer(r, [0x13, r.choice(nodes), 2, r.choice(ccs)], 0))})
        cc = []
        tt = 0
        while tt < t + 4 * S:
            tt += r.randrange(50 * MS, 700 * MS)
            cc.append({'op': 'conn', 'at': tt})
        sc['callers'].append(cc)
        end += t
    if profile == 'firstfail':
        sc['open'] = ['err'] + r.choice([[], ['ok'], ['err', 'ok']])
        end = 20 * S
    sc['steps'].sort(key=lambda s: s['t'])
    sc['end'] = min(end, 700 * S)
    sc['sched'], sc['slack'] = sched(r)
    sc['direct'] = sid % 3 == 0
    return sc


PROFILES = ['mixed', 'cancel', 'flood', 'timeouts', 'match', 'port', 'garbage', 'strays', 'firstfail', 'races']
