"""C03, C04, C05: inputs of the codec, run through the real code and judged by CodecTrace."""
import json, os, random, re, subprocess
from concurrent.futures import ThreadPoolExecutor
import common
from frames import *

SUPPORTED = [(0x25, 3), (0x26, 3), (0x31, 5), (0x71, 5), (0x72, 5), (0x60, 8), (0x84, 7)]


def rnd(r, n):
    return [r.choice([0, 1, 0x7f, 0x80, 0xfe, 0xff, r.randrange(256), r.randrange(256)]) for _ in range(n)]


def body_for(r, cc):
    """Payload bytes of a report, mostly of a supported length."""
    x = r.random()
    if x < .15:
        return rnd(r, r.randrange(0, 12))
    if cc in (0x25, 0x26):
        return rnd(r, r.choice([1, 3]))
    if cc == 0x31:
        size = r.choice([0, 1, 1, 2, 2, 4, 4, 4, 3, 5, 6, 7])
        n = size + r.choice([0, 0, 0, 0, 1, 3, -1])
        return [r.randrange(0, 34), r.randrange(8) * 32 + r.randrange(4) * 8 + size] + rnd(r, max(0, n))
    if cc == 0x71:
        return rnd(r, r.choice([2, 2, 5, 6, 7, 9, 12]))
    if cc == 0x72:
        return rnd(r, 6 if r.random() < .9 else r.choice([5, 7]))
    if cc == 0x60:
        return rnd(r, r.choice([2, 2, 3]))
    return rnd(r, r.choice([0, 1, 2]))


def inner_of(f):
    """fn, payload as the specification sees them (checked by it)."""
    b = f[:-1]
    if len(b) < 4:
        return 0, []
    fn = b[3]
    if fn in (4, 2):
        if len(b) < 7 or len(b) < 7 + b[6]:
            return 0, []
        return fn, b[7:7 + b[6]]
    if fn == 0x41:
        d = b[4:]
        return fn, d + [0] if len(d) == 5 else d
    return 0, []


def message_type(r):
    # 0: request, 1: response; others are no less readable
    return r.choice([0, 0, 0, 1, 1, 1, 2, 0x10, 0x80, 255, r.randrange(256)])


def some_frame(r):
    x = r.random()
    if x < .5:
        cc, cmd = r.choice(SUPPORTED)
        if r.random() < .08:
            cc = r.randrange(256)
        if r.random() < .06:
            cmd = r.randrange(256)
        d = [cc, cmd] + body_for(r, cc)
        ln = None if r.random() < .85 else max(0, len(d) + r.choice([-3, -2, -1, 1, 2, 4, 100]))
        return report(r.randrange(256), d, status=r.randrange(256), tail=rnd(r, r.choice([0, 0, 1, 2, 5])), ln=ln)
    if x < .65:
        n = r.choice([29, 29, 29, 28, 6, 5, 7, 30, 31, 3, 0])
        ln = n if r.random() < .85 else max(0, n + r.choice([-2, -1, 1, 2]))
        return frame([2, 5, 0, ln] + rnd(r, n) + rnd(r, r.choice([2, 2, 0, 1])), typ=1)
    if x < .8:
        return frame([0x41] + rnd(r, r.choice([6, 6, 6, 5, 7, 4, 0, 1])), typ=1)
    if x < .9:
        return frame(rnd(r, r.randrange(0, 12)), typ=message_type(r))
    if x < .95:
        return frame([r.choice([4, 2, 0x41])] + rnd(r, r.randrange(0, 9)), typ=message_type(r))
    return frame(rnd(r, r.choice([100, 200, 253])), typ=0)


def decode_vectors(r, n):
    out = []
    for _ in range(n):
        f = some_frame(r)
        fn, inn = inner_of(f)
        x = r.random()
        b = list(f)
        tail = []
        if x < .35:
            pass
        elif x < .7:
            b = f + r.choice([rnd(r, r.randrange(1, 20)), some_frame(r), [6], [1]])
        elif x < .8:
            tail = rnd(r, r.randrange(1, 30))
        elif x < .88:
            b = f[:r.randrange(1, len(f))]
            tail = f[len(b):] if r.random() < .5 else rnd(r, 10)
        elif x < .95:
            b[r.randrange(1, len(f))] ^= 1 << r.randrange(8)
        else:
            b = [r.choice([6, 0x15, 0x18, 0, 2, 0xff])] + rnd(r, r.randrange(0, 5))
        # what stands at the front may not be f any more
        if b[:len(f)] != f:
            fn, inn = 0, []
            if len(b) >= 2 and b[0] == 1 and len(b) >= b[1] + 2 and b[1] >= 1:
                g = b[:b[1] + 2]
                if checksum(g[1:-1]) == g[-1]:
                    fn, inn = inner_of(g)
        out.append({'op': 'decode', 'b': b, 'tail': tail, 'fn': fn, 'in': inn})
        if r.random() < .1:
            out.append({'op': 'newmsg', 'b': b, 'tail': tail})
    return out


def report_vectors(r, n):
    out = []
    for v in range(256):  # complete domains
        out.append({'op': 'report', 'cc': 0x25, 'cmd': 3, 'b': [v]})
        out.append({'op': 'report', 'cc': 0x26, 'cmd': 3, 'b': [v]})
        out.append({'op': 'report', 'cc': 0x26, 'cmd': 3, 'b': [v, r.randrange(256), r.randrange(256)]})
        out.append({'op': 'report', 'cc': 0x26, 'cmd': 3, 'b': [r.randrange(256), v, r.randrange(256)]})
        out.append({'op': 'report', 'cc': 0x25, 'cmd': 3, 'b': [v, r.randrange(256), r.randrange(256)]})
        out.append({'op': 'report', 'cc': 0x25, 'cmd': 3, 'b': [r.randrange(256), v, v]})
        out.append({'op': 'report', 'cc': 0x60, 'cmd': 8, 'b': [v, r.randrange(256)]})
        out.append({'op': 'report', 'cc': 0x60, 'cmd': 8, 'b': [r.randrange(256), v]})
        out.append({'op': 'report', 'cc': 0x31, 'cmd': 5, 'b': [r.randrange(33), v] + rnd(r, v % 8)})
        out.append({'op': 'report', 'cc': 0x31, 'cmd': 5, 'b': [v, r.choice([0x21, 0x09, 0x42, 0x14])] + rnd(r, 4)})
        out.append({'op': 'report', 'cc': 0x31, 'cmd': 5, 'b': [1, 0x01, v]})
        out.append({'op': 'duration', 'b': [v]})
        out.append({'op': 'report', 'cc': v, 'cmd': r.choice([3, 5, 8]), 'b': rnd(r, r.choice([1, 2, 3, 6]))})
        cc, cmd = r.choice(SUPPORTED)
        out.append({'op': 'report', 'cc': cc, 'cmd': v, 'b': body_for(r, cc)})
    for ty in range(0, 34):
        for sc in range(4):
            out.append({'op': 'report', 'cc': 0x31, 'cmd': 5, 'b': [ty, sc * 8 + 1, r.randrange(256)]})
    for cc, cmd in SUPPORTED:
        for ln in range(0, 14):
            for _ in range(2):
                out.append({'op': 'report', 'cc': cc, 'cmd': cmd, 'b': rnd(r, ln)})
    for ln in range(0, 40):
        out.append({'op': 'kinds', 'b': rnd(r, ln)})
        b = rnd(r, ln)
        f = frame([2, 5, 0, ln] + b + [5, 0], typ=1)
        out.append({'op': 'decode', 'b': f, 'fn': 2, 'in': b})
    for bit in range(232):
        f = discovery([bit + 1])
        out.append({'op': 'decode', 'b': f, 'fn': 2, 'in': bitmap([bit + 1])})
    for v in range(256):
        for i in range(6):
            d = rnd(r, 6)
            d[i] = v
            out.append({'op': 'decode', 'b': protoinfo(d), 'fn': 0x41, 'in': d})
    for _ in range(n):
        cc, cmd = r.choice(SUPPORTED + [(0x31, 5)] * 3)
        out.append({'op': 'report', 'cc': cc, 'cmd': cmd, 'b': body_for(r, cc)})
        if r.random() < .05:
            out.append({'op': 'kinds', 'b': rnd(r, r.randrange(0, 40))})
    return out


def command_vectors(r, n):
    out = []
    for node in range(1, 233):
        out.append({'op': 'binary', 'node': node, 'on': node % 2})
        out.append({'op': 'binary', 'node': node, 'on': 1 - node % 2})
        out.append({'op': 'level', 'node': node, 'm': r.randrange(0, 100), 'p': 0})
    for m in range(-20, 130):
        out.append({'op': 'level', 'node': 3, 'm': m, 'p': 0})
    for m in range(-500, 11000, 7):
        out.append({'op': 'level', 'node': 9, 'm': m, 'p': 2})
    for m in [-2147483648, 2147483647, 25600, 99999, 256, 255, 355, 512, -1, -256, -200, 1000000]:
        out.append({'op': 'level', 'node': 9, 'm': m, 'p': 0})
    for ln in range(0, 254):
        out.append({'op': 'compile', 'b': rnd(r, ln), 'tail': rnd(r, r.choice([0, 0, 1, 4]))})
    for ep in range(0, 256):
        v = r.randrange(256)
        m = [0x13, r.randrange(1, 233), 3, r.choice([0x25, 0x26]), 1, v, 0x25]
        out.append({'op': 'encap', 'b': m, 'ep': ep})
    for _ in range(n):
        ln = r.choice([1, 2, 3, 5, 8, 20, 100, 240])
        out.append({'op': 'raw', 'b': rnd(r, ln), 'node': r.randrange(1, 233)})
        d = rnd(r, r.randrange(0, 60))
        out.append({'op': 'encap', 'b': [0x13, r.randrange(1, 233), len(d)] + d, 'ep': r.randrange(1, 128)})
        out.append({'op': 'compile', 'b': rnd(r, r.randrange(0, 254)), 'tail': rnd(r, r.randrange(0, 4))})
        p = r.randrange(0, 4)
        out.append({'op': 'level', 'node': r.randrange(1, 233), 'm': r.randrange(-200 * 10 ** p, 300 * 10 ** p), 'p': p})
    return out


def run_vectors(ctx, binary, vecs):
    """Runs the vectors in the real code and lets TLC judge the results."""
    for i, v in enumerate(vecs):
        v['id'] = i + 1
        v.setdefault('b', [])
    parts = 8
    events = {}

    def one(p):
        fin, fout = ctx.path('vec%d.in' % p), ctx.path('vec%d.out' % p)
        vs = vecs[p::parts]
        with open(fin, 'w') as f:
            for v in vs:
                f.write(json.dumps(v) + '\n')
        r = subprocess.run([binary, '-test.run', '^TestCodec$'], env=dict(os.environ, CODEC_IN=fin, CODEC_OUT=fout), capture_output=True, text=True)
        if r.returncode != 0:
            return p, None, r.stdout[-3000:] + r.stderr[-3000:]
        evs = []
        for v, line in zip(vs, open(fout)):
            res = json.loads(line)
            assert res['id'] == v['id']
            e = {k: x for k, x in v.items() if k != 'tail'}
            e['e'] = 'v'
            e['res'] = res
            evs.append(e)
        return p, evs, ''

    with ThreadPoolExecutor(parts) as ex:
        for p, evs, err in ex.map(one, range(parts)):
            if evs is None:
                h = re.search(r'^HANG (\d+)', err, re.M)
                if h:
                    v = vecs[int(h.group(1)) - 1]
                    ctx.violation('hang', 'does not end: %s' % json.dumps(v)[:400], {'kind': 'codec', 'vector': v})
                    continue
                if 'fatal error: concurrent map' in err or 'stack overflow' in err:
                    ctx.violation('crash', 'the codec crashes: ' + err[:300], {'kind': 'codec-crash', 'output': err})
                    continue
                raise common.CheckError('codec harness failed: ' + err)
            # short traces keep TLC busy on all cores
            for k in range(0, len(evs), 500):
                events[p * 1000 + k // 500 + 1] = evs[k:k + 500]
    bad, _ = common.judge(ctx, 'CodecTrace', events)
    return bad


def check(ctx, prop):
    r = random.Random('codec-%s-%d' % (prop, ctx.seed))
    binary = common.build(ctx, instrument=False, name='codec.test')
    scale = 12 if ctx.thorough else 1
    if prop == 'C03':
        vecs = decode_vectors(r, 14000 * scale)
    elif prop == 'C04':
        vecs = report_vectors(r, 9000 * scale)
    else:
        vecs = command_vectors(r, 1500 * scale)
    bad = run_vectors(ctx, binary, vecs)
    by = {v['id']: v for v in vecs}
    for _, label, _ in bad:
        what, _, n = label.rpartition(' #')
        p, text = what.split(':', 1)
        if p == 'GEN':
            raise common.CheckError('generator and specification disagree: %s %s' % (what, by[int(n)]))
        if p == prop:
            ctx.violation(text.replace(' ', '-'), '%s: %s' % (text, json.dumps(by[int(n)])[:400]), {'kind': 'codec', 'vector': by[int(n)]})
    distinct = len(set(json.dumps({k: x for k, x in v.items() if k != 'id'}) for v in vecs))
    ops = {}
    for v in vecs:
        ops[v['op']] = ops.get(v['op'], 0) + 1
    ctx.add(evaluations=len(vecs), distinct_nontrivial=distinct, vectors_by_operation=ops,
            rule='inputs of the codec made from VERIF_SEED, complete over the small domains; each is run in the real code and the result judged by CodecTrace.tla; distinct inputs are counted',
            samples=[vecs[i] for i in range(0, len(vecs), max(1, len(vecs) // 4))][:4])
    return 'exploration'
