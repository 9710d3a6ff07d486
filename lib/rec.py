"""C24, C25: the serial recorder in virtual time over scripted ports, and the converter; judged by RecTrace."""
import json, os, random, re, subprocess
from concurrent.futures import ThreadPoolExecutor
import common, models, scen
from frames import hx
from gen_link import sched

MS, S = 1000, 1000000


def rec(sid, seed, profile):
    """One recording.  profile: plain, busy, reopen, faults, full"""
    r = random.Random('rec-%s-%s-%s' % (sid, seed, profile))
    sc = {'id': sid, 'profile': profile, 'open': [], 'log': [0], 'wrtime': [0], 'writes': [], 'feed': [], 'callers': []}
    nid = [0]

    def op(**k):
        nid[0] += k.get('loop', 1)
        return dict(k, id=nid[0] - k.get('loop', 1) + 1)

    few = r.random() < .5  # few different contents, so that rows look alike
    def data():
        n = r.choice([0, 1, 1, 2, 3, 8, 40, 200] if not few else [1, 1, 2])
        return [r.choice([1, 6] if few else range(256)) for _ in range(n)]

    span = r.choice([20 * MS, 300 * MS, 3 * S])
    if profile == 'full':
        sc['log'] = [r.choice([20 * MS, 100 * MS, 300 * MS])]
        span = 20 * MS
    elif r.random() < .5:
        sc['log'] = [r.choice([0, 0, 100, 5 * MS, 80 * MS]) for _ in range(4)]
    if r.random() < .5:
        sc['wrtime'] = [r.choice([0, 50, MS, 20 * MS]) for _ in range(3)]
    main = [op(op='open', at=0)]
    if profile in ('reopen', 'faults'):
        t = 0
        opens = ['ok']
        for _ in range(r.randrange(1, 4)):
            t += r.randrange(span // 8, span // 2 + 2)
            main.append(op(op='close', at=t))
            bad = r.choice([0, 0, 1, 2])
            opens += ['err'] * bad + ['ok']
            for _ in range(bad + 1):
                t += r.choice([0, r.randrange(0, span // 8 + 2)])
                main.append(op(op='open', at=t))
        sc['open'] = opens
    sc['callers'].append(main)
    many = profile == 'full'
    writers = r.choice([1, 1, 2, 3]) if profile != 'plain' else 1
    for _ in range(writers):
        t = 10
        ops = []
        for _ in range(r.randrange(4, 25) if not many else r.randrange(60, 130)):
            t += r.choice([0, 0, r.randrange(0, span // 8 + 2)])
            b = data()
            if writers > 1 and b:  # tells which of the writers it is from
                b = [nid[0] // 256, nid[0] % 256] + b
            ops.append(op(op='write', at=t, b=hx(b)))
        sc['callers'].append(ops)
    # one reader
    t = 10
    ops = []
    for _ in range(r.randrange(1, 4) if profile != 'full' else 1):
        ops.append(op(op='read', at=t, cap=r.choice([1, 2, 16, 128, 128]), loop=r.randrange(2, 15) if not many else 80))
        t += r.randrange(0, span // 2 + 2)
    sc['callers'].append(ops)
    t = 0
    for _ in range(r.randrange(2, 30) if not many else r.randrange(60, 120)):
        t += r.choice([0, 10, r.randrange(0, span // 6 + 2)])
        sc['feed'].append({'t': t, 'b': hx(data()), 'err': int(profile == 'faults' and r.random() < .2)})
    if profile == 'faults':
        sc['writes'] = [r.choice([-1, -1, 0, 2 if writers > 1 else 1, 2, 100]) for _ in range(40)]
    sc['sched'], sc['slack'] = sched(r)
    sc['end'] = 8 * span + 3 * S + (max(sc['log']) + max(sc['wrtime']) + MS) * 700
    return sc


def build(ctx):
    """The harness with a serial package whose ports are scripted."""
    return common.build(ctx, name='rec.test', pkg='./rec')


def script(n, x, r):
    """A script of MCRecorder."""
    gaps = [[0, 0, 0], [0, 300, 700], [0, 30 * MS, 31 * MS]]
    sc = {'id': n, 'profile': 'script %d of MCRecorder' % x['n'], 'open': [], 'feed': [],
          'log': [[0], [5 * MS, 0], [80 * MS]][x['slow']], 'wrtime': r.choice([[0], [0, 500], [10 * MS]]),
          'writes': [{'all': -1, 'part': 1, 'none': 0}[k] for k in x['take']]}
    g, h = gaps[x['gap'][0]], gaps[x['gap'][1]]
    main = [{'op': 'open', 'id': 1, 'at': 0}]
    if x['reopen']:
        t = MS + r.choice([0, 200, 500, MS, 30 * MS])
        main += [{'op': 'close', 'id': 2, 'at': t}, {'op': 'open', 'id': 3, 'at': t + r.choice([0, 0, 5 * MS])}]
    a, b = x['data']
    sc['callers'] = [main,
                     [{'op': 'write', 'id': 10 + j, 'at': MS + g[j], 'b': hx(d)} for j, d in enumerate(a)],
                     [{'op': 'write', 'id': 20 + j, 'at': MS + h[1], 'b': hx(d)} for j, d in enumerate(b)],
                     [{'op': 'read', 'id': 30, 'at': MS, 'cap': r.choice([1, 2, 128]), 'loop': 6}]]
    sc['feed'] = [{'t': MS + t, 'b': hx(d), 'err': 0} for t, d in zip([h[0], g[1]], x['feed'])]
    sc['sched'], sc['slack'] = sched(r)
    sc['end'] = 3 * S
    return sc


def check24(ctx, prop):
    binary = build(ctx)
    m = models.Model(ctx, 'MCRecorder', 40 if ctx.thorough else 2, 20000 if ctx.thorough else 500, timeout=2000 if ctx.thorough else 400)
    r = random.Random('recorder-%d' % ctx.seed)
    for s in range(0, len(m.scripts), 4000):
        good, bad, amb, by = scen.run(ctx, prop, [script(s + i + 1, x, r) for i, x in enumerate(m.scripts[s:s + 4000])], 'RecTrace', binary)
        scen.report(ctx, prop, good, bad, by)
        ctx.add(traces_validated_against_impl=len(good), model_scripts_replayed=len(good))
    profs = ['plain', 'busy', 'reopen', 'busy', 'faults', 'reopen', 'full', 'busy']
    n = 400 * (12 if ctx.thorough else 1)
    for start in range(1, n + 1, 2000):
        scens = [rec(i, ctx.seed, profs[i % len(profs)]) for i in range(start, min(n + 1, start + 2000))]
        good, bad, amb, by = scen.run(ctx, prop, scens, 'RecTrace', binary)
        scen.report(ctx, prop, good, bad, by)
        rows = sum(1 for t in good.values() for e in t if e['e'] == 'row')
        ctx.add(traces_validated_against_impl=len(good), ambiguous=0, rows=rows,
                distinct_nontrivial=len(set(json.dumps(t) for t in good.values() if sum(e['e'] == 'row' for e in t) >= 3)),
                samples=[{'scenario': by[i]['profile'], 'trace': good[i][:20]} for i in sorted(good)[:1]])
    ctx.cov['rule'] = ('random histories of reads, writes, buffer reuse, port failures, closings and reopenings from VERIF_SEED over a scripted port and a slow log, '
                       'in virtual time with a perturbed schedule; the log is read back and every row judged by RecTrace.tla; a trace with three rows or more is non-trivial')
    m.join()
    return 'model_checking'


# ---------------------------------------------------------------- converter

HUNG = []  # recordings that the converter does not end with
LINE = re.compile(r'^(\d+)-(\d+)-(\d+) (\d+):(\d+):(\d+)(?:\.(\d+))? \+0000 UTC: (\S+) - ([0-9a-f]*)$')


def recording(r, k):
    """Rows [t in units, w, b]; units in a millisecond."""
    ms = r.choice([1000000, 1000000, 1000])
    rows, t = [], r.randrange(0, 1000)
    n = r.choice([0, 1, 1, 2, 3, 5, 10, 30, 100, 300])
    mode = r.random()
    for i in range(n):
        if i:
            g = r.choice([0, 1, ms - 1, ms, ms + 1, ms // 2, r.randrange(0, 2 * ms), r.randrange(0, 3 * ms)])
            if mode < .3:
                g = r.choice([0, 1, ms - 1, ms // 3])
            elif mode > .85 and ms == 1000:
                g = r.choice([g, r.randrange(0, 2000000)])
            t += g
        w = r.randrange(2) if mode < .9 else int(r.random() < .1)
        b = [r.randrange(256) for _ in range(r.choice([0, 1, 1, 2, 5, 20]) if r.random() < .95 else r.choice([128, 300]))]
        rows.append({'t': t, 'w': w, 'b': b})
    return ms, rows


def convert(tool, path, ms, opt):
    """Runs the converter; its lines as [t, w, b]."""
    if HUNG:
        return [], 'left out'
    args = ['-short=%s' % bool(opt['short']), '-read=%s' % bool(opt['read']), '-write=%s' % bool(opt['write'])]
    if opt.get('bare'):  # only what differs from the defaults
        args = [a for a in args if a not in ('-short=False', '-read=True', '-write=True')]
    out = '%s.%d' % (path, random.randrange(10**12))
    try:  # with limits of what it may use: seconds, memory, output
        with open(out, 'w') as f:
            p = subprocess.run(['bash', '-c', 'ulimit -t 20 -v 3000000 -f 40000; exec "$@"', 'tohex', tool, '-file', path] + args,
                               stdout=f, stderr=subprocess.PIPE, text=True, timeout=60, env=dict(os.environ, TZ='UTC'))
        size = os.path.getsize(out)
        text = open(out).read() if size < 30000000 else ''
    except subprocess.TimeoutExpired:
        HUNG.append(path)
        return None, 'does not end'
    finally:
        os.unlink(out)
    lines = []
    if p.returncode:
        if p.returncode < 0 or size >= 30000000 or 'out of memory' in p.stderr or 'cannot allocate' in p.stderr:
            HUNG.append(path)
            return None, 'does not end'
        return None, p.stderr[:1000]
    for l in text.split('\n')[:-1]:
        if opt['short']:
            if not re.match('^([0-9a-f]{2})*$', l):
                return None, 'not hexadecimal: ' + l
            lines.append({'t': -1, 'w': -1, 'b': list(bytes.fromhex(l))})
            continue
        m = LINE.match(l)
        if not m:
            return None, 'unexpected line: ' + l
        import calendar
        sec = calendar.timegm(tuple(int(x) for x in m.groups()[:6]) + (0, 0, 0)) - 1700000000
        ns = sec * 1000000000 + int((m.group(7) or '0').ljust(9, '0'))
        lines.append({'t': ns * ms // 1000000, 'w': {'read': 0, 'write': 1}[m.group(8)], 'b': list(bytes.fromhex(m.group(9)))})
    return lines, ''


def check25(ctx, prop):
    r = random.Random('conv-%d' % ctx.seed)
    binary = build(ctx)
    tool = ctx.path('tohex')
    p = subprocess.run(['go', 'build', '-o', tool, './cmd/serialrecordingtohex'], cwd=common.REPO, env=common.goenv(), capture_output=True, text=True)
    if p.returncode:
        raise common.CheckError('converter does not build: ' + p.stderr[-2000:])
    n = 250 * (12 if ctx.thorough else 1)
    m = models.Model(ctx, 'MCConvert', 100000 if ctx.thorough else 4000, 10000 if ctx.thorough else 500, timeout=2000 if ctx.thorough else 300)
    small = [(2, x['rows']) for x in m.scripts]
    opts = [{'short': s, 'read': a, 'write': b} for s in (0, 1) for a in (0, 1) for b in (0, 1)]
    jobs, recs = [], []
    for k in range(n + len(small)):
        ms, rows = recording(r, k) if k < n else small[k - n]
        path = ctx.path('rec%d.gob' % k)
        recs.append({'File': path, 'Rows': [{'T': x['t'] * (1000000 // ms), 'W': x['w'], 'B': hx(x['b'])} for x in rows]})
        for o in ([opts[3]] if k >= n else [opts[3], opts[7]]) + r.sample([x for x in opts if x not in (opts[3], opts[7])], 2 if k < n else 1):
            jobs.append((path, ms, rows, dict(o, bare=1) if (k + len(jobs)) % 3 == 0 else o))
    fin = ctx.path('gob.in')
    with open(fin, 'w') as f:
        for x in recs:
            f.write(json.dumps(x) + '\n')
    p = subprocess.run([binary, '-test.run', '^TestGob$'], env=dict(os.environ, GOB_IN=fin), capture_output=True, text=True)
    if p.returncode:
        raise common.CheckError('recordings not written: ' + p.stdout[-2000:])
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda j: convert(tool, j[0], j[1], j[3]), jobs))
    events, by = {}, {}
    for i, ((path, ms, rows, o), (lines, why)) in enumerate(zip(jobs, res)):
        if why == 'left out':
            continue
        e = {'e': 'conv', 't': 0, 'ok': int(lines is not None), 'ms': ms, 'rows': rows, 'opt': o, 'lines': lines or []}
        if o['short']:  # lines without a time are not compared with one another
            pass
        events[i + 1] = [e]
        by[i + 1] = (rows, o, why)
    for x in recs:
        os.unlink(x['File'])
    bad, _ = common.judge(ctx, 'RecTrace', events)
    for i, label, _ in bad:
        rows, o, why = by[i]
        text = label.split(':', 1)[1]
        ctx.violation(text.replace(' ', '-'), '%s with %s: %s %s' % (text, o, why, json.dumps(rows)[:300]),
                      {'kind': 'recording', 'rows': rows, 'options': o, 'lines': res[i - 1][0], 'why': why})
    ctx.add(evaluations=len(jobs), distinct_nontrivial=len(set(json.dumps(b[:2]) for b in by.values() if len(b[0]) >= 2)), recordings=n, model_scripts_replayed=len(small),
            rule='random recordings from VERIF_SEED with gaps around one millisecond, printed by the real converter with its options; TLC computes the lines from the rows; a recording of two rows or more is non-trivial',
            samples=[{'rows': by[i][0][:10], 'options': by[i][1]} for i in (1, 2, 3)])
    m.join()
    return 'exploration'
