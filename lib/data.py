"""C26: lookups of products and device classes against the shipped files, judged by DataTrace.tla."""
import json, os, random, subprocess
import common, devdata

HOW = ['append', 'append', 'truncate', 'nil', 'field', 'swap', 'names']


def unknown(r, known):
    while True:
        k = tuple('%04x' % r.randrange(65536) for _ in range(3))
        x = r.random()
        if x < .5:  # close to a known one
            k = list(r.choice(known).split('_'))
            i = r.randrange(3)
            k[i] = r.choice(['%04x' % r.randrange(65536), '', k[i][:3], k[i] + '0', r.choice(known).split('_')[i], '0' + k[i]])
            k = tuple(k)
        elif x < .6:  # the same characters, divided differently
            s = r.choice(known).split('_')
            k = (s[0] + '_' + s[1], s[2], '')
        if '_'.join(k) not in known:
            return k


def traces(r, tables, rounds):
    keys = sorted(tables['products'])
    mand = [tuple(map(int, k.split('_'))) for k in sorted(tables['mandatory'])]
    out = []
    for rnd in range(rounds):
        jobs = [{'op': 'dev', 'm': k.split('_')[0], 't': k.split('_')[1], 'p': k.split('_')[2]} for k in keys]
        jobs += [{'op': 'mand', 'g': g, 's': s} for g, s in mand * 4]
        jobs += [{'op': 'dev', 'm': a, 't': b, 'p': c} for a, b, c in (unknown(r, keys) for _ in range(300))]
        jobs += [{'op': 'mand', 'g': r.randrange(256), 's': r.randrange(256)} for _ in range(200)]
        r.shuffle(jobs)
        n = 60
        for i in range(0, len(jobs), n):
            ops = []
            for j in jobs[i:i + n]:
                ops.append(j)
                while r.random() < .6:
                    ops.append({'op': 'mut', 'i': r.choice([0, 0, 0, 1, 2, r.randrange(50)]), 'how': r.choice(HOW)})
                if r.random() < .5:
                    ops.append(dict(r.choice([o for o in ops if o['op'] != 'mut'])))
            out.append(ops)
    rows = list(range(256))
    r.shuffle(rows)
    for i in range(0, 256, 16):
        ops = []
        for g in rows[i:i + 16]:
            ops += [{'op': 'row', 'g': g}, {'op': 'mut', 'i': 0, 'how': r.choice(HOW)}, {'op': 'row', 'g': g}]
        out.append(ops)
    return out


def check(ctx):
    r = random.Random('data-%d' % ctx.seed)
    binary = common.build(ctx, instrument=False, name='data.test')
    mand = devdata.mandatory()
    prods = devdata.products()
    tables = {'products': {k: {x: v[x] for x in ('brand', 'product', 'descr', 'iden', 'cc')} for k, v in prods.items()},
              'mandatory': {'%d_%d' % k: v for k, v in mand.items()}}
    tfile = ctx.path('tables.json')
    json.dump(tables, open(tfile, 'w'))
    seqs = traces(r, tables, 12 if ctx.thorough else 3)
    evs = {}
    for par in (1, 8):  # one caller, several callers at the same time
        fin, fout = ctx.path('data.in'), ctx.path('data.out')
        with open(fin, 'w') as f:
            for s in seqs:
                f.write(json.dumps(s) + '\n')
        p = subprocess.run([binary, '-test.run', '^TestData$'], env=dict(os.environ, DATA_IN=fin, DATA_OUT=fout, DATA_PAR=str(par)),
                           capture_output=True, text=True)
        if p.returncode != 0:
            if 'fatal error' in p.stderr + p.stdout or 'panic' in p.stderr + p.stdout:
                ctx.violation('lookups-crash', 'lookups from %d goroutines crash: %s' % (par, (p.stdout + p.stderr)[:300]),
                              {'kind': 'data', 'output': (p.stdout + p.stderr)[:3000]})
                continue
            raise common.CheckError('data harness failed: ' + (p.stdout + p.stderr)[-3000:])
        for i, line in enumerate(open(fout)):
            evs[par * 100000 + i] = json.loads(line)
    os.environ['TABLES'] = tfile
    bad, _ = common.judge(ctx, 'DataTrace', evs)
    for i, label, k in sorted(bad):
        what = label.split(':', 1)[1]
        words = what.rsplit(' ', 1)
        ctx.violation(what.replace(' ', '-'), '%s (lookup %d of a sequence of %d callers)' % (what, k, i // 100000),
                      {'kind': 'data', 'ops': seqs[i % 100000][:k], 'result': evs[i][k - 1], 'expected': tables['products'].get(words[-1])})
    n = sum(1 for s in seqs for o in s if o['op'] != 'mut')
    ctx.add(traces_validated_against_impl=len(evs), evaluations=2 * n + 2 * 256 * 2 * 255,
            distinct_nontrivial=len(tables['products']) + 65536, products=len(tables['products']), device_classes=len(mand),
            rule='every listed product, every one of the 65536 device classes and unknown products are looked up in random order, with callers '
                 'changing their results in between, alone and from 8 goroutines; every result is judged by DataTrace.tla against the shipped files; '
                 'distinct keys are counted',
            samples=[seqs[0][:6]])
    return 'exploration'
