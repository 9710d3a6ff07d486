"""Shared machinery of the checks: building the harness against /repo, running
scenarios in the real library, judging traces with TLC, reporting."""
import json, os, re, shutil, subprocess, sys, tempfile, time, atexit
from concurrent.futures import ThreadPoolExecutor
import fsoverlay

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
HARNESS = os.path.join(VERIF, 'harness')
SPEC = os.path.join(VERIF, 'spec')
TLA_CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NPROC = 8


class CheckError(Exception):
    pass


def goenv():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith('GO') and k not in ('GOCACHE', 'GOPATH', 'GOMODCACHE', 'GOROOT'):
            del e[k]
    try:
        out = subprocess.run(['bash', '-c', '. /opt/vp/env.sh >/dev/null 2>&1; env -0'], capture_output=True).stdout
        for kv in out.split(b'\0'):
            if b'=' in kv:
                k, v = kv.decode(errors='replace').split('=', 1)
                if k == 'PATH' or k.startswith('GO'):
                    e[k] = v
    except Exception:
        pass
    e['GOFLAGS'] = '-mod=mod'
    e['GOPROXY'] = 'off'
    e['GOWORK'] = 'off'
    e['GOTOOLCHAIN'] = 'local'
    return e


class Ctx:
    """One run of one check."""

    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix='verif-%s-' % prop)
        atexit.register(self.cleanup)
        self.violations = []     # (key, text, replay dict)
        self.known = []
        self.cov = {}
        self.notes = []
        self.assumptions = []
        self.deadline = self.t0 + (600 if self.tier == 'quick' else 3000)

    def cleanup(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def log(self, *a):
        print('[%s %6.1fs]' % (self.prop, time.time() - self.t0), *a, flush=True)

    def path(self, *a):
        return os.path.join(self.dir, *a)

    def violation(self, key, text, replay=None):
        self.violations.append((key, text, replay or {}))

    def add(self, **kw):
        for k, v in kw.items():
            if isinstance(v, int) and not isinstance(v, bool):
                self.cov[k] = self.cov.get(k, 0) + v
            elif isinstance(v, list):
                self.cov.setdefault(k, []).extend(v)
            else:
                self.cov[k] = v


# ---------------------------------------------------------------- building

def repo_packages():
    """Directories of the library that the schedule instrumentation covers."""
    dirs = []
    for d in ('', 'nodes', 'serialrecorder'):
        p = os.path.join(REPO, d) if d else REPO
        if os.path.isdir(p):
            dirs.append(p)
    return dirs


def harness_module(ctx):
    """A copy of the harness module whose go.mod points at REPO."""
    d = ctx.path('mod')
    if not os.path.isdir(d):
        shutil.copytree(HARNESS, d)
        gm = os.path.join(d, 'go.mod')
        s = open(gm).read()
        s = re.sub(r'(replace github.com/stampzilla/gozwave => ).*', lambda m: m.group(1) + REPO, s)
        open(gm, 'w').write(s)
    return d


def merge_overlay(path, entries):
    o = {'Replace': {}}
    if os.path.exists(path):
        o = json.load(open(path))
    o['Replace'].update(entries)
    with open(path, 'w') as f:
        json.dump(o, f)


def build(ctx, instrument=True, race=False, name='h.test', pkg='.', fs=False):
    """Compile the harness with the library of the working tree; returns the binary."""
    out = ctx.path(name)
    mod = harness_module(ctx)
    env = goenv()
    t = time.time()
    base = ['go', 'test', '-c', '-o', out] + (['-race'] if race else [])
    std = {}
    if fs:
        goroot = subprocess.run(['go', 'env', 'GOROOT'], env=env, capture_output=True, text=True).stdout.strip()
        os.makedirs(ctx.path('std'), exist_ok=True)
        std = fsoverlay.make(goroot, ctx.path('std'))
        base += ['-tags', 'fsverif']
    if instrument:
        ov = ctx.path('overlay-' + name)
        os.makedirs(ov, exist_ok=True)
        r = subprocess.run(['go', 'run', './overlay', ov] + repo_packages(), cwd=mod, env=env, capture_output=True, text=True)
        if r.returncode == 0:
            merge_overlay(os.path.join(ov, 'overlay.json'), std)
            r = subprocess.run(base + ['-overlay', os.path.join(ov, 'overlay.json'), pkg], cwd=mod, env=env, capture_output=True, text=True)
            if r.returncode == 0:
                ctx.log('built instrumented harness in %.1fs' % (time.time() - t))
                ctx.cov['instrumented'] = True
                return out
        ctx.log('instrumented build failed, using the plain library:', (r.stderr or r.stdout)[-1500:])
    if std:
        merge_overlay(ctx.path('std.json'), std)
        base += ['-overlay', ctx.path('std.json')]
    r = subprocess.run(base + [pkg], cwd=mod, env=env, capture_output=True, text=True)
    if r.returncode != 0:
        raise CheckError('harness does not build:\n' + (r.stderr or r.stdout)[-4000:])
    ctx.log('built harness in %.1fs' % (time.time() - t))
    ctx.cov['instrumented'] = False
    return out


# ---------------------------------------------------------------- scenarios

def _run_chunk(ctx, binary, scens, tag, timeout, test='TestScenarios', errs=None, alone=False):
    """Runs scenarios one after the other in one process; restarts it after a
    crash.  Returns traces {id: [events]}, and crashes {id: (kind, text)}."""
    traces, crashes = {}, {}
    todo = list(scens)
    rnd = 0
    while todo:
        rnd += 1
        fin = ctx.path('%s-%d.in' % (tag, rnd))
        fout = ctx.path('%s-%d.out' % (tag, rnd))
        scratch = ctx.path('%s-%d.scratch' % (tag, rnd))
        os.makedirs(scratch, exist_ok=True)
        with open(fin, 'w') as f:
            for s in todo:
                f.write(json.dumps(s) + '\n')
        open(fout, 'w').close()
        env = dict(os.environ, SCEN_IN=fin, SCEN_OUT=fout, SCEN_SCRATCH=scratch, SCEN_HANG='25', GOMAXPROCS='2')
        errf = open(ctx.path('%s-%d.err' % (tag, rnd)), 'w+')
        p = subprocess.Popen([binary, '-test.run', '^%s$' % test, '-test.timeout', '0'], stdout=subprocess.DEVNULL,
                             stderr=errf, env=env, cwd=scratch)
        try:
            rc = p.wait(timeout=max(60, min(timeout, ctx.deadline + 120 - time.time())))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = -1
        errf.seek(0, 2)
        size = errf.tell()
        errf.seek(max(0, size - 200000))
        err = errf.read()
        if errs is not None:
            errs.append(err)
        errf.close()
        done = False
        order = []
        for line in open(fout):
            try:
                o = json.loads(line)
            except ValueError:
                continue
            if 'done' in o:
                done = True
                continue
            if o['s'] not in traces:
                traces[o['s']] = []
                order.append(o['s'])
            traces[o['s']].append(o['ev'])
        shutil.rmtree(scratch, ignore_errors=True)
        for f in (fin, fout):
            os.unlink(f)
        if done:
            break
        ids = [s['id'] for s in todo]
        # the scenario that was running is the last one that began and did not end
        running = [i for i in order if not (traces[i] and traces[i][-1]['e'] == 'end')]
        cur = running[-1] if running else None
        if cur is None:
            ended = [i for i in ids if i in traces]
            rest = [i for i in ids if i not in traces]
            if not rest:
                break
            if rc == -1:
                raise CheckError('scenario runner timed out')
            # died between scenarios: a goroutine left over by the last one, or at the start
            if ended:
                cur = ended[-1]
            else:
                raise CheckError('scenario runner died before its first scenario (rc %s): %s' % (rc, err[-3000:]))
        kind = 'hang' if rc == 42 or 'HANG scenario' in err else ('timeout' if rc == -1 else 'crash')
        if kind != 'crash' and not alone and not deadlock(err):
            # a hang counts only if it comes again when the scenario runs alone
            tr, cr = _run_chunk(ctx, binary, [s for s in todo if s['id'] == cur], tag + 'again', 120, test, errs, alone=True)
            if cur not in cr:
                traces[cur] = tr.get(cur, [])
                todo = todo[ids.index(cur) + 1:]
                continue
        crashes[cur] = (kind, err[-6000:] if kind == 'crash' else err[:6000])
        if cur in traces:
            traces[cur].append({'e': kind, 't': traces[cur][-1]['t'] if traces[cur] else 0})
        todo = todo[ids.index(cur) + 1:]
        if len(crashes) > 12 or sum(k != 'crash' for k, _ in crashes.values()) >= 2:
            break  # enough to report
    return traces, crashes


def deadlock(text):
    """Nothing in the dump of a hanging process can go on, but what dumps."""
    return text.count('\ngoroutine ') > 1 and len(re.findall(r'\ngoroutine \d+ .*\[(?:running|runnable|syscall)', text)) <= 1


def run_scenarios(ctx, binary, scens, timeout=400, test='TestScenarios', errs=None):
    """Runs all scenarios on 8 processes."""
    chunks = [scens[i::NPROC] for i in range(NPROC)]
    chunks = [c for c in chunks if c]
    traces, crashes = {}, {}
    t = time.time()
    tag = 'run%d' % int(t * 1000 % 1e9)
    with ThreadPoolExecutor(NPROC) as ex:
        for tr, cr in ex.map(lambda ic: _run_chunk(ctx, binary, ic[1], '%s-%d' % (tag, ic[0]), timeout, test, errs), list(enumerate(chunks))):
            traces.update(tr)
            crashes.update(cr)
    ctx.log('ran %d scenarios in %.1fs, %d events, %d crashed' % (len(traces), time.time() - t, sum(map(len, traces.values())), len(crashes)))
    return traces, crashes


# ---------------------------------------------------------------- TLC

def tlc(ctx, module, cfg=None, env=None, args=(), timeout=800, heap='8g', workers='auto'):
    """Runs TLC in a scratch metadir; returns its output."""
    meta = tempfile.mkdtemp(prefix='tlc-', dir=ctx.dir)
    cmd = ['java', '-Xmx' + heap, '-Xss64m', '-XX:+UseParallelGC', '-Djava.io.tmpdir=' + meta, '-cp', TLA_CP, 'tlc2.TLC',
           '-metadir', meta, '-workers', str(workers), '-noGenerateSpecTE', '-config', cfg or (module + '.cfg')] + list(args) + [module + '.tla']
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError('TLC timed out on %s' % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, r.stdout + r.stderr


def tlc_stats(out):
    m = re.search(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
    if not m:
        return 0, 0
    return int(m.group(1).replace(',', '')), int(m.group(2).replace(',', ''))


def judge(ctx, module, traces, meta=None, timeout=800, quiet=False):
    """Traces {id: [events]} judged by a TLA+ monitor.  meta[id] may hold
    'slack' (µs, default 2000) and further fields for the trace record.
    Returns bad [(id, label, event index)] and ambiguous {id: why}."""
    meta = meta or {}
    groups = {}
    for i in traces:
        groups.setdefault(meta.get(i, {}).get('slack', 2000), []).append(i)
    # split big groups so that TLC runs side by side
    jobs = []
    for slack, ids in sorted(groups.items()):
        n = sum(len(traces[i]) for i in ids)
        parts = max(1, min(4, n // 30000))
        for p in range(parts):
            jobs.append((slack, sorted(ids)[p::parts]))
    t = time.time()
    with ThreadPoolExecutor(6) as ex:
        res = list(ex.map(lambda j: _judge(ctx, module, traces, meta, j[0], j[1], timeout), jobs))
    bad, amb = [], {}
    for b, a, gen, dist in res:
        bad += b
        amb.update(a)
        ctx.add(states=dist, transitions=gen)
    ctx.log('%s judged %d traces (%d events) in %.1fs, %d ambiguous, %d flagged' % (
        module, len(traces), sum(map(len, traces.values())), time.time() - t, len(amb), len(set(b[0] for b in bad))))
    return bad, amb


_n = [0]


def _judge(ctx, module, traces, meta, slack, ids, timeout):
    _n[0] += 1
    base = ctx.path('traces-%s-%d' % (module, _n[0]))
    with open(base + '.ndjson', 'w') as o:
        for i in ids:
            d = {'s': i, 'ev': traces[i]}
            d.update(meta.get(i, {}))
            o.write(json.dumps(d) + '\n')
    cfg = open(os.path.join(SPEC, module + '.cfg')).read()
    cfg = re.sub(r'Slack = \d+', 'Slack = %d' % slack, cfg)
    with open(base + '.cfg', 'w') as o:
        o.write(cfg)
    rc, out = tlc(ctx, module, cfg=base + '.cfg', env={'TRACES': base + '.ndjson'}, timeout=timeout, workers=4)
    bad, amb, done = [], {}, set()
    for m in re.finditer(r'<<\s*"BAD",\s*(-?\d+),\s*(\d+),\s*\{(.*?)\}\s*>>', out, re.S):
        for l in re.findall(r'"((?:[^"\\]|\\.)*)"', m.group(3)):
            bad.append((int(m.group(1)), l, int(m.group(2))))
    for m in re.finditer(r'<<\s*"DONE",\s*(-?\d+),\s*"(.*?)"\s*>>', out):
        done.add(int(m.group(1)))
        if m.group(2):
            amb[int(m.group(1))] = m.group(2)
    if rc != 0 or len(done) != len(ids):
        i = out.find('Error')
        raise CheckError('TLC on %s: rc %s, %d of %d traces judged\n%s' % (module, rc, len(done), len(ids), out[max(0, i - 200):i + 3000]))
    gen, dist = tlc_stats(out)
    os.unlink(base + '.ndjson')
    return bad, amb, gen, dist


# ---------------------------------------------------------------- reporting

def known_findings():
    """Lines 'finding: property=<id> key=<key> <text>' of known_findings.txt."""
    r = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l.strip())
            if m:
                r.append(m.groups())
    return r


def finish(ctx, level):
    kf = {(p, k): t for p, k, t in known_findings()}
    new = []
    for key, text, replay in ctx.violations:
        if (ctx.prop, key) in kf:
            ctx.known.append((key, kf[(ctx.prop, key)]))
        else:
            new.append((key, text, replay))
    for key, t in sorted(set(ctx.known)):
        print('KNOWN-FINDING: property=%s %s (%s)' % (ctx.prop, t, key))
    ev = {'property': ctx.prop, 'tier': ctx.tier, 'seed': ctx.seed, 'level': level, 'coverage': ctx.cov,
          'assumptions': ctx.assumptions, 'wall_s': round(time.time() - ctx.t0, 1), 'violations': len(new)}
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, ctx.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')
    if new:
        rd = os.path.join(d, 'replay')
        os.makedirs(rd, exist_ok=True)
        seen = set()
        for n, (key, text, replay) in enumerate(new[:8]):
            p = os.path.join(rd, '%s-%d.json' % (ctx.prop, n))
            with open(p, 'w') as f:
                json.dump({'property': ctx.prop, 'key': key, 'what': text, 'replay': replay}, f, indent=1)
            print('  %s: %s' % (key, text[:600]))
            print('VIOLATION property=%s replay=%s' % (ctx.prop, os.path.relpath(p, VERIF)))
        ctx.log('%d violations' % len(new))
        return 1
    ctx.log('held on everything explored')
    return 0
