"""Properties decided by scenarios: run in the real library in virtual time, judged by a TLA+ monitor."""
import json
import common, models, gen_ident, gen_link, gen_nodes

LINK, NODES, IDENT = ('LinkTrace', gen_link.link), ('NodeTrace', gen_nodes.nodes), ('IdentTrace', gen_ident.ident)

# property -> [(family, profiles, scenarios in the quick tier)]
MIX = {
    'C01': [(LINK, ['garbage', 'garbage', 'match', 'timeouts', 'port', 'strays', 'cancel', 'races'], 500),
            (NODES, ['burst', 'burst', 'reports', 'alarms', 'events', 'control'], 350)],
    'C02': [(LINK, ['garbage', 'garbage', 'strays', 'mixed', 'match', 'port', 'races'], 900)],
    'C05': [(NODES, ['control'], 250), (LINK, ['flood', 'mixed', 'cancel'], 250)],
    'C06': [(LINK, ['cancel', 'flood', 'strays', 'mixed', 'port', 'timeouts', 'races'], 900)],
    'C07': [(LINK, ['timeouts', 'mixed', 'match', 'cancel', 'races', 'port', 'flood', 'races'], 900)],
    'C08': [(LINK, ['match', 'match', 'timeouts', 'races', 'mixed', 'garbage'], 900)],
    'C09': [(LINK, ['cancel', 'cancel', 'strays', 'mixed', 'flood', 'port', 'races'], 900)],
    'C10': [(LINK, ['flood', 'mixed', 'cancel', 'flood', 'timeouts', 'strays', 'races', 'port'], 1000)],
    'C11': [(LINK, ['port', 'port', 'port', 'firstfail', 'mixed', 'cancel', 'port'], 900)],
    'C12': [(IDENT, ['discovery', 'restored', 'discovery', 'few', 'control', 'races'], 260), (NODES, ['events', 'saveload'], 60)],
    'C13': [(IDENT, ['few', 'restored', 'sleepy', 'races', 'few', 'control', 'port', 'stubborn', 'restored', 'few', 'many', 'discovery'], 330)],
    'C14': [(IDENT, ['sleepy', 'sleepy', 'few', 'restored', 'sleepy', 'port', 'races', 'stubborn'], 350)],
    'C15': [(NODES, ['reports', 'reports', 'burst', 'events', 'alarms'], 700)],
    'C16': [(NODES, ['alarms', 'alarms', 'pulse', 'alarms', 'reports', 'burst', 'pulse'], 800)],
    'C17': [(NODES, ['events', 'events', 'reports', 'alarms', 'burst', 'pulse'], 750), (IDENT, ['few', 'restored', 'sleepy', 'many'], 120)],
    'C18': [(NODES, ['saveload', 'saveload', 'file', 'control', 'reports'], 500)],
    'C19': [(NODES, ['crash', 'damaged'], 800)],
    'C20': [(NODES, ['file', 'slowfile', 'slowfile', 'crash'], 560), (IDENT, ['few', 'restored', 'control', 'many'], 120)],
    'C22': [(NODES, ['control', 'control', 'saveload'], 400), (IDENT, ['control', 'control', 'few', 'restored'], 200)],
    'C23': [(NODES, ['control'], 500)],
}


# property -> models whose scripts are replayed, too
MODELS = {p: [lambda *a: models.link(*a)] for p in ('C06', 'C07', 'C08', 'C09', 'C10')}
MODELS['C11'] = [lambda *a: models.port(*a)]
MODELS.update({p: [lambda *a: models.framing(*a)] for p in ('C01', 'C02')})
MODELS.update({p: [lambda *a: models.node(*a)] for p in ('C15', 'C16', 'C17')})
MODELS.update({p: [lambda *a: models.persist(*a)] for p in ('C19', 'C20')})
MODELS.update({p: [lambda *a: models.ident(*a)] for p in ('C12', 'C13', 'C14')})

FS = ('C19', 'C20')  # file operations are intercepted


def shrink_trace(tr, k, before=40, after=5):
    return tr[max(0, k - before):k + after]


def run(ctx, prop, scens, module='LinkTrace', binary=None, test='TestScenarios', errs=None):
    binary = binary or common.build(ctx)
    traces, crashes = common.run_scenarios(ctx, binary, scens, test=test, errs=errs)
    by = {s['id']: s for s in scens}
    for i, (kind, text) in sorted(crashes.items()):
        ctx.violation(kind, 'the library %s in scenario %d (%s): %s' % (
            {'crash': 'crashes', 'hang': 'hangs', 'timeout': 'hangs'}[kind], i, by[i].get('profile', ''), first_lines(text)),
            {'kind': 'scenario', 'scenario': by[i], 'output': text[:4000]})
    good = {i: t for i, t in traces.items() if i not in crashes and t and t[-1]['e'] == 'end'}
    missing = [s['id'] for s in scens if s['id'] not in good and s['id'] not in crashes]
    if missing and not crashes:
        raise common.CheckError('scenarios without a complete trace: %s' % missing[:10])
    meta = {i: {'slack': by[i].get('slack', 2000), 'open_time': by[i].get('open_time', 0), 'sc': by[i].get('meta', {})} for i in good}
    bad, amb = common.judge(ctx, module, good, meta)
    return good, bad, amb, by


def first_lines(text):
    ls = [l for l in text.split('\n') if l.startswith(('panic', 'fatal', 'HANG', '\tpanic')) or '/repo/' in l]
    return ' | '.join(ls[:4]) or text[:300]


def report(ctx, prop, good, bad, by):
    seen = {}
    # what goes wrong after a reopening breaks C11 only if it does not go wrong before one, too
    again = set((i, l.split('/', 1)[1], k) for i, l, k in bad if l.startswith('C11:after reopening/'))
    before = set(l for i, l, k in bad if '/' not in l and (i, l, k) not in again)
    bad = [b for b in bad if not (b[1].startswith('C11:after reopening/') and b[1].split('/', 1)[1] in before)]
    for i, label, k in sorted(bad):
        p, text = label.split(':', 1)
        if p != prop:
            seen[label] = seen.get(label, 0) + 1
            continue
        ctx.violation(text.replace(' ', '-'), 'scenario %d (%s), event %d: %s' % (i, by[i].get('profile', ''), k, text),
                      {'kind': 'scenario', 'scenario': by[i], 'event': k, 'trace': shrink_trace(good[i], k)})
    if seen:
        ctx.log('properties of other checks broken:', seen)


def nontrivial(t):
    return sum(1 for e in t if e['e'] in ('tx', 'rx')) >= 4


def coverage(ctx, good, amb, by):
    kinds = {}
    for t in good.values():
        for e in t:
            kinds[e['e']] = kinds.get(e['e'], 0) + 1
    ctx.add(traces_validated_against_impl=len(good), ambiguous=len(amb), events_by_kind=kinds,
            distinct_nontrivial=len(set(json.dumps(t) for t in good.values() if nontrivial(t))),
            samples=[{'scenario': by[i].get('profile', ''), 'trace': good[i][:25]} for i in sorted(good)[:1]])


RULE = ('random scenarios of callers, controller answers, reports and failures from VERIF_SEED, run in virtual time with a perturbed '
        'schedule; every recorded event is judged by the TLA+ monitor; a trace with at least four reads or writes is non-trivial')


def check(ctx, prop):
    binary = common.build(ctx, fs=prop in FS)
    for (module, gen), mix, n in MIX[prop]:
        if ctx.thorough:
            n *= 15
        scens = [gen(i, ctx.seed, mix[i % len(mix)]) for i in range(1, n + 1)]
        for s in range(0, len(scens), 4000):
            good, bad, amb, by = run(ctx, prop, scens[s:s + 4000], module, binary)
            report(ctx, prop, good, bad, by)
            coverage(ctx, good, amb, by)
    for f in MODELS.get(prop, []):
        f(ctx, prop, binary)
    ctx.cov['rule'] = RULE
    return 'model_checking'
