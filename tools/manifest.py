#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
sys.dont_write_bytecode = True
import props

MON = ('Executions of the real library in virtual time under scripted devices, callers and perturbed schedules, each recorded event '
       'judged by a TLA+ monitor in TLC; assumes the scripted port behaves like a serial port and that scenarios sample the schedules; '
       'what happens within the scheduling slack of a deadline is not judged.')
COD = ('Real codec run on inputs complete over the small domains plus random ones; TLC recomputes every result from the TLA+ codec '
       'specification. Not a proof over all inputs.')
NOTES = {p: MON for p in props.CHECKS}
NOTES.update({p: COD for p in ('C03', 'C04')})
NOTES.update(getattr(props, 'NOTES', {}))
TECH = {p: 'TLA+ trace monitor (TLC) over scenarios replayed into the real code' for p in props.CHECKS}
TECH.update({p: 'TLA+ specification evaluated by TLC as oracle over enumerated and random inputs' for p in ('C03', 'C04')})
TECH.update(getattr(props, 'TECH', {}))
for p, m in props.MODEL.items():
    TECH[p] = 'TLA+ model %s explored by TLC, its scripts replayed into the real code; ' % m + TECH[p]
LEVEL = {p: 'model_checking' for p in props.CHECKS}
LEVEL.update({p: 'exploration' for p in ('C03', 'C04')})
LEVEL.update(getattr(props, 'LEVEL', {}))
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl')) if l.strip()]
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py',
     'checks': [{'property': p, 'quick_cmd': 'python3 check.py ' + p, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p,
                 'evidence_file': 'evidence/%s.json' % p, 'technique': TECH[p], 'level': LEVEL[p], 'level_note': NOTES[p]}
                for p in ids if p in props.CHECKS],
     'not_applicable': [{'property': p, 'reason': 'its check is not built yet'} for p in ids if p not in props.CHECKS],
     'notes': 'No hooks in /repo: schedule points are inserted at build time by a source overlay (harness/overlay), never committed.'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(m['checks']), 'checks', len(m['not_applicable']), 'open')
