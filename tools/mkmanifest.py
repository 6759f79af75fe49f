"""Regenerates /verif/MANIFEST.json from the property list and the registered checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
NOT_APPLICABLE = {
    'F31': 'A pure function of the expression and the test\'s address and tags: no schedule, clock, I/O, fault or second party for it to depend on, so there is nothing to simulate.',
    'F32': 'A pure function of the text of the suite file: no schedule, clock, fault or second party; the only I/O is one whole-file read before the run.',
    'F33': 'A pure function of the declared parameters: no schedule, clock, I/O, fault or second party. (The values tests receive at run time, under failures, are S14.)',
    'F34': 'A pure function of the argument vector and the configuration: no schedule, clock, I/O, fault or second party. (That the previous configuration comes back after any run is S20.)',
}
NOTES = json.load(open(os.path.join(V, 'tools', 'level_notes.json')))
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    if p in NOT_APPLICABLE:
        na.append({'property': p, 'reason': NOT_APPLICABLE[p]})
    elif p in NOTES:
        checks.append({
            'property': p,
            'quick_cmd': '{} sim/check.py {}'.format(PY, p),
            'thorough_cmd': '{} sim/check.py {} --tier thorough'.format(PY, p),
            'evidence_file': 'evidence/{}.json'.format(p),
            'technique': NOTES[p]['technique'],
            'level': 'exploration',
            'level_note': NOTES[p]['note'],
        })
    else:
        na.append({'property': p, 'reason': 'the technique applies (see DESIGN.md), its check is not built yet'})
m = {'version': 1,
     'setup_cmd': PY + ' sim/selftest.py',
     'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: every seam is a standard-library module (time, threading, signal, socket, subprocess, sqlite3, ...) replaced inside a throw-away forked process. '
              'Every check imports slash afresh from /repo\'s working tree (bytecode cache redirected to a scratch directory). Replay: sim/check.py PROP --replay FILE.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
