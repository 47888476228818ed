"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
checks, missing = [], []
for line in open(os.path.join(VERIF, 'properties.jsonl')):
    prop = json.loads(line)
    pid = prop['id']
    path = os.path.join(VERIF, 'checks', pid.lower() + '.py')
    if not os.path.exists(path):
        missing.append({'property': pid, 'reason': 'its check is not built yet'})
        continue
    checks.append({
        'property': pid,
        'quick_cmd': '%s run.py %s' % (PY, pid),
        'thorough_cmd': '%s run.py %s --tier thorough' % (PY, pid),
        'technique': 'property-based testing (Hypothesis): generated '
                     'declarations, values and operation histories against an '
                     'independent reference model; failures are shrunk',
        'level': 'exploration',
        'level_note': 'Search over generated cases, seeded by VERIF_SEED; says '
                      'nothing about cases outside the generators described in '
                      'DESIGN.md. Trusts CPython, numpy, six, vectormath, '
                      'pypng, Hypothesis and the models in vlib/ and checks/.',
    })
out = {
    'version': 1,
    'setup_cmd': '%s run.py --selftest' % PY,
    'checks': checks,
    'not_applicable': missing,
    'notes': 'No hooks: the checks use the public interface of the library '
             'only. Replay: run.py <ID> --replay <file>.',
}
with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as fid:
    json.dump(out, fid, indent=1)
    fid.write('\n')
