"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
PY = '/opt/venv/bin/python'
T = {}
exec(open(os.path.join(here, 'tools', 'claims.py')).read())
checks, na = [], []
for p in props:
    i = p['id']
    if i in CLAIMS:
        tech, level, note = CLAIMS[i]
        cmd = 'PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 %s checks/%s.py' % (PY, i.lower())
        checks.append(dict(property=i, quick_cmd='VERIF_TIER=quick ' + cmd,
                           thorough_cmd='VERIF_TIER=thorough ' + cmd,
                           evidence_file='evidence/%s.json' % i,
                           technique=tech, level=level, level_note=note))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, 'no check registered yet')))
m = dict(version=1, setup_cmd='sh tools/setup.sh', checks=checks, not_applicable=na,
         notes='Checks import veriloggen from /repo at run time (nothing to rebuild), emit RTL into a scratch '
               'directory and explore it with Icarus Verilog or a Verilator-based explicit-state explorer. '
               'No hooks in /repo are needed.')
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'na')
