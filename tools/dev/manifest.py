"""Rewrite MANIFEST.json from config.PROPS and the list of what is not claimed."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
from config import PROPS, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(HERE))
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []
for p in ids:
    if p in PROPS:
        c = PROPS[p]
        checks.append(dict(property=p, quick_cmd='python3 tools/check.py %s --tier quick' % p, thorough_cmd='python3 tools/check.py %s --tier thorough' % p,
                           technique=c.get('technique', 'contracts on the real functions, discharged by Verus; labelled bounded stand-in for the rest'),
                           level=c['level'], level_note=c['note']))
na = [dict(property=p, reason=NOT_APPLICABLE[p]) for p in ids if p not in PROPS]
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
import subprocess
subprocess.check_call(['python3-vt', '-c', 'import json,jsonschema;jsonschema.validate(json.load(open("%s/MANIFEST.json")),json.load(open("/root/.vp/MANIFEST.schema.json")))' % V])
