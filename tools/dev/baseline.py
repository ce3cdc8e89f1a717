#!/usr/bin/env python3
"""Write tools/baseline.json: a digest of the text of every function under contract."""
import json, os, sys, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))) + '/tools')
import check, extract
from config import PROPS
mods = []
for p in PROPS.values():
    for m in p['modules']:
        if m not in mods: mods.append(m)
out = {}
extract.BASE.clear()
for p in PROPS.values():
    d = tempfile.mkdtemp()
    for f in extract.build('/repo', d, p['modules'], {}):
        if f.get('src'): out[f['id']] = [check.digest(f['src']), f.get('loops', ''), {k: v for k, v in sorted((f.get('rewrites') or {}).items())}, ' '.join(f.get('calls') or [])]
    shutil.rmtree(d)
open(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))) + '/tools/baseline.json', 'w').write('{\n' + ',\n'.join(json.dumps(k) + ': ' + json.dumps(v) for k, v in sorted(out.items())) + '\n}\n')
print(len(out))
open(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))) + '/tools/words.json', 'w').write(json.dumps(check.literals(), sort_keys=True, indent=0) + '\n')
