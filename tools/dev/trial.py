#!/usr/bin/env python3
"""Run the property's check against planted bugs: trial.py [ID...]  (on a copy of /repo)"""
import json, os, shutil, subprocess, sys, re
S = '/verif/seeded'
ids = sys.argv[1:] or sorted(os.listdir(S))
for i in ids:
    m = json.load(open(f'{S}/{i}/meta.json'))
    W = f'/tmp/w/trial_{os.getpid()}'
    shutil.rmtree(W, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', W])
    subprocess.run(['git', '-C', W, 'apply', f'{S}/{i}/patch.diff'], check=True)
    env = dict(os.environ, VERIF_REPO=W, VERIF_SEED='1', VERIF_TIER='quick')
    r = subprocess.run(['python3', '/verif/tools/check.py', m['property'], '--tier', 'quick'], cwd='/verif', env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    v = [l for l in r.stdout.splitlines() if 'VIOLATION' in l]
    ev = json.load(open(f'/verif/evidence/{m["property"]}.json')) if os.path.exists(f'/verif/evidence/{m["property"]}.json') else {}
    failed = re.findall(r'(?m)^.*(?:failed obligation|FAILED|not proved).*$', r.stdout)
    print(i, m['property'], 'exit', r.returncode, v[:1], failed[:3], flush=True)
    shutil.rmtree(W, ignore_errors=True)
