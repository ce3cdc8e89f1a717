#!/usr/bin/env python3
"""Make and confirm planted bugs:  seed.py FILE.py [ID...]
FILE.py defines SEEDS = [dict(id, prop, file, old, new (or edits=[(file, old, new)]), needs, breaks, demo)]."""
import json, os, shutil, subprocess, sys, runpy
SEEDED = '/verif/seeded'
W = '/tmp/w/seed'
DEMO = '''#!/bin/bash
# cwd: the repository. Builds a small program against it and runs it.
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
mkdir "$w/src"
cp "$here/demo.rs" "$w/src/main.rs"
cat > "$w/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
json = { path = "$PWD" }
[workspace]
EOF
cd "$w" && CARGO_TARGET_DIR="$w/t" timeout 250 cargo run --offline -q
'''
def run(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main():
    seeds = runpy.run_path(sys.argv[1])['SEEDS']
    only = sys.argv[2:]
    for s in seeds:
        if only and s['id'] not in only: continue
        d = os.path.join(SEEDED, s['id'])
        if not only and os.path.exists(d): continue
        shutil.rmtree(W, ignore_errors=True)
        run(['cp', '-a', '/repo', W])
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        ok = True
        for f, old, new in s.get('edits') or [(s['file'], s['old'], s['new'])]:
            p = os.path.join(W, 'src', f); t = open(p).read()
            if t.count(old) != 1:
                print(s['id'], 'anchor count', t.count(old), repr(old)); ok = False; break
            open(p, 'w').write(t.replace(old, new))
        if not ok:
            shutil.rmtree(d); continue
        diff = subprocess.run(['git', '-C', W, 'diff'], stdout=subprocess.PIPE, text=True).stdout
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.sh', 'w').write(s.get('demo_sh') or DEMO); os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo.rs', 'w').write(s['demo'])
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        r0 = run([d + '/demo.sh'], cwd='/repo')
        r1 = run([d + '/demo.sh'], cwd=W)
        t = run(['cargo', 'test', '--offline', '-q'], cwd=W, env=dict(os.environ, CARGO_TARGET_DIR='/tmp/w/seedt'))
        warn = '' if r0.returncode == 0 and r1.returncode != 0 and t.returncode == 0 else '   <<<<<< BAD'
        print(s['id'], 'demo clean', r0.returncode, 'patched', r1.returncode, 'tests', t.returncode, warn)
        if warn:
            print((r0.stdout[-600:] if r0.returncode else '') + (r1.stdout[-300:] if not r1.returncode else '') + (t.stdout[-1500:] if t.returncode else ''))
    shutil.rmtree(W, ignore_errors=True)
main()
