"""The assumed contracts on the standard library, run against it.

contracts/*.rs assume what some functions of std do (external_body stand-ins and
assume_specification). conform/main.rs writes those postconditions out again as
plain Rust and runs them: over the whole domain where that is possible (every
char, every pair of surrogates, every f32), over samples of all sizes otherwise.
It depends on the toolchain only, not on /repo. A disagreement means that the
proofs rest on something false: the check then gives no verdict.
"""
import os
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(work):
    d = tempfile.mkdtemp(prefix='conform-', dir=work)
    try:
        exe = os.path.join(d, 'conform')
        c = subprocess.run(['rustc', '--edition', '2018', '-O', '-o', exe, os.path.join(HERE, 'conform', 'main.rs')], cwd=d, capture_output=True, text=True, errors='replace')
        if c.returncode:
            return dict(ran=False, note='does not compile: ' + c.stderr[-500:], results=[])
        try:
            out = subprocess.run([exe], cwd=d, capture_output=True, text=True, errors='replace', timeout=400).stdout
        except subprocess.TimeoutExpired:
            return dict(ran=False, note='time-out', results=[])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    results, end = [], False
    for line in out.splitlines():
        f = line.split(' ', 4)
        if f[0] == 'end':
            end = True
        elif len(f) >= 4:
            results.append(dict(group=f[0], cases=int(f[1]), domain=f[2], status='ok' if f[3] == 'ok' else 'failed', why=f[4] if len(f) > 4 else ''))
    return dict(ran=end, what='contracts assumed of std, run against std (conform/main.rs)', results=results)
