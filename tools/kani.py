"""Bounded checks of functions with raw pointers on their real bodies.

The contracts of contracts/object.rs and contracts/raw.rs assume what single
operations on raw memory do. Kani runs the functions that use them as they
stand in /repo: a copy of the crate with a module of harnesses (kani/*.rs)
appended to the file. Bounded, and labelled so: keys of up to 34 bytes, stores
of two entries, short strings of all lengths.
"""
import os
import re
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = {
    'object': ('object.rs', ['life_of_a_key', 'store_moves', 'store_has_room', 'store_moves_a_long_key']),
    'short': ('short.rs', ['short_keeps_its_text', 'short_of_nothing']),
}


def run(repo, work, which):
    file, names = FILES[which]
    d = tempfile.mkdtemp(prefix='kani-', dir=work)
    try:
        os.mkdir(os.path.join(d, 'c'))
        for x in ('src', 'Cargo.toml', 'Cargo.lock', 'README.md', 'benches', 'tests'):
            p = os.path.join(repo, x)
            if os.path.isdir(p):
                shutil.copytree(p, os.path.join(d, 'c', x))
            elif os.path.exists(p):
                shutil.copy(p, os.path.join(d, 'c', x))
        with open(os.path.join(d, 'c', 'src', file), 'a', encoding='utf-8') as f:
            f.write(open(os.path.join(HERE, 'kani', file), encoding='utf-8').read())
        cmd = ['cargo', 'kani', '--target-dir', os.path.join(d, 't'), '--output-format', 'terse']
        for n in names:
            cmd += ['--harness', n]
        env = dict(os.environ, CARGO_NET_OFFLINE='true')
        import signal
        p = subprocess.Popen(cmd, cwd=os.path.join(d, 'c'), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', start_new_session=True)
        try:
            out, _ = p.communicate(timeout=300)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.communicate()
            return dict(ran=False, note='time-out', results=[])
        results = parse(out, names)
        if len(results) != len(names):
            return dict(ran=False, note='does not attach to the current source: ' + ' '.join(l for l in out.splitlines() if l.startswith('error'))[:300], results=results)
        return dict(ran=True, what='bounded model checking (Kani) of the real functions in src/%s, harnesses appended by kani/%s' % (file, file), results=results)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def parse(out, names):
    results = []
    parts = re.split(r'^Checking harness ', out, flags=re.M)[1:]
    for p in parts:
        name = re.match(r'[\w:]+', p).group(0).split('::')[-1]
        if name not in names:
            continue
        if 'VERIFICATION:- SUCCESSFUL' in p:
            results.append(dict(id='kani::' + name, status='held', why=''))
            continue
        bad = re.findall(r'^Failed Checks: (.*)$', p, flags=re.M)
        real = [b for b in bad if 'unwinding assertion' not in b and 'not currently supported' not in b and 'unsupported' not in b]
        # out of memory, unwinding or unsupported: no answer
        undecided = not real or 'CBMC failed' in p or 'out of memory' in p.lower()
        results.append(dict(id='kani::' + name, status='undecided' if undecided else 'failed', why='; '.join((real or bad)[:4])))
    return results


if __name__ == '__main__':
    import sys
    print(run(sys.argv[1], '/tmp', sys.argv[2]))
