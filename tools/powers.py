"""The contract of util/diyfp.rs: get_cached_power on every argument it admits.

The lines that estimate a logarithm in floating point are outside Verus; the
contract proof assumes them (log_estimate in contracts/grisu.rs). The real
function is run here on its whole domain, every scaled exponent from -1137 to
960, and the contract evaluated exactly, in whole numbers.
"""
import os
import re
import shutil
import subprocess
import tempfile

MAIN = '''
#[allow(dead_code, unused)]
#[path = "diyfp.rs"]
mod diyfp;
fn main() {
    for e in -1137isize..=960 {
        let r = std::panic::catch_unwind(|| unsafe { diyfp::get_cached_power(e) });
        match r {
            Ok((c, k)) => println!("{} {} {} {}", e, c.f, c.e, k),
            Err(_) => println!("{} panic", e),
        }
    }
}
'''


def contract(e, f, ce, k):
    """near_power(c, -k) and the window, as in contracts/grisu.rs"""
    if f < 1 << 63:
        return 'the significand is not normalised'
    # |2 f 2^ce - 2 10^-k| <= 2^ce, times 2^-ce or 10^k
    u = (2 ** ce if ce >= 0 else 1) * (10 ** k if k >= 0 else 1)
    b = (2 ** -ce if ce < 0 else 1) * (10 ** -k if k < 0 else 1)
    if abs(2 * f * u - 2 * b) > u:
        return 'not 10^%d to half a unit' % -k
    if not -60 <= e + ce + 64 <= -33:
        return 'the scaled exponent %d leaves its window' % (e + ce + 64)
    if not (-400 <= k <= 400 and -1300 <= ce <= 1100):
        return 'out of range'
    return None


def run(repo, work):
    d = tempfile.mkdtemp(prefix='powers-', dir=work)
    try:
        try:
            shutil.copy(os.path.join(repo, 'src/util/diyfp.rs'), os.path.join(d, 'diyfp.rs'))
        except OSError as e:
            return dict(ran=False, note=str(e), results=[])
        open(os.path.join(d, 'main.rs'), 'w').write(MAIN)
        try:
            p = subprocess.run(['rustc', '--edition', '2018', '-C', 'debug-assertions=on', '-o', os.path.join(d, 'powers'), os.path.join(d, 'main.rs')], capture_output=True, text=True, timeout=120, cwd=d)
            if p.returncode != 0:
                return dict(ran=False, note='get_cached_power does not compile on its own: ' + p.stderr[-300:], results=[])
            p = subprocess.run([os.path.join(d, 'powers')], capture_output=True, text=True, timeout=60)
        except subprocess.TimeoutExpired:
            return dict(ran=False, note='time-out', results=[])
        rows, bad = 0, []
        for l in p.stdout.splitlines():
            t = l.split()
            rows += 1
            if len(t) != 4:
                bad.append('e = %s: panics' % t[0])
                continue
            e, f, ce, k = map(int, t)
            w = contract(e, f, ce, k)
            if w:
                bad.append('e = %d: %d * 2^%d, k = %d: %s' % (e, f, ce, k, w))
        if rows != 960 + 1137 + 1:
            return dict(ran=False, note='ended early: ' + p.stderr[-300:], results=[])
        return dict(ran=True, what='util/diyfp.rs get_cached_power run on all %d exponents of its contract, results compared with the contract exactly' % rows,
                    results=[dict(id='grisu::get_cached_power', status='failed' if bad else 'held', why='; '.join(bad[:4]))])
    finally:
        shutil.rmtree(d, ignore_errors=True)


POWF = '''
fn main() {
    for k in 23usize..=32768 {
        println!("{} {} {}", k, 10f64.powf(std::hint::black_box(k) as f64).to_bits(), 10f32.powf(std::hint::black_box(k) as f32).to_bits());
    }
}
'''


def check_powf(k, bits, mbits, ebits):
    """ten_to_f64 and ten_to_f32 of contracts/back.rs, exactly"""
    top = (1 << (ebits - 1)) - 1
    if bits >> (mbits + ebits):
        return 'negative'
    ex, m = bits >> mbits, bits & ((1 << mbits) - 1)
    if k > (308 if mbits == 52 else 38):
        return None if ex == 2 * top + 1 and m == 0 else 'not infinite'
    if ex == 2 * top + 1 or ex == 0:
        return 'infinite, NaN or tiny'
    v = m | 1 << mbits
    s = ex - top - mbits
    # |v 2^s - 10^k| <= 10^k * 2^-mbits (two units of 2^-(mbits + 1))
    b = 10 ** k
    if s < 0:
        b <<= -s
    else:
        v <<= s
    return None if abs(v - b) << mbits <= b else 'off by more than two units'


def run_powf(repo, work):
    """powf of std as From<Number> uses it, on every exponent."""
    d = tempfile.mkdtemp(prefix='powf-', dir=work)
    try:
        open(os.path.join(d, 'main.rs'), 'w').write(POWF)
        rows, bad = 0, []
        for opt in ('0', '3'):
            try:
                p = subprocess.run(['rustc', '--edition', '2018', '-C', 'opt-level=' + opt, '-o', os.path.join(d, 'powf'), os.path.join(d, 'main.rs')], capture_output=True, text=True, timeout=120, cwd=d)
                if p.returncode != 0:
                    return dict(ran=False, note=p.stderr[-300:], results=[])
                p = subprocess.run([os.path.join(d, 'powf')], capture_output=True, text=True, timeout=60)
            except subprocess.TimeoutExpired:
                return dict(ran=False, note='time-out', results=[])
            for l in p.stdout.splitlines():
                k, a, b = map(int, l.split())
                rows += 1
                for w, t in ((check_powf(k, a, 52, 11), 'f64'), (check_powf(k, b, 23, 8), 'f32')):
                    if w:
                        bad.append('10%s.powf(%d): %s' % (t, k, w))
        if rows != 2 * (32768 - 23 + 1):
            return dict(ran=False, note='ended early', results=[])
        return dict(ran=True, what='10.powf(k) of std for k from 23 to 32768, both types, with and without optimisation, compared exactly with the assumed contract',
                    results=[dict(id='back::ten_to', status='failed' if bad else 'held', why='; '.join(bad[:4]))])
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    import sys
    print(run_powf('', '/tmp'))
    print(run(sys.argv[1] if len(sys.argv) > 1 else '/repo', '/tmp'))
