#!/usr/bin/env python3
"""Decide one property of /repo's current tree.

  python3 tools/check.py C13 [--tier quick|thorough]

1. Contracts: the functions the property depends on are copied from /repo,
   their contracts (contracts/*.rs) attached, and Verus has to accept every
   obligation.
2. Bounded stand-in: the harness runs the real crate against independent
   reference models. It is never counted as proved; it supplies the failing
   input when an obligation fails, and covers what is not under contract.

Exit 0: held. Exit 1 with a VIOLATION line: broken. Exit 2: the check could
not run.
"""
import argparse
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)
import extract  # noqa: E402
import rustlex  # noqa: E402
from config import PROPS  # noqa: E402

ENV = dict(os.environ, CARGO_NET_OFFLINE='true')
ENV.pop('RUSTFLAGS', None)


def run(cmd, timeout, cwd=None, env=None):
    """(exit code or None on time-out, stdout, stderr)"""
    p = subprocess.Popen(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode('utf-8', 'replace'), e.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        o, e = p.communicate()
        return None, o.decode('utf-8', 'replace'), e.decode('utf-8', 'replace')


# ------------------------------------------------------------------ contracts

def digest(text):
    return hashlib.sha256(text.encode()).hexdigest()[:16]


class Regions:
    """Which function or lemma a line of the generated crate belongs to."""

    def __init__(self, crate):
        self.by_file = {}
        for f in os.listdir(crate):
            if f.endswith('.rs'):
                cur, last, rows = None, None, []
                for line in open(os.path.join(crate, f), encoding='utf-8'):
                    m = re.match(r'//@F (.*)$', line)
                    if m:
                        cur = m.group(1)
                    if cur is None:
                        m = re.search(r'\bfn\s+(\w+)', line)
                        if m:
                            last = '%s::%s' % (f[:-3], m.group(1))
                    rows.append(cur or last)
                    if line.startswith('//@E '):
                        cur = None
                self.by_file[f] = rows

    def at(self, f, line):
        rows = self.by_file.get(os.path.basename(f))
        if rows and 0 < line <= len(rows):
            return rows[line - 1]
        return None


VERIFICATION = ('postcondition not satisfied', 'precondition not satisfied', 'assertion failed', 'invariant not satisfied',
                'possible arithmetic', 'decreases not satisfied', 'possible division by zero', 'possible bit shift', 'resource limit',
                'rlimit', 'loop invariant', 'could not prove', 'possible ', 'unreachable', 'termination', 'recommendation',
                'failed', 'not satisfied', 'timed out', 'while loop:', 'could not show', 'split assertion')


def is_verification(d):
    m = d['message'].lower()
    return d.get('code') is None and any(x in m for x in VERIFICATION) and 'not supported' not in m


def where(d, regions):
    """Function of a diagnostic: the primary span, else any span."""
    cand = []
    for s in sorted(d['spans'], key=lambda s: not s['is_primary']):
        r = regions.at(s['file_name'], s['line_start'])
        if r:
            cand.append((r, os.path.basename(s['file_name']), s['line_start'], s.get('label') or ''))
    if d['message'].startswith('precondition') or 'invariant' in d['message']:
        pass
    return cand


def gave_up(why):
    return all('rlimit' in x or 'Resource limit' in x for x in why)


def verify(cfg, tier, log):
    """Returns a dict describing what Verus accepted."""
    mods = cfg['modules']
    res = dict(ran=False, verified=0, errors=0, failed=[], undischarged=[], functions=[], solver_ms=0, lemmas=0, cmd='', trusted=[], note=[])
    assumed = {}
    end = time.time() + cfg.get('verus_timeout', 560)
    rlimit = cfg.get('rlimit', 30)
    retries, smt_seed, gave = 0, 0, False
    crate = tempfile.mkdtemp(prefix='contracts-', dir=workdir())
    try:
        for attempt in range(12):
            try:
                fns = extract.build(REPO, crate, extract_list(mods), assumed)
            except extract.Lost as e:
                res['note'].append('the contracts do not attach to the current source: %s' % e)
                return res
            except Exception as e:  # the source does not even lex
                res['note'].append('extraction failed: %r' % (e,))
                return res
            cmd = ['verus', 'lib.rs', '--output-json', '--time-expanded', '--error-format=json', '--multiple-errors', '3',
                   '--num-threads', '4', '--rlimit', str(rlimit)]
            for m in cfg.get('verify', mods):
                cmd += ['--verify-only-module', m]
            cmd += ['--smt-option', 'timeout=%d' % (1000 * cfg.get('smt_timeout', 150))]
            if smt_seed:
                cmd += ['--smt-option', 'smt.random_seed=%d' % smt_seed]
            res['cmd'] = 'verus ' + ' '.join(cmd[1:])
            code, out, err = run(cmd, max(20, end - time.time()), cwd=crate)
            if code is None:
                res['note'].append('the verifier did not finish')
                res['undischarged'].append(dict(function='*', why='the verifier did not finish'))
                return res
            try:
                data = json.loads(out)
            except ValueError:
                data = None
            diags = []
            for l in err.splitlines():
                if l.startswith('{'):
                    try:
                        d = json.loads(l)
                    except ValueError:
                        continue
                    if d.get('level', '').startswith('error') and d.get('spans'):
                        diags.append(d)
            regions = Regions(crate)
            vr = (data or {}).get('verification-results') or {}
            hard = [d for d in diags if not is_verification(d)]
            if vr.get('success') is None or hard:
                # something the verifier cannot read: leave that function out
                new = {}
                for d in hard:
                    w = [c for c in where(d, regions) if any(f['id'] == c[0] for f in fns)]
                    if w and w[0][0] not in assumed:
                        new[w[0][0]] = 'outside the verifier\'s reach: %s' % d['message'][:200]
                if new and attempt < 11:
                    assumed.update(new)
                    continue
                text = '; '.join(d['message'][:160] for d in hard[:3]) or err[-400:]
                res['note'].append('the verifier rejected the input: %s' % text)
                return res
            if not vr.get('success') and not vr.get('errors') and not diags:
                # the verifier itself broke down: leave out what is not as it was when the contracts were written
                base = extract.BASE
                new = {f['id']: 'outside the verifier\'s reach: it broke down on this text' for f in fns
                       if not f['assumed'] and f.get('src') and base.get(f['id'], [''])[0] != digest(f['src']) and f['id'] not in assumed}
                if new and attempt < 11:
                    assumed.update(new)
                    continue
                res['note'].append('the verifier broke down: ' + err[-300:])
                return res
            res['ran'] = True
            res['verified'] = vr.get('verified', 0)
            res['errors'] = vr.get('errors', 0)
            smt = data.get('times-ms', {}).get('smt', {})
            res['solver_ms'] = smt.get('smt-run', 0)
            seen = {}
            for m in smt.get('smt-run-module-times', []):
                for f in m.get('function-breakdown', []):
                    seen[f['function']] = f.get('success', True)
            res['queries'] = len(seen)
            bad = {}
            for d in diags:
                w = where(d, regions)
                name = w[0][0] if w else None
                # a call's precondition fails in the caller
                if d['message'].startswith('precondition'):
                    for c in w:
                        if 'failed precondition' not in c[3]:
                            name = c[0]
                            break
                spans = '; '.join('%s:%d %s' % (c[1], c[2], c[3]) for c in w)
                lines = []
                for s in d['spans']:
                    for t in s.get('text', [])[:2]:
                        lines.append(t['text'].strip())
                bad.setdefault(name or 'unknown', []).append('%s [%s] %s' % (d['message'], spans, ' | '.join(lines)[:300]))
            # where a step of the proof found no place in the changed text, a
            # failure says nothing about the code
            new = {f['id']: 'the proof could not be attached: no place for ' + '; '.join(f['hints_lost'])[:150] for f in fns
                   if f['id'] in bad and f.get('hints_lost') and f['id'] not in assumed}
            if new and attempt < 11:
                assumed.update(new)
                continue
            # the solver gave up: once more with more patience, then along other paths
            if bad and all(gave_up(v) for v in bad.values()) and retries < 3 and end - time.time() > 240:
                if retries == 0:
                    rlimit *= 5
                smt_seed = retries
                retries += 1
                res['note'].append('the solver reached its resource limit in %s; repeated (%d)' % (', '.join(sorted(bad)), retries))
                continue
            # a solver that gives up on a function that is as it was when its contract was written says
            # nothing about the change
            same = {f['id'] for f in fns if f.get('src') and extract.BASE.get(f['id'], [''])[0] == digest(f['src'])}
            named = {f['id'] for f in fns}
            for k in [k for k, v in bad.items() if gave_up(v) and (k in same or k not in named)]:
                res['undischarged'].append(dict(function=k, why=bad.pop(k)))
                for f in fns:
                    if f['id'] == k:
                        f['assumed'] = 'the solver reached its resource limit on this text, which is not changed'
                res['note'].append('not decided: the solver reached its resource limit in %s, whose text is not changed' % k)
                gave = True
            for k, v in bad.items():
                res['failed'].append(dict(function=k, why=v))
            if res['errors'] and not bad and not gave:
                res['failed'].append(dict(function='unknown', why=[err[-600:]]))
            for f in fns:
                res['functions'].append(dict(id=f['id'], src='src/%s' % f['file'], module=f['module'], assumed=f['assumed'], by_contract=f.get('by_contract', False), rewrites=f.get('rewrites') or {}, hints_lost=f.get('hints_lost') or []))
            res['trusted'] = trusted(crate, mods, fns)
            return res
        return res
    finally:
        shutil.rmtree(crate, ignore_errors=True)


def extract_list(mods):
    return list(mods)


def trusted(crate, mods, fns):
    """Everything the proof takes on faith, read off the generated crate."""
    out = []
    for m in mods:
        t = open(os.path.join(crate, m + '.rs'), encoding='utf-8').read()
        for x in re.finditer(r'assume_specification[^\[;{]*\[([^\]]*(?:\[[^\]]*\][^\]]*)*)\]', t):
            out.append('%s: assumed contract of %s' % (m, re.sub(r'\s+', ' ', x.group(1)).strip()))
        for x in re.finditer(r'#\[verifier::external_body\]\s*(?:\n[^\n]*#\[[^\n]*)*\s*(?:pub(?:\([^)]*\))?\s+)?((?:unsafe\s+|broadcast\s+|uninterp\s+)*(?:proof\s+|exec\s+)?(?:fn|struct)\s+\w+)', t):
            out.append('%s: body not checked: %s' % (m, x.group(1)))
        for x in re.finditer(r'\b(admit\(\)|assume\([^;]*\))', t):
            out.append('%s: %s' % (m, x.group(1)))
        for x in re.finditer(r'external_type_specification\]?\)?\]?[^;{]*?struct\s+\w+\s*(?:<[^>]*>)?\s*\(([^)]*)\)', t):
            out.append('%s: external type %s' % (m, x.group(1).strip()))
        for x in re.finditer(r'pub uninterp spec fn (\w+)', t):
            out.append('%s: uninterpreted function %s' % (m, x.group(1)))
        for x in re.finditer(r'axiom fn (\w+)', t):
            out.append('%s: axiom %s' % (m, x.group(1)))
    return out


# ------------------------------------------------------------------ bounded stand-in

def workdir():
    d = os.path.join(VERIF, '.work')
    os.makedirs(d, exist_ok=True)
    return d


class Harness:
    def __init__(self, pid, seed):
        self.pid, self.seed = pid, seed
        self.env = dict(ENV)
        self.dir = tempfile.mkdtemp(prefix='harness-', dir=workdir())
        self.bin = None
        self.err = ''

    def build(self):
        src = os.path.join(self.dir, 'crate')
        shutil.copytree(os.path.join(VERIF, 'harness'), src, ignore=shutil.ignore_patterns('target', 'Cargo.lock'))
        toml = os.path.join(src, 'Cargo.toml')
        t = open(toml).read().replace('path = "/repo"', 'path = "%s"' % REPO)
        open(toml, 'w').write(t)
        env = dict(ENV, CARGO_TARGET_DIR=os.path.join(self.dir, 'target'))
        build = ['cargo', 'build', '--offline', '--quiet']
        code = 1
        if self.pid == 'C17':
            # without the uses of the macros if they do not compile: the contracts on the macros decide then
            code, out, err = run(build + ['--features', 'macros'], 600, cwd=src, env=env)
        if code != 0:
            code, out, err = run(build, 600, cwd=src, env=env)
        self.err = err
        if code == 0:
            self.bin = os.path.join(self.dir, 'target', 'debug', 'harness')
        return self.bin is not None

    def search(self, budget, seed, stop=None):
        """dict(ok=..., ...) or dict(fail=..., case=..., seed=...)"""
        code, out, err = run([self.bin, 'search', self.pid, '--seed', str(seed), '--budget', str(budget), '--dir', self.dir], budget + 120, env=self.env)
        first = out.split('\n', 1)[0]
        if code == 0 and first.startswith('OK '):
            return dict(ok=json.loads(first[3:]))
        m = re.match(r'(FAIL|HANG) case=(\d+)', first)
        if m:
            return dict(fail=out.strip(), case=int(m.group(2)), seed=seed, hang=m.group(1) == 'HANG')
        # a crash: which case was running?
        cases = []
        try:
            b = open(os.path.join(self.dir, 'cases'), 'rb').read()
            cases = sorted(int.from_bytes(b[i:i + 8], 'little') for i in range(0, len(b), 8))
        except OSError:
            pass
        for c in cases:
            code2, out2, err2 = run([self.bin, 'replay', self.pid, '--seed', str(seed), '--case', str(c)], 60, env=self.env)
            if code2 != 0:
                return dict(fail='FAIL case=%d: the process %s\n%s\n%s' % (c, 'hangs' if code2 is None else 'ended with %s' % code2, out2.strip(), err2.strip()[-600:]), case=c, seed=seed, hang=code2 is None)
        return dict(error='the harness ended with %s: %s %s' % (code, out[-300:], err[-300:]))

    def confirm(self, r):
        """A failure counts when the same case fails again."""
        code, out, err = run([self.bin, 'replay', self.pid, '--seed', str(r['seed']), '--case', str(r['case'])], 90, env=self.env)
        if code == 0:
            return None
        if code is None:
            return 'the case does not end within 90 s\n' + r['fail']
        return out.strip() or ('the process ended with %s\n%s\n%s' % (code, r['fail'], err.strip()[-800:]))

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


# ------------------------------------------------------------------ new words

def literals():
    """The literals of each source file, without tests and attributes: 'i12', 'f0.5', 't<hex>' -> how often."""
    out = {}
    for d, _, fs in os.walk(os.path.join(REPO, 'src')):
        for f in sorted(fs):
            if f.endswith('.rs'):
                try:
                    toks = rustlex.lex(open(os.path.join(d, f), encoding='utf-8').read())
                except (SyntaxError, UnicodeDecodeError, OSError):
                    continue
                c = out.setdefault(os.path.relpath(os.path.join(d, f), os.path.join(REPO, 'src')), {})
                for t in toks:
                    w = word_of(t)
                    if w:
                        c[w] = c.get(w, 0) + 1
    return out


def word_of(t):
    x = t.t
    if t.k == 'num':
        m = re.match(r'(0x[0-9a-fA-F_]+?|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*)([iu](?:8|16|32|64|128|size))?$', x)
        if m:
            return 'i%d' % (int(m.group(1).replace('_', ''), 0 if m.group(1)[:2] in ('0x', '0b', '0o') else 10) % 2 ** 64)
        m = re.match(r'([0-9_]+(?:\.[0-9_]*)?(?:[eE][+-]?[0-9_]+)?)_?(f32|f64)?$', x)
        return 'f' + m.group(1).replace('_', '') if m else None
    if t.k in ('char', 'str'):
        y = x[x.index("'" if t.k == 'char' else '"') + 1:-1]
        y = re.sub(r'\\u\{([0-9a-fA-F_]+)\}', lambda m: chr(int(m.group(1).replace('_', ''), 16)), y)
        y = re.sub(r'\\x([0-9a-fA-F]{2})', lambda m: chr(int(m.group(1), 16)), y)
        y = re.sub(r'\\\n\s*', '', y)
        y = re.sub(r'\\([nrt0\\\'"])', lambda m: {'n': '\n', 'r': '\r', 't': '\t', '0': '\0'}.get(m.group(1), m.group(1)), y)
        return 'i%d' % ord(y) if t.k == 'char' and len(y) == 1 else 't' + y.encode('utf-8', 'ignore').hex() if len(y) < 200 else None
    return None


def new_words():
    """Literals that the source has gained since the contracts were written: hints for the search, nothing is decided by them."""
    try:
        old = json.load(open(os.path.join(HERE, 'words.json')))
        now = literals()
    except Exception:
        return []
    out = []
    for f, c in sorted(now.items()):
        for w, n in sorted(c.items()):
            if n > old.get(f, {}).get(w, 0) and w not in ('i0', 'i1', 't') and w not in out:
                out.append(w)
    return out[:60]


# ------------------------------------------------------------------ the check

def in_cone(cfg, f):
    return f == 'unknown' or f == '*' or any(re.search(p, f) for p in cfg['cone'])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    pid = a.prop
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    cfg = PROPS[pid]
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()
    ev = os.path.join(VERIF, 'evidence')
    os.makedirs(os.path.join(ev, 'replay'), exist_ok=True)

    vres = {}

    def contracts():
        try:
            vres.update(verify(cfg, tier, None))
        except Exception as e:
            vres.update(ran=False, verified=0, errors=0, failed=[], undischarged=[], functions=[], solver_ms=0, cmd='', trusted=[], note=['internal error: %r' % (e,)])
    kres = {}
    extra = []
    if cfg.get('exhaustive'):
        import powers
        run = powers.run if cfg['exhaustive'] == 'powers' else powers.run_powf
        def whole_domain():
            try:
                kres.update(run(REPO, workdir()))
            except Exception as e:
                kres.update(ran=False, note='internal error: %r' % (e,), results=[])
        extra.append(threading.Thread(target=whole_domain))
    bres = {}
    if cfg.get('kani'):
        import kani
        def bounded_model_checking():
            try:
                bres.update(kani.run(REPO, workdir(), cfg['kani']))
            except Exception as e:
                bres.update(ran=False, note='internal error: %r' % (e,), results=[])
        extra.append(threading.Thread(target=bounded_model_checking))
    cres = {}
    if tier == 'thorough':
        import conform

        def assumed_of_std():
            try:
                cres.update(conform.run(workdir()))
            except Exception as e:
                cres.update(ran=False, note='internal error: %r' % (e,), results=[])
        extra.append(threading.Thread(target=assumed_of_std))
    vt = threading.Thread(target=contracts)
    vt.start()
    for t in extra:
        t.start()
    h = Harness(pid, seed)
    bounded, violation, problem = None, None, None
    try:
        if not h.build():
            problem = 'the harness does not build against the current tree: ' + h.err[-1500:]
        else:
            budget = cfg.get('budget', 20) if tier == 'quick' else cfg.get('budget_thorough', 240)
            r = h.search(budget, seed)
            if 'fail' in r:
                c = h.confirm(r)
                if c:
                    violation = (r, c)
                else:
                    problem = 'a failure did not repeat: ' + r['fail'][:400]
            elif 'ok' in r:
                bounded = r['ok']
            else:
                problem = r['error']
        vt.join()
        for t in extra:
            t.join()
        failed = [f for f in vres['failed'] if in_cone(cfg, f['function'])]
        failed += [dict(function=k['id'], why=[k['why']]) for k in kres.get('results', []) + bres.get('results', []) if k['status'] == 'failed']
        open_ = [f for f in vres['functions'] if f['assumed'] and not f['by_contract'] and in_cone(cfg, f['id'])]
        words = new_words() if h.bin else []
        if (failed or open_ or words or not vres['ran']) and not violation and h.bin:
            # look harder for the input, near the words that are new in the source
            h.env['HARNESS_WORDS'] = ','.join(words)
            r = h.search(cfg.get('budget_failed', 120) if failed or open_ or not vres['ran'] else 20, seed + 7777)
            if 'fail' in r:
                c = h.confirm(r)
                if c:
                    violation = (r, c)
    finally:
        h.close()
    fns = [f for f in vres['functions'] if in_cone(cfg, f['id'])]
    proved = [f for f in fns if not f['assumed']]
    bad_names = {f['function'] for f in failed}
    obligations = vres['verified'] + vres['errors'] + len(open_)
    # the verifier must have had something to prove
    if vres['ran'] and not failed and vres['verified'] < cfg.get('min_verified', 1):
        vres['note'].append('the verifier discharged only %d obligations, %d expected' % (vres['verified'], cfg['min_verified']))
    coverage = dict(
        obligations=obligations,
        discharged=vres['verified'],
        checker_cmd=vres['cmd'] or 'verus (did not run)',
        back_end='Verus 0.2026.09.13 with Z3',
        trusted_base=vres['trusted'] + cfg.get('trusted', []),
        functions_under_contract=[f['id'] for f in proved if f['id'] not in bad_names],
        functions_not_proved=[dict(function=f['id'], why=f['assumed']) for f in open_ + [x for x in fns if x['assumed'] and x['by_contract']]] + [dict(function=f['function'], why=f['why']) for f in failed],
        rewrites={f['id']: f['rewrites'] for f in fns if f['rewrites']},
        solver_ms=vres['solver_ms'],
        other_functions_failing=[f['function'] for f in vres['failed'] if not in_cone(cfg, f['function'])],
        not_under_contract=cfg.get('outside', []),
        notes=vres['note'],
        bounded_stand_in=dict(label='bounded, not proved', tool='harness (real crate against reference models)', **(bounded or {})) if bounded else dict(label='bounded, not proved', note=problem or 'found a violation'),
    )
    if kres:
        coverage['whole_domain'] = dict(label='run on every argument, not proved', **kres)
    if bres:
        coverage['bounded_model_checking'] = dict(label='bounded, not proved', **bres)
    if cres:
        coverage['assumed_contracts_run_against_std'] = dict(label='tested, not proved; on the whole domain where that is said', **cres)
        bad = [k for k in cres['results'] if k['status'] == 'failed']
        if bad and not problem:
            problem = 'an assumed contract on std does not hold: %s: %s' % (bad[0]['group'], bad[0]['why'])
    if bounded:
        coverage['evaluations'] = bounded['evaluations']
        coverage['distinct_nontrivial'] = bounded['distinct_nontrivial']
        coverage['rule'] = bounded['rule']
        coverage['samples'] = bounded['samples']
    report = dict(property=pid, tier=tier, seed=seed, level=cfg['level'], coverage=coverage, assumptions=cfg.get('assumptions', []) + COMMON, wall_s=round(time.time() - t0, 2), violations=1 if (violation or failed) else 0)
    json.dump(report, open(os.path.join(ev, pid + '.json'), 'w'), indent=1, ensure_ascii=False)
    replay = os.path.join(ev, 'replay', pid + '.txt')
    print('%s: %d obligations, %d discharged, %d functions of the property under contract; bounded: %s cases; %.0f s' % (
        pid, obligations, vres['verified'], len(proved), (bounded or {}).get('evaluations', 0), time.time() - t0))
    for n in vres['note']:
        print('  note: ' + n[:300])
    for f in open_:
        print('  not proved: %s (%s)' % (f['id'], f['assumed'][:160]))
    if violation:
        r, text = violation
        with open(replay, 'w') as f:
            f.write('property %s is violated on the current tree of %s\n\n%s\n\n' % (pid, REPO, text))
            f.write('to run it again:\n  cd %s/harness && HARNESS_WORDS=%s CARGO_TARGET_DIR=/tmp/harness-target cargo run --offline -q %s-- replay %s --seed %d --case %d\n\n' % (VERIF, h.env.get('HARNESS_WORDS', ''), '--features macros ' if pid == 'C17' else '', pid, r['seed'], r['case']))
            for x in failed:
                f.write('failed obligation in %s:\n  %s\n' % (x['function'], '\n  '.join(x['why'])))
        print('  ' + text[:600].replace('\n', '\n  '))
        print('VIOLATION property=%s replay=%s' % (pid, replay))
        return 1
    if failed:
        with open(replay, 'w') as f:
            f.write('property %s: the verifier does not accept these obligations on the current tree of %s\n(no failing input was found by the bounded search)\n\n' % (pid, REPO))
            for x in failed:
                f.write('failed obligation in %s:\n  %s\n' % (x['function'], '\n  '.join(x['why'])))
            f.write('\n%s\n' % vres['cmd'])
        for x in failed:
            print('  failed obligation in %s: %s' % (x['function'], x['why'][0][:300]))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, replay))
        return 1
    if problem:
        print('  ' + problem[:1500])
        return 2
    for k in known(pid):
        print('KNOWN-FINDING: property=%s %s' % (pid, k))
    return 0


def known(pid):
    out = []
    try:
        for l in open(os.path.join(VERIF, 'known-findings.txt'), encoding='utf-8'):
            m = re.match(r'known: property=(\S+) (.*)$', l.strip())
            if m and m.group(1) == pid:
                out.append(m.group(2))
    except OSError:
        pass
    return out


COMMON = [
    'Verus, its encoding and Z3 are correct; rustc compiles the code that was verified',
    'the contract extractor copies tokens faithfully; what it rewrites is listed per function under coverage.rewrites',
    'usize is 64 bits wide',
]

if __name__ == '__main__':
    sys.exit(main())
