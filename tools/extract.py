"""Build the Verus crate from /repo's sources and /verif/contracts.

A contract file is Verus text with directives. Every executable function and
type in it is copied, token for token, from /repo on every run; the contract
file only adds specifications around it. Directives:

  @@item FILE | KIND NAME [| rewrite...]   copy a struct/enum/const/static/type
  @@fn FILE | CONTAINER | NAME             copy a function (CONTAINER: normalised
                                           impl/trait header, or - for none)
    @ret NAME        name the result
    @spec            requires/ensures text (until the next @line)
    @loop K          invariant/decreases text for the K-th loop
    @loopattr K      attribute in front of the K-th loop
    @entry           proof text at the start of the body
    @exit            proof text before the final expression is NOT supported
    @before PAT      text before the statement that contains PAT
    @after PAT       text after the statement that contains PAT
    @rw PAT => REP   token rewrite inside this function
    @lift NAME       use the macro body NAME as a function (see lifted macros)
    @attr TEXT       attribute text for the function
    @floats NAME     float literals become NAME(digits, exponent)
    @invoke ARGS     (lifted macros) the function is `NAME! ARGS`, expanded by the macro's own arms
    @wrap            (lifted macros) the value of the macro becomes Ok(value)
    @sig TEXT        replace the signature (parameter types only; shown in the evidence)
    @split COND      prove the body once per case (COND.., and the rest)
    @decl            declaration only (the default body is copied into the impls)
    @assume REASON   emit the contract with the body not checked
  @@end
  @@for V in a b c / @@endfor              repeat, {V} substituted
  @@rules / @@endrules                     PAT => REP rewrites for the whole file
"""
import json
import os
import re
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import rustlex as R  # noqa: E402

HERE = os.path.dirname(os.path.abspath(__file__))
CONTRACTS = os.path.join(os.path.dirname(HERE), 'contracts')


def baseline():
    # digest and kinds of loops of each function when its contract was written
    try:
        return json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'baseline.json')))
    except (OSError, ValueError):
        return {}


BASE = baseline()


class Lost(Exception):
    """An anchor of the contract does not exist in the source."""


class Source:
    def __init__(self, repo):
        self.repo = repo
        self.files = {}

    def file(self, name):
        if name not in self.files:
            path = os.path.join(self.repo, 'src', name)
            if not os.path.exists(path):
                raise Lost('no file src/' + name)
            toks = R.lex(open(path, encoding='utf-8').read())
            macros = {}
            items = R.scan_items(toks, macros)
            self.files[name] = (items, macros)
        return self.files[name]

    def find_fn(self, fname, container, name):
        items, _ = self.file(fname)
        if container == '-':
            c = [i for i in items if i.kind == 'fn' and i.name == name]
        else:
            want = R.norm(R.lex(container))
            c = []
            for i in items:
                if i.kind in ('impl', 'trait') and i.header == want:
                    c += [j for j in i.items if j.kind == 'fn' and j.name == name]
        if not c and name == 'clone' and container.startswith('impl Clone for '):
            c = derived_clone(items, container[len('impl Clone for '):].strip())
        if len(c) != 1:
            raise Lost('%d functions %s in `%s` of src/%s' % (len(c), name, container, fname))
        return c[0]

    def find_item(self, fname, kind, name):
        items, _ = self.file(fname)
        c = [i for i in items if i.name == name and (i.kind == kind or (kind in ('const', 'static') and i.kind in ('const', 'static')))]
        if len(c) != 1:
            raise Lost('%d items %s %s in src/%s' % (len(c), kind, name, fname))
        return c[0]


def derived_clone(items, name):
    """The function #[derive(Clone)] stands for, written out from the item:
    every field cloned, every variant matched to itself."""
    its = [i for i in items if i.kind in ('struct', 'enum') and i.name == name]
    if len(its) != 1 or not any(re.match(r'#\[derive\((.*,)?Clone(,.*)?\)\]$', R.norm(a).replace(' ', '')) for a in its[0].attrs):
        return []
    toks = strip_attrs(its[0].toks)
    try:
        o = next(k for k, x in enumerate(toks) if R.is_p(x, '{'))
    except StopIteration:
        raise Lost('derived Clone of ' + name)
    if any(R.is_p(x, '<') for x in toks[:o]):
        raise Lost('derived Clone of generic ' + name)
    parts = split_commas(toks[o + 1:R.match_close(toks, o)])
    def fields(ts):
        out = []
        for f in split_commas(ts):
            k = next(k for k, x in enumerate(f) if R.is_p(x, ':'))
            out.append(f[k - 1].t)
        return out
    if its[0].kind == 'struct':
        text = '%s { %s }' % (name, ', '.join('%s: self.%s.clone()' % (f, f) for f in fields(toks[o + 1:R.match_close(toks, o)])))
    else:
        arms = []
        for p in parts:
            v = '%s::%s' % (name, p[0].t)
            if len(p) == 1:
                arms.append('%s => %s' % (v, v))
            elif R.is_p(p[1], '('):
                n = len(split_commas(p[2:R.match_close(p, 1)]))
                xs = ['_%d' % i for i in range(n)]
                arms.append('%s(%s) => %s(%s)' % (v, ', '.join(xs), v, ', '.join(x + '.clone()' for x in xs)))
            elif R.is_p(p[1], '{'):
                xs = fields(p[2:R.match_close(p, 1)])
                arms.append('%s { %s } => %s { %s }' % (v, ', '.join(xs), v, ', '.join('%s: %s.clone()' % (x, x) for x in xs)))
            else:
                raise Lost('derived Clone of ' + name)
        text = 'match self { %s }' % ', '.join(arms)
    fn = R.scan_items(R.lex('fn clone(&self) -> Self { %s }' % text, its[0].line))
    return fn


def split_commas(ts):
    out, cur, depth = [], [], 0
    for x in ts:
        if x.k == 'punct' or x.t in '()[]{}<>,':
            if x.t in '([{<':
                depth += 1
            elif x.t in ')]}>':
                depth -= 1
            elif x.t == ',' and depth == 0:
                out.append(cur)
                cur = []
                continue
        cur.append(x)
    out.append(cur)
    return [c for c in out if c]


def lex1(s):
    return R.lex(s)


def parse_rule(s):
    m = re.match(r'^(.*?)\s*=>>\s*(.*)$', s, re.S)
    if not m:
        raise SyntaxError('rule: ' + s)
    return (s, lex1(m.group(1)), lex1(m.group(2)))


# ------------------------------------------------------------------ macros

def expand_macros(toks, macros, skip=()):
    """Expand expression macros of the file textually, innermost last."""
    out = []
    i = 0
    while i < len(toks):
        t = toks[i]
        if t.k == 'ident' and i + 2 < len(toks) and R.is_p(toks[i + 1], '!') and toks[i + 2].t in '([{' \
                and t.t in macros and t.t not in skip:
            e = R.match_close(toks, i + 2)
            body = R.expand(macros[t.t], toks[i + 3:e])
            body = expand_macros(body, macros, skip)
            if len(out) >= 2 and out[-1].t == '::' and out[-2].t == 'crate':
                # $crate::name!(...)
                del out[-2:]
            # an expression macro expands to one node
            single = body and R.is_p(body[0], '{') and R.match_close(body, 0) == len(body) - 1
            pre = out[-1].t if out else ';'
            if not single and pre not in (';', '{', '}', ',', '=>', '(', '=', 'return'):
                body = [R.Tok('punct', '(')] + body + [R.Tok('punct', ')')]
            elif not single and pre in (';', '{', '}'):
                # statement position: a sequence of statements
                pass
            if body:
                b0 = body[0]
                body[0] = R.Tok(b0.k, b0.t, t.nl, t.sp, t.line)
            out += body
            i = e + 1
            if body and single is False and i < len(toks) and R.is_p(toks[i], ';') and R.is_p(body[-1], '}'):
                i += 1
            continue
        out.append(t)
        i += 1
    return out


def byte_string(lit):
    """The bytes of a byte-string literal."""
    raw_ = lit.startswith('br')
    body = re.match(r'^b?r?#*"(.*)"#*$', lit, re.S).group(1)
    if raw_:
        return list(body.encode())
    out = []
    i = 0
    while i < len(body):
        c = body[i]
        if c != '\\':
            out += list(c.encode())
            i += 1
            continue
        d = body[i + 1]
        i += 2
        if d == 'x':
            out.append(int(body[i:i + 2], 16))
            i += 2
        elif d == '\n':
            while i < len(body) and body[i] in ' \t\n\r':
                i += 1
        else:
            out.append({'n': 10, 'r': 13, 't': 9, '\\': 92, '0': 0, "'": 39, '"': 34}[d])
    return out


def literal_bytes(toks):
    """Byte strings become array literals (Verus knows only the length of the former)."""
    out = []
    for t in toks:
        if t.k in ('str', 'rstr') and t.t.startswith('b'):
            x = lex1('&[' + ', '.join('%du8' % b for b in byte_string(t.t)) + ']')
            x[0] = R.Tok('punct', '&', t.nl, True, t.line)
            out += x
        else:
            out.append(t)
    return out


def literal_floats(toks, name):
    """1.5e3 becomes name(15, 2): the solver is told what float literals denote."""
    out = []
    for t in toks:
        m = re.match(r'(\d[\d_]*)(?:\.(\d[\d_]*))?(?:[eE]([+-]?\d[\d_]*))?(?:f32|f64)?$', t.t) if t.k == 'num' and not t.t.startswith('0x') else None
        if m and (m.group(2) is not None or m.group(3) is not None):
            frac = (m.group(2) or '').replace('_', '')
            x = int((m.group(3) or '0').replace('_', '')) - len(frac)
            d = int(m.group(1).replace('_', '') + frac)
            while d and d % 10 == 0 and frac:
                d, x, frac = d // 10, x + 1, frac[:-1]
            if d == 0:
                x = 0
            y = lex1('%s(%d, %d)' % (name, d, x))
            y[0] = R.Tok('ident', name, t.nl, True, t.line)
            out += y
        else:
            out.append(t)
    return out


# ------------------------------------------------------------------ loops and statements

def loops(toks):
    """(keyword index, body-open index) of every loop, in textual order."""
    out = []
    for i, t in enumerate(toks):
        if t.k != 'ident' or t.t not in ('loop', 'while', 'for'):
            continue
        if t.t == 'for' and i + 1 < len(toks) and R.is_p(toks[i + 1], '<'):
            continue
        j = i + 1
        while not R.is_p(toks[j], '{'):
            if toks[j].k == 'punct' and toks[j].t in '([':
                j = R.match_close(toks, j) + 1
            else:
                j += 1
        out.append((i, j))
    return out


def statement_bounds(toks, i, j):
    """Start and end (exclusive) of the statement holding toks[i:j]."""
    # walk back to ; { } at the same depth
    depth = 0
    s = i
    while s > 0:
        p = toks[s - 1]
        if p.k == 'punct':
            if p.t in (')', ']'):
                depth += 1
            elif p.t in ('(', '['):
                if depth == 0:
                    s -= 1
                    continue
                depth -= 1
            elif p.t == '}':
                if depth == 0:
                    break
                depth += 1
            elif p.t == '{':
                if depth == 0:
                    break
                depth -= 1
            elif p.t in (';', '=>') and depth == 0:
                break
        s -= 1
    e = j
    if e > 0 and R.is_p(toks[e - 1], ';'):
        return s, e
    if e > 0 and R.is_p(toks[e - 1], '}') :
        return s, e
    while e < len(toks):
        p = toks[e]
        if p.k == 'punct':
            if p.t in R.OPEN:
                e = R.match_close(toks, e) + 1
                continue
            if p.t == ';':
                return s, e + 1
            if p.t in R.CLOSE:
                return s, e
        e += 1
    return s, e


RAW = 'raw'


def raw(text):
    return R.Tok(RAW, text, 1, True)


# ------------------------------------------------------------------ function emission

class FnSpec:
    def __init__(self, file, container, name):
        self.file, self.container, self.name = file, container, name
        self.ret = None
        self.spec = ''
        self.loop = {}
        self.loopattr = {}
        self.entry = ''
        self.hints = []      # (where, pattern, text)
        self.rw = []
        self.attr = ''
        self.sig = None
        self.assume = None
        self.lift = None
        self.skipmac = ()
        self.id = None
        self.splits = []
        self.decl = False
        self.floats = None


def strip_attrs(toks):
    out = []
    i = 0
    while i < len(toks):
        if R.is_p(toks[i], '#') and i + 1 < len(toks) and R.is_p(toks[i + 1], '['):
            i = R.match_close(toks, i + 1) + 1
            continue
        out.append(toks[i])
        i += 1
    return out


def hoist(body, log):
    """Inner `static`/`const` items move in front of the function."""
    pre, out = [], []
    i = 0
    while i < len(body):
        t = body[i]
        if t.t in ('static', 'const') and t.k == 'ident' and i + 2 < len(body) and R.is_p(body[i + 2], ':') \
                and (i == 0 or body[i - 1].t in (';', '{', '}')):
            j = i
            while not R.is_p(body[j], ';'):
                j = R.match_close(body, j) + 1 if (body[j].k == 'punct' and body[j].t in R.OPEN) else j + 1
            seg = [R.Tok(x.k, x.t, x.nl, x.sp, x.line) for x in body[i:j + 1]]
            seg[0].t = 'const'
            pre += seg
            i = j + 1
            continue
        out.append(t)
        i += 1
    return pre, out


class Emitter:
    def __init__(self, src, module, rules, assumed, log):
        self.src, self.module, self.rules = src, module, rules
        self.assumed, self.log = assumed, log
        self.fns = []

    def emit_fn(self, fs):
        src = self.src
        fid = fs.id or '%s::%s%s' % (self.module, '' if fs.container == '-' else norm_container(fs.container) + '::', fs.name)
        info = dict(id=fid, file=fs.file, name=fs.name, container=fs.container, assumed=None, dropped=[], hints_lost=[])
        self.fns.append(info)
        try:
            if fs.lift:
                sig, body, line = self.lifted(fs)
            else:
                it = src.find_fn(fs.file, fs.container, fs.name)
                sig, body, line = list(it.sig), it.body, it.line
                if body is None or fs.decl:
                    # a declaration in a trait
                    info['line'] = line
                    info['declared'] = True
                    return '%s\n%s;\n' % (sigtext(self.transform_sig(fs, sig), fs), fs.spec)
            info['line'] = line
            info['src'] = R.norm(sig) + '{' + R.norm(body) + '}'
        except Lost as e:
            info['assumed'] = 'lost: ' + str(e)
            info['lost'] = True
            raise
        text = None
        reason = self.assumed.get(fid)
        if reason is None and fs.assume is None:
            try:
                pre, body2 = self.transform_body(fs, body, info)
                text = body2
            except (Lost, SyntaxError, R.NoMatch) as e:
                reason = 'contract could not be attached: %s' % e
        if fs.assume is not None:
            reason = fs.assume
            info['by_contract'] = True
        sig_toks = self.transform_sig(fs, sig)
        out = []
        if reason is not None:
            info['assumed'] = reason
            out.append('#[verifier::external_body]')
            out.append(R.text(sig_toks) if False else sigtext(sig_toks, fs))
            out.append(fs.spec)
            out.append('{ unimplemented!() }')
        else:
            if pre:
                out.insert(0, R.text(pre))
            if fs.splits:
                out += split_cases(fs, sig_toks, text)
            else:
                if fs.attr:
                    out.append(fs.attr)
                out.append(sigtext(sig_toks, fs))
                out.append(fs.spec)
                out.append('{')
                if fs.entry:
                    out.append(fs.entry)
                out.append(text)
                out.append('}')
        return '//@F %s\n%s\n//@E %s\n' % (fid, '\n'.join(out), fid)

    def lifted(self, fs):
        items, macros = self.src.file(fs.file)
        if fs.lift not in macros:
            raise Lost('no macro %s in src/%s' % (fs.lift, fs.file))
        arms = macros[fs.lift]
        if fs.invoke:
            # the macro applied to the given arguments
            return lex1(fs.sig), lex1(fs.lift + ' ! ' + fs.invoke), 0
        arm = arms[0]
        if len(arms) > 1 and fs.container.startswith('arm'):
            arm = arms[int(fs.container[3:])]
        body = arm[1]
        # ({ ... }) or { ... }: the body of the macro
        if body and R.is_p(body[0], '{') and R.match_close(body, 0) == len(body) - 1:
            body = body[1:-1]
        b = {}
        for m in re.finditer(r'\$(\w+)\s*=\s*([^;]+);', fs.liftmap):
            b[m.group(1)] = lex1(m.group(2))
        body = R.transcribe(body, b)
        if fs.wrap:
            # the value of the macro is the result of the function
            body = lex1('let _r = {') + body + lex1('}; Ok(_r)')
        return lex1(fs.sig), body, 0

    def transform_sig(self, fs, sig):
        sig = strip_attrs(sig)
        if fs.sig:
            sig = lex1(fs.sig)
        sig, _ = R.rewrite(sig, [r[:3] for r in self.rules if r[3] == 'sig'])
        n = 0
        sig = [R.Tok(x.k, x.t, x.nl, x.sp, x.line) for x in sig]
        for i in range(1, len(sig) - 1):
            # `_` is not accepted as a parameter name
            if sig[i].t == '_' and R.is_p(sig[i + 1], ':') and sig[i - 1].t in ('(', ','):
                sig[i].t = '_p%d' % n
                n += 1
        return sig

    def transform_body(self, fs, body, info):
        items, macros = self.src.file(fs.file)
        body = strip_attrs(body)
        rules = [r[:3] for r in self.rules if r[3] == 'body']
        body, n1 = R.rewrite(body, [r for r in rules if r[0].startswith('macro')])
        body = expand_macros(body, macros, fs.skipmac)
        body = strip_attrs(body)
        body, n2 = R.rewrite(body, [r for r in rules if not r[0].startswith('macro')])
        body, n3 = R.rewrite(body, fs.rw)
        body = literal_bytes(body)
        if fs.floats:
            body = literal_floats(body, fs.floats)
        for r in fs.rw:
            if r[0] not in n3:
                info['hints_lost'].append('rewrite ' + r[0])
        n2.update(n3)
        n2.update(n1)
        info['rewrites'] = n2
        # calls that reach the verifier as they are, and the rewrites that used to stand between: a function of std that
        # was described by a stand-in and no longer is
        info['calls'] = calls(body)
        base = BASE.get(info['id'], [])
        if len(base) > 2:
            lost = sorted(k for k, v in base[2].items() if n2.get(k, 0) < v)
            new = sorted(set(info['calls']) - set(base[3].split()))
            if lost and new:
                info['hints_lost'].append('rewrite %s; now calls %s' % (lost[0], ' '.join(new)))
        pre, body = hoist(body, info)
        if fs.container != '-' and pre and not fs.lift:
            raise Lost('inner constants in a method')
        lp = loops(body)
        nl = len(lp)
        info['loops'] = ' '.join(body[a].t + (' let' if R.is_i(body[a + 1], 'let') else '') for a, b in lp)
        if fs.loop and info['loops'] != BASE.get(info['id'], [None, info['loops']])[1]:
            raise Lost('its loops are of another kind (%s) than those the invariants were written for' % info['loops'])
        for k in list(fs.loop) + list(fs.loopattr):
            if k > nl:
                raise Lost('contract names loop %d, the function has %d' % (k, nl))
        if nl > len(fs.loop) and fs.loop is not None and not fs.freeloops:
            raise Lost('the function has %d loops, the contract %d' % (nl, len(fs.loop)))
        ins = {}   # index -> list of raw text, inserted before that token
        for k, (a, b) in enumerate(lp, 1):
            if k in fs.loop:
                ins.setdefault(b, []).append(fs.loop[k])
            if k in fs.loopattr:
                x = a
                # a label in front of the loop
                if x >= 2 and R.is_p(body[x - 1], ':') and body[x - 2].k == 'life':
                    x -= 2
                ins.setdefault(x, []).append(fs.loopattr[k])
        for where, pat, text, nth in fs.hints:
            pos = None
            start = 0
            for _ in range(nth):
                m = R.find_pattern(body, lex1(pat), start)
                if not m:
                    break
                start = m[0] + 1
            if not m:
                info['hints_lost'].append(pat)
                continue
            i, j, _b = m
            if where == 'loopstart':
                # start of the K-th loop body
                pass
            s, e = statement_bounds(body, i, j)
            if where == 'before':
                ins.setdefault(s, []).append(text)
            elif where == 'after':
                ins.setdefault(e, []).append(text)
            elif where == 'at':
                ins.setdefault(j, []).append(text)
            elif where == 'at_before':
                ins.setdefault(i, []).append(text)
        for where, k, text in fs.loophints:
            if k > nl:
                raise Lost('loop %d' % k)
            a, b = lp[k - 1]
            if where == 'start':
                ins.setdefault(b + 1, []).append(text)
            elif where == 'end':
                ins.setdefault(R.match_close(body, b), []).append(';\n' + text)
            elif where == 'after':
                ins.setdefault(R.match_close(body, b) + 1, []).append(text)
            elif where == 'before':
                x = a
                if x >= 2 and R.is_p(body[x - 1], ':') and body[x - 2].k == 'life':
                    x -= 2
                ins.setdefault(x, []).append(text)
        out = []
        for i, t in enumerate(body):
            if i in ins:
                out += [raw(x) for x in ins[i]]
                t = R.Tok(t.k, t.t, 1, True, t.line)
            out.append(t)
        if len(body) in ins:
            out += [raw(x) for x in ins[len(body)]]
        return pre, R.text(out)


def params(sig):
    """Names of the parameters, and whether there is a receiver."""
    i = next(k for k, t in enumerate(sig) if R.is_i(t, 'fn')) + 2
    if R.is_p(sig[i], '<'):
        d = 0
        while True:
            if R.is_p(sig[i], '<'):
                d += 1
            elif R.is_p(sig[i], '>'):
                d -= 1
            i += 1
            if d == 0:
                break
    e = R.match_close(sig, i)
    out = []
    k = i + 1
    start = True
    self_ = False
    while k < e:
        t = sig[k]
        if t.k == 'punct' and t.t in R.OPEN:
            k = R.match_close(sig, k) + 1
            continue
        if R.is_p(t, ','):
            start = True
        elif R.is_i(t, 'self') and start:
            self_, start = True, False
        elif t.k == 'ident' and start and t.t != 'mut':
            out.append(t.t)
            start = False
        k += 1
    return out, self_


def split_cases(fs, sig, text):
    """The body once per case, and the function itself dispatching to the cases.

    Each case is the complete body under an additional precondition; the
    dispatch is checked like any other function, so the cases are exhaustive."""
    names, self_ = params(sig)
    call = lambda k: '%s%s__case%d(%s)' % ('self.' if self_ else '', fs.name, k, ', '.join(names))
    out = []
    body = []
    prev = []
    for k, c in enumerate(fs.splits + ['else'], 1):
        req = ' && '.join((['(%s)' % c] if c != 'else' else []) + ['!(%s)' % x for x in prev])
        prev.append(c)
        spec = fs.spec.replace('{rank}', '0')
        if re.search(r'\brequires\b', spec):
            spec = re.sub(r'\brequires\b', 'requires %s,' % req, spec, count=1)
        else:
            spec = 'requires %s\n%s' % (req, spec)
        sg = [R.Tok(t.k, t.t, t.nl, t.sp, t.line) for t in sig]
        n = next(i for i, t in enumerate(sg) if R.is_i(t, 'fn')) + 1
        sg[n].t = '%s__case%d' % (fs.name, k)
        if fs.attr:
            out.append(fs.attr)
        # text between /*C12*/ and /*E*/ is for cases 1 and 2 only
        only = lambda x: re.sub(r'/\*C(\d+)\*/(.*?)/\*E\*/', lambda m: m.group(2) if str(k) in m.group(1) else '', x, flags=re.S)
        out += [sigtext(sg, fs), spec, '{', only(fs.entry), only(text), '}']
        body.append(('if %s { %s } else ' % (c, call(k))) if c != 'else' else '{ %s }' % call(k))
    out += [sigtext(sig, fs).replace('mut ', 'mut ') , fs.spec.replace('{rank}', '1'), '{', ''.join(body), '}']
    return out


def norm_container(c):
    return re.sub(r'\s+', ' ', c).strip()


def sigtext(sig, fs):
    """The signature with the result named."""
    # split at the last top-level `->`
    depth = 0
    arrow = None
    where = None
    i = 0
    while i < len(sig):
        t = sig[i]
        if t.k == 'punct' and t.t in '([{':
            i = R.match_close(sig, i) + 1
            continue
        if t.t == '<':
            pass
        if R.is_p(t, '->') and arrow is None:
            arrow = i
        if R.is_i(t, 'where'):
            where = i
            break
        i += 1
    # a `->` inside `where F: Fn() -> T` comes after where
    head = sig[:arrow] if arrow is not None else sig[:where]
    ty = sig[arrow + 1:where] if arrow is not None else None
    wh = sig[where:] if where is not None else []
    s = R.text(head)
    if ty is not None:
        s += ' -> (%s: %s)' % (fs.ret, R.text(ty)) if fs.ret else ' -> ' + R.text(ty)
    if wh:
        s += '\n' + R.text(wh)
    vis = getattr(fs, 'vis', None)
    if vis is None and (fs.container == '-' or ' for ' not in fs.container and not fs.container.startswith('trait')) and not s.startswith('pub'):
        vis = 'pub'
    if vis:
        s = vis + ' ' + re.sub(r'^pub(\s*\([^)]*\))?\s+', '', s)
    return s


# ------------------------------------------------------------------ contract files

def process(src, module, assumed, log, parent=None):
    path = os.path.join(CONTRACTS, module + '.rs')
    lines = open(path, encoding='utf-8').read().split('\n')
    lines = expand_for(lines)
    rules = []
    em = Emitter(src, module, rules, assumed, log)
    out = []
    i = 0
    while i < len(lines):
        l = lines[i]
        st = l.strip()
        if st == '@@rules':
            i += 1
            while lines[i].strip() != '@@endrules':
                r = lines[i].strip()
                if r and not r.startswith('//'):
                    kind = 'body'
                    if r.startswith('sig:'):
                        kind, r = 'sig', r[4:].strip()
                    nm, p, q = parse_rule(r)
                    rules.append((nm, p, q, kind))
                i += 1
        elif st.startswith('@@item '):
            parts = [x.strip() for x in st[7:].split('|')]
            kind, name = parts[1].split()
            it = src.find_item(parts[0], kind, name)
            toks = strip_attrs(it.toks)
            toks = [R.Tok(x.k, x.t, x.nl, x.sp, x.line) for x in toks]
            if kind in ('const', 'static'):
                for x in toks:
                    if R.is_i(x, 'static'):
                        x.t = 'const'
                        break
            j = i + 1
            rw = []
            while j < len(lines) and lines[j].strip().startswith('@rw '):
                rw.append(parse_rule(lines[j].strip()[4:]))
                j += 1
            i = j - 1
            toks, n = R.rewrite(toks, rw)
            if len(parts) > 2 and parts[2] == 'pub':
                # widen the visibility: specifications of other modules read it
                if toks[0].t != 'pub':
                    toks = [R.Tok('ident', 'pub')] + toks
            if len(parts) > 3 and parts[3] == 'pubfields':
                toks = pub_fields(toks)
            toks = literal_bytes(toks)
            if len(parts) > 3 and parts[3].startswith('ensures '):
                # a constant whose value is known through a checked postcondition
                eq = next(k for k, x in enumerate(toks) if R.is_p(x, '='))
                out.append('exec ' if toks[0].t != 'pub' else '')
                head = R.text(toks[:eq])
                if toks[0].t == 'pub':
                    head = 'pub exec ' + head.strip()[3:]
                out[-1] += head + ' ' + parts[3] + ' { let z' + R.text(toks[[k for k, x in enumerate(toks) if R.is_p(x, ':')][0]:]) + ' z }'
            else:
                out.append(R.text(toks))
        elif st.startswith('@@fn ') or st.startswith('@@lift '):
            lift = st.startswith('@@lift ')
            parts = [x.strip() for x in st[(7 if lift else 5):].split('|')]
            fs = FnSpec(parts[0], parts[1], parts[2])
            fs.freeloops = False
            fs.loophints = []
            fs.vis = None
            fs.liftmap = ''
            fs.invoke = None
            fs.wrap = False
            if lift:
                fs.lift = parts[1]
                fs.container = parts[3] if len(parts) > 3 else '-'
            i += 1
            cur = None
            buf = []

            def flush():
                if cur is None:
                    return
                t = '\n'.join(buf)
                k = cur[0]
                if k == 'spec':
                    fs.spec = t
                elif k == 'entry':
                    fs.entry = t
                elif k == 'loop':
                    fs.loop[cur[1]] = t
                elif k == 'loopattr':
                    fs.loopattr[cur[1]] = t
                elif k == 'hint':
                    fs.hints.append((cur[1], cur[2], t, cur[3]))
                elif k == 'loophint':
                    fs.loophints.append((cur[1], cur[2], t))
            while lines[i].strip() != '@@end':
                s = lines[i].strip()
                if s.startswith('@') and not s.startswith('@@'):
                    flush()
                    cur, buf = None, []
                    w, _, rest = s[1:].partition(' ')
                    rest = rest.strip()
                    nth = 1
                    m = re.match(r'^(before|after|at|at_before)#(\d+)$', w)
                    if m:
                        w, nth = m.group(1), int(m.group(2))
                    if w == 'ret':
                        fs.ret = rest
                    elif w == 'spec':
                        cur = ('spec',)
                    elif w == 'entry':
                        cur = ('entry',)
                    elif w == 'loop':
                        cur = ('loop', int(rest))
                    elif w == 'loopattr':
                        cur = ('loopattr', int(rest))
                    elif w in ('before', 'after', 'at', 'at_before'):
                        cur = ('hint', w, rest, nth)
                    elif w in ('loopstart', 'loopend', 'loopafter', 'loopbefore'):
                        cur = ('loophint', w[4:], int(rest))
                    elif w == 'rw':
                        fs.rw.append(parse_rule(rest))
                    elif w == 'attr':
                        fs.attr += rest + '\n'
                    elif w == 'sig':
                        fs.sig = rest
                    elif w == 'assume':
                        fs.assume = rest
                    elif w == 'keepmacro':
                        fs.skipmac = tuple(rest.split())
                    elif w == 'wrap':
                        fs.wrap = True
                    elif w == 'decl':
                        fs.decl = True
                    elif w == 'freeloops':
                        fs.freeloops = True
                    elif w == 'vis':
                        fs.vis = rest
                    elif w == 'invoke':
                        fs.invoke = rest
                    elif w == 'bind':
                        fs.liftmap += rest + ';'
                    elif w == 'floats':
                        fs.floats = rest
                    elif w == 'id':
                        fs.id = rest
                    elif w == 'split':
                        fs.splits.append(rest)
                    else:
                        raise SyntaxError('%s:%d: @%s' % (path, i + 1, w))
                else:
                    buf.append(lines[i])
                i += 1
            flush()
            out.append(em.emit_fn(fs))
        else:
            out.append(l)
        i += 1
    return '\n'.join(out), em.fns


def pub_fields(toks):
    out = []
    depth = 0
    for i, t in enumerate(toks):
        if t.k == 'ident' and i + 1 < len(toks) and R.is_p(toks[i + 1], ':') and depth == 1 and toks[i - 1].t in ('{', ','):
            out.append(R.Tok('ident', 'pub', t.nl, True))
            t = R.Tok(t.k, t.t, 0, True, t.line)
        if t.k == 'punct' and t.t in '{(':
            depth += 1
        if t.k == 'punct' and t.t in '})':
            depth -= 1
        out.append(t)
    return out


def expand_for(lines):
    out = []
    i = 0
    while i < len(lines):
        st = lines[i].strip()
        if st.startswith('@@for '):
            m = re.match(r'@@for (\w+) in (.*)$', st)
            j = i + 1
            depth = 1
            while depth:
                s = lines[j].strip()
                if s.startswith('@@for '):
                    depth += 1
                elif s == '@@endfor':
                    depth -= 1
                j += 1
            block = lines[i + 1:j - 1]
            for v in m.group(2).split():
                out += expand_for([x.replace('{%s}' % m.group(1), v) for x in block])
            i = j
        else:
            out.append(lines[i])
            i += 1
    return out


def calls(body):
    """Names of what a body calls."""
    out = set()
    for i in range(len(body) - 1):
        if body[i].k == 'ident' and R.is_p(body[i + 1], '('):
            out.add(body[i].t)
    return sorted(out)


def build(repo, outdir, modules, assumed=None):
    """Write the crate. Returns the list of function records."""
    assumed = assumed or {}
    os.makedirs(outdir, exist_ok=True)
    src = Source(repo)
    log = []
    fns = []
    lib = ['#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_assignments, non_snake_case, unused_unsafe, unreachable_code, unused_parens, unused_braces, non_upper_case_globals)]']
    for m in modules:
        text, f = process(src, m, assumed, log)
        open(os.path.join(outdir, m + '.rs'), 'w').write(text)
        for x in f:
            x['module'] = m
        fns += f
        lib.append('pub mod %s;' % m)
    lib.append('fn main() {}')
    open(os.path.join(outdir, 'lib.rs'), 'w').write('\n'.join(lib) + '\n')
    return fns


if __name__ == '__main__':
    import json
    mods = sys.argv[3:]
    f = build(sys.argv[1], sys.argv[2], mods)
    for x in f:
        print(x['id'], 'ASSUMED ' + x['assumed'] if x['assumed'] else '', x['hints_lost'] or '')
