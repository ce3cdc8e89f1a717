"""A small Rust lexer, item scanner and macro_rules transcriber.

It works on token lists, so the text it hands back is the code of /repo,
token for token; comments are dropped, line breaks are kept.
"""
import re

TOKEN = re.compile(r'''
    (?P<ws>\s+)
  | (?P<lcomment>//[^\n]*)
  | (?P<bcomment>/\*)
  | (?P<rstr>(?:b|c)?r(?P<h>\#*)"(?:.|\n)*?"(?P=h))
  | (?P<str>(?:b|c)?"(?:\\(?:.|\n)|[^"\\])*")
  | (?P<char>b?'(?:\\(?:x[0-9a-fA-F]{2}|u\{[^}]*\}|.)|[^\\'])')
  | (?P<life>'[A-Za-z_]\w*)
  | (?P<num>\d[\d_]*(?:\.\d[\d_]*)?(?:[eE][+-]?\d+)?\w*)
  | (?P<ident>(?:r\#)?[A-Za-z_]\w*)
  | (?P<punct>\.\.=|\.\.\.|<<=|>>=|::|->|=>|==|!=|<=|>=|&&|\|\||\+=|-=|\*=|/=|%=|\^=|&=|\|=|<<|>>|\.\.|.)
''', re.X)

OPEN = {'(': ')', '[': ']', '{': '}'}
CLOSE = {')', ']', '}'}


class Tok:
    __slots__ = ('k', 't', 'nl', 'sp', 'line')

    def __init__(self, k, t, nl=0, sp=False, line=0):
        self.k, self.t, self.nl, self.sp, self.line = k, t, nl, sp, line

    def __repr__(self):
        return self.t


def lex(src, line=1):
    toks = []
    i = 0
    nl, sp = 0, False
    n = len(src)
    while i < n:
        m = TOKEN.match(src, i)
        if not m:
            raise SyntaxError('cannot lex at line %d: %r' % (line, src[i:i + 20]))
        k = m.lastgroup
        if k == 'h':
            k = 'rstr'
        t = m.group(0)
        if k == 'bcomment':
            depth, j = 1, i + 2
            while depth:
                a, b = src.find('/*', j), src.find('*/', j)
                if b < 0:
                    raise SyntaxError('open comment')
                if 0 <= a < b:
                    depth, j = depth + 1, a + 2
                else:
                    depth, j = depth - 1, b + 2
            t = src[i:j]
            k = 'ws'
        elif k == 'num':
            # `0..x` and `1.foo()` must not swallow the dot
            mm = re.match(r'0[xob][0-9a-fA-F_]+\w*|\d[\d_]*(?:\.(?=\d)\d[\d_]*)?(?:[eE][+-]?\d[\d_]*)?\w*', src[i:])
            t = mm.group(0)
        if k in ('ws', 'lcomment'):
            nl += t.count('\n')
            sp = True
        else:
            toks.append(Tok(k, t, nl, sp, line))
            nl, sp = 0, False
        line += t.count('\n')
        i += len(t)
    return toks


def text(toks):
    out = []
    for i, t in enumerate(toks):
        if i:
            if t.nl:
                out.append('\n' * min(t.nl, 2))
            elif t.sp:
                out.append(' ')
            elif out and need_space(toks[i - 1], t):
                out.append(' ')
        out.append(t.t)
    return ''.join(out)


def need_space(a, b):
    wordy = ('ident', 'num', 'life')
    if a.k in wordy and b.k in wordy + ('str', 'rstr', 'char'):
        return True
    if a.k == 'punct' and b.k == 'punct' and a.t + b.t in (
            '==', '=>', '->', '&&', '||', '<<', '>>', '..', '+=', '-=', '*=', '/=', '!=', '<=', '>=', '::', '//', '/*',
            '&mut', '..='):
        return True
    return False


def norm(toks):
    """Canonical text of a token list: single spaces."""
    return ' '.join(t.t for t in toks)


def match_close(toks, i):
    """Index of the token closing the group opened at i."""
    st = []
    j = i
    while j < len(toks):
        t = toks[j].t
        if toks[j].k == 'punct':
            if t in OPEN:
                st.append(OPEN[t])
            elif t in CLOSE:
                if not st or st[-1] != t:
                    raise SyntaxError('unbalanced %s at line %d' % (t, toks[j].line))
                st.pop()
                if not st:
                    return j
        j += 1
    raise SyntaxError('unclosed group at line %d' % toks[i].line)


def is_p(tok, s):
    return tok.k == 'punct' and tok.t == s


def is_i(tok, s):
    return tok.k == 'ident' and tok.t == s


# ---------------------------------------------------------------- items

class Item:
    def __init__(self, kind, name, toks, attrs, vis):
        self.kind, self.name, self.toks, self.attrs, self.vis = kind, name, toks, attrs, vis
        self.items = []      # for impl / trait / mod
        self.header = ''     # normalised text before the body
        self.sig = None      # fn: tokens before the body
        self.body = None     # fn: tokens inside the braces
        self.line = toks[0].line if toks else 0
        self.arms = None     # macro_rules


def cfg_test(attr):
    return norm(attr).replace(' ', '') in ('#[cfg(test)]', '#[test]')


def scan_items(toks, macros=None, container=None):
    """Split a token list into items. `macros` collects macro_rules."""
    if macros is None:
        macros = {}
    items = []
    i, n = 0, len(toks)
    while i < n:
        attrs = []
        while i < n and is_p(toks[i], '#'):
            j = i + 1
            if is_p(toks[j], '!'):
                j += 1
            e = match_close(toks, j)
            attrs.append(toks[i:e + 1])
            i = e + 1
        if i >= n:
            break
        start = i
        vis = []
        if is_i(toks[i], 'pub'):
            vis = [toks[i]]
            i += 1
            if is_p(toks[i], '(') and toks[i + 1].t in ('crate', 'super', 'self', 'in'):
                e = match_close(toks, i)
                vis += toks[i:e + 1]
                i = e + 1
        # qualifiers
        q = i
        while toks[q].t in ('unsafe', 'const', 'async', 'extern', 'default') or toks[q].k == 'str':
            if toks[q].t == 'const' and not (toks[q + 1].t in ('fn', 'unsafe', 'async', 'extern')):
                break
            q += 1
        kw = toks[q].t
        if kw == 'fn':
            name = toks[q + 1].t
            j = q
            while not is_p(toks[j], '{') and not is_p(toks[j], ';'):
                j = match_close(toks, j) + 1 if (toks[j].k == 'punct' and toks[j].t in '([') else j + 1
            it = Item('fn', name, [], attrs, vis)
            it.line = toks[start].line
            it.sig = toks[i:j]
            if is_p(toks[j], '{'):
                e = match_close(toks, j)
                it.body = toks[j + 1:e]
                it.toks = toks[start:e + 1]
                i = e + 1
            else:
                it.toks = toks[start:j + 1]
                i = j + 1
            items.append(it)
        elif kw in ('struct', 'enum', 'union'):
            name = toks[q + 1].t
            j = q
            while True:
                if is_p(toks[j], ';'):
                    break
                if is_p(toks[j], '{'):
                    j = match_close(toks, j)
                    break
                j = match_close(toks, j) + 1 if (toks[j].k == 'punct' and toks[j].t in '([') else j + 1
            it = Item(kw, name, toks[start:j + 1], attrs, vis)
            items.append(it)
            i = j + 1
        elif kw in ('impl', 'trait'):
            j = q
            while not is_p(toks[j], '{'):
                j = match_close(toks, j) + 1 if (toks[j].k == 'punct' and toks[j].t in '([') else j + 1
            e = match_close(toks, j)
            hdr = norm(toks[q:j])
            it = Item(kw, hdr, toks[start:e + 1], attrs, vis)
            it.header = hdr
            it.items = scan_items(toks[j + 1:e], macros, hdr)
            items.append(it)
            i = e + 1
        elif kw == 'mod':
            name = toks[q + 1].t
            if is_p(toks[q + 2], ';'):
                i = q + 3
                continue
            e = match_close(toks, q + 2)
            it = Item('mod', name, toks[start:e + 1], attrs, vis)
            if not any(cfg_test(a) for a in attrs):
                it.items = scan_items(toks[q + 3:e], macros)
                items.append(it)
            i = e + 1
        elif kw == 'macro_rules':
            name = toks[q + 2].t
            e = match_close(toks, q + 3)
            macros[name] = parse_arms(toks[q + 4:e])
            it = Item('macro', name, toks[start:e + 1], attrs, vis)
            items.append(it)
            i = e + 1
            if i < n and is_p(toks[i], ';'):
                i += 1
        elif toks[q].k == 'ident' and q + 1 < n and is_p(toks[q + 1], '!'):
            # item macro invocation: expand it
            e = match_close(toks, q + 2)
            args = toks[q + 3:e]
            if kw in macros:
                exp = expand(macros[kw], args)
                items += scan_items(exp, macros, container)
            i = e + 1
            if i < n and is_p(toks[i], ';'):
                i += 1
        else:
            # use / const / static / type ...
            j = q
            while not is_p(toks[j], ';'):
                j = match_close(toks, j) + 1 if (toks[j].k == 'punct' and toks[j].t in OPEN) else j + 1
            nm = ''
            if kw in ('const', 'static', 'type'):
                nm = toks[q + 1].t if toks[q + 1].t != 'mut' else toks[q + 2].t
            it = Item(kw, nm, toks[start:j + 1], attrs, vis)
            items.append(it)
            i = j + 1
    return items


# ---------------------------------------------------------------- macro_rules

def parse_arms(toks):
    arms = []
    i = 0
    while i < len(toks):
        e = match_close(toks, i)
        pat = toks[i + 1:e]
        i = e + 1
        assert is_p(toks[i], '=>')
        i += 1
        e = match_close(toks, i)
        arms.append((pat, toks[i + 1:e]))
        i = e + 1
        if i < len(toks) and is_p(toks[i], ';'):
            i += 1
    return arms


class NoMatch(Exception):
    pass


def frag_end(kind, toks, i, stop):
    """End index of a fragment of the given kind starting at i."""
    if i >= len(toks):
        raise NoMatch
    if kind in ('ident', 'literal', 'lifetime'):
        if kind == 'literal' and is_p(toks[i], '-'):
            return i + 2
        if kind == 'ident' and toks[i].k != 'ident':
            raise NoMatch
        if kind == 'literal' and toks[i].k not in ('num', 'str', 'rstr', 'char') and toks[i].t not in ('true', 'false'):
            raise NoMatch
        return i + 1
    if kind == 'tt' or kind == 'block':
        return match_close(toks, i) + 1 if (toks[i].k == 'punct' and toks[i].t in OPEN) else i + 1
    # ty, expr, pat, path, stmt: up to a separator at depth 0
    j = i
    seps = {',', ';', '=>'} | ({stop} if stop else set())
    while j < len(toks):
        t = toks[j]
        if t.k == 'punct' and t.t in OPEN:
            j = match_close(toks, j) + 1
            continue
        if t.k == 'punct' and t.t in seps:
            break
        if kind == 'ty' and is_i(t, 'as'):
            break
        j += 1
    if j == i:
        raise NoMatch
    return j


def match_pat(pat, toks, i=0):
    b = {}
    p = 0
    while p < len(pat):
        t = pat[p]
        if is_p(t, '$') and p + 1 < len(pat) and is_p(pat[p + 1], '('):
            e = match_close(pat, p + 1)
            inner = pat[p + 2:e]
            q = e + 1
            sep = None
            if pat[q].t not in ('*', '+', '?'):
                sep = pat[q].t
                q += 1
            op = pat[q].t
            q += 1
            reps = []
            while True:
                if i >= len(toks):
                    break
                k = i
                if reps and sep is not None:
                    if toks[k].t != sep:
                        break
                    k += 1
                elif not reps and sep is not None and inner and inner[0].t == sep:
                    pass
                try:
                    bb, k2 = match_pat(inner, toks, k)
                except NoMatch:
                    break
                if k2 == k:
                    break
                reps.append(bb)
                i = k2
                if op == '?':
                    break
            if op == '+' and not reps:
                raise NoMatch
            for nm in pat_vars(inner):
                b[nm] = [r.get(nm) for r in reps]
            p = q
        elif is_p(t, '$') and p + 3 < len(pat) + 1 and pat[p + 1].k == 'ident' and p + 2 < len(pat) and is_p(pat[p + 2], ':'):
            nm, kind = pat[p + 1].t, pat[p + 3].t
            stop = pat[p + 4].t if p + 4 < len(pat) else None
            j = frag_end(kind, toks, i, stop)
            b[nm] = toks[i:j]
            i = j
            p += 4
        else:
            if i >= len(toks) or toks[i].t != t.t:
                raise NoMatch
            if t.k == 'punct' and t.t in OPEN:
                e = match_close(pat, p)
                e2 = match_close(toks, i)
                bb, k = match_pat(pat[p + 1:e], toks[i + 1:e2])
                if k != e2 - i - 1:
                    raise NoMatch
                b.update(bb)
                p, i = e + 1, e2 + 1
                continue
            i += 1
            p += 1
    return b, i


def pat_vars(pat):
    return [pat[p + 1].t for p in range(len(pat) - 2) if is_p(pat[p], '$') and pat[p + 1].k == 'ident' and is_p(pat[p + 2], ':')]


def transcribe(body, b):
    out = []
    i = 0
    while i < len(body):
        t = body[i]
        if is_p(t, '$') and i + 1 < len(body):
            u = body[i + 1]
            if is_p(u, '('):
                e = match_close(body, i + 1)
                inner = body[i + 2:e]
                q = e + 1
                sep = None
                if body[q].t not in ('*', '+', '?'):
                    sep = body[q]
                    q += 1
                q += 1
                names = [inner[k + 1].t for k in range(len(inner) - 1) if is_p(inner[k], '$') and inner[k + 1].k == 'ident' and isinstance(b.get(inner[k + 1].t), list) and (b[inner[k + 1].t] == [] or isinstance(b[inner[k + 1].t][0], list))]
                cnt = len(b[names[0]]) if names else 0
                for r in range(cnt):
                    bb = dict(b)
                    for nm in names:
                        bb[nm] = b[nm][r]
                    if r and sep is not None:
                        out.append(sep)
                    out += transcribe(inner, bb)
                i = q
                continue
            if u.t == 'crate':
                out.append(Tok('ident', 'crate', t.nl, t.sp, t.line))
                i += 2
                continue
            if u.k == 'ident' and u.t in b:
                v = b[u.t]
                for k, x in enumerate(v):
                    y = Tok(x.k, x.t, x.nl if k else t.nl, x.sp if k else t.sp, t.line)
                    out.append(y)
                i += 2
                continue
        out.append(Tok(t.k, t.t, t.nl, t.sp, t.line))
        i += 1
    return out


def expand(arms, args):
    for pat, body in arms:
        try:
            b, k = match_pat(pat, args)
        except NoMatch:
            continue
        if k == len(args):
            return transcribe(body, b)
        if k == len(args) - 1 and args[k].t == ',':
            continue
    raise SyntaxError('no macro arm matches: ' + norm(args)[:80])


# ---------------------------------------------------------------- rewriting

def find_pattern(toks, pat, start=0):
    """Find the first match of `pat` (tokens with $x metavariables) at or
    after start. Returns (i, j, bindings) or None."""
    for i in range(start, len(toks)):
        b = {}
        j = match_here(toks, i, pat, 0, b)
        if j is not None:
            return i, j, b
    return None


def match_here(toks, i, pat, p, b):
    if p == len(pat):
        return i
    t = pat[p]
    if is_p(t, '$') and p + 1 < len(pat) and pat[p + 1].k == 'ident':
        nm = pat[p + 1].t
        if nm.endswith('_id'):
            if i < len(toks) and toks[i].k == 'ident':
                if nm in b and norm(b[nm]) != toks[i].t:
                    return None
                had = nm in b
                b[nm] = [toks[i]]
                r = match_here(toks, i + 1, pat, p + 2, b)
                if r is None and not had:
                    b.pop(nm, None)
                return r
            return None
        # a balanced, minimal, non-empty run without `;` (allowed in $.._blk)
        j = i
        while j < len(toks):
            x = toks[j]
            if x.k == 'punct' and x.t in CLOSE:
                return None
            if x.k == 'punct' and x.t == ';' and not nm.endswith('_blk'):
                return None
            if x.k == 'punct' and x.t in OPEN:
                j = match_close(toks, j) + 1
            else:
                j += 1
            if nm in b and norm(b[nm]) != norm(toks[i:j]):
                continue
            b2 = dict(b)
            b2[nm] = toks[i:j]
            r = match_here(toks, j, pat, p + 2, b2)
            if r is not None:
                b.update(b2)
                return r
        return None
    if i < len(toks) and toks[i].t == t.t:
        return match_here(toks, i + 1, pat, p + 1, b)
    return None


def subst(rep, b):
    out = []
    i = 0
    while i < len(rep):
        if is_p(rep[i], '$') and i + 1 < len(rep) and rep[i + 1].t in b:
            v = b[rep[i + 1].t]
            for k, x in enumerate(v):
                out.append(Tok(x.k, x.t, x.nl if k else 0, x.sp if k else True, x.line))
            i += 2
        else:
            out.append(rep[i])
            i += 1
    return out


def rewrite(toks, rules):
    """Apply each (pattern, replacement) rule everywhere, in order."""
    n_applied = {}
    for name, pat, rep in rules:
        pos = 0
        while True:
            m = find_pattern(toks, pat, pos)
            if not m:
                break
            i, j, b = m
            new = subst(rep, b)
            if new:
                new = [Tok(x.k, x.t, x.nl, x.sp, toks[i].line) for x in new]
                new[0].nl, new[0].sp = toks[i].nl, toks[i].sp
            toks = toks[:i] + new + toks[j:]
            n_applied[name] = n_applied.get(name, 0) + 1
            if n_applied[name] > 500:
                raise SyntaxError('rule does not end: ' + name)
            pos = i + (1 if len(new) else 0)
            if len(new) and norm(new) == norm(toks[i:j]):
                pos = i + len(new)
    return toks, n_applied
