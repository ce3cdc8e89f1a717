// The text of a number reads back as an equal number.
use vstd::prelude::*;
use crate::spec::*;
use crate::text::*;
use crate::number::*;
use crate::json::*;
use crate::tree::*;
use crate::gram::*;
use crate::reader::*;
use crate::literal::*;
verus! {

/// The text t stands in s at p.
pub open spec fn has(s: Seq<u8>, p: int, t: Seq<u8>) -> bool { 0 <= p && p + t.len() <= s.len() && s.subrange(p, p + t.len()) == t }

pub proof fn lemma_has_cat(s: Seq<u8>, p: int, a: Seq<u8>, b: Seq<u8>)
    requires has(s, p, a + b)
    ensures has(s, p, a), has(s, p + a.len(), b), (a + b).len() == a.len() + b.len()
{
    let t = a + b;
    let u = s.subrange(p, p + t.len());
    assert forall|k: int| 0 <= k < t.len() implies s[p + k] == t[k] by { assert(u[k] == t[k]); }
    assert(s.subrange(p, p + a.len()) =~= a) by {
        assert forall|k: int| 0 <= k < a.len() implies s[p + k] == a[k] by { assert(t[k] == a[k]); }
    }
    assert(s.subrange(p + a.len(), p + a.len() + b.len()) =~= b) by {
        assert forall|k: int| 0 <= k < b.len() implies s[p + a.len() + k] == b[k] by { assert(t[a.len() + k] == b[k]); assert(s[p + (a.len() + k)] == t[a.len() + k]); }
    }
}
pub proof fn lemma_has_at(s: Seq<u8>, p: int, t: Seq<u8>)
    requires has(s, p, t)
    ensures forall|k: int| 0 <= k < t.len() ==> #[trigger] s[p + k] == t[k], t.len() > 0 ==> s[p] == t[0] && p < s.len()
{
    let u = s.subrange(p, p + t.len());
    assert forall|k: int| 0 <= k < t.len() implies #[trigger] s[p + k] == t[k] by { assert(u[k] == t[k]); }
    if t.len() > 0 { assert(s[p + 0] == t[0]); }
}

/// Nothing that could belong to a number follows.
pub open spec fn no_number(s: Seq<u8>, i: int) -> bool {
    i >= s.len() || !is_digit(s[i]) && s[i] != 46 && s[i] != 101 && s[i] != 69
}

proof fn lemma_digits_end(s: Seq<u8>, i: int, t: Seq<u8>)
    requires has(s, i, t), digits(t), i + t.len() >= s.len() || !is_digit(s[i + t.len()])
    ensures digits_end(s, i) == i + t.len()
    decreases t.len()
{
    lemma_has_at(s, i, t);
    if t.len() > 0 {
        let h = t.take(1);
        let r = t.skip(1);
        assert(h + r =~= t);
        lemma_has_cat(s, i, h, r);
        assert(digits(r)) by { assert forall|k: int| 0 <= k < r.len() implies 48 <= #[trigger] r[k] <= 57 by { assert(r[k] == t[k + 1]); } }
        lemma_digits_end(s, i + 1, r);
        assert(48 <= t[0] <= 57);
    }
}
proof fn lemma_more_dval(s: Seq<u8>, i: int, t: Seq<u8>, n: int, p: Seq<u8>)
    requires has(s, i, t), 0 <= n <= t.len(), digits(t), digits(p)
    ensures more(s, i, i + n, dval(p) as int) == dval(p + t.take(n))
    decreases n
{
    lemma_has_at(s, i, t);
    if n > 0 {
        lemma_more_dval(s, i, t, n - 1, p);
        let q = p + t.take(n);
        assert(q.drop_last() =~= p + t.take(n - 1));
        assert(q.last() == t[n - 1]);
        assert(s[i + (n - 1)] == t[n - 1]);
        assert(48 <= t[n - 1] <= 57);
    } else {
        assert(p + t.take(0) =~= p);
    }
}
proof fn lemma_digits_val(s: Seq<u8>, i: int, t: Seq<u8>, n: int)
    requires has(s, i, t), 0 <= n <= t.len(), digits(t)
    ensures digits_val(s, i, i + n) == dval(t.take(n))
    decreases n
{
    lemma_has_at(s, i, t);
    if n > 0 {
        lemma_digits_val(s, i, t, n - 1);
        assert(t.take(n).drop_last() =~= t.take(n - 1));
        assert(s[i + (n - 1)] == t[n - 1]);
        assert(48 <= t[n - 1] <= 57);
    }
}

/// A literal without its sign.
pub open spec fn body_text(l: NumLit) -> Seq<u8> {
    l.int + ((if l.frac is Some { seq![46u8] + l.frac->0 } else { Seq::empty() })
    + (if l.exp is Some { (l.exp->0).0 + (l.exp->0).1 } else { Seq::empty() }))
}

/// The parts of a literal in a text are those it was put together from.
#[verifier::rlimit(60)]
pub proof fn lemma_parts(s: Seq<u8>, a: int, l: NumLit)
    requires lit_ok(l), has(s, a, body_text(l)), no_number(s, a + body_text(l).len())
    ensures
        ({
            let p = parts(s, a);
            &&& is_digit(s[a])
            &&& p.b == a + l.int.len() && p.c <= s.len()
            &&& p.digits == dval(l.int + frac_digits(l))
            &&& p.places == frac_digits(l).len()
            &&& p.power == lit_exp(l)
            &&& p.end == a + body_text(l).len()
            &&& p.c == p.b + (if l.frac is Some { 1 + frac_digits(l).len() } else { 0 })
            &&& p.b < s.len() && s[p.b] == 46 <==> l.frac is Some
            &&& p.c < s.len() && (s[p.c] == 101 || s[p.c] == 69) <==> l.exp is Some
            &&& l.exp is Some ==> ({
                let x = if p.c + 1 < s.len() && (s[p.c + 1] == 43 || s[p.c + 1] == 45) { p.c + 2 } else { p.c + 1 };
                x < s.len() && is_digit(s[x]) && digits_end(s, x) == p.end
            })
        }),
{
    let p = parts(s, a);
    let f = if l.frac is Some { seq![46u8] + l.frac->0 } else { Seq::empty() };
    let x = if l.exp is Some { (l.exp->0).0 + (l.exp->0).1 } else { Seq::empty() };
    lemma_has_cat(s, a, l.int, f + x);
    let b = a + l.int.len();
    lemma_has_cat(s, b, f, x);
    let c = b + f.len();
    lemma_has_at(s, a, l.int);
    lemma_has_at(s, b, f);
    lemma_has_at(s, c, x);
    let end = c + x.len();
    assert(end == a + body_text(l).len());
    assert(48 <= l.int[0] <= 57);
    // what follows the exponent
    if l.exp is Some {
        let (k, e) = l.exp->0;
        lemma_has_cat(s, c, k, e);
        lemma_has_at(s, c, k);
        lemma_has_at(s, c + k.len(), e);
        assert(48 <= e[0] <= 57);
        lemma_digits_end(s, c + k.len(), e);
        lemma_digits_val(s, c + k.len(), e, e.len() as int);
        assert(e.take(e.len() as int) =~= e);
        assert(s[c] == k[0]);
        if k.len() == 2 { assert(s[c + 1] == k[1]); } else { assert(s[c + 1] == e[0]); }
    }
    assert(c < s.len() ==> !is_digit(s[c]) && s[c] != 46);
    if l.frac is Some {
        let t = l.frac->0;
        lemma_has_cat(s, b, seq![46u8], t);
        lemma_digits_end(s, b + 1, t);
        lemma_has_at(s, b + 1, t);
        lemma_more_dval(s, b + 1, t, t.len() as int, l.int);
        assert(t.take(t.len() as int) =~= t);
        assert(s[b] == 46);
        assert(48 <= t[0] <= 57);
    } else {
        assert(l.int + frac_digits(l) =~= l.int);
    }
    assert(b < s.len() ==> !is_digit(s[b]));
    lemma_digits_end(s, a, l.int);
    lemma_more_dval(s, a, l.int, l.int.len() as int, Seq::empty());
    assert(Seq::<u8>::empty() + l.int.take(l.int.len() as int) =~= l.int);
    assert(dval(Seq::empty()) == 0);
    assert(s[a] == l.int[0]);
    if s[a] == 48 { } else { assert(digits_end(s, a) == digits_end(s, a + 1)); }
}

proof fn lemma_int_yes(s: Seq<u8>, i: int, m: int, e: int)
    requires 0 <= i, digits_end(s, i) - i + e <= 32767
    ensures int_part(s, i, m, e) matches Got::Yes(d, j) && j == digits_end(s, i) && e <= d.e <= e + (j - i)
    decreases s.len() - i
{
    if i < s.len() && is_digit(s[i]) {
        lemma_ends_after(s, i + 1);
        if m * 10 + (s[i] - 48) <= u64::MAX { lemma_int_yes(s, i + 1, m * 10 + (s[i] - 48), e); }
        else { lemma_int_yes(s, i + 1, m, e + 1); }
    }
}
proof fn lemma_frac_yes(s: Seq<u8>, i: int, m: int, e: int)
    requires 0 <= i, e - (digits_end(s, i) - i) >= -32768
    ensures frac_part(s, i, m, e) matches Got::Yes(d, j) && j == digits_end(s, i)
    decreases s.len() - i
{
    if i < s.len() && is_digit(s[i]) {
        lemma_ends_after(s, i + 1);
        if m * 10 + (s[i] - 48) <= u64::MAX { lemma_frac_yes(s, i + 1, m * 10 + (s[i] - 48), e - 1); }
        else { lemma_frac_yes(s, i + 1, m, e); }
    }
}
proof fn lemma_ends_after(s: Seq<u8>, i: int)
    requires 0 <= i
    ensures i <= digits_end(s, i)
    decreases s.len() - i
{
    if i < s.len() && is_digit(s[i]) { lemma_ends_after(s, i + 1); }
}

/// Literals of moderate length are accepted.
pub proof fn lemma_accepted(s: Seq<u8>, a: int, l: NumLit)
    requires lit_ok(l), has(s, a, body_text(l)), no_number(s, a + body_text(l).len()), l.int.len() <= 1000, frac_digits(l).len() <= 1000
    ensures unsigned(s, s[a], a + 1) matches Got::Yes(n, j) && j == a + body_text(l).len() && denotes(n, parts(s, a))
{
    lemma_parts(s, a, l);
    let p = parts(s, a);
    let b = p.b;
    lemma_literal(s, a);
    if s[a] != 48 {
        assert(digits_end(s, a + 1) == b);
        lemma_int_yes(s, a + 1, s[a] - 48, 0);
        let d = int_part(s, a + 1, s[a] - 48, 0)->Yes_0;
        if l.frac is Some { lemma_frac_yes(s, b + 1, d.m, d.e); }
    } else {
        if l.frac is Some { lemma_frac_yes(s, b + 1, 0, 0); }
    }
}

/// What the printed literal is made of.
proof fn lemma_lit_digits(pos: bool, m: nat, e: int)
    ensures
        ({
            let l = num_lit(pos, m, e);
            let v = dval(l.int + frac_digits(l));
            let x = lit_exp(l) - frac_digits(l).len();
            &&& m == 0 ==> v == 0
            &&& m > 0 ==> v == m && x == e || 0 < e <= 20 && x == 0 && v == m * pow10(e as nat)
        }),
        lit_ok(num_lit(pos, m, e)),
        num_text(pos, m, e) == (if pos { Seq::empty() } else { seq![45u8] }) + body_text(num_lit(pos, m, e)),
{
    let l = num_lit(pos, m, e);
    let s = dig(m);
    lemma_num_text(pos, m, e);
    lemma_dig(m);
    assert(lit_text(l) =~= (if pos { Seq::empty() } else { seq![45u8] }) + body_text(l));
    if m == 0 {
        lemma_dval_zeros(seq![48u8]);
        assert(l.int + frac_digits(l) =~= seq![48u8]);
    } else if e == 0 {
        assert(l.int + frac_digits(l) =~= s);
    } else if -18 < e < 0 {
        let k = (-e) as nat;
        let q = cut(m, k);
        lemma_dig(q);
        lemma_pad(m, k);
        lemma_dval_cat(dig(q), pad(m, k));
        lemma_pow10_pos(k);
        let p = pow10(k) as int;
        assert(q * p + m as int % p == m) by { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(m as int, p); assert(p * q == q * p) by (nonlinear_arith); }
    } else if e > 0 && s.len() + e <= 20 {
        let z = zeros(e as nat);
        lemma_dval_zeros(z);
        lemma_dval_cat(s, z);
        assert(l.int + frac_digits(l) =~= s + z);
    } else {
        assert(l.int + frac_digits(l) =~= s);
        let top = e + s.len() - 1;
        if top != 0 { lemma_dig(if top < 0 { (-top) as nat } else { top as nat }); }
    }
}

/// What is printed for a number reads back as an equal number of the same sign.
pub proof fn lemma_number_back(s: Seq<u8>, i: int, n: Number) -> (r: Number)
    requires
        !n.nan(), has(s, i, num_text(n.category == 1, n.mantissa as nat, n.exponent as int)),
        no_number(s, i + num_text(n.category == 1, n.mantissa as nat, n.exponent as int).len()),
    ensures
        s[i] == 45 || is_digit(s[i]),
        leaf(s, s[i], i + 1) == Got::Yes(J::Num(r), i + num_text(n.category == 1, n.mantissa as nat, n.exponent as int).len()),
        same_value(n.v(), r.v()), !r.nan(), r.v().pos == n.v().pos,
{
    hide(num_lit); hide(num_text); hide(near); hide(num_rest); hide(int_end); hide(pow10); hide(dval); hide(body_text); hide(same_magnitude); hide(clamp);
    let pos = n.category == 1;
    let m = n.mantissa as nat;
    let e = n.exponent as int;
    let l = num_lit(pos, m, e);
    let t = num_text(pos, m, e);
    lemma_lit_digits(pos, m, e);
    lemma_has_cat(s, i, if pos { Seq::empty() } else { seq![45u8] }, body_text(l));
    lemma_has_at(s, i, t);
    let a = if pos { i } else { i + 1 };
    lemma_short_lit(pos, m, e);
    lemma_accepted(s, a, l);
    lemma_parts(s, a, l);
    let p = parts(s, a);
    assert(unsigned(s, s[a], a + 1) is Yes);
    let u = unsigned(s, s[a], a + 1)->Yes_0;
    assert(denotes(u, p));
    let r = if pos { u } else { negated(u) };
    let k = choose|k: int| #[trigger] near(u.mantissa as int, k, p.digits) && u.exponent == clamp(p.power - p.places + k);
    lemma_magnitude(n, r, p.digits, p.power - p.places, k);
    r
}
/// A number that was read from the digits of n.
proof fn lemma_magnitude(n: Number, r: Number, v: int, x: int, k: int)
    requires
        near(r.mantissa as int, k, v), r.exponent == clamp(x + k), r.category <= 1, n.category <= 1, r.category == n.category,
        n.mantissa == 0 ==> v == 0,
        n.mantissa > 0 ==> v == n.mantissa && x == n.exponent || 0 < n.exponent <= 20 && x == 0 && v == n.mantissa * pow10(n.exponent as nat),
    ensures
        same_value(n.v(), r.v())
{
    hide(near); hide(fits); hide(between); hide(pow10);
    let m = n.mantissa as int;
    let e = n.exponent as int;
    lemma_error(r.mantissa as int, k, v);
    lemma_near_parts(r.mantissa as int, k, v);
    if m > 0 {
        if v == m && x == e {
            assert(k == 0);
            assert(r.mantissa == m && r.exponent == e);
        } else {
            assert(fits(m, e as nat, v)) by { reveal(fits); }
            assert(v == r.mantissa * pow10(k as nat));
            lemma_pow10_20(e as nat);
            lemma_pow10_pos(k as nat);
            assert(v <= 0xffff_ffff_ffff_ffff * 100000000000000000000) by (nonlinear_arith) requires v == m * pow10(e as nat), m <= 0xffff_ffff_ffff_ffff, pow10(e as nat) <= 100000000000000000000;
            assert(v > 0) by (nonlinear_arith) requires v == m * pow10(e as nat), m > 0, pow10(e as nat) > 0;
            assert(r.mantissa > 0) by (nonlinear_arith) requires v > 0, v == r.mantissa * pow10(k as nat), r.mantissa >= 0;
            lemma_pow_bound(r.mantissa as int, k, v);
            assert(r.exponent == k);
            lemma_same_magnitude_at(n.v(), r.v(), 0);
        }
    } else {
        assert(r.mantissa == 0);
    }
}
proof fn lemma_near_parts(m: int, k: int, v: int)
    requires near(m, k, v)
    ensures k >= 0, m >= 0, v >= 0, forall|w: int, z: nat| #[trigger] fits(w, z, v) ==> v == m * pow10(k as nat)
{}
/// k is small
proof fn lemma_pow_bound(m: int, k: int, v: int)
    requires k >= 0, m >= 1, m * pow10(k as nat) == v, v <= 0xffff_ffff_ffff_ffff * 100000000000000000000
    ensures k <= 40
{
    if k > 40 {
        lemma_pow10_mono(41, k as nat);
        lemma_pow10_add(20, 21);
        lemma_pow10_20(20);
        lemma_pow10_20(1);
        lemma_pow10_add(20, 1);
        let p = pow10(k as nat) as int;
        assert(pow10(41) == 100000000000000000000 * (100000000000000000000 * 10));
        assert(m * p >= p) by (nonlinear_arith) requires m >= 1, p >= 0;
    }
}
proof fn lemma_short_lit(pos: bool, m: nat, e: int)
    requires m <= u64::MAX
    ensures num_lit(pos, m, e).int.len() <= 1000, frac_digits(num_lit(pos, m, e)).len() <= 1000
{
    lemma_pow10_20(20);
    lemma_dig_len(m, 20);
    lemma_dig(m);
    if -18 < e < 0 {
        lemma_pad(m, (-e) as nat);
        lemma_pow10_pos((-e) as nat);
        let q = cut(m, (-e) as nat);
        assert(q <= m) by (nonlinear_arith) requires q == m / pow10((-e) as nat), pow10((-e) as nat) >= 1;
        lemma_dig_len(q, 20);
    }
}

} // verus!
