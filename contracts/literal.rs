// What the reference reader makes of a number literal, in terms of its decimal value.
use vstd::prelude::*;
use crate::spec::*;
use crate::gram::*;
use crate::reader::*;
use crate::number::*;
use crate::json::*;
use crate::tree::*;
verus! {

/// w * 10^z is V, and w fits in 64 bits.
pub open spec fn fits(w: int, z: nat, v: int) -> bool { 0 <= w <= u64::MAX && v == w * pow10(z) }

pub open spec fn between(m: int, k: nat, v: int) -> bool { m * pow10(k) <= v < (m + 1) * pow10(k) }

/// m * 10^k stands for the integer V: exactly when V fits in 64 bits but for
/// trailing zeros, and otherwise up to a unit of the leading 19 digits.
pub open spec fn near(m: int, k: int, v: int) -> bool {
    &&& 0 <= m <= u64::MAX && k >= 0 && v >= 0
    &&& k == 0 ==> m == v
    &&& k > 0 ==> v > u64::MAX && m >= 1844674407370955161
    &&& k > 0 ==> between(m, k as nat, v) || m >= 18446744073709551610 && between(m / 10, (k + 1) as nat, v)
    &&& forall|w: int, z: nat| #[trigger] fits(w, z, v) ==> v == m * pow10(k as nat)
}

proof fn lemma_between(m: int, k: nat, v: int, d: int)
    requires between(m, k, v), 0 <= d <= 9
    ensures between(m, k + 1, 10 * v + d)
{
    let p = pow10(k);
    assert(pow10(k + 1) == 10 * p);
    assert(m * (10 * p) == 10 * (m * p)) by (nonlinear_arith);
    assert((m + 1) * (10 * p) == 10 * ((m + 1) * p)) by (nonlinear_arith);
}

/// A further digit.
pub proof fn lemma_digit(m: int, k: int, v: int, d: int)
    requires near(m, k, v), 0 <= d <= 9
    ensures
        m * 10 + d <= u64::MAX ==> near(m * 10 + d, k, 10 * v + d),
        m * 10 + d > u64::MAX ==> near(m, k + 1, 10 * v + d),
{
    let v2 = 10 * v + d;
    let p = pow10(k as nat);
    assert(pow10(0) == 1);
    assert(pow10((k + 1) as nat) == 10 * p);
    assert(m * 1 == m);
    if k > 0 {
        if between(m, k as nat, v) { lemma_between(m, k as nat, v, d); } else { lemma_between(m / 10, (k + 1) as nat, v, d); }
    }
    if m * 10 + d <= u64::MAX {
        if k > 0 { assert((m * 10 + d) / 10 == m); }
        assert forall|w: int, z: nat| #[trigger] fits(w, z, v2) implies v2 == (m * 10 + d) * p by {
            lemma_fits(w, z, v, d);
            if k > 0 {
                if z == 0 { assert(w * 1 == w); }
                assert(fits(w, (z - 1) as nat, v));
                assert((m * 10) * p == 10 * (m * p)) by (nonlinear_arith);
            } else {
                assert((m * 10 + d) * 1 == m * 10 + d);
            }
        }
    } else {
        if k == 0 { assert((m + 1) * 10 == m * 10 + 10 && pow10(1) == 10) by { assert(pow10(1) == 10 * pow10(0)); } assert(between(m, 1, v2)); }
        assert forall|w: int, z: nat| #[trigger] fits(w, z, v2) implies v2 == m * pow10((k + 1) as nat) by {
            lemma_fits(w, z, v, d);
            if z == 0 { assert(w * 1 == w); }
            assert(fits(w, (z - 1) as nat, v));
            assert(m * (10 * p) == 10 * (m * p)) by (nonlinear_arith);
        }
    }
}
proof fn lemma_fits(w: int, z: nat, v: int, d: int)
    requires fits(w, z, 10 * v + d), 0 <= d <= 9, v >= 0
    ensures
        z == 0 ==> w == 10 * v + d,
        z > 0 ==> d == 0 && fits(w, (z - 1) as nat, v),
{
    if z == 0 { assert(w * 1 == w); }
    else {
        let q = pow10((z - 1) as nat);
        assert(w * (10 * q) == 10 * (w * q)) by (nonlinear_arith);
    }
}

/// The relative error is below 10^-18.
pub proof fn lemma_error(m: int, k: int, v: int)
    requires near(m, k, v)
    ensures
        v <= u64::MAX ==> k == 0 && m == v,
        (v - m * pow10(k as nat)) * 1000000000000000000 <= v,
        (m * pow10(k as nat) - v) * 1000000000000000000 <= v,
        k > 0 ==> (v - m * pow10(k as nat)) * 1000000000000000000 < v && (m * pow10(k as nat) - v) * 1000000000000000000 < v,
{
    let p = pow10(k as nat);
    lemma_pow10_pos(k as nat);
    if k == 0 {
        assert(m * 1 == m);
    } else if between(m, k as nat, v) {
        assert((m + 1) * p == m * p + p) by (nonlinear_arith);
        assert(m * p >= 1844674407370955161 * p) by (nonlinear_arith) requires m >= 1844674407370955161, p >= 1;
    } else {
        let m0 = m / 10;
        let r = m % 10;
        let q = pow10((k + 1) as nat);
        assert(q == 10 * p);
        assert(m == 10 * m0 + r);
        assert((10 * m0 + r) * p == m0 * q + r * p) by (nonlinear_arith) requires q == 10 * p;
        assert((m0 + 1) * q == m0 * q + q) by (nonlinear_arith);
        assert(0 <= r * p <= 9 * p) by (nonlinear_arith) requires 0 <= r <= 9, p >= 1;
        assert(m0 * q >= 1844674407370955161 * q) by (nonlinear_arith) requires m0 >= 1844674407370955161, q >= 1;
    }
}

/// The digits at i .. j after those of v.
pub open spec fn more(s: Seq<u8>, i: int, j: int, v: int) -> int
    decreases j - i
{
    if i < j { more(s, i, j - 1, v) * 10 + (s[j - 1] - 48) } else { v }
}
proof fn lemma_more(s: Seq<u8>, i: int, j: int, v: int)
    requires i < j
    ensures more(s, i, j, v) == more(s, i + 1, j, 10 * v + (s[i] - 48))
    decreases j - i
{
    if i + 1 < j { lemma_more(s, i, j - 1, v); }
    else { reveal_with_fuel(more, 2); }
}

proof fn lemma_ends(s: Seq<u8>, i: int)
    requires 0 <= i
    ensures i <= digits_end(s, i), i <= s.len() ==> digits_end(s, i) <= s.len()
    decreases s.len() - i
{
    if i < s.len() && is_digit(s[i]) { lemma_ends(s, i + 1); }
}

pub proof fn lemma_int_value(s: Seq<u8>, i: int, m: int, e: int, v: int)
    requires 0 <= i, near(m, e, v), e <= 32767
    ensures int_part(s, i, m, e) matches Got::Yes(d, j) ==> j == digits_end(s, i) && near(d.m, d.e, more(s, i, j, v)) && d.e <= 32767
    decreases s.len() - i
{
    lemma_ends(s, i);
    if i < s.len() && is_digit(s[i]) {
        let d = s[i] - 48;
        lemma_ends(s, i + 1);
        lemma_digit(m, e, v, d);
        lemma_more(s, i, digits_end(s, i), v);
        if m * 10 + d <= u64::MAX { lemma_int_value(s, i + 1, m * 10 + d, e, 10 * v + d); }
        else if e < 32767 { lemma_int_value(s, i + 1, m, e + 1, 10 * v + d); }
    }
}
/// n counts the digits of the fraction so far.
pub proof fn lemma_frac_value(s: Seq<u8>, i: int, m: int, e: int, n: int, v: int)
    requires 0 <= i, near(m, e + n, v), -32768 <= e <= 32767
    ensures frac_part(s, i, m, e) matches Got::Yes(d, j) ==> j == digits_end(s, i) && near(d.m, d.e + n + (j - i), more(s, i, j, v)) && -32768 <= d.e <= 32767
    decreases s.len() - i
{
    lemma_ends(s, i);
    if i < s.len() && is_digit(s[i]) {
        let d = s[i] - 48;
        lemma_ends(s, i + 1);
        lemma_digit(m, e + n, v, d);
        lemma_more(s, i, digits_end(s, i), v);
        if m * 10 + d <= u64::MAX { if e > -32768 { lemma_frac_value(s, i + 1, m * 10 + d, e - 1, n + 1, 10 * v + d); } }
        else { lemma_frac_value(s, i + 1, m, e, n + 1, 10 * v + d); }
    }
}

// ---- a literal, piece by piece

/// Its parts: integer digits a .. b, fraction digits b + 1 .. c if there is a
/// point (else c == b), then the exponent.
pub struct Parts { pub a: int, pub b: int, pub c: int, pub digits: int, pub places: int, pub power: int, pub end: int }

/// The digits with the point left out, as one integer.
pub open spec fn parts(s: Seq<u8>, a: int) -> Parts {
    let b = if s[a] == 48 { a + 1 } else { digits_end(s, a + 1) };
    let whole = more(s, a, b, 0);
    let point = b < s.len() && s[b] == 46;
    let c = if point { digits_end(s, b + 1) } else { b };
    let digits = if point { more(s, b + 1, c, whole) } else { whole };
    let places = if point { c - (b + 1) } else { 0 };
    let exp = c < s.len() && (s[c] == 101 || s[c] == 69);
    let signed = c + 1 < s.len() && (s[c + 1] == 43 || s[c + 1] == 45);
    let x = if signed { c + 2 } else { c + 1 };
    let end = if exp { digits_end(s, x) } else { c };
    let power = if !exp { 0 } else if s[c + 1] == 45 { -digits_val(s, x, end) } else { digits_val(s, x, end) };
    Parts { a: a, b: b, c: c, digits: digits, places: places, power: power, end: end }
}

/// n is a rendering of digits * 10^(power - places).
pub open spec fn denotes(n: Number, p: Parts) -> bool {
    &&& n.category == 1
    &&& exists|k: int| #[trigger] near(n.mantissa as int, k, p.digits) && n.exponent == clamp(p.power - p.places + k)
}

proof fn lemma_num_end(s: Seq<u8>, c: int, m: int, e: int, k: int, p: Parts)
    requires 0 <= c, -32768 <= e <= 32767, p == parts(s, p.a), p.c == c, near(m, k, p.digits), e == k - p.places
    ensures num_end(s, c, m, e) matches Got::Yes(n, j) ==> j == p.end && denotes(n, p)
{
    match num_end(s, c, m, e) {
        Got::Yes(n, j) => { assert(n.mantissa as int == m); assert(near(n.mantissa as int, k, p.digits)); }
        _ => {}
    }
}

/// The number that a literal reads as stands for its decimal value.
pub proof fn lemma_literal(s: Seq<u8>, a: int)
    requires 0 <= a < s.len()
    ensures unsigned(s, s[a], a + 1) matches Got::Yes(n, j) ==> is_digit(s[a]) && j == parts(s, a).end && denotes(n, parts(s, a))
{
    let p = parts(s, a);
    let b = p.b;
    let whole = more(s, a, b, 0);
    reveal_with_fuel(more, 2);
    assert(near(0, 0, 0)) by { assert forall|w: int, z: nat| #[trigger] fits(w, z, 0) implies 0 == 0 * pow10(0) by {} }
    if is_digit(s[a]) {
        lemma_digit(0, 0, 0, s[a] - 48);
        lemma_ends(s, a + 1);
        lemma_more(s, a, b, 0);
        if s[a] == 48 {
            lemma_rest(s, b, 0, 0, p);
        } else {
            lemma_int_value(s, a + 1, s[a] - 48, 0, s[a] - 48);
            match int_part(s, a + 1, s[a] - 48, 0) {
                Got::Yes(d, j) => { lemma_rest(s, b, d.m, d.e, p); }
                _ => {}
            }
        }
    }
}
proof fn lemma_rest(s: Seq<u8>, b: int, m: int, e: int, p: Parts)
    requires 0 <= b <= s.len(), p == parts(s, p.a), p.b == b, near(m, e, more(s, p.a, b, 0)), e <= 32767
    ensures num_rest(s, b, m, e) matches Got::Yes(n, j) ==> j == p.end && denotes(n, p)
{
    if b < s.len() && s[b] == 46 {
        lemma_frac_value(s, b + 1, m, e, 0, more(s, p.a, b, 0));
        match frac_part(s, b + 1, m, e) {
            Got::Yes(d, j) => { lemma_ends(s, b + 1); lemma_num_end(s, j, d.m, d.e, d.e + p.places, p); }
            _ => {}
        }
    } else {
        lemma_num_end(s, b, m, e, e, p);
    }
}

/// Where the digits of the number that begins before i start.
pub open spec fn digits_from(s: Seq<u8>, i: int) -> int { if s[i - 1] == 45 { i } else { i - 1 } }

/// n keeps the value of the literal p, up to its sign.
pub open spec fn keeps(n: Number, p: Parts) -> bool {
    // every digit fits: exact
    &&& p.digits <= u64::MAX ==> n.mantissa == p.digits && n.exponent == clamp(p.power - p.places)
    // else k digits are dropped
    &&& exists|k: int| #[trigger] near(n.mantissa as int, k, p.digits) && n.exponent == clamp(p.power - p.places + k)
}

/// C04 for a value that begins with a digit or a minus sign.
pub proof fn lemma_number_value(s: Seq<u8>, i: int)
    requires 0 < i <= s.len(), is_digit(s[i - 1]) || s[i - 1] == 45
    ensures
        leaf(s, s[i - 1], i) matches Got::Yes(v, j) ==> v is Num && j == parts(s, digits_from(s, i)).end
            && v->Num_0.category == (if s[i - 1] == 45 { 0u8 } else { 1u8 }) && keeps(v->Num_0, parts(s, digits_from(s, i))),
{
    let neg = s[i - 1] == 45;
    let a = digits_from(s, i);
    if a < s.len() {
        lemma_literal(s, a);
        match unsigned(s, s[a], a + 1) {
            Got::Yes(n, j) => {
                let p = parts(s, a);
                let k = choose|k: int| #[trigger] near(n.mantissa as int, k, p.digits) && n.exponent == clamp(p.power - p.places + k);
                lemma_error(n.mantissa as int, k, p.digits);
                if neg { assert(near(negated(n).mantissa as int, k, p.digits)); }
            }
            _ => {}
        }
    }
}

} // verus!
