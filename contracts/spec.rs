// Specification vocabulary shared by all contracts: mathematical numbers.
use vstd::prelude::*;
verus! {

// the target of this build of /repo
global size_of usize == 8;

/// 10^n
pub open spec fn pow10(n: nat) -> nat
    decreases n
{
    if n == 0 { 1 } else { 10 * pow10((n - 1) as nat) }
}

pub proof fn lemma_pow10_pos(n: nat)
    ensures pow10(n) >= 1
    decreases n
{
    if n > 0 { lemma_pow10_pos((n - 1) as nat); }
}

pub proof fn lemma_pow10_add(a: nat, b: nat)
    ensures pow10(a + b) == pow10(a) * pow10(b)
    decreases a
{
    if a > 0 {
        lemma_pow10_add((a - 1) as nat, b);
        assert((a + b - 1) as nat == (a - 1) as nat + b);
        assert(10 * (pow10((a - 1) as nat) * pow10(b)) == (10 * pow10((a - 1) as nat)) * pow10(b)) by (nonlinear_arith);
    } else {
        assert(1 * pow10(b) == pow10(b)) by (nonlinear_arith);
    }
}

pub proof fn lemma_pow10_20(e: nat)
    ensures
        e == 0 ==> pow10(e) == 1,
        e == 1 ==> pow10(e) == 10,
        e == 2 ==> pow10(e) == 100,
        e == 3 ==> pow10(e) == 1000,
        e == 4 ==> pow10(e) == 10000,
        e == 5 ==> pow10(e) == 100000,
        e == 6 ==> pow10(e) == 1000000,
        e == 7 ==> pow10(e) == 10000000,
        e == 8 ==> pow10(e) == 100000000,
        e == 9 ==> pow10(e) == 1000000000,
        e == 10 ==> pow10(e) == 10000000000,
        e == 11 ==> pow10(e) == 100000000000,
        e == 12 ==> pow10(e) == 1000000000000,
        e == 13 ==> pow10(e) == 10000000000000,
        e == 14 ==> pow10(e) == 100000000000000,
        e == 15 ==> pow10(e) == 1000000000000000,
        e == 16 ==> pow10(e) == 10000000000000000,
        e == 17 ==> pow10(e) == 100000000000000000,
        e == 18 ==> pow10(e) == 1000000000000000000,
        e == 19 ==> pow10(e) == 10000000000000000000,
        e == 20 ==> pow10(e) == 100000000000000000000,
{
    reveal_with_fuel(pow10, 21);
}

pub proof fn lemma_pow10_mono(a: nat, b: nat)
    requires a <= b
    ensures pow10(a) <= pow10(b)
    decreases b
{
    if a < b {
        lemma_pow10_mono(a, (b - 1) as nat);
        lemma_pow10_pos((b - 1) as nat);
    }
}

/// The abstract value of a number: NaN, or sign, integer and decimal exponent.
pub struct NumV { pub nan: bool, pub pos: bool, pub m: nat, pub e: int }

pub open spec fn min_int(a: int, b: int) -> int { if a <= b { a } else { b } }

/// a.m * 10^a.e == b.m * 10^b.e
pub open spec fn same_magnitude(a: NumV, b: NumV) -> bool {
    let lo = min_int(a.e, b.e);
    a.m * pow10((a.e - lo) as nat) == b.m * pow10((b.e - lo) as nat)
}

/// Two numbers denote the same decimal value (NaN only NaN; the sign of zero is ignored).
pub open spec fn same_value(a: NumV, b: NumV) -> bool {
    if a.nan || b.nan { a.nan && b.nan }
    else if a.m == 0 || b.m == 0 { a.m == 0 && b.m == 0 }
    else { a.pos == b.pos && same_magnitude(a, b) }
}

/// n * 10^x is m * 10^e with the zeros dropped.
pub open spec fn dropped(m: nat, e: int, n: nat, x: int) -> bool { x >= e && m == n * pow10((x - e) as nat) }

/// Scaling to any common lower exponent decides `same_magnitude`.
pub proof fn lemma_same_magnitude_at(a: NumV, b: NumV, lo: int)
    requires lo <= a.e, lo <= b.e
    ensures same_magnitude(a, b) <==> a.m * pow10((a.e - lo) as nat) == b.m * pow10((b.e - lo) as nat)
{
    let m = min_int(a.e, b.e);
    let d = (m - lo) as nat;
    let x = pow10((a.e - m) as nat);
    let y = pow10((b.e - m) as nat);
    let p = pow10(d);
    assert((a.e - lo) as nat == (a.e - m) as nat + d);
    assert((b.e - lo) as nat == (b.e - m) as nat + d);
    lemma_pow10_add((a.e - m) as nat, d);
    lemma_pow10_add((b.e - m) as nat, d);
    lemma_pow10_pos(d);
    let am = a.m;
    let bm = b.m;
    assert((am * (x * p) == bm * (y * p)) <==> (am * x == bm * y)) by (nonlinear_arith)
        requires p >= 1;
}

pub proof fn lemma_same_value_refl(a: NumV)
    ensures same_value(a, a)
{}

pub proof fn lemma_same_value_sym(a: NumV, b: NumV)
    requires same_value(a, b)
    ensures same_value(b, a)
{}

/// Equality of numbers is transitive.
pub proof fn lemma_same_value_trans(a: NumV, b: NumV, c: NumV)
    requires same_value(a, b), same_value(b, c)
    ensures same_value(a, c)
{
    if !a.nan && a.m != 0 {
        let lo = min_int(a.e, min_int(b.e, c.e));
        lemma_same_magnitude_at(a, b, lo);
        lemma_same_magnitude_at(b, c, lo);
        lemma_same_magnitude_at(a, c, lo);
    }
}

/// |x| * 10^point truncated to an integer
pub open spec fn scaled(m: nat, e: int) -> nat {
    if e >= 0 { m * pow10(e as nat) } else { m / pow10((-e) as nat) }
}

} // verus!
