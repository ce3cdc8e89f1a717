// Real powers of whole numbers.
use vstd::prelude::*;
use crate::spec::*;
verus! {

/// b^n for any whole n
pub open spec fn pw(b: real, n: int) -> real
    decreases (if n >= 0 { n } else { -n })
{
    if n == 0 { 1real } else if n > 0 { b * pw(b, n - 1) } else { pw(b, n + 1) / b }
}
/// 10^n
pub open spec fn p10(n: int) -> real { pw(10real, n) }
/// 2^n
pub open spec fn p2(n: int) -> real { pw(2real, n) }

pub proof fn lemma_step(b: real, n: int)
    requires b > 0real
    ensures pw(b, n + 1) == b * pw(b, n)
{
    if n < 0 {
        let y = pw(b, n + 1);
        assert(b * (y / b) == y) by (nonlinear_arith) requires b > 0real;
    }
}
pub proof fn lemma_pos(b: real, n: int)
    requires b > 0real
    ensures pw(b, n) > 0real
    decreases (if n >= 0 { n } else { -n })
{
    if n > 0 {
        lemma_pos(b, n - 1);
        let y = pw(b, n - 1);
        assert(b * y > 0real) by (nonlinear_arith) requires b > 0real, y > 0real;
    } else if n < 0 {
        lemma_pos(b, n + 1);
        let y = pw(b, n + 1);
        assert(y / b > 0real) by (nonlinear_arith) requires b > 0real, y > 0real;
    }
}
pub proof fn lemma_add(b: real, m: int, n: int)
    requires b > 0real
    ensures pw(b, m + n) == pw(b, m) * pw(b, n)
    decreases (if n >= 0 { n } else { -n })
{
    let x = pw(b, m);
    if n == 0 {
        assert(x * 1real == x) by (nonlinear_arith);
    } else if n > 0 {
        lemma_add(b, m, n - 1);
        lemma_step(b, m + n - 1);
        let y = pw(b, n - 1);
        assert(b * (x * y) == x * (b * y)) by (nonlinear_arith);
    } else {
        lemma_add(b, m, n + 1);
        lemma_step(b, m + n);
        lemma_step(b, n);
        let y = pw(b, n);
        let z = pw(b, m + n);
        assert(z == x * y) by (nonlinear_arith) requires b * z == x * (b * y), b > 0real;
    }
}
pub proof fn lemma_inverse(b: real, n: int)
    requires b > 0real
    ensures pw(b, n) * pw(b, -n) == 1real
{
    lemma_add(b, n, -n);
}

/// Products of whole numbers, as reals.
pub proof fn lemma_cast_mul(x: int, y: int)
    ensures (x * y) as real == (x as real) * (y as real)
    decreases (if y >= 0 { y } else { -y })
{
    let r = x as real;
    if y == 0 {
        assert(x * 0 == 0);
        assert(r * 0real == 0real) by (nonlinear_arith);
    } else if y > 0 {
        lemma_cast_mul(x, y - 1);
        assert(x * y == x * (y - 1) + x) by (nonlinear_arith);
        let s = (y - 1) as real;
        assert(y as real == s + 1real);
        assert(r * (s + 1real) == r * s + r) by (nonlinear_arith);
    } else {
        lemma_cast_mul(x, y + 1);
        assert(x * y == x * (y + 1) - x) by (nonlinear_arith);
        let s = (y + 1) as real;
        assert(y as real == s - 1real);
        assert(r * (s - 1real) == r * s - r) by (nonlinear_arith);
    }
}
pub proof fn lemma_p10(n: nat)
    ensures p10(n as int) == pow10(n) as real
    decreases n
{
    if n > 0 {
        lemma_p10((n - 1) as nat);
        lemma_cast_mul(10, pow10((n - 1) as nat) as int);
    }
}

/// b^n for computing
pub open spec fn fast(b: int, n: nat) -> int
    decreases n
{
    if n == 0 { 1 } else if n % 2 == 0 { fast(b * b, n / 2) } else { b * fast(b, (n - 1) as nat) }
}
pub proof fn lemma_fast(b: int, n: nat)
    requires b > 0
    ensures fast(b, n) as real == pw(b as real, n as int), fast(b, n) > 0
    decreases n
{
    let r = b as real;
    if n == 0 {
    } else if n % 2 == 0 {
        assert(b * b > 0) by (nonlinear_arith) requires b > 0;
        lemma_fast(b * b, n / 2);
        lemma_cast_mul(b, b);
        lemma_square(r, n as int / 2);
        assert(2 * (n as int / 2) == n);
    } else {
        lemma_fast(b, (n - 1) as nat);
        lemma_cast_mul(b, fast(b, (n - 1) as nat));
        let y = fast(b, (n - 1) as nat);
        assert(b * y > 0) by (nonlinear_arith) requires b > 0, y > 0;
    }
}
proof fn lemma_square(r: real, k: int)
    requires r > 0real, k >= 0
    ensures pw(r * r, k) == pw(r, 2 * k)
    decreases k
{
    if k > 0 {
        lemma_square(r, k - 1);
        lemma_step(r, 2 * k - 2);
        lemma_step(r, 2 * k - 1);
        let y = pw(r, 2 * k - 2);
        assert((r * r) * y == r * (r * y)) by (nonlinear_arith);
    }
}

} // verus!
