// Numbers to floats: the error of the conversion, in exact real arithmetic.
use vstd::prelude::*;
use vstd::float::*;
use crate::spec::*;
use crate::stdx::*;
use crate::number::*;
use crate::raw::*;
use crate::object::*;
use crate::json::*;
use crate::value::*;
use crate::powr::*;
use crate::grisu::*;
use crate::float::*;
verus! {

// ------------------------------------------------------------ floats as real numbers

pub open spec fn fin_f64(d: f64) -> bool { mag(d.to_bits_spec()) < 0x7ff0_0000_0000_0000 }
pub open spec fn inf_f64(d: f64) -> bool { mag(d.to_bits_spec()) == 0x7ff0_0000_0000_0000 }
pub open spec fn nan_f64(d: f64) -> bool { mag(d.to_bits_spec()) > 0x7ff0_0000_0000_0000 }
pub open spec fn neg_f64(d: f64) -> bool { sign(d.to_bits_spec()) }
/// the absolute value
pub open spec fn val_f64(d: f64) -> real { fval(mag(d.to_bits_spec())) }
pub open spec fn fin_f32(d: f32) -> bool { mag32(d.to_bits_spec()) < 0x7f80_0000 }
pub open spec fn inf_f32(d: f32) -> bool { mag32(d.to_bits_spec()) == 0x7f80_0000 }
pub open spec fn nan_f32(d: f32) -> bool { mag32(d.to_bits_spec()) > 0x7f80_0000 }
pub open spec fn neg_f32(d: f32) -> bool { sign32(d.to_bits_spec()) }
pub open spec fn val_f32(d: f32) -> real { fval32(mag32(d.to_bits_spec())) }

/// Half a unit in the last place of 1, half of the least float, the least number that rounds to infinity.
pub closed spec fn unit_f64() -> real { p2(-53) }
pub closed spec fn tiny_f64() -> real { p2(-1075) }
pub closed spec fn over_f64() -> real { p2(1024) - p2(970) }
pub open spec fn top_f64() -> int { 308 }
pub closed spec fn unit_f32() -> real { p2(-24) }
pub closed spec fn tiny_f32() -> real { p2(-150) }
pub closed spec fn over_f32() -> real { p2(128) - p2(103) }
pub open spec fn top_f32() -> int { 38 }

/// The float is what the exact result x of one operation rounds to.
pub open spec fn near(x: real, fin: bool, inf: bool, v: real, u: real, t: real, o: real) -> bool {
    if inf { x >= o } else { fin && x < o && x - (x * u + t) <= v && v <= x + (x * u + t) }
}
/// v is x up to k times u and j times t; infinite when x is about o or more.
pub open spec fn about(x: real, fin: bool, inf: bool, v: real, u: real, t: real, o: real, k: real, j: real) -> bool {
    if inf { x + x * (k * u) >= o } else { fin && x - x * (k * u) < o && x - x * (k * u) - j * t <= v && v <= x + x * (k * u) + j * t }
}
pub open spec fn sane(u: real, t: real, o: real) -> bool {
    0real < u && u * 1000real <= 1real && 0real < t && t <= 1real && o >= 73786976294838206464real
}

@@for T in f64 f32
/// r is 10^k up to two units
pub open spec fn power_{T}(r: {T}, k: int) -> bool {
    !neg_{T}(r) && fin_{T}(r) && p10(k) * (1real - 2real * unit_{T}()) <= val_{T}(r) && val_{T}(r) <= p10(k) * (1real + 2real * unit_{T}())
}
/// A float literal (and an integer cast to a float): the float nearest to it.
#[verifier::external_body]
pub fn dec_{T}(m: u64, x: i32) -> (r: {T})
    ensures
        !neg_{T}(r), !nan_{T}(r), m == 0 ==> fin_{T}(r) && val_{T}(r) == 0real,
        near((m as real) * p10(x as int), fin_{T}(r), inf_{T}(r), val_{T}(r), unit_{T}(), tiny_{T}(), over_{T}()),
        m == 1 && 0 <= x <= 22 ==> power_{T}(r, x as int), m == 10 && 0 <= x <= 21 ==> power_{T}(r, x + 1),
{ unimplemented!() }
#[verifier::external_body]
pub fn of_u64_{T}(m: u64) -> (r: {T})
    ensures
        !neg_{T}(r), fin_{T}(r), m == 0 ==> val_{T}(r) == 0real,
        (m as real) - (m as real) * unit_{T}() <= val_{T}(r), val_{T}(r) <= (m as real) + (m as real) * unit_{T}(),
{ m as {T} }
/// 10^k by powf; run on every k it can be given on each check (tools/powers.py)
#[verifier::external_body]
pub fn ten_to_{T}(k: usize) -> (r: {T})
    requires 23 <= k <= 32768
    ensures
        !neg_{T}(r),
        k <= top_{T}() ==> power_{T}(r, k as int),
        k > top_{T}() ==> inf_{T}(r),
{ unimplemented!() }
/// a * b
#[verifier::external_body]
pub fn mul_{T}(a: {T}, b: {T}) -> (r: {T})
    requires !neg_{T}(a), !neg_{T}(b), fin_{T}(a), fin_{T}(b) || inf_{T}(b) && val_{T}(a) > 0real
    ensures
        !neg_{T}(r), !nan_{T}(r),
        fin_{T}(b) ==> near(val_{T}(a) * val_{T}(b), fin_{T}(r), inf_{T}(r), val_{T}(r), unit_{T}(), tiny_{T}(), over_{T}()),
        inf_{T}(b) ==> inf_{T}(r),
{ a * b }
/// a / b
#[verifier::external_body]
pub fn div_{T}(a: {T}, b: {T}) -> (r: {T})
    requires !neg_{T}(a), !neg_{T}(b), fin_{T}(a), fin_{T}(b) && val_{T}(b) > 0real || inf_{T}(b)
    ensures
        !neg_{T}(r), !nan_{T}(r),
        fin_{T}(b) ==> near(val_{T}(a) / val_{T}(b), fin_{T}(r), inf_{T}(r), val_{T}(r), unit_{T}(), tiny_{T}(), over_{T}()),
        inf_{T}(b) ==> fin_{T}(r) && val_{T}(r) == 0real,
{ a / b }
#[verifier::external_body]
pub fn minus_{T}(a: {T}) -> (r: {T})
    ensures !nan_{T}(a) ==> neg_{T}(r) == !neg_{T}(a) && fin_{T}(r) == fin_{T}(a) && inf_{T}(r) == inf_{T}(a) && val_{T}(r) == val_{T}(a)
{ -a }
#[verifier::external_body]
pub fn not_a_number_{T}() -> (r: {T}) ensures nan_{T}(r) { {T}::NAN }
@@endfor

// ------------------------------------------------------------ reals only

proof fn lemma_sum(a: real, b: real, c: real, n: real)
    ensures n * (a + b) == n * a + n * b, n * (a - b) == n * a - n * b
{
    assert(n * (a + b) == n * a + n * b) by (nonlinear_arith);
    assert(n * (a - b) == n * a - n * b) by (nonlinear_arith);
}
/// x within x0 * (1 +- a u), y within x * (1 +- b u)
proof fn lemma_chain(x0: real, x: real, y: real, a: real, b: real, c: real, u: real)
    requires
        0real <= x0, 0real < u, u * 1000real <= 1real, 0real <= a <= 20real, 0real <= b <= 20real, c >= a + b + 1real,
        x0 - x0 * (a * u) <= x, x <= x0 + x0 * (a * u),
        x - x * (b * u) <= y, y <= x + x * (b * u),
    ensures x0 - x0 * (c * u) <= y, y <= x0 + x0 * (c * u)
{
    let au = a * u;
    let bu = b * u;
    let cu = c * u;
    assert(0real <= au && au * 50real <= 1real && au <= 20real * u) by (nonlinear_arith) requires au == a * u, 0real <= a, a <= 20real, 0real < u, u * 1000real <= 1real;
    assert(0real <= bu && bu * 50real <= 1real && bu <= 20real * u) by (nonlinear_arith) requires bu == b * u, 0real <= b, b <= 20real, 0real < u, u * 1000real <= 1real;
    assert(au * bu <= u) by (nonlinear_arith) requires 0real <= au, au * 50real <= 1real, 0real <= bu, bu <= 20real * u, 0real < u;
    assert(0real <= au * bu) by (nonlinear_arith) requires 0real <= au, 0real <= bu;
    assert(cu >= au + bu + u) by (nonlinear_arith) requires au == a * u, bu == b * u, cu == c * u, c >= a + b + 1real, 0real < u;
    // upper: (1 + au)(1 + bu) <= 1 + cu
    lemma_over(x0, x, y, au, bu, cu);
    lemma_under(x0, x, y, au, bu, cu);
}
proof fn lemma_over(x0: real, x: real, y: real, a: real, b: real, c: real)
    requires 0real <= x0, 0real <= a, 0real <= b, c >= a + b + a * b, x <= x0 + x0 * a, y <= x + x * b
    ensures y <= x0 + x0 * c
{
    let z = x0 + x0 * a;
    assert(x * b <= z * b) by (nonlinear_arith) requires x <= z, 0real <= b;
    assert(z * b == x0 * b + x0 * (a * b)) by (nonlinear_arith) requires z == x0 + x0 * a;
    assert(x0 * c >= x0 * (a + b + a * b)) by (nonlinear_arith) requires c >= a + b + a * b, 0real <= x0;
    assert(x0 * (a + b + a * b) == x0 * a + x0 * b + x0 * (a * b)) by (nonlinear_arith);
}
proof fn lemma_under(x0: real, x: real, y: real, a: real, b: real, c: real)
    requires 0real <= x0, 0real <= a, 0real <= b, b <= 1real, c >= a + b, a * b >= 0real, x >= x0 - x0 * a, y >= x - x * b
    ensures y >= x0 - x0 * c
{
    let z = x0 - x0 * a;
    let w = 1real - b;
    assert(x * w >= z * w) by (nonlinear_arith) requires x >= z, w >= 0real;
    assert(x * w == x - x * b) by (nonlinear_arith) requires w == 1real - b;
    assert(z * w == x0 - x0 * a - x0 * b + x0 * (a * b)) by (nonlinear_arith) requires z == x0 - x0 * a, w == 1real - b;
    assert(x0 * (a * b) >= 0real) by (nonlinear_arith) requires x0 >= 0real, a * b >= 0real;
    assert(x0 * c >= x0 * (a + b)) by (nonlinear_arith) requires c >= a + b, 0real <= x0;
    assert(x0 * (a + b) == x0 * a + x0 * b) by (nonlinear_arith);
}
/// n * p for p within P (1 +- 2u)
proof fn lemma_times(n: real, p: real, big: real, u: real)
    requires 0real <= n, 0real < big, 0real < u, u * 1000real <= 1real, big * (1real - 2real * u) <= p, p <= big * (1real + 2real * u)
    ensures n * big - (n * big) * (3real * u) <= n * p, n * p <= n * big + (n * big) * (3real * u), 0real <= n * big
{
    let d = big * (2real * u);
    assert(big * (1real + 2real * u) == big + d && big * (1real - 2real * u) == big - d) by (nonlinear_arith) requires d == big * (2real * u);
    assert(n * p <= n * (big + d)) by (nonlinear_arith) requires p <= big + d, 0real <= n;
    assert(n * p >= n * (big - d)) by (nonlinear_arith) requires p >= big - d, 0real <= n;
    assert(n * d == (n * big) * (2real * u)) by (nonlinear_arith) requires d == big * (2real * u);
    lemma_sum(big, d, 0real, n);
    assert(0real <= n * big) by (nonlinear_arith) requires 0real <= n, 0real < big;
    let x = n * big;
    assert(x * (2real * u) <= x * (3real * u)) by (nonlinear_arith) requires 0real <= x, 0real < u;
}
/// n / p for p within P (1 +- 2u)
proof fn lemma_over_p(n: real, p: real, big: real, u: real)
    requires 0real <= n, 0real < big, 0real < u, u * 1000real <= 1real, big * (1real - 2real * u) <= p, p <= big * (1real + 2real * u)
    ensures p > 0real, n / big - (n / big) * (3real * u) <= n / p, n / p <= n / big + (n / big) * (3real * u), 0real <= n / big
{
    let a = 1real - 2real * u;
    let b = 1real + 2real * u;
    let c = 1real + 3real * u;
    let e = 1real - 3real * u;
    assert(big * a > 0real) by (nonlinear_arith) requires big > 0real, a > 0real;
    let x = n / big;
    let y = n / p;
    assert(x * big == n) by (nonlinear_arith) requires x == n / big, big > 0real;
    assert(y * p == n) by (nonlinear_arith) requires y == n / p, p > 0real;
    assert(0real <= x) by (nonlinear_arith) requires x == n / big, big > 0real, 0real <= n;
    assert(0real <= y) by (nonlinear_arith) requires y == n / p, p > 0real, 0real <= n;
    assert(a * c >= 1real) by (nonlinear_arith) requires a == 1real - 2real * u, c == 1real + 3real * u, 0real < u, u * 1000real <= 1real;
    assert(b * e <= 1real) by (nonlinear_arith) requires b == 1real + 2real * u, e == 1real - 3real * u, 0real < u, u * 1000real <= 1real;
    // y * big * a <= n = x * big
    lemma_quot(x, y, p, big, a, b, c, e);
    assert(x * c == x + x * (3real * u)) by (nonlinear_arith) requires c == 1real + 3real * u;
    assert(x * e == x - x * (3real * u)) by (nonlinear_arith) requires e == 1real - 3real * u;
}
proof fn lemma_quot(x: real, y: real, p: real, big: real, a: real, b: real, c: real, e: real)
    requires 0real <= x, 0real <= y, big > 0real, p > 0real, x * big == y * p, big * a <= p, p <= big * b, a > 0real, e > 0real, c > 0real, a * c >= 1real, b * e <= 1real
    ensures y <= x * c, x * e <= y
{
    // y * (big * a) <= y * p = x * big, so y * a <= x, so y <= y * (a * c) <= x * c
    assert(y * (big * a) <= y * p) by (nonlinear_arith) requires big * a <= p, 0real <= y;
    assert(y * (big * a) == (y * a) * big) by (nonlinear_arith);
    assert(y * a <= x) by (nonlinear_arith) requires (y * a) * big <= x * big, big > 0real;
    let ya = y * a;
    assert(ya * c <= x * c) by (nonlinear_arith) requires ya <= x, c > 0real;
    assert(ya * c == y * (a * c)) by (nonlinear_arith) requires ya == y * a;
    let ac = a * c;
    assert(y * ac >= y) by (nonlinear_arith) requires ac >= 1real, 0real <= y;
    // x * big = y * p <= y * big * b
    assert(y * p <= y * (big * b)) by (nonlinear_arith) requires p <= big * b, 0real <= y;
    assert(y * (big * b) == (y * b) * big) by (nonlinear_arith);
    assert(x <= y * b) by (nonlinear_arith) requires x * big <= (y * b) * big, big > 0real;
    let yb = y * b;
    assert(x * e <= yb * e) by (nonlinear_arith) requires x <= yb, e > 0real;
    assert(yb * e == y * (b * e)) by (nonlinear_arith) requires yb == y * b;
    let be = b * e;
    assert(y * be <= y) by (nonlinear_arith) requires be <= 1real, 0real <= y;
}

/// One operation on a value within 3u of the exact one.
proof fn lemma_once(x0: real, x: real, fin: bool, inf: bool, v: real, u: real, t: real, o: real)
    requires sane(u, t, o), 0real <= x0, x0 - x0 * (3real * u) <= x, x <= x0 + x0 * (3real * u), near(x, fin, inf, v, u, t, o)
    ensures about(x0, fin, inf, v, u, t, o, 5real, 1real)
{
    assert(x0 * (3real * u) <= x0 * (5real * u)) by (nonlinear_arith) requires 0real <= x0, 0real < u;
    if !inf {
        let d = x * u;
        assert(x * (1real * u) == d) by (nonlinear_arith) requires d == x * u;
        assert(x >= 0real) by (nonlinear_arith) requires x >= x0 - x0 * (3real * u), 0real <= x0, 0real < u, u * 1000real <= 1real;
        assert(d >= 0real) by (nonlinear_arith) requires d == x * u, x >= 0real, u > 0real;
        lemma_chain(x0, x, x - d, 3real, 1real, 5real, u);
        lemma_chain(x0, x, x + d, 3real, 1real, 5real, u);
    }
}

/// The same after a second division.
proof fn lemma_twice(x0: real, s: real, v1: real, q1: real, big: real, fin: bool, inf: bool, v: real, u: real, t: real, o: real)
    requires
        sane(u, t, o), big >= 1real, 0real <= q1 <= 36893488147419103232real, 0real <= v1, x0 == q1 / big, s == v1 / big,
        about(q1, true, false, v1, u, t, o, 5real, 1real), about(s, fin, inf, v, u, t, o, 5real, 1real),
    ensures about(x0, fin, inf, v, u, t, o, 11real, 3real), !inf
{
    let d = q1 * (5real * u);
    assert(0real <= d && d * 2real <= q1) by (nonlinear_arith) requires d == q1 * (5real * u), 0real <= q1, 0real < u, u * 1000real <= 1real;
    assert(v1 <= q1 * 2real + 1real);
    assert(0real <= s && s <= v1) by (nonlinear_arith) requires s == v1 / big, 0real <= v1, big >= 1real;
    assert(0real <= x0 && x0 <= q1) by (nonlinear_arith) requires x0 == q1 / big, 0real <= q1, big >= 1real;
    let f = x0 * (5real * u);
    assert(f == d / big) by (nonlinear_arith) requires f == x0 * (5real * u), x0 == q1 / big, d == q1 * (5real * u), big >= 1real;
    let tt = t / big;
    assert(0real < tt && tt <= t) by (nonlinear_arith) requires tt == t / big, 0real < t, big >= 1real;
    assert((q1 + d + t) / big == x0 + f + tt) by (nonlinear_arith) requires x0 == q1 / big, f == d / big, tt == t / big, big >= 1real;
    assert((q1 - d - t) / big == x0 - f - tt) by (nonlinear_arith) requires x0 == q1 / big, f == d / big, tt == t / big, big >= 1real;
    let hi = q1 + d + t;
    let lo = q1 - d - t;
    assert(v1 / big <= hi / big) by (nonlinear_arith) requires v1 <= hi, big >= 1real;
    assert(v1 / big >= lo / big) by (nonlinear_arith) requires v1 >= lo, big >= 1real;
    assert(s <= x0 + f + t && s >= x0 - f - t);
    let a = 5real * u;
    assert(0real < a && a * 200real <= 1real);
    let g = s * a;
    assert(0real <= g && g * 200real <= s) by (nonlinear_arith) requires g == s * a, 0real <= s, 0real < a, a * 200real <= 1real;
    assert(!inf);
    // v <= s + g + t, with s <= x0 (1 + a) + t
    lemma_tail(x0, s, f, g, a, t);
    let c = 11real * u;
    assert(x0 * c == x0 * (2real * a) + x0 * u) by (nonlinear_arith) requires c == 11real * u, a == 5real * u;
    assert(0real <= x0 * c) by (nonlinear_arith) requires c == 11real * u, u > 0real, x0 >= 0real;
    assert(x0 * (a * a) <= x0 * u) by (nonlinear_arith) requires 0real <= x0, a == 5real * u, 0real < u, u * 1000real <= 1real;
    assert(0real <= x0 * u) by (nonlinear_arith) requires 0real <= x0, 0real < u;
    assert(0real <= x0 * (a * a)) by (nonlinear_arith) requires 0real <= x0;
}
proof fn lemma_tail(x0: real, s: real, f: real, g: real, a: real, t: real)
    requires 0real <= x0, 0real <= s, f == x0 * a, g == s * a, 0real < a, a * 200real <= 1real, t > 0real, s <= x0 + f + t, s >= x0 - f - t
    ensures s + g <= x0 + x0 * (2real * a) + x0 * (a * a) + 2real * t, s - g >= x0 - x0 * (2real * a) + x0 * (a * a) - 2real * t
{
    let h = 1real + a;
    let l = 1real - a;
    let hi = x0 + f + t;
    let lo = x0 - f - t;
    assert(s * h <= hi * h) by (nonlinear_arith) requires s <= hi, h > 0real;
    assert(s * l >= lo * l) by (nonlinear_arith) requires s >= lo, l > 0real;
    assert(s * h == s + g) by (nonlinear_arith) requires h == 1real + a, g == s * a;
    assert(s * l == s - g) by (nonlinear_arith) requires l == 1real - a, g == s * a;
    assert(hi * h == x0 + x0 * (2real * a) + x0 * (a * a) + t + t * a) by (nonlinear_arith) requires hi == x0 + f + t, h == 1real + a, f == x0 * a;
    assert(lo * l == x0 - x0 * (2real * a) + x0 * (a * a) - t + t * a) by (nonlinear_arith) requires lo == x0 - f - t, l == 1real - a, f == x0 * a;
    assert(0real <= t * a && t * a <= t) by (nonlinear_arith) requires t > 0real, 0real < a, a * 200real <= 1real;
}
/// The mantissa was rounded first.
proof fn lemma_first(x: real, x0: real, fin: bool, inf: bool, v: real, u: real, t: real, o: real, k: real, j: real)
    requires sane(u, t, o), 0real <= x, x - x * (1real * u) <= x0, x0 <= x + x * (1real * u), about(x0, fin, inf, v, u, t, o, k, j), 0real <= k <= 11real, 0real <= j
    ensures about(x, fin, inf, v, u, t, o, k + 2real, j)
{
    assert(x0 >= 0real) by (nonlinear_arith) requires x - x * (1real * u) <= x0, 0real <= x, 0real < u, u * 1000real <= 1real;
    let d = x0 * (k * u);
    assert(d >= 0real) by (nonlinear_arith) requires d == x0 * (k * u), x0 >= 0real, k >= 0real, u > 0real;
    lemma_chain(x, x0, x0 + d, 1real, k, k + 2real, u);
    lemma_chain(x, x0, x0 - d, 1real, k, k + 2real, u);
}
/// A wider bound.
proof fn lemma_wider(x: real, fin: bool, inf: bool, v: real, u: real, t: real, o: real, k: real, j: real, kk: real, jj: real)
    requires sane(u, t, o), 0real <= x, about(x, fin, inf, v, u, t, o, k, j), k <= kk, j <= jj
    ensures about(x, fin, inf, v, u, t, o, kk, jj)
{
    assert(x * (k * u) <= x * (kk * u)) by (nonlinear_arith) requires 0real <= x, 0real < u, k <= kk;
    assert(j * t <= jj * t) by (nonlinear_arith) requires 0real < t, j <= jj;
}

// ------------------------------------------------------------ powers of ten and two

proof fn lemma_mono(b: real, m: int, n: int)
    requires b >= 1real, m <= n
    ensures pw(b, m) <= pw(b, n), pw(b, m) > 0real
    decreases n - m
{
    lemma_pos(b, m);
    if m < n {
        lemma_mono(b, m, n - 1);
        lemma_step(b, n - 1);
        let y = pw(b, n - 1);
        assert(b * y >= y) by (nonlinear_arith) requires b >= 1real, y > 0real;
    }
}
/// 2^64 * 10^-i <= 2^-j when 2^(64+j) <= 10^i
proof fn lemma_vanish(i: nat, j: nat)
    requires fast(2, 64 + j) <= fast(10, i)
    ensures p2(64) * p10(-(i as int)) <= p2(-(j as int))
{
    lemma_fast(2, 64 + j);
    lemma_fast(10, i);
    lemma_inverse(10real, i as int);
    lemma_inverse(2real, j as int);
    lemma_add(2real, 64, j as int);
    lemma_pos(2real, -(j as int));
    lemma_pos(10real, -(i as int));
    let a = p2(64); let b = p2(j as int); let c = p2(-(j as int)); let d = p10(i as int); let e = p10(-(i as int));
    assert(a * b <= d);
    assert(a * e <= c) by (nonlinear_arith) requires a * b <= d, d * e == 1real, b * c == 1real, c > 0real, e > 0real;
}
proof fn lemma_sizes()
    ensures
        sane(unit_f64(), tiny_f64(), over_f64()), sane(unit_f32(), tiny_f32(), over_f32()),
        p10(309) >= over_f64(), p10(39) >= over_f32(),
        p2(64) * p10(-617) <= tiny_f64(), p2(64) * p10(-77) <= tiny_f32(), p2(64) == 18446744073709551616real,
{
    assert(fast(2, 64) == 18446744073709551616) by (compute);
    assert(fast(2, 10) == 1024) by (compute);
    lemma_fast(2, 64);
    lemma_fast(2, 10);
    lemma_inverse(2real, 10);
    lemma_mono(2real, -24, -10); lemma_mono(2real, -53, -10); lemma_mono(2real, -150, 0); lemma_mono(2real, -1075, 0);
    let x = p2(-10);
    assert(x * 1000real <= 1real) by (nonlinear_arith) requires 1024real * x == 1real;
    lemma_mono(2real, 103, 127); lemma_mono(2real, 66, 127); lemma_step(2real, 127);
    lemma_mono(2real, 970, 1023); lemma_mono(2real, 66, 1023); lemma_step(2real, 1023);
    assert(fast(2, 66) == 73786976294838206464) by (compute);
    lemma_fast(2, 66);
    lemma_pos(2real, 103); lemma_pos(2real, 970);
    assert(fast(2, 1024) <= fast(10, 309)) by (compute);
    lemma_fast(2, 1024); lemma_fast(10, 309);
    assert(fast(2, 128) <= fast(10, 39)) by (compute);
    lemma_fast(2, 128); lemma_fast(10, 39);
    assert(fast(2, 1139) <= fast(10, 617)) by (compute);
    lemma_vanish(617, 1075);
    assert(fast(2, 214) <= fast(10, 77)) by (compute);
    lemma_vanish(77, 150);
}

// ------------------------------------------------------------ the code

/// x / 10^k
proof fn lemma_under_one(x: real, k: int)
    ensures x * p10(-k) == x / p10(k), p10(k) > 0real, p10(-k) > 0real
{
    lemma_inverse(10real, k);
    lemma_pos(10real, k);
    lemma_pos(10real, -k);
    let a = p10(k); let b = p10(-k);
    assert(x * b == x / a) by (nonlinear_arith) requires a * b == 1real, a > 0real;
}
@@for T in f64 f32
/// val(n) * 10^e by one multiplication or division
pub open spec fn scaled_{T}(x: real, r: {T}, k: real, j: real) -> bool {
    about(x, fin_{T}(r), inf_{T}(r), val_{T}(r), unit_{T}(), tiny_{T}(), over_{T}(), k, j)
}
proof fn lemma_power_pos_{T}(r: {T}, k: int)
    requires power_{T}(r, k)
    ensures val_{T}(r) > 0real
{
    lemma_sizes();
    lemma_pos(10real, k);
    let a = p10(k); let b = 1real - 2real * unit_{T}();
    assert(a * b > 0real) by (nonlinear_arith) requires a > 0real, b > 0real;
}
proof fn lemma_up_{T}(n: {T}, p: {T}, e: int, r: {T})
    requires
        fin_{T}(n), power_{T}(p, e), 0real <= val_{T}(n),
        near(val_{T}(n) * val_{T}(p), fin_{T}(r), inf_{T}(r), val_{T}(r), unit_{T}(), tiny_{T}(), over_{T}()),
    ensures scaled_{T}(val_{T}(n) * p10(e), r, 5real, 1real)
{
    lemma_sizes();
    lemma_pos(10real, e);
    lemma_times(val_{T}(n), val_{T}(p), p10(e), unit_{T}());
    lemma_once(val_{T}(n) * p10(e), val_{T}(n) * val_{T}(p), fin_{T}(r), inf_{T}(r), val_{T}(r), unit_{T}(), tiny_{T}(), over_{T}());
}
proof fn lemma_down_{T}(n: {T}, p: {T}, e: int, r: {T})
    requires
        fin_{T}(n), power_{T}(p, e), 0real <= val_{T}(n),
        near(val_{T}(n) / val_{T}(p), fin_{T}(r), inf_{T}(r), val_{T}(r), unit_{T}(), tiny_{T}(), over_{T}()),
    ensures scaled_{T}(val_{T}(n) * p10(-e), r, 5real, 1real)
{
    lemma_sizes();
    lemma_under_one(val_{T}(n), e);
    lemma_over_p(val_{T}(n), val_{T}(p), p10(e), unit_{T}());
    lemma_once(val_{T}(n) * p10(-e), val_{T}(n) / val_{T}(p), fin_{T}(r), inf_{T}(r), val_{T}(r), unit_{T}(), tiny_{T}(), over_{T}());
}

@@fn number.rs | - | exponentiate_{T}
    @ret r
    @rw static $x_id: [{T}; 23] = =>> let $x_id: [{T}; 23] =
    @rw 10{T}.powf(index as {T}) =>> ten_to_{T}(index)
    @rw n * if index < 23 { $a } else { $b } =>> mul_{T}(n, if index < 23 { $a } else { $b })
    @rw n / if index < 23 { $a } else { $b } =>> div_{T}(n, if index < 23 { $a } else { $b })
    @floats dec_{T}
    @spec
        requires !neg_{T}(n), fin_{T}(n), 0real <= val_{T}(n), e > -32768, e > top_{T}() ==> val_{T}(n) > 0real
        ensures
            !neg_{T}(r), !nan_{T}(r),
            -top_{T}() <= e <= top_{T}() ==> scaled_{T}(val_{T}(n) * p10(e as int), r, 5real, 1real),
            e > top_{T}() ==> inf_{T}(r),
            e < -top_{T}() ==> fin_{T}(r) && val_{T}(r) == 0real,
    @entry
        hide(about); hide(near); hide(pw); hide(fval); hide(fval32); hide(mag); hide(mag32); hide(sign); hide(sign32);
    @before if e >= 0
        proof {
            lemma_sizes();
            assert(power_{T}(CACHE_POWERS@[0], 0));
            assert(power_{T}(CACHE_POWERS@[1], 1));
            assert(power_{T}(CACHE_POWERS@[2], 2));
            assert(power_{T}(CACHE_POWERS@[3], 3));
            assert(power_{T}(CACHE_POWERS@[4], 4));
            assert(power_{T}(CACHE_POWERS@[5], 5));
            assert(power_{T}(CACHE_POWERS@[6], 6));
            assert(power_{T}(CACHE_POWERS@[7], 7));
            assert(power_{T}(CACHE_POWERS@[8], 8));
            assert(power_{T}(CACHE_POWERS@[9], 9));
            assert(power_{T}(CACHE_POWERS@[10], 10));
            assert(power_{T}(CACHE_POWERS@[11], 11));
            assert(power_{T}(CACHE_POWERS@[12], 12));
            assert(power_{T}(CACHE_POWERS@[13], 13));
            assert(power_{T}(CACHE_POWERS@[14], 14));
            assert(power_{T}(CACHE_POWERS@[15], 15));
            assert(power_{T}(CACHE_POWERS@[16], 16));
            assert(power_{T}(CACHE_POWERS@[17], 17));
            assert(power_{T}(CACHE_POWERS@[18], 18));
            assert(power_{T}(CACHE_POWERS@[19], 19));
            assert(power_{T}(CACHE_POWERS@[20], 20));
            assert(power_{T}(CACHE_POWERS@[21], 21));
            assert(power_{T}(CACHE_POWERS@[22], 22));
            assert forall|i: int| 0 <= i < 23 implies power_{T}(#[trigger] CACHE_POWERS@[i], i) by {}
            assert forall|p: {T}, k: int| #[trigger] power_{T}(p, k) implies val_{T}(p) > 0real by { lemma_power_pos_{T}(p, k); }
            assert forall|p: {T}, r: {T}| power_{T}(p, e as int) && #[trigger] near(val_{T}(n) * val_{T}(p), fin_{T}(r), inf_{T}(r), val_{T}(r), unit_{T}(), tiny_{T}(), over_{T}()) implies scaled_{T}(val_{T}(n) * p10(e as int), r, 5real, 1real) by { lemma_up_{T}(n, p, e as int, r); }
            assert forall|p: {T}, r: {T}| power_{T}(p, -(e as int)) && #[trigger] near(val_{T}(n) / val_{T}(p), fin_{T}(r), inf_{T}(r), val_{T}(r), unit_{T}(), tiny_{T}(), over_{T}()) implies scaled_{T}(val_{T}(n) * p10(e as int), r, 5real, 1real) by { lemma_down_{T}(n, p, -(e as int), r); }
        }
@@end
@@endfor

// from the mantissa: v is the mantissa m rounded
proof fn lemma_scale(m: real, v: real, p: real, u: real)
    requires 0real <= m, 0real < p, 0real < u, m - m * u <= v, v <= m + m * u
    ensures m * p - (m * p) * (1real * u) <= v * p, v * p <= m * p + (m * p) * (1real * u), 0real <= m * p
{
    let d = m * u;
    let x = m * p;
    assert(v * p >= (m - d) * p) by (nonlinear_arith) requires v >= m - d, p > 0real;
    assert(v * p <= (m + d) * p) by (nonlinear_arith) requires v <= m + d, p > 0real;
    assert(d * p == x * (1real * u)) by (nonlinear_arith) requires d == m * u, x == m * p;
    lemma_sum(m, d, 0real, p);
    assert((m - d) * p == x - d * p && (m + d) * p == x + d * p) by (nonlinear_arith) requires x == m * p;
    assert(0real <= x) by (nonlinear_arith) requires x == m * p, 0real <= m, 0real < p;
}
/// one operation
proof fn lemma_single(m: real, n: real, p: real, fin: bool, inf: bool, v: real, u: real, t: real, o: real)
    requires sane(u, t, o), 0real <= m, 0real < p, m - m * u <= n, n <= m + m * u, about(n * p, fin, inf, v, u, t, o, 5real, 1real)
    ensures about(m * p, fin, inf, v, u, t, o, 13real, 3real)
{
    lemma_scale(m, n, p, u);
    lemma_first(m * p, n * p, fin, inf, v, u, t, o, 5real, 1real);
    lemma_wider(m * p, fin, inf, v, u, t, o, 7real, 1real, 13real, 3real);
}
/// infinity
proof fn lemma_infinite(m: real, p: real, fin: bool, v: real, u: real, t: real, o: real)
    requires sane(u, t, o), 1real <= m, p >= o
    ensures about(m * p, fin, true, v, u, t, o, 13real, 3real)
{
    let x = m * p;
    assert(x >= p) by (nonlinear_arith) requires x == m * p, 1real <= m, p >= 0real;
    assert(x * (13real * u) >= 0real) by (nonlinear_arith) requires x >= 0real, u > 0real;
}
/// two operations: n * p at first, v1 of it; then v1 / big
proof fn lemma_double(m: real, n: real, p: real, v1: real, big: real, pp: real, back: real, fin: bool, inf: bool, v: real, u: real, t: real, o: real)
    requires
        sane(u, t, o), 0real <= m, m <= 18446744073709551615real, 0real < p, p <= 1real, big >= 1real, pp * big == p, back * big == 1real, m - m * u <= n, n <= m + m * u, 0real <= v1,
        about(n * p, true, false, v1, u, t, o, 5real, 1real), about(v1 * back, fin, inf, v, u, t, o, 5real, 1real),
    ensures about(m * pp, fin, inf, v, u, t, o, 13real, 3real)
{
    lemma_first_size(m, n, p, u);
    assert(v1 * back == v1 / big) by (nonlinear_arith) requires back * big == 1real, big >= 1real;
    let q = n * p;
    let x0 = q / big;
    assert(x0 == n * pp) by (nonlinear_arith) requires x0 == q / big, q == n * p, pp * big == p, big >= 1real;
    lemma_twice(x0, v1 * back, v1, q, big, fin, inf, v, u, t, o);
    assert(pp > 0real) by (nonlinear_arith) requires pp * big == p, p > 0real, big >= 1real;
    lemma_scale(m, n, pp, u);
    lemma_first(m * pp, n * pp, fin, inf, v, u, t, o, 11real, 3real);
}
proof fn lemma_one() ensures p10(0) == 1real {}
proof fn lemma_first_size(m: real, n: real, p: real, u: real)
    requires 0real <= m, m <= 18446744073709551615real, 0real < p, p <= 1real, 0real < u, u * 1000real <= 1real, m - m * u <= n, n <= m + m * u
    ensures 0real <= n * p, n * p <= 36893488147419103232real, 0real <= n, n <= 36893488147419103232real
{
    let d = m * u;
    assert(0real <= d && d <= m) by (nonlinear_arith) requires d == m * u, 0real <= m, 0real < u, u * 1000real <= 1real;
    assert(0real <= n * p && n * p <= n) by (nonlinear_arith) requires 0real <= n, 0real < p, p <= 1real;
}
/// a number too small for infinity
proof fn lemma_no_overflow(q: real, fin: bool, inf: bool, v: real, u: real, t: real, o: real)
    requires sane(u, t, o), 0real <= q, q <= 36893488147419103232real, about(q, fin, inf, v, u, t, o, 5real, 1real)
    ensures !inf
{
    let d = q * (5real * u);
    assert(d <= q) by (nonlinear_arith) requires d == q * (5real * u), 0real <= q, 0real < u, u * 1000real <= 1real;
    assert(d * 2real <= q) by (nonlinear_arith) requires d == q * (5real * u), 0real <= q, 0real < u, u * 1000real <= 1real;
}
/// zero
proof fn lemma_nothing(m: real, p: real, back: real, small: real, fin: bool, inf: bool, v: real, u: real, t: real, o: real)
    requires
        sane(u, t, o), 0real <= m, m <= 18446744073709551615real, 0real < p, p <= small, 18446744073709551616real * small <= t,
        about(0real * back, fin, inf, v, u, t, o, 5real, 1real),
    ensures about(m * p, fin, inf, v, u, t, o, 13real, 3real)
{
    assert(0real * back == 0real) by (nonlinear_arith);
    let z = 0real;
    assert(z * (5real * u) == 0real) by (nonlinear_arith) requires z == 0real;
    let x = m * p;
    assert(0real <= x) by (nonlinear_arith) requires x == m * p, 0real <= m, 0real < p;
    assert(m * p <= 18446744073709551616real * p) by (nonlinear_arith) requires 0real <= m, m <= 18446744073709551615real, 0real < p;
    assert(x <= t);
    let d = x * (13real * u);
    assert(0real <= d) by (nonlinear_arith) requires d == x * (13real * u), 0real <= x, 0real < u;
}

@@for T in f64 f32
/// What a number becomes: m * 10^e up to 13 units and 3 half least floats; infinite only when m * 10^e is about the
/// greatest float or more.
pub open spec fn becomes_{T}(x: NumV, r: {T}) -> bool {
    if x.nan { nan_{T}(r) }
    else {
        &&& !nan_{T}(r) && neg_{T}(r) == !x.pos
        &&& if x.m == 0 { fin_{T}(r) && val_{T}(r) == 0real } else { scaled_{T}((x.m as real) * p10(x.e), r, 13real, 3real) }
    }
}
proof fn lemma_all_{T}(m: u64, e0: int, n0: {T}, n1: {T}, f: {T})
    requires
        m > 0, -32768 <= e0 <= 32767, !neg_{T}(n0), fin_{T}(n0), (m as real) - (m as real) * unit_{T}() <= val_{T}(n0), val_{T}(n0) <= (m as real) + (m as real) * unit_{T}(),
        e0 >= -top_{T}() ==> n1 == n0,
        -2 * top_{T}() <= e0 < -top_{T}() ==> scaled_{T}(val_{T}(n0) * p10(e0 + top_{T}()), n1, 5real, 1real) && fin_{T}(n1) && !inf_{T}(n1) && val_{T}(n1) >= 0real,
        e0 < -2 * top_{T}() ==> val_{T}(n1) == 0real,
        e0 > top_{T}() ==> inf_{T}(f),
        -top_{T}() <= e0 <= top_{T}() ==> scaled_{T}(val_{T}(n1) * p10(e0), f, 5real, 1real),
        e0 < -top_{T}() ==> scaled_{T}(val_{T}(n1) * p10(-top_{T}()), f, 5real, 1real),
    ensures scaled_{T}((m as real) * p10(e0), f, 13real, 3real)
{
    hide(about); hide(pw); hide(fval); hide(fval32); hide(mag); hide(mag32);
    lemma_sizes();
    lemma_pos(10real, e0);
    let top = top_{T}();
    let mr = m as real;
    assert(1real <= mr && mr <= 18446744073709551615real);
    if e0 > top {
        lemma_mono(10real, top + 1, e0);
        lemma_infinite(mr, p10(e0), fin_{T}(f), val_{T}(f), unit_{T}(), tiny_{T}(), over_{T}());
    } else if e0 >= -top {
        lemma_single(mr, val_{T}(n0), p10(e0), fin_{T}(f), inf_{T}(f), val_{T}(f), unit_{T}(), tiny_{T}(), over_{T}());
    } else if e0 >= -2 * top {
        lemma_add(10real, e0, top);
        lemma_inverse(10real, top);
        lemma_one();
        lemma_pos(10real, e0 + top);
        lemma_mono(10real, e0 + top, 0);
        lemma_mono(10real, 0, top);
        let a = p10(top); let b = p10(-top);
        assert(b * a == 1real) by (nonlinear_arith) requires a * b == 1real;
        lemma_double(mr, val_{T}(n0), p10(e0 + top), val_{T}(n1), p10(top), p10(e0), p10(-top), fin_{T}(f), inf_{T}(f), val_{T}(f), unit_{T}(), tiny_{T}(), over_{T}());
    } else {
        lemma_mono(10real, e0, -2 * top - 1);
        lemma_nothing(mr, p10(e0), p10(-top), p10(-2 * top - 1), fin_{T}(f), inf_{T}(f), val_{T}(f), unit_{T}(), tiny_{T}(), over_{T}());
    }
}
proof fn lemma_middle_{T}(m: u64, e0: int, n0: {T}, n1: {T})
    requires
        m > 0, -2 * top_{T}() <= e0 < -top_{T}(), (m as real) - (m as real) * unit_{T}() <= val_{T}(n0), val_{T}(n0) <= (m as real) + (m as real) * unit_{T}(),
        scaled_{T}(val_{T}(n0) * p10(e0 + top_{T}()), n1, 5real, 1real),
    ensures !inf_{T}(n1), fin_{T}(n1)
{
    lemma_sizes();
    lemma_pos(10real, e0 + top_{T}());
    lemma_mono(10real, e0 + top_{T}(), 0);
    lemma_first_size(m as real, val_{T}(n0), p10(e0 + top_{T}()), unit_{T}());
    lemma_no_overflow(val_{T}(n0) * p10(e0 + top_{T}()), fin_{T}(n1), inf_{T}(n1), val_{T}(n1), unit_{T}(), tiny_{T}(), over_{T}());
}
/// the rounded mantissa is positive
proof fn lemma_start_{T}(m: u64, n: {T})
    requires m > 0, (m as real) - (m as real) * unit_{T}() <= val_{T}(n)
    ensures val_{T}(n) > 0real
{
    lemma_sizes();
    let x = m as real; let u = unit_{T}();
    assert(x >= 1real);
    assert(x * u * 1000real <= x) by (nonlinear_arith) requires x >= 1real, u * 1000real <= 1real, u > 0real;
}
@@endfor
proof fn lemma_value_f64(n: f64)
    ensures val_f64(n) >= 0real
{
    let b = mag(n.to_bits_spec());
    lemma_pos(2real, expo(b));
    let x = mant(b) as real; let y = p2(expo(b));
    assert(x * y >= 0real) by (nonlinear_arith) requires x >= 0real, y > 0real;
}
proof fn lemma_value_f32(n: f32)
    ensures val_f32(n) >= 0real
{
    let b = mag32(n.to_bits_spec());
    let e = (b / 0x80_0000) % 256;
    let m = b as int % 0x80_0000;
    let x = if e != 0 { (m + 0x80_0000) as real } else { m as real };
    let y = if e != 0 { p2(e - 150) } else { p2(-149) };
    lemma_pos(2real, e - 150);
    lemma_pos(2real, -149);
    assert(x * y >= 0real) by (nonlinear_arith) requires x >= 0real, y > 0real;
}

@@for T in f64 f32
impl Number {
@@fn number.rs | impl From<Number> for {T} | from
    @ret r
    @vis pub
    @sig fn to_{T}(num: Number) -> {T}
    @rw {T}::NAN =>> not_a_number_{T}()
    @rw -0.0 =>> minus_{T}(0.0)
    @rw num.mantissa as {T} =>> of_u64_{T}(num.mantissa)
    @rw { -f } =>> { minus_{T}(f) }
    @floats dec_{T}
    @spec
        ensures becomes_{T}(num.v(), r)
    @entry
        hide(about); hide(near); hide(pw); hide(fval); hide(fval32); hide(mag); hide(mag32); hide(sign); hide(sign32);
    @after let mut e = num.exponent;
        let ghost n0 = n;
        proof { lemma_start_{T}(num.mantissa, n0); }
    @before let f =
        let ghost n1 = n;
        proof {
            lemma_value_{T}(n1);
            if -2 * top_{T}() <= num.exponent < -top_{T}() { lemma_middle_{T}(num.mantissa, num.exponent as int, n0, n1); }
        }
    @before if num.is_sign_positive() { f }
        proof { lemma_all_{T}(num.mantissa, num.exponent as int, n0, n1, f); }
@@end
}
@@endfor

impl JsonValue {
@@for T in f64 f32
@@fn value/mod.rs | impl JsonValue | as_{T}
    @ret r
    @rw |$x_id| $x_id.into() =>> |$x_id: Number| -> (r: {T}) ensures becomes_{T}($x_id.v(), r) { Number::to_{T}($x_id) }
    @spec
        ensures
            r is Some == (num_of(jv(*self)) is Some),
            r is Some ==> becomes_{T}(num_of(jv(*self))->0.v(), r->0),
@@end
@@endfor
}

} // verus!
