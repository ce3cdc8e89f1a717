// The decimal digits of a float: every function of util/diyfp.rs and util/grisu2.rs that is used.
use vstd::prelude::*;
use vstd::float::*;
use crate::spec::*;
use crate::stdx::*;
use crate::powr::*;
verus! {

// ------------------------------------------------------------ what a float is

/// The bits of a float without the sign.
pub open spec fn mag(b: u64) -> u64 { b & 0x7fff_ffff_ffff_ffff }
/// Significand and exponent of the float with the bits b (IEEE 754, binary64).
pub open spec fn mant(b: u64) -> int { if (b / 0x10_0000_0000_0000) % 2048 != 0 { b as int % 0x10_0000_0000_0000 + 0x10_0000_0000_0000 } else { b as int % 0x10_0000_0000_0000 } }
pub open spec fn expo(b: u64) -> int { if (b / 0x10_0000_0000_0000) % 2048 != 0 { (b / 0x10_0000_0000_0000) % 2048 - 1075 } else { -1074 } }
/// The value of the float with the bits b, no sign.
pub open spec fn fval(b: u64) -> real { (mant(b) as real) * p2(expo(b)) }
pub open spec fn finite(b: u64) -> bool { b < 0x7ff0_0000_0000_0000 }

/// The decimal m * 10^x lies strictly between the middles towards the two neighbours
/// of the float with the bits b: that float is the one nearest to it.
pub open spec fn rounds_to(m: int, x: int, b: u64) -> bool {
    &&& fval((b - 1) as u64) + fval(b) < 2real * ((m as real) * p10(x))
    &&& 2real * ((m as real) * p10(x)) < fval(b) + fval((b + 1) as u64)
}

/// f64::to_bits, mem::transmute
#[verifier::external_body]
pub fn bits_of(d: f64) -> (r: u64)
    ensures r == d.to_bits_spec()
{ d.to_bits() }

/// float == 0.0
#[verifier::external_body]
pub fn zero_float(d: f64) -> (r: bool)
    ensures r == (mag(d.to_bits_spec()) == 0)
{ d == 0.0 }

@@rules
mem::transmute($e) =>> bits_of($e)
$x_id == 0.0 =>> zero_float($x_id)
diyfp::get_cached_power =>> get_cached_power
@@endrules

// ------------------------------------------------------------ DiyFp

@@item util/diyfp.rs | const DIY_SIGNIFICAND_SIZE
@@item util/diyfp.rs | const DP_SIGNIFICAND_SIZE
@@item util/diyfp.rs | const DP_EXPONENT_BIAS
@@item util/diyfp.rs | const DP_MIN_EXPONENT
@@item util/diyfp.rs | const DP_EXPONENT_MASK
@@item util/diyfp.rs | const DP_SIGNIFICAND_MASK
@@item util/diyfp.rs | const DP_HIDDEN_BIT
#[derive(Copy, Clone)]
@@item util/diyfp.rs | struct DiyFp | pub

pub open spec fn top() -> int { 0x8000_0000_0000_0000 }
pub open spec fn lim() -> int { 0x1_0000_0000_0000_0000 }

proof fn lemma_bits(u: u64)
    ensures
        (u & 0x7FF0000000000000) >> 52 == (u / 0x10_0000_0000_0000) % 2048,
        u & 0x000FFFFFFFFFFFFF == u % 0x10_0000_0000_0000,
        0 <= mant(u) < 0x20_0000_0000_0000, -1074 <= expo(u) <= 972,
{
    assert((u & 0x7FF0000000000000) >> 52 == (u / 0x10_0000_0000_0000) % 2048) by (bit_vector);
    assert(u & 0x000FFFFFFFFFFFFF == u % 0x10_0000_0000_0000) by (bit_vector);
}

/// f shifted left s times
pub open spec fn sh(f: int, s: int) -> int { f * fast(2, s as nat) }

proof fn lemma_sh(f: int, s: int)
    requires s >= 0
    ensures sh(f, s + 1) == 2 * sh(f, s), sh(f, 0) == f, f > 0 ==> sh(f, s) >= f
{
    lemma_fast_step(s as nat);
    let p = fast(2, s as nat);
    assert(f * (2 * p) == 2 * (f * p)) by (nonlinear_arith);
    assert(f * 1 == f);
    if f > 0 { assert(f * p >= f) by (nonlinear_arith) requires f > 0, p >= 1; }
}
/// Powers of two step by step
pub proof fn lemma_fast_step(s: nat)
    ensures fast(2, s + 1) == 2 * fast(2, s), fast(2, s) >= 1, fast(2, 0) == 1
{
    lemma_fast(2, s);
    lemma_fast(2, s + 1);
    lemma_step(2real, s as int);
    let a = fast(2, s + 1);
    let b = fast(2, s);
    assert((2 * b) as real == 2real * (b as real));
    assert(a as real == (2 * b) as real);
}

impl DiyFp {
@@fn util/diyfp.rs | impl DiyFp | new
    @ret r
    @spec
        ensures r.f == f, r.e == e
@@end

@@fn util/diyfp.rs | impl DiyFp | from_f64
    @ret r
    @spec
        ensures r.f == mant(d.to_bits_spec()), r.e == expo(d.to_bits_spec())
    @entry
        proof {
            lemma_bits(d.to_bits_spec());
            assert(forall|f: u64| f < 0x10_0000_0000_0000u64 ==> #[trigger] (f | 0x10_0000_0000_0000u64) == f + 0x10_0000_0000_0000u64
                && (0x10_0000_0000_0000u64 | f) == f + 0x10_0000_0000_0000u64) by (bit_vector);
            assert(forall|f: u64| #[trigger] (0x10_0000_0000_0000u64 | f) == (f | 0x10_0000_0000_0000u64)) by (bit_vector);
        }
@@end

@@fn util/diyfp.rs | impl DiyFp | normalize
    @ret r
    @spec
        requires self.f > 0, -2000 <= self.e <= 2000
        ensures exists|s: int| 0 <= s && r.f == #[trigger] sh(self.f as int, s) && r.e == self.e - s, r.f >= top()
    @entry
        let ghost mut s: int = 0;
        proof {
            lemma_sh(self.f as int, 0);
            assert(forall|f: u64| (#[trigger] (f & (1u64 << 63)) == 0) == (f < 0x8000_0000_0000_0000)) by (bit_vector);
            assert(fast(2, 63) == top()) by (compute_only);
        }
    @loop 1
        invariant
            0 <= s <= 63, res.f == sh(self.f as int, s), res.e == self.e - s, res.f >= fast(2, s as nat), -2000 <= self.e <= 2000,
            forall|f: u64| (#[trigger] (f & (1u64 << 63)) == 0) == (f < 0x8000_0000_0000_0000),
        decreases 64 - s
    @loopstart 1
        proof {
            let f = res.f;
            assert(f < 0x8000_0000_0000_0000 ==> (f << 1) == 2 * f) by (bit_vector);
            assert(fast(2, 63) == top()) by (compute_only);
            lemma_sh(self.f as int, s);
            lemma_fast_step(s as nat);
        }
    @loopend 1
        proof { s = s + 1; }
@@end

@@fn util/diyfp.rs | impl DiyFp | normalize_boundary
    @ret r
    @spec
        requires 0 < self.f < 0x40_0000_0000_0000, -2000 <= self.e <= 2000
        ensures exists|s: int| 10 <= s && r.f == #[trigger] sh(self.f as int, s) && r.e == self.e - s, r.f >= top()
    @entry
        let ghost mut s: int = 0;
        proof {
            lemma_sh(self.f as int, 0);
            assert(forall|f: u64| f < 0x40_0000_0000_0000 ==> (#[trigger] (f & (0x0010000000000000u64 << 1)) == 0) == (f < 0x20_0000_0000_0000)) by (bit_vector);
            assert(fast(2, 53) == 0x20_0000_0000_0000) by (compute_only);
        }
    @loop 1
        invariant
            0 <= s <= 53, res.f == sh(self.f as int, s), res.e == self.e - s, res.f >= fast(2, s as nat), -2000 <= self.e <= 2000, res.f < 0x40_0000_0000_0000,
            forall|f: u64| f < 0x40_0000_0000_0000 ==> (#[trigger] (f & (0x0010000000000000u64 << 1)) == 0) == (f < 0x20_0000_0000_0000),
        decreases 64 - s
    @loopstart 1
        proof {
            let f = res.f;
            assert(f < 0x8000_0000_0000_0000 ==> (f << 1) == 2 * f) by (bit_vector);
            assert(fast(2, 53) == 0x20_0000_0000_0000) by (compute_only);
            lemma_sh(self.f as int, s);
            lemma_fast_step(s as nat);
        }
    @loopend 1
        proof { s = s + 1; }
    @loopafter 1
        proof {
            let f = res.f;
            assert(f < 0x40_0000_0000_0000 ==> (f << 10) == 1024 * f) by (bit_vector);
            lemma_sh_add(self.f as int, s, 10);
        }
@@end
}

pub proof fn lemma_sh_add(f: int, s: int, t: int)
    requires s >= 0, t >= 0
    ensures sh(f, s + t) == sh(f, s) * fast(2, t as nat), fast(2, 10) == 1024
    decreases t
{
    assert(fast(2, 10) == 1024) by (compute_only);
    lemma_sh(f, s);
    let a = sh(f, s);
    if t == 0 { assert(a * 1 == a); } else {
        lemma_sh_add(f, s, t - 1);
        lemma_sh(f, s + t - 1);
        lemma_fast_step((t - 1) as nat);
        let b = fast(2, (t - 1) as nat);
        assert(2 * (a * b) == a * (2 * b)) by (nonlinear_arith);
    }
}

proof fn lemma_pow2(n: nat)
    ensures fast(2, n) == vstd::arithmetic::power2::pow2(n)
    decreases n
{
    vstd::arithmetic::power2::lemma2_to64();
    if n > 0 {
        lemma_pow2((n - 1) as nat);
        lemma_fast_step((n - 1) as nat);
        vstd::arithmetic::power2::lemma_pow2_unfold(n);
    }
}
/// The machine's shifts
proof fn lemma_shl(x: u64, s: u64)
    requires s < 64, sh(x as int, s as int) < lim()
    ensures x << s == sh(x as int, s as int)
{
    lemma_pow2(s as nat);
    vstd::bits::lemma_u64_shl_is_mul(x, s);
}
proof fn lemma_shr(x: u64, s: u64)
    requires s < 64
    ensures x >> s == x as int / fast(2, s as nat), fast(2, s as nat) >= 1
{
    lemma_pow2(s as nat);
    lemma_fast_step(s as nat);
    vstd::bits::lemma_u64_shr_is_div(x, s);
}
proof fn lemma_mask(x: u64, s: u64)
    requires 1 <= s < 64
    ensures x & ((1u64 << s) - 1) as u64 == x as int % fast(2, s as nat), 1u64 << s == fast(2, s as nat), fast(2, s as nat) <= top()
{
    lemma_pow2(s as nat);
    lemma_fast_mono(s as nat, 63);
    assert(fast(2, 63) == top()) by (compute_only);
    assert(sh(1, s as int) == fast(2, s as nat)) by (nonlinear_arith) requires sh(1, s as int) == 1 * fast(2, s as nat);
    lemma_shl(1, s);
    vstd::bits::lemma_u64_low_bits_mask_is_mod(x, s as nat);
}
proof fn lemma_fast_mono(s: nat, t: nat)
    requires s <= t
    ensures 1 <= fast(2, s) <= fast(2, t)
    decreases t - s
{
    lemma_fast_step(s);
    if s < t { lemma_fast_mono(s + 1, t); }
}
/// Comparing shifted numbers
proof fn lemma_sh_le(f: int, g: int, s: int)
    requires f <= g, s >= 0
    ensures sh(f, s) <= sh(g, s), sh(g, s) - sh(f, s) == sh(g - f, s)
{
    lemma_fast_step(s as nat);
    let p = fast(2, s as nat);
    assert(f * p <= g * p) by (nonlinear_arith) requires f <= g, p >= 1;
    assert(g * p - f * p == (g - f) * p) by (nonlinear_arith);
}
/// x * 2^64 is out of range
proof fn lemma_sh_small(f: int, s: int)
    requires 1 <= f, s >= 0, sh(f, s) < lim()
    ensures s < 64, f >= 3 ==> s < 63
{
    lemma_fast_step(s as nat);
    let p = fast(2, s as nat);
    if s >= 64 {
        lemma_fast_mono(64, s as nat);
        assert(fast(2, 64) == lim()) by (compute_only);
        assert(f * p >= p) by (nonlinear_arith) requires f >= 1, p >= 1;
    }
    if f >= 3 && s >= 63 {
        lemma_fast_mono(63, s as nat);
        assert(fast(2, 63) == top()) by (compute_only);
        assert(f * p >= 3 * p) by (nonlinear_arith) requires f >= 3, p >= 1;
    }
}

/// The lower boundary, from the significand
pub open spec fn low(f: int, s: int) -> int { if f == 0x10_0000_0000_0000 { sh(4 * f - 1, s - 1) } else { sh(2 * f - 1, s) } }

impl DiyFp {
@@fn util/diyfp.rs | impl DiyFp | normalized_boundaries
    @ret r
    @spec
        requires 0 < self.f < 0x20_0000_0000_0000, -1900 <= self.e <= 1900
        ensures
            exists|s: int| 10 <= s <= 63 && r.1.f == #[trigger] sh(2 * self.f + 1, s) && r.1.e == self.e - 1 - s && r.0.f == low(self.f as int, s),
            r.1.f >= top(), r.0.e == r.1.e,
    @entry
        proof {
            let f = self.f;
            assert(f < 0x20_0000_0000_0000 ==> (f << 1) == 2 * f && (f << 2) == 4 * f) by (bit_vector);
        }
    @before mi.f <<=
        let ghost s = choose|s: int| 10 <= s && pl.f == #[trigger] sh(2 * self.f + 1, s) && pl.e == self.e - 1 - s;
        proof {
            lemma_sh_small(2 * self.f + 1, s);
            lemma_sh_le(2 * self.f - 1, 2 * self.f + 1, s);
            lemma_sh_le(4 * self.f - 1, 4 * self.f + 2, s - 1);
            lemma_sh(2 * self.f + 1, s - 1);
            lemma_fast_step((s - 1) as nat);
            let p = fast(2, (s - 1) as nat);
            let f = self.f;
            assert((4 * f + 2) * p == 2 * ((2 * f + 1) * p)) by (nonlinear_arith);
            lemma_shl(mi.f, (mi.e - pl.e) as u64);
        }
@@end
}

impl DiyFp {
@@fn util/diyfp.rs | impl ops::Sub for DiyFp | sub
    @ret r
    @sig fn minus(self, rhs: DiyFp) -> DiyFp
    @spec
        requires rhs.f <= self.f
        ensures r.f == self.f - rhs.f, r.e == self.e
@@end

@@fn util/diyfp.rs | impl ops::Mul for DiyFp | mul
    @ret r
    @sig fn times(self, rhs: DiyFp) -> DiyFp
    @spec
        requires -4000 <= self.e <= 4000, -4000 <= rhs.e <= 4000
        ensures r.f == (self.f * rhs.f + top()) / lim(), r.e == self.e + rhs.e + 64
    @entry
        proof {
            assert(forall|v: u64| #[trigger] (v >> 32) == v / 0x1_0000_0000) by (bit_vector);
            assert(forall|v: u64| #[trigger] (v & 0xFFFF_FFFF) == v % 0x1_0000_0000) by (bit_vector);
            assert(1u64 << 31 == 0x8000_0000) by (bit_vector);
            lemma_mul(self.f as int, rhs.f as int);
        }
@@end
}

/// Multiplication in halves, rounded.
proof fn lemma_mul(x: int, y: int)
    requires 0 <= x < lim(), 0 <= y < lim()
    ensures
        ({
            let m = 0x1_0000_0000;
            let (a, b, c, d) = (x / m, x % m, y / m, y % m);
            let tmp = (b * d) / m + (a * d) % m + (b * c) % m + 0x8000_0000;
            &&& 0 <= a * c <= 0xffff_fffe_0000_0001 && 0 <= b * c <= 0xffff_fffe_0000_0001 && 0 <= a * d <= 0xffff_fffe_0000_0001 && 0 <= b * d <= 0xffff_fffe_0000_0001
            &&& a * c + (a * d) / m + (b * c) / m + tmp / m == (x * y + top()) / lim()
            &&& (x * y + top()) / lim() < lim()
        }),
{
    let m = 0x1_0000_0000;
    let (a, b, c, d) = (x / m, x % m, y / m, y % m);
    let (ac, bc, ad, bd) = (a * c, b * c, a * d, b * d);
    lemma_half(a, c); lemma_half(b, c); lemma_half(a, d); lemma_half(b, d);
    assert(x * y == ac * lim() + (ad + bc) * m + bd) by (nonlinear_arith)
        requires x == a * m + b, y == c * m + d, ac == a * c, bc == b * c, ad == a * d, bd == b * d, m == 0x1_0000_0000;
    assert(x * y <= 0xffff_ffff_ffff_ffff * 0xffff_ffff_ffff_ffff) by (nonlinear_arith) requires 0 <= x < lim(), 0 <= y < lim();
}
proof fn lemma_half(a: int, b: int)
    requires 0 <= a <= 0xffff_ffff, 0 <= b <= 0xffff_ffff
    ensures 0 <= a * b <= 0xffff_fffe_0000_0001
{
    assert(0 <= a * b <= 0xffff_ffff * 0xffff_ffff) by (nonlinear_arith) requires 0 <= a <= 0xffff_ffff, 0 <= b <= 0xffff_ffff;
}

// ------------------------------------------------------------ cached powers

/// c is 10^k to half a unit of its last place.
pub open spec fn near_power(c: DiyFp, k: int) -> bool {
    &&& c.f >= top()
    &&& 2real * ((c.f as real) * p2(c.e as int)) - 2real * p10(k) <= p2(c.e as int)
    &&& 2real * p10(k) - 2real * ((c.f as real) * p2(c.e as int)) <= p2(c.e as int)
}
/// The same in whole numbers.
pub open spec fn row(f: int, e: int, k: int) -> bool {
    let u = (if e >= 0 { fast(2, e as nat) } else { 1 }) * (if k < 0 { fast(10, (-k) as nat) } else { 1 });
    let b = (if e < 0 { fast(2, (-e) as nat) } else { 1 }) * (if k >= 0 { fast(10, k as nat) } else { 1 });
    f >= top() && 2 * (f * u) - 2 * b <= u && 2 * b - 2 * (f * u) <= u
}

proof fn lemma_distance(f: int, u: int, b: int)
    requires 2 * (f * u) - 2 * b <= u, 2 * b - 2 * (f * u) <= u
    ensures
        2real * ((f as real) * (u as real)) - 2real * (b as real) <= u as real,
        2real * (b as real) - 2real * ((f as real) * (u as real)) <= u as real,
{
    lemma_cast_mul(f, u);
    let fu = f * u;
    assert((2 * fu - 2 * b) as real == 2real * (fu as real) - 2real * (b as real));
}
proof fn lemma_row(c: DiyFp, k: int)
    requires row(c.f as int, c.e as int, k)
    ensures near_power(c, k)
{
    let f = c.f as int;
    let e = c.e as int;
    let eh = if e >= 0 { fast(2, e as nat) } else { 1 };
    let el = if e < 0 { fast(2, (-e) as nat) } else { 1 };
    let kl = if k < 0 { fast(10, (-k) as nat) } else { 1 };
    let kh = if k >= 0 { fast(10, k as nat) } else { 1 };
    lemma_fast(2, (if e >= 0 { e } else { -e }) as nat);
    lemma_fast(10, (if k >= 0 { k } else { -k }) as nat);
    lemma_inverse(2real, e);
    lemma_inverse(10real, k);
    lemma_row_core(f, eh, el, kl, kh, eh * kl, el * kh, p2(e), p10(k));
}
proof fn lemma_row_core(f: int, eh: int, el: int, kl: int, kh: int, u: int, b: int, pe: real, pk: real)
    requires
        2 * (f * u) - 2 * b <= u, 2 * b - 2 * (f * u) <= u, u == eh * kl, b == el * kh,
        el > 0, kl > 0,
        el == 1 && pe == eh as real || eh == 1 && pe * (el as real) == 1real,
        kl == 1 && pk == kh as real || kh == 1 && pk * (kl as real) == 1real,
    ensures
        2real * ((f as real) * pe) - 2real * pk <= pe,
        2real * pk - 2real * ((f as real) * pe) <= pe,
{
    lemma_cast_mul(eh, kl);
    lemma_cast_mul(el, kh);
    lemma_distance(f, u, b);
    assert(pe * 1real == pe) by (nonlinear_arith);
    assert(pk * 1real == pk) by (nonlinear_arith);
    lemma_row_real(f as real, eh as real, el as real, kl as real, kh as real, u as real, b as real, pe, pk);
}
proof fn lemma_row_real(rf: real, reh: real, rel: real, rkl: real, rkh: real, ru: real, rb: real, pe: real, pk: real)
    requires
        2real * (rf * ru) - 2real * rb <= ru, 2real * rb - 2real * (rf * ru) <= ru, ru == reh * rkl, rb == rel * rkh,
        rel > 0real, rkl > 0real, pe * rel == reh, pk * rkl == rkh,
    ensures
        2real * (rf * pe) - 2real * pk <= pe,
        2real * pk - 2real * (rf * pe) <= pe,
{
    let w = rel * rkl;
    assert(w > 0real) by (nonlinear_arith) requires w == rel * rkl, rel > 0real, rkl > 0real;
    assert(ru == pe * w) by (nonlinear_arith) requires ru == reh * rkl, reh == pe * rel, w == rel * rkl;
    assert(rb == pk * w) by (nonlinear_arith) requires rb == rel * rkh, rkh == pk * rkl, w == rel * rkl;
    assert((2real * (rf * pe) - 2real * pk) * w <= pe * w) by (nonlinear_arith) requires 2real * (rf * ru) - 2real * rb <= ru, ru == pe * w, rb == pk * w;
    assert((2real * pk - 2real * (rf * pe)) * w <= pe * w) by (nonlinear_arith) requires 2real * rb - 2real * (rf * ru) <= ru, ru == pe * w, rb == pk * w;
    let x = 2real * (rf * pe) - 2real * pk;
    assert(x <= pe) by (nonlinear_arith) requires x * w <= pe * w, w > 0real;
    let y = 2real * pk - 2real * (rf * pe);
    assert(y <= pe) by (nonlinear_arith) requires y * w <= pe * w, w > 0real;
}

spec fn rows(n: nat) -> bool
    decreases n
{
    n == 0 || n <= 87 && row(CACHED_POWERS_F[n - 1] as int, CACHED_POWERS_E[n - 1] as int, 8 * (n - 1) - 348) && -1300 <= CACHED_POWERS_E[n - 1] <= 1100 && rows((n - 1) as nat)
}
proof fn lemma_rows(n: nat, i: nat)
    requires rows(n), i < n
    ensures row(CACHED_POWERS_F[i as int] as int, CACHED_POWERS_E[i as int] as int, 8 * i - 348), -1300 <= CACHED_POWERS_E[i as int] <= 1100
    decreases n
{
    if i < n - 1 { lemma_rows((n - 1) as nat, i); }
}

@@fn util/diyfp.rs | - | get_cached_power_by_index
    @ret r
    @spec
        requires index < 87
        ensures near_power(r, 8 * index - 348), -1300 <= r.e <= 1100
    @entry
        proof {
            assert(rows(87)) by (compute_only);
            lemma_rows(87, index as nat);
            lemma_row(DiyFp { f: CACHED_POWERS_F[index as int], e: CACHED_POWERS_E[index as int] as isize }, 8 * index - 348);
        }
@@end


/// The lines of get_cached_power that compute in floating point: (-61 - e) times the
/// logarithm of 2, rounded up, plus 347. Assumed; the check runs the real function
/// on every argument it can get.
#[verifier::external_body]
fn log_estimate(e: isize) -> (k: isize)
    requires -1137 <= e <= 960
    ensures 0 <= k <= 680, p10(k - 348) < p2(-61 - e), p2(-61 - e) <= p10(k - 347)
{ unimplemented!() }

/// The scaled exponent fits in its window.
proof fn lemma_window(c: DiyFp, e: int, k: int, kk: int)
    requires
        near_power(c, kk), k - 347 <= kk <= k - 340,
        p10(k - 348) < p2(-61 - e), p2(-61 - e) <= p10(k - 347),
    ensures -60 <= e + c.e + 64 <= -33
{
    let f = c.f as real;
    let pe = p2(c.e as int);
    let t = p2(-61 - e);
    lemma_pos(2real, c.e as int);
    lemma_pos(2real, -61 - e);
    lemma_p10_mono(k - 347, kk);
    lemma_p10_mono(kk, k - 340);
    lemma_p10_mono(k - 348, k - 347);
    // 2^(64 + ce) and 2^(62 + ce)
    lemma_add(2real, 64, c.e as int);
    lemma_add(2real, 62, c.e as int);
    lemma_fast(2, 64);
    lemma_fast(2, 62);
    assert(fast(2, 64) == lim()) by (compute_only);
    assert(fast(2, 62) == 0x4000_0000_0000_0000) by (compute_only);
    let big = p2(64 + c.e);
    let small = p2(62 + c.e);
    assert(c.f as int + 1 <= lim());
    assert(c.f as int >= top());
    let l = lim() as real;
    let h = 0x4000_0000_0000_0000 as real;
    assert(f + 1real <= l);
    assert(f >= 2real * h);
    lemma_add(10real, 8, k - 348);
    lemma_fast(10, 8);
    assert(fast(10, 8) == 100000000) by (compute_only);
    lemma_add(2real, 27, -61 - e);
    lemma_fast(2, 27);
    assert(fast(2, 27) == 134217728) by (compute_only);
    lemma_window_real(f, pe, l, h, big, small, p10(kk), p10(k - 347), p10(k - 348), p10(k - 340), t, p2(-34 - e));
    if 64 + c.e <= -61 - e { lemma_p2_mono(64 + c.e, -61 - e); }
    if 62 + c.e >= -34 - e { lemma_p2_mono(-34 - e, 62 + c.e); }
}
proof fn lemma_window_real(f: real, pe: real, l: real, h: real, big: real, small: real, pk: real, pa: real, q: real, pz: real, t: real, t27: real)
    requires
        2real * (f * pe) - 2real * pk <= pe, 2real * pk - 2real * (f * pe) <= pe, pe > 0real, t > 0real,
        f + 1real <= l, f >= 2real * h, h >= 1real, big == l * pe, small == h * pe,
        pa <= pk, pk <= pz, pz == 100000000real * q, q < t, t <= pa, t27 == 134217728real * t,
    ensures t < big, small < t27
{
    assert(f * pe + pe <= big) by (nonlinear_arith) requires f + 1real <= l, big == l * pe, pe > 0real;
    assert(f * pe >= 2real * small) by (nonlinear_arith) requires f >= 2real * h, small == h * pe, pe > 0real;
    assert(pe <= small) by (nonlinear_arith) requires small == h * pe, pe > 0real, h >= 1real;
    let x = f * pe;
    assert(2real * pk <= 2real * x + pe);
    assert(pk < big);
    assert(3real * small <= 2real * pk);
    assert(pk < 134217728real * t);
}
proof fn lemma_p10_mono(a: int, b: int)
    requires a <= b
    ensures p10(a) <= p10(b)
    decreases b - a
{
    if a < b {
        lemma_p10_mono(a, b - 1);
        lemma_step(10real, b - 1);
        lemma_pos(10real, b - 1);
    }
}
proof fn lemma_p2_mono(a: int, b: int)
    requires a <= b
    ensures p2(a) <= p2(b)
    decreases b - a
{
    if a < b {
        lemma_p2_mono(a, b - 1);
        lemma_step(2real, b - 1);
        lemma_pos(2real, b - 1);
    }
}

@@fn util/diyfp.rs | - | get_cached_power
    @ret r
    @rw let dk = $a; let mut k = dk as isize; if dk - k as f64 > 0.0 { k += 1; } =>> let mut k = log_estimate(e);
    @spec
        requires -1137 <= e <= 960
        ensures near_power(r.0, -r.1), -60 <= e + r.0.e + 64 <= -33, -400 <= r.1 <= 400, -1300 <= r.0.e <= 1100
    @before let index =
        proof {
            assert(0 <= k <= 680 ==> k >> 3 == k / 8) by (bit_vector);
        }
    @before let k = -
        proof {
            assert(index <= 86 ==> index << 3 == 8 * index) by (bit_vector);
            assert forall|c: DiyFp| #[trigger] near_power(c, 8 * index - 348) implies -60 <= e + c.e + 64 <= -33 by { lemma_window(c, e as int, k as int, 8 * index - 348); }
        }
@@end

// ------------------------------------------------------------ digits

@@fn util/grisu2.rs | - | grisu_round
    @spec
        requires rest <= delta, ten_kappa > 0, *old(buffer) * ten_kappa + rest > delta
        ensures
            *final(buffer) <= *old(buffer), *final(buffer) > 0,
            rest <= *old(buffer) * ten_kappa - *final(buffer) * ten_kappa + rest <= delta,
    @entry
        let ghost b0 = *buffer as int;
        let ghost r0 = rest as int;
        proof { assert(b0 * ten_kappa + r0 > delta && rest <= delta ==> b0 > 0) by (nonlinear_arith) requires b0 >= 0, ten_kappa > 0, r0 == rest; }
    @loop 1
        invariant
            rest <= delta, ten_kappa > 0, *buffer <= b0, b0 * ten_kappa + r0 > delta, r0 <= rest,
            *buffer * ten_kappa + rest == b0 * ten_kappa + r0,
            *buffer > 0,
        decreases delta - rest
    @loopstart 1
        proof {
            let (b, t) = (*buffer as int, ten_kappa as int);
            assert(b > 1) by (nonlinear_arith) requires b * t + rest > delta, rest + t <= delta, b >= 1, t > 0;
            assert((b - 1) * t + (rest + t) == b * t + rest) by (nonlinear_arith);
        }
@@end

@@fn util/grisu2.rs | - | count_decimal_digit32
    @ret r
    @spec
        ensures 1 <= r <= 9, n > 0 ==> n >= pow10((r - 1) as nat)
    @entry
        proof { lemma_pow10_20(0); lemma_pow10_20(1); lemma_pow10_20(2); lemma_pow10_20(3); lemma_pow10_20(4); lemma_pow10_20(5); lemma_pow10_20(6); lemma_pow10_20(7); lemma_pow10_20(8); }
@@end


/// The digits lie in the window: mp - delta <= m * 10^x * 2^h <= mp.
pub open spec fn in_window(m: int, x: int, h: int, mp: int, delta: int) -> bool {
    if x >= 0 { mp - delta <= m * pow10(x as nat) * fast(2, h as nat) <= mp }
    else { (mp - delta) * pow10((-x) as nat) <= m * fast(2, h as nat) <= mp * pow10((-x) as nat) }
}

@@fn util/grisu2.rs | - | digit_gen
    @ret r
    @attr #[verifier::loop_isolation(false)] #[verifier::rlimit(60)] #[verifier::spinoff_prover]
    @rw mp - w =>> mp.minus(w)
    @spec
        requires
            -60 <= mp.e <= -33, w.f <= mp.f, mp.f - w.f <= delta, 1 <= delta, delta < mp.f, mp.f >= 0x2000_0000_0000_0000,
            mp.f <= 1_0000_0000_0000_0000 * delta, -400 <= k <= 400,
        ensures
            0 < r.0 < 10_0000_0000_0000_0000,
            -40 <= r.1 - k <= 10,
            in_window(r.0 as int, r.1 - k, -mp.e as int, mp.f as int, delta as int),
    @entry
        hide(fast); hide(sh); hide(pow10);
        let ghost h: u64 = (-mp.e) as u64;
        let ghost k0: int = k as int;
        let ghost d0: int = delta as int;
        let ghost u: int = fast(2, h as nat);
        proof {
            lemma_shr(mp.f, h);
            lemma_mask(mp.f, h);
            lemma_first_part(mp.f as int, h as nat);
        }
    @before while kappa > 0
        let ghost p: int = p1 as int;
        let ghost q: int = p2 as int;
        let ghost n0: int = kappa as int;
        proof {
            assert(p * u + q == mp.f) by (nonlinear_arith) requires p == mp.f as int / u, q == mp.f as int % u, u > 0;
            lemma_pow10_20(0);
        }
    @loop 1
        invariant
            p * u + q == mp.f, 0 <= q < u, u == fast(2, h as nat), 0 < u <= 0x1000_0000_0000_0000, p2 == q, buffer == p, delta == d0, k == k0, 0 < p < 0x1_0000_0000,
            one.e == mp.e, one.f == u, h == -mp.e, 33 <= h <= 60, wp_w.f == mp.f - w.f, d0 < mp.f, 1 <= d0,
            1 <= n0 <= 9, 0 <= kappa <= n0, p >= pow10((n0 - 1) as nat),
            p1 as int % pow10(kappa as nat) as int == p % pow10(kappa as nat) as int, p1 <= p,
            kappa < n0 ==> (p % pow10(kappa as nat) as int) * u + q > d0,
            -400 <= k <= 400, mp.f - w.f <= d0, mp.f <= 1_0000_0000_0000_0000 * d0,
        decreases kappa
    @loopstart 1
        let ghost kap = kappa;
        let ghost old_p1 = p1 as int;
        proof { lemma_pow10_20(kappa as nat); lemma_pow10_20((kappa - 1) as nat); }
    @before let $t_id = ((p1
        proof {
            let a = pow10(kappa as nat) as int;
            lemma_mod_step(old_p1, p, kappa as nat);
            assert(p1 as int == p % a);
            lemma_pow10_pos(kappa as nat);
            assert(p1 * u <= p * u) by (nonlinear_arith) requires 0 <= p1 <= p, u > 0;
            lemma_sh_is(p1 as int, h as nat);
            lemma_shl(p1 as u64, h);
        }
    @before k += kappa; let pow10 =
        proof {
            let a = pow10(kappa as nat) as int;
            lemma_pow10_mono(kappa as nat, (n0 - 1) as nat);
            assert(a * u <= p * u) by (nonlinear_arith) requires a <= p, u > 0;
            lemma_sh_is(a, h as nat);
            lemma_shl(a as u64, h);
            assert(a * u > 0) by (nonlinear_arith) requires a > 0, u > 0;
            assert(POW10@ =~= seq![1u32, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000]);
            lemma_pow10_20(kappa as nat);
            // buffer / 10^kappa
            let b = p / a;
            assert(p == b * a + p % a) by (nonlinear_arith) requires b == p / a, a > 0;
            assert(b * (a * u) + ((p % a) * u + q) == mp.f) by (nonlinear_arith) requires p == b * a + p % a, p * u + q == mp.f;
        }
    @after pow10 << -one.e, wp_w.f);
        proof {
            let a = pow10 as int;
            let f = buffer as int;
            assert(f * (a * u) == f * a * u) by (nonlinear_arith);
        }
    @loopbefore 2
        proof {
            lemma_pow10_20(0);
            assert(pow10(0) == 1);
            assert(p % 1 == 0);
            assert((p % 1) * u == 0);
            assert(mp.f * pow10(0) == mp.f && d0 * pow10(0) == d0);
        }
    @loop 2
        invariant
            u == fast(2, h as nat), 0 < u <= 0x1000_0000_0000_0000, one.e == mp.e, one.f == u, h == -mp.e, 33 <= h <= 60,
            wp_w.f == mp.f - w.f, d0 < mp.f, 1 <= d0, mp.f - w.f <= d0, mp.f <= 1_0000_0000_0000_0000 * d0,
            k == k0, -400 <= k <= 400,
            -19 <= kappa <= 0,
            mp.f * pow10((-kappa) as nat) == buffer * u + p2,
            d0 * pow10((-kappa) as nat) == delta,
            1 <= delta <= p2 < u, buffer > 0,
        decreases u - delta
    @loopstart 2
        let ghost j: nat = (-kappa) as nat;
        let ghost (b0, e0, q0) = (buffer as int, delta as int, p2 as int);
        proof {
            lemma_pow10_pos(j);
            lemma_p10_step(j);
            lemma_small_buffer(mp.f as int, d0, pow10(j) as int, b0, u, q0, e0);
        }
    @before let d =
        let ghost q1: int = p2 as int;
        proof {
            lemma_shr(p2, h);
            lemma_mask(p2, h);
            assert(0 <= q1 / u < 10 && q1 == (q1 / u) * u + q1 % u && 0 <= q1 % u < u) by (nonlinear_arith) requires 0 <= q1 < 10 * u, u > 0;
        }
    @before if p2 < delta
        proof {
            assert((b0 * 10 + q1 / u) * u + q1 % u == 10 * (b0 * u + q0)) by (nonlinear_arith) requires q1 == 10 * q0, q1 == (q1 / u) * u + q1 % u;
            assert(mp.f * pow10(j + 1) == 10 * (mp.f * pow10(j))) by (nonlinear_arith) requires pow10(j + 1) == pow10(j) * 10;
            assert(d0 * pow10(j + 1) == 10 * (d0 * pow10(j))) by (nonlinear_arith) requires pow10(j + 1) == pow10(j) * 10;
            assert((j + 1) as nat == (-kappa) as nat);
            lemma_few_steps(d0, j + 1, delta as int);
        }
    @before let index = -
        proof {
            assert(POW10@ =~= seq![1u32, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000]);
            let a = pow10(j + 1) as int;
            lemma_pow10_20(j + 1);
            lemma_pow10_pos(j + 1);
            let wf = wp_w.f as int;
            assert(wf * a <= d0 * a) by (nonlinear_arith) requires wf <= d0, a > 0;
            assert(wf * a >= 0) by (nonlinear_arith) requires wf >= 0, a > 0;
            assert(mp.f * a > d0 * a) by (nonlinear_arith) requires mp.f > d0, a > 0;
            assert((mp.f - d0) * a == mp.f * a - d0 * a) by (nonlinear_arith);
        }
@@end

proof fn lemma_p10_step(n: nat) ensures pow10(n + 1) == pow10(n) * 10, pow10(0) == 1 {}
proof fn lemma_sh_is(x: int, h: nat) ensures sh(x, h as int) == x * fast(2, h) {}

/// p1 fits in 31 bits and is not 0
proof fn lemma_first_part(f: int, h: nat)
    requires 33 <= h <= 60, 0x2000_0000_0000_0000 <= f < lim()
    ensures
        0 < f / fast(2, h) < 0x8000_0000, 0 <= f % fast(2, h) < fast(2, h), 0 < fast(2, h) <= 0x1000_0000_0000_0000,
{
    let u = fast(2, h);
    lemma_fast_mono(33, h);
    lemma_fast_mono(h, 60);
    assert(fast(2, 33) == 0x2_0000_0000) by (compute_only);
    assert(fast(2, 60) == 0x1000_0000_0000_0000) by (compute_only);
    let d = f / u;
    assert(f == d * u + f % u && 0 <= f % u < u) by (nonlinear_arith) requires d == f / u, u > 0;
    assert(d >= 1) by (nonlinear_arith) requires f == d * u + f % u, f % u < u, f >= 2 * u, u > 0;
    assert(d < 0x8000_0000) by (nonlinear_arith) requires f >= d * u, u >= 0x2_0000_0000, f < 0x1_0000_0000_0000_0000;
}

/// The last digits of the last digits
proof fn lemma_mod_step(x: int, p: int, k: nat)
    requires x % (pow10(k + 1) as int) == p % (pow10(k + 1) as int), x >= 0, p >= 0
    ensures x % (pow10(k) as int) == p % (pow10(k) as int)
{
    let a = pow10(k) as int;
    lemma_pow10_pos(k);
    assert(pow10(k + 1) as int == a * 10);
    vstd::arithmetic::div_mod::lemma_mod_mod(x, a, 10);
    vstd::arithmetic::div_mod::lemma_mod_mod(p, a, 10);
}

/// In the second loop the buffer is still short.
proof fn lemma_small_buffer(mp: int, d0: int, t: int, b: int, u: int, q: int, d: int)
    requires mp <= 1_0000_0000_0000_0000 * d0, t > 0, mp * t == b * u + q, d0 * t == d, d <= q, 0 <= q < u
    ensures b < 1_0000_0000_0000_0000
{
    assert(mp * t <= 1_0000_0000_0000_0000 * (d0 * t)) by (nonlinear_arith) requires mp <= 1_0000_0000_0000_0000 * d0, t > 0;
    assert(b < 1_0000_0000_0000_0000) by (nonlinear_arith) requires b * u < 1_0000_0000_0000_0000 * u, u > 0;
}
/// delta is a machine word: no more than 19 steps
proof fn lemma_few_steps(d0: int, j: nat, d: int)
    requires d0 >= 1, d0 * pow10(j) == d, d < lim()
    ensures j <= 19
{
    if j > 19 {
        lemma_pow10_mono(20, j);
        lemma_pow10_20(20);
        let t = pow10(j) as int;
        assert(d0 * t >= t) by (nonlinear_arith) requires d0 >= 1, t > 0;
    }
}

// ------------------------------------------------------------ convert

/// Normalised once, normalised always.
proof fn lemma_sh_twice(f: int, a: int, b: int)
    requires 0 <= a < b, f > 0
    ensures 2 * sh(f, a) <= sh(f, b)
    decreases b - a
{
    lemma_sh(f, a);
    lemma_sh(f, b - 1);
    if a < b - 1 { lemma_sh_twice(f, a, b - 1); }
}
proof fn lemma_norm(f: int, s: int, t: int)
    requires f > 0, 10 <= s, 0 <= t, top() <= sh(2 * f + 1, s) < lim(), top() <= sh(f, t) < lim()
    ensures t == s + 1, s <= 62, sh(f, t) == 2 * f * fast(2, s as nat), fast(2, s as nat) >= 1024
{
    lemma_sh_small(2 * f + 1, s);
    lemma_sh(f, s);
    let p = fast(2, s as nat);
    lemma_fast_mono(10, s as nat);
    assert(fast(2, 10) == 1024) by (compute_only);
    let q = fast(2, (62 - s) as nat);
    lemma_fast_step((62 - s) as nat);
    lemma_sh_add(1, s, 63 - s);
    assert(((62 - s) as nat + 1) as nat == (63 - s) as nat);
    assert(fast(2, (63 - s) as nat) == 2 * q);
    assert(sh(1, 63) == top()) by { assert(fast(2, 63) == top()) by (compute_only); assert(1 * fast(2, 63) == fast(2, 63)); }
    assert(sh(1, s) == p) by { assert(1 * p == p); }
    assert((2 * f + 1) >= 2 * q) by (nonlinear_arith) requires (2 * f + 1) * p >= p * (2 * q), p >= 1;
    assert(2 * f * p >= p * (2 * q)) by (nonlinear_arith) requires 2 * f >= 2 * q, p >= 1;
    assert(2 * (f * p) == 2 * f * p) by (nonlinear_arith);
    assert((2 * f + 1) * p == 2 * f * p + p) by (nonlinear_arith);
    assert(sh(f, s + 1) == 2 * f * p);
    assert(top() <= sh(f, s + 1) < lim());
    if t < s + 1 { lemma_sh_twice(f, t, s + 1); }
    if t > s + 1 { lemma_sh_twice(f, s + 1, t); }
}

/// Rounded product
spec fn rp(x: int, c: int) -> int { (x * c + top()) / lim() }

proof fn lemma_rp(x: int, c: int)
    ensures rp(x, c) * lim() <= x * c + top() < rp(x, c) * lim() + lim()
{
    let y = x * c + top();
    assert(y == lim() * (y / lim()) + y % lim());
}

/// The scaled boundaries
proof fn lemma_scaled(f: int, s: int, c: int)
    requires
        0 < f < 0x20_0000_0000_0000, 10 <= s <= 62, top() <= c < lim(), top() <= sh(2 * f + 1, s) < lim(),
    ensures
        ({
            let pl = sh(2 * f + 1, s);
            let mi = low(f, s);
            let (wp, wm, w) = (rp(pl, c) - 1, rp(mi, c) + 1, rp(2 * f * fast(2, s as nat), c));
            &&& 0 <= wm <= w <= wp && 1 <= wp - wm < wp && wp >= 0x2000_0000_0000_0000
            &&& wp <= 1_0000_0000_0000_0000 * (wp - wm)
            &&& 2 * wp * lim() <= 2 * (pl * c) - lim()
            &&& 2 * wm * lim() > 2 * (mi * c) + lim()
            &&& 0 <= mi < pl
        }),
{
    let p = fast(2, s as nat);
    let p1 = fast(2, (s - 1) as nat);
    lemma_fast_step((s - 1) as nat);
    lemma_fast_mono(10, s as nat);
    assert(fast(2, 10) == 1024) by (compute_only);
    let pl = sh(2 * f + 1, s);
    let mi = low(f, s);
    let w = 2 * f * p;
    lemma_rp(pl, c);
    lemma_rp(mi, c);
    lemma_rp(w, c);
    // distances
    assert((2 * f + 1) * p == 2 * f * p + p) by (nonlinear_arith);
    assert(2 * f * p >= 2 * p) by (nonlinear_arith) requires f >= 1, p >= 1;
    let h = 0x10_0000_0000_0000int;
    if f == h {
        assert((4 * f - 1) * p1 == 2 * f * p - p1) by (nonlinear_arith) requires p == 2 * p1;
        assert((2 * f + 1) * p <= 0x20_0000_0000_0001 * p) by (nonlinear_arith) requires f == h, h == 0x10_0000_0000_0000, p >= 1;
    } else {
        assert((2 * f - 1) * p == 2 * f * p - p) by (nonlinear_arith);
        assert((2 * f + 1) * p <= 0x40_0000_0000_0000 * p) by (nonlinear_arith) requires f < 0x20_0000_0000_0000, p >= 1;
    }
    let half = if f == h { p1 } else { p };
    assert(mi == w - half && pl == w + p && half >= 512);
    assert(mi * c == w * c - half * c) by (nonlinear_arith) requires mi == w - half;
    assert(pl * c == w * c + p * c) by (nonlinear_arith) requires pl == w + p;
    assert(half * c >= 512 * top()) by (nonlinear_arith) requires half >= 512, c >= top();
    assert(p * c >= 1024 * top()) by (nonlinear_arith) requires p >= 1024, c >= top();
    assert(pl * c >= top() * top()) by (nonlinear_arith) requires pl >= top(), c >= top();
    assert(mi * c >= 0) by (nonlinear_arith) requires mi >= 0, c >= top();
    // relative width
    let num = if f == h { 0x20_0000_0000_0001int } else { 0x40_0000_0000_0000int };
    assert(pl <= num * p);
    assert(pl * c <= num * (p * c)) by (nonlinear_arith) requires pl <= num * p, c >= top();
    if f == h { assert(2 * (p1 * c) == p * c) by (nonlinear_arith) requires p == 2 * p1; }
    lemma_width(rp(pl, c), rp(mi, c), p * c, half * c, pl * c, mi * c, f == h);
}
proof fn lemma_width(a: int, b: int, pc: int, hc: int, plc: int, mic: int, edge: bool)
    requires
        a * lim() <= plc + top() < a * lim() + lim(),
        b * lim() <= mic + top() < b * lim() + lim(),
        plc - mic == pc + hc, pc >= 1024 * top(),
        edge ==> 2 * hc == pc && plc <= 0x20_0000_0000_0001 * pc,
        !edge ==> hc == pc && plc <= 0x40_0000_0000_0000 * pc,
    ensures a - 1 <= 1_0000_0000_0000_0000 * (a - b - 2)
{
    let l = lim();
    // (a - b) * l > pc + hc - l
    assert((a - b) * l == a * l - b * l) by (nonlinear_arith);
    assert((a - b - 2) * l > pc + hc - 3 * l);
    assert(1_0000_0000_0000_0000 * (pc + hc - 3 * l) >= plc);
    assert((a - 1) * l <= plc);
    assert(1_0000_0000_0000_0000 * ((a - b - 2) * l) == (1_0000_0000_0000_0000 * (a - b - 2)) * l) by (nonlinear_arith);
}

/// Through the rounded multiplication by a rounded power, and back.
proof fn lemma_bounds_real(v: real, l: real, pl: real, mi: real, cf: real, pe: real, pk: real, wp: real, wm: real)
    requires
        wm <= v <= wp, 2real * (wp * l) <= 2real * (pl * cf) - l, 2real * (wm * l) > 2real * (mi * cf) + l,
        0real <= mi, mi < l, 0real <= pl, pl < l, pe > 0real, l > 0real,
        2real * (cf * pe) - 2real * pk <= pe, 2real * pk - 2real * (cf * pe) <= pe,
    ensures v * (pe * l) < pl * pk, v * (pe * l) > mi * pk
{
    let a = pl * cf;
    let b = mi * cf;
    assert(v * l <= wp * l) by (nonlinear_arith) requires v <= wp, l > 0real;
    assert(v * l >= wm * l) by (nonlinear_arith) requires v >= wm, l > 0real;
    let t = v * l;
    assert(v * (pe * l) == t * pe) by (nonlinear_arith) requires t == v * l;
    assert(2real * (t * pe) <= 2real * (a * pe) - l * pe) by (nonlinear_arith) requires 2real * t <= 2real * a - l, pe > 0real;
    assert(2real * (t * pe) > 2real * (b * pe) + l * pe) by (nonlinear_arith) requires 2real * t > 2real * b + l, pe > 0real;
    assert(2real * (a * pe) <= 2real * (pl * pk) + pl * pe) by (nonlinear_arith) requires a == pl * cf, 2real * (cf * pe) - 2real * pk <= pe, pl >= 0real;
    assert(2real * (b * pe) >= 2real * (mi * pk) - mi * pe) by (nonlinear_arith) requires b == mi * cf, 2real * pk - 2real * (cf * pe) <= pe, mi >= 0real;
    assert(pl * pe < l * pe) by (nonlinear_arith) requires pl < l, pe > 0real;
    assert(mi * pe < l * pe) by (nonlinear_arith) requires mi < l, pe > 0real;
}

/// The window, as reals
proof fn lemma_in_window_real(m: int, x: int, h: int, wp: int, wm: int)
    requires in_window(m, x, h, wp, wp - wm), h >= 0
    ensures ({ let v = (m as real) * p10(x) * p2(h); (wm as real) <= v && v <= (wp as real) })
{
    let u = fast(2, h as nat);
    lemma_fast(2, h as nat);
    let pu = p2(h);
    let rm = m as real;
    let px = p10(x);
    if x >= 0 {
        lemma_p10(x as nat);
        lemma_cast_mul(m, pow10(x as nat) as int);
        lemma_cast_mul(m * pow10(x as nat), u);
    } else {
        let t = pow10((-x) as nat) as int;
        let rt = t as real;
        lemma_p10((-x) as nat);
        lemma_inverse(10real, x);
        lemma_pos(10real, x);
        lemma_cast_mul(m, u);
        lemma_cast_mul(wp, t);
        lemma_cast_mul(wm, t);
        let (rwp, rwm) = (wp as real, wm as real);
        lemma_unscale(rm, pu, px, rt, rwp, rwm);
    }
}
proof fn lemma_unscale(rm: real, pu: real, px: real, rt: real, rwp: real, rwm: real)
    requires px * rt == 1real, px > 0real, rwm * rt <= rm * pu, rm * pu <= rwp * rt
    ensures rwm <= rm * px * pu, rm * px * pu <= rwp
{
    let y = rm * pu;
    assert(rm * px * pu == y * px) by (nonlinear_arith) requires y == rm * pu;
    assert(rwm * rt * px <= y * px) by (nonlinear_arith) requires rwm * rt <= y, px > 0real;
    assert(rwp * rt * px >= y * px) by (nonlinear_arith) requires rwp * rt >= y, px > 0real;
    assert(rwm * rt * px == rwm) by (nonlinear_arith) requires px * rt == 1real;
    assert(rwp * rt * px == rwp) by (nonlinear_arith) requires px * rt == 1real;
}

proof fn lemma_scaled_back(c: DiyFp, kk: int, pl: int, mi: int, e: int, wp: int, wm: int, m: int, x: int)
    requires
        near_power(c, kk), in_window(m, x, -(e + c.e + 64), wp, wp - wm), e + c.e + 64 <= 0,
        2 * wp * lim() <= 2 * (pl * c.f) - lim(), 2 * wm * lim() > 2 * (mi * c.f) + lim(),
        0 <= mi < lim(), 0 <= pl < lim(),
    ensures
        (mi as real) * p2(e) < (m as real) * p10(x - kk),
        (m as real) * p10(x - kk) < (pl as real) * p2(e),
{
    let h = -(e + c.e + 64);
    lemma_in_window_real(m, x, h, wp, wm);
    let rm = m as real;
    let px = p10(x);
    let ph = p2(h);
    let v = rm * px * ph;
    let cf = c.f as int;
    let (rl, rpl, rmi, rcf, rwp, rwm) = (lim() as real, pl as real, mi as real, cf as real, wp as real, wm as real);
    let (pe, pk) = (p2(c.e as int), p10(kk));
    lemma_pos(2real, c.e as int);
    lemma_cast_scaled(wp, pl, cf);
    lemma_cast_scaled(wm, mi, cf);
    lemma_bounds_real(v, rl, rpl, rmi, rcf, pe, pk, rwp, rwm);
    // powers
    let p = p2(e);
    lemma_pos(2real, e);
    lemma_pos(2real, h);
    lemma_pos(10real, kk);
    lemma_inverse(2real, h);
    lemma_add(2real, e + c.e, 64);
    lemma_add(2real, e, c.e as int);
    lemma_fast(2, 64);
    assert(fast(2, 64) == lim()) by (compute_only);
    let ph2 = p2(-h);
    assert(ph2 == (p * pe) * rl);
    lemma_add(10real, x - kk, kk);
    let y = p10(x - kk);
    assert(px == y * pk);
    lemma_final(rm, px, ph, ph2, v, p, pe, rl, pk, y, rpl, rmi);
}
proof fn lemma_final(rm: real, px: real, ph: real, ph2: real, v: real, p: real, pe: real, rl: real, pk: real, y: real, rpl: real, rmi: real)
    requires
        v == rm * px * ph, ph * ph2 == 1real, ph2 == (p * pe) * rl, px == y * pk, pk > 0real, p > 0real,
        v * (pe * rl) < rpl * pk, v * (pe * rl) > rmi * pk,
    ensures rmi * p < rm * y, rm * y < rpl * p
{
    let s = v * (pe * rl);
    assert(v * ph2 == rm * px) by (nonlinear_arith) requires v == rm * px * ph, ph * ph2 == 1real;
    assert(v * ph2 == s * p) by (nonlinear_arith) requires ph2 == (p * pe) * rl, s == v * (pe * rl);
    assert(rm * px == (rm * y) * pk) by (nonlinear_arith) requires px == y * pk;
    assert(s * p < (rpl * pk) * p) by (nonlinear_arith) requires s < rpl * pk, p > 0real;
    assert(s * p > (rmi * pk) * p) by (nonlinear_arith) requires s > rmi * pk, p > 0real;
    assert((rpl * pk) * p == (rpl * p) * pk) by (nonlinear_arith);
    assert((rmi * pk) * p == (rmi * p) * pk) by (nonlinear_arith);
    let z = rm * y;
    let (a, b) = (rmi * p, rpl * p);
    assert(z < b) by (nonlinear_arith) requires z * pk < b * pk, pk > 0real;
    assert(a < z) by (nonlinear_arith) requires a * pk < z * pk, pk > 0real;
}
proof fn lemma_cast_scaled(w: int, p: int, c: int)
    ensures
        2 * w * lim() <= 2 * (p * c) - lim() ==> 2real * ((w as real) * (lim() as real)) <= 2real * ((p as real) * (c as real)) - (lim() as real),
        2 * w * lim() > 2 * (p * c) + lim() ==> 2real * ((w as real) * (lim() as real)) > 2real * ((p as real) * (c as real)) + (lim() as real),
{
    lemma_cast_mul(w, lim());
    lemma_cast_mul(p, c);
    let a = w * lim();
    let b = p * c;
    assert(2 * w * lim() == 2 * a);
    assert((2 * a) as real == 2real * (a as real));
    assert((2 * b - lim()) as real == 2real * (b as real) - (lim() as real));
    assert((2 * b + lim()) as real == 2real * (b as real) + (lim() as real));
}

/// The middles towards the neighbours.
proof fn lemma_middles(b: u64, s: int)
    requires 0 < b, finite(b), s >= 10
    ensures
        0 < mant(b) < 0x20_0000_0000_0000, -1074 <= expo(b) <= 971,
        2real * ((sh(2 * mant(b) + 1, s) as real) * p2(expo(b) - 1 - s)) == fval(b) + fval((b + 1) as u64),
        2real * ((low(mant(b), s) as real) * p2(expo(b) - 1 - s)) >= fval((b - 1) as u64) + fval(b),
{
    let f = mant(b);
    let e = expo(b);
    let h = 0x10_0000_0000_0000int;
    let pe = p2(e);
    lemma_pos(2real, e);
    lemma_pos(2real, e - 1);
    lemma_step(2real, e - 1);
    lemma_step(2real, e);
    let rf = f as real;
    // the next one
    let up = (b + 1) as u64;
    assert(fval(up) == (rf + 1real) * pe) by {
        if f == 2 * h - 1 {
            assert(mant(up) == h && expo(up) == e + 1);
            let rh = h as real;
            assert(rf + 1real == 2real * rh);
            assert(rh * (2real * pe) == (2real * rh) * pe) by (nonlinear_arith);
        } else {
            assert(mant(up) == f + 1 && expo(up) == e);
            assert((f + 1) as real == rf + 1real);
        }
    }
    // 2^s * 2^(e - 1 - s)
    let q = p2(e - 1 - s);
    lemma_add(2real, s, e - 1 - s);
    lemma_fast(2, s as nat);
    let rs = fast(2, s as nat) as real;
    let half = p2(e - 1);
    assert(half == rs * q);
    assert(pe == 2real * half);
    lemma_cast_mul(2 * f + 1, fast(2, s as nat));
    assert((2 * f + 1) as real == 2real * rf + 1real);
    lemma_mid(rf, 2real * rf + 1real, rs, q, half, pe);
    assert(rf * pe + (rf + 1real) * pe == (2real * rf + 1real) * pe) by (nonlinear_arith);
    // the one before
    let dn = (b - 1) as u64;
    if f == h {
        let rs1 = fast(2, (s - 1) as nat) as real;
        lemma_fast_step((s - 1) as nat);
        lemma_fast(2, (s - 1) as nat);
        lemma_cast_mul(4 * f - 1, fast(2, (s - 1) as nat));
        assert((4 * f - 1) as real == 4real * rf - 1real);
        lemma_add(2real, s - 1, e - 1 - s);
        lemma_step(2real, e - 2);
        let quarter = p2(e - 2);
        lemma_mid(rf, 4real * rf - 1real, rs1, q, quarter, half);
        lemma_pos(2real, e - 2);
        // (4f - 1) * half >= fval(dn) + f * pe
        let lhs = (4real * rf - 1real) * half;
        if e == -1074 {
            assert(mant(dn) == f - 1 && expo(dn) == e);
            assert((f - 1) as real == rf - 1real);
            assert(lhs >= (rf - 1real) * pe + rf * pe) by (nonlinear_arith) requires lhs == (4real * rf - 1real) * half, pe == 2real * half, half > 0real;
        } else {
            assert(mant(dn) == 2 * h - 1 && expo(dn) == e - 1);
            let md = (2 * h - 1) as real;
            assert(md == 2real * rf - 1real);
            assert(lhs == md * half + rf * pe) by (nonlinear_arith) requires lhs == (4real * rf - 1real) * half, pe == 2real * half, md == 2real * rf - 1real;
        }
    } else {
        assert(mant(dn) == f - 1 && expo(dn) == e);
        assert((f - 1) as real == rf - 1real);
        lemma_cast_mul(2 * f - 1, fast(2, s as nat));
        assert((2 * f - 1) as real == 2real * rf - 1real);
        lemma_mid(rf, 2real * rf - 1real, rs, q, half, pe);
        assert((rf - 1real) * pe + rf * pe == (2real * rf - 1real) * pe) by (nonlinear_arith);
    }
}
proof fn lemma_mid(rf: real, x: real, rs: real, q: real, half: real, pe: real)
    requires half == rs * q, pe == 2real * half
    ensures 2real * ((x * rs) * q) == x * pe
{
    assert((x * rs) * q == x * (rs * q)) by (nonlinear_arith);
    assert(2real * (x * half) == x * pe) by (nonlinear_arith) requires pe == 2real * half;
}

/// m * 10^x has at most 17 digits and identifies the float with the bits b.
pub open spec fn converted(m: nat, x: int, b: u64) -> bool {
    if b == 0 { m == 0 } else { 0 < m < 10_0000_0000_0000_0000 && rounds_to(m as int, x, b) }
}

@@fn util/grisu2.rs | - | convert
    @ret r
    @rw v.normalize() * c_mk =>> v.normalize().times(c_mk)
    @rw w_p * c_mk =>> w_p.times(c_mk)
    @rw w_m * c_mk =>> w_m.times(c_mk)
    @spec
        requires finite(float.to_bits_spec())
        ensures converted(r.0 as nat, r.1 as int, float.to_bits_spec())
    @entry
        let ghost b = float.to_bits_spec();
        proof {
            assert(b < 0x7ff0_0000_0000_0000 ==> b & 0x7fff_ffff_ffff_ffff == b) by (bit_vector);
            if b > 0 { lemma_middles(b, 10); }
        }
    @after v.normalized_boundaries();
        let ghost f = mant(b);
        let ghost s = choose|s: int| 10 <= s <= 63 && w_p.f == #[trigger] sh(2 * f + 1, s) && w_p.e == expo(b) - 1 - s && w_m.f == low(f, s);
        let ghost (mi, pl, e) = (w_m.f as int, w_p.f as int, w_p.e as int);
        proof { lemma_sh_small(2 * f + 1, s); }
    @before let w =
        proof {
            assert forall|t: int| 0 <= t && top() <= #[trigger] sh(f, t) < lim() implies sh(f, t) == 2 * f * fast(2, s as nat) && t <= 63 by { lemma_norm(f, s, t); }
            lemma_scaled(f, s, c_mk.f as int);
        }
    @before digit_gen(
        let ghost (ew, em) = (wp.f as int, wm.f as int);
        proof {
            lemma_middles(b, s);
            assert forall|m: int, x: int| #[trigger] in_window(m, x, -(e + c_mk.e + 64), ew, ew - em) implies rounds_to(m, x + k, b) by {
                lemma_scaled_back(c_mk, -k, pl, mi, e, ew, em, m, x);
            }
        }
@@end

} // verus!
