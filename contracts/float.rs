// Floats to numbers: number.rs and value/implements.rs.
use vstd::prelude::*;
use vstd::float::*;
use crate::spec::*;
use crate::stdx::*;
use crate::number::*;
use crate::raw::*;
use crate::tree::*;
use crate::object::*;
use crate::json::*;
use crate::value::*;
use crate::powr::*;
use crate::grisu::*;
verus! {

/// What std says about the bits of a float (IEEE 754).
#[derive(PartialEq, Eq, Structural)]
pub enum FpCategory { Nan, Infinite, Zero, Subnormal, Normal }
pub open spec fn sign(b: u64) -> bool { b >= 0x8000_0000_0000_0000 }
pub open spec fn nan_bits(b: u64) -> bool { mag(b) > 0x7ff0_0000_0000_0000 }
/// f64::classify
#[verifier::external_body]
pub fn classify_f64(d: f64) -> (r: FpCategory)
    ensures
        (r == FpCategory::Nan) == nan_bits(d.to_bits_spec()),
        (r == FpCategory::Infinite) == (mag(d.to_bits_spec()) == 0x7ff0_0000_0000_0000),
        (r == FpCategory::Zero) == (mag(d.to_bits_spec()) == 0),
{ unimplemented!() }
/// f64::is_sign_positive
#[verifier::external_body]
pub fn positive_f64(d: f64) -> (r: bool)
    ensures r == !sign(d.to_bits_spec())
{ d.is_sign_positive() }
/// -d
#[verifier::external_body]
pub fn neg_f64(d: f64) -> (r: f64)
    ensures !nan_bits(d.to_bits_spec()) ==> mag(r.to_bits_spec()) == mag(d.to_bits_spec()) && sign(r.to_bits_spec()) == !sign(d.to_bits_spec())
{ -d }

// the same for 32 bits
pub open spec fn mag32(b: u32) -> u32 { b & 0x7fff_ffff }
pub open spec fn sign32(b: u32) -> bool { b >= 0x8000_0000 }
pub open spec fn fval32(b: u32) -> real {
    let e = (b / 0x80_0000) % 256;
    let m = b as int % 0x80_0000;
    if e != 0 { ((m + 0x80_0000) as real) * p2(e - 150) } else { (m as real) * p2(-149) }
}
#[verifier::external_body]
pub fn classify_f32(d: f32) -> (r: FpCategory)
    ensures
        (r == FpCategory::Nan) == (mag32(d.to_bits_spec()) > 0x7f80_0000),
        (r == FpCategory::Infinite) == (mag32(d.to_bits_spec()) == 0x7f80_0000),
        (r == FpCategory::Zero) == (mag32(d.to_bits_spec()) == 0),
{ unimplemented!() }
#[verifier::external_body]
pub fn positive_f32(d: f32) -> (r: bool)
    ensures r == !sign32(d.to_bits_spec())
{ d.is_sign_positive() }
#[verifier::external_body]
pub fn neg_f32(d: f32) -> (r: f32)
    ensures mag32(d.to_bits_spec()) <= 0x7f80_0000 ==> mag32(r.to_bits_spec()) == mag32(d.to_bits_spec()) && sign32(r.to_bits_spec()) == !sign32(d.to_bits_spec())
{ -d }
/// d as f64: exact
#[verifier::external_body]
pub fn widen(d: f32) -> (r: f64)
    ensures
        mag32(d.to_bits_spec()) < 0x7f80_0000 ==> finite(mag(r.to_bits_spec())) && sign(r.to_bits_spec()) == sign32(d.to_bits_spec())
            && fval(mag(r.to_bits_spec())) == fval32(mag32(d.to_bits_spec())) && (mag(r.to_bits_spec()) == 0 <==> mag32(d.to_bits_spec()) == 0)
{ d as f64 }

@@rules
grisu2::convert =>> convert
@@endrules

/// n identifies the float with the bits b: same sign, at most 17 digits, rounds to it.
pub open spec fn identifies(n: NumV, b: u64) -> bool {
    if !finite(mag(b)) { n.nan } else { !n.nan && n.pos == !sign(b) && converted(n.m, n.e, mag(b)) }
}

/// Dropping zeros keeps the value.
proof fn lemma_drop(m: int, e: int, n: int, x: int, b: u64)
    requires m == n * pow10((x - e) as nat), x >= e, 0 <= n, rounds_to(m, e, b)
    ensures rounds_to(n, x, b)
{
    let k = (x - e) as nat;
    let t = pow10(k) as int;
    lemma_cast_mul(n, t);
    lemma_p10(k);
    lemma_add(10real, e, k as int);
    lemma_same(m as real, n as real, p10(k as int), p10(e), p10(x));
}
proof fn lemma_same(m: real, n: real, t: real, a: real, b: real)
    requires m == n * t, b == a * t
    ensures m * a == n * b
{
    assert((n * t) * a == n * (a * t)) by (nonlinear_arith);
}
proof fn lemma_all_dropped()
    ensures forall|m: nat, e: int, n: nat, x: int, b: u64| #[trigger] dropped(m, e, n, x) && #[trigger] converted(m, e, b) ==> converted(n, x, b)
{
    assert forall|m: nat, e: int, n: nat, x: int, b: u64| #[trigger] dropped(m, e, n, x) && #[trigger] converted(m, e, b) implies converted(n, x, b) by {
        let t = pow10((x - e) as nat);
        lemma_pow10_pos((x - e) as nat);
        if n == 0 { assert(n * t == 0) by (nonlinear_arith) requires n == 0; }
        assert(n <= n * t) by (nonlinear_arith) requires t >= 1;
        if b != 0 { lemma_drop(m as int, e, n as int, x, b); }
    }
}
proof fn lemma_mag()
    ensures forall|b: u64| #![trigger mag(b)] #![trigger sign(b)] mag(b) < 0x8000_0000_0000_0000 && mag(b) == (if sign(b) { b - 0x8000_0000_0000_0000 } else { b as int })
{
    assert forall|b: u64| #![trigger mag(b)] #![trigger sign(b)] mag(b) < 0x8000_0000_0000_0000 && mag(b) == (if sign(b) { b - 0x8000_0000_0000_0000 } else { b as int }) by {
        assert(b >= 0x8000_0000_0000_0000 ==> b & 0x7fff_ffff_ffff_ffff == b - 0x8000_0000_0000_0000) by (bit_vector);
        assert(b < 0x8000_0000_0000_0000 ==> b & 0x7fff_ffff_ffff_ffff == b) by (bit_vector);
    }
}

pub open spec fn came_from_f64(n: NumV, d: f64) -> bool { identifies(n, d.to_bits_spec()) }
pub open spec fn came_from_f32(n: NumV, d: f32) -> bool {
    if mag32(d.to_bits_spec()) >= 0x7f80_0000 { n.nan } else { identifies_f32(n, d.to_bits_spec()) }
}
/// n identifies the 64-bit float with the same value.
pub open spec fn identifies_f32(n: NumV, b: u32) -> bool {
    !n.nan && n.pos == !sign32(b) && exists|w: u64| finite(w) && fval(w) == fval32(mag32(b)) && (w == 0) == (mag32(b) == 0) && #[trigger] converted(n.m, n.e, w)
}
proof fn lemma_mag32()
    ensures forall|b: u32| #![trigger mag32(b)] #![trigger sign32(b)] mag32(b) < 0x8000_0000 && mag32(b) == (if sign32(b) { b - 0x8000_0000 } else { b as int })
{
    assert forall|b: u32| #![trigger mag32(b)] #![trigger sign32(b)] mag32(b) < 0x8000_0000 && mag32(b) == (if sign32(b) { b - 0x8000_0000 } else { b as int }) by {
        assert(b >= 0x8000_0000 ==> b & 0x7fff_ffff == b - 0x8000_0000) by (bit_vector);
        assert(b < 0x8000_0000 ==> b & 0x7fff_ffff == b) by (bit_vector);
    }
}

impl Number {
@@fn number.rs | impl From<f64> for Number | from
    @ret r
    @sig fn from_f64(float: f64) -> Number
    @rw $x_id.classify() =>> classify_f64($x_id)
    @rw $x_id.is_sign_positive() =>> positive_f64($x_id)
    @rw (-$x_id) =>> (neg_f64($x_id))
    @spec
        ensures identifies(r.v(), float.to_bits_spec())
    @entry
        hide(converted); hide(fval); hide(fval32);
        proof {
            lemma_mag();
            lemma_all_dropped();
            assert(!1u8 > 1) by (bit_vector);
        }
@@end

@@fn number.rs | impl From<f32> for Number | from
    @ret r
    @sig fn from_f32(float: f32) -> Number
    @rw $x_id.classify() =>> classify_f32($x_id)
    @rw -($x_id as f64) =>> neg_f64(widen($x_id))
    @rw (-$x_id) as f64 =>> widen(neg_f32($x_id))
    @rw -$x_id as f64 =>> widen(neg_f32($x_id))
    @rw $x_id as f64 =>> widen($x_id)
    @rw $x_id.is_sign_positive() =>> positive_f32($x_id)
    @spec
        ensures
            mag32(float.to_bits_spec()) >= 0x7f80_0000 ==> r.v().nan,
            mag32(float.to_bits_spec()) < 0x7f80_0000 ==> identifies_f32(r.v(), float.to_bits_spec()),
    @entry
        hide(converted); hide(fval); hide(fval32);
        proof {
            lemma_mag();
            lemma_mag32();
            lemma_all_dropped();
            assert(!1u8 > 1) by (bit_vector);
        }
@@end
}

impl JsonValue {
@@for T in f64 f32
@@fn value/implements.rs | impl From<{T}> for JsonValue | from
    @ret r
    @sig fn from_{T}(val: {T}) -> JsonValue
    @rw val.into() =>> Number::from_{T}(val)
    @spec
        ensures wf(r), r is Number, jv(r) == J::Num(r->Number_0), came_from_{T}(r->Number_0.v(), val)
@@end
@@endfor
}

} // verus!
