// Numbers and values against floats: equal exactly if the conversion to that float type is.
use vstd::prelude::*;
use vstd::float::*;
use crate::spec::*;
use crate::stdx::*;
use crate::number::*;
use crate::raw::*;
use crate::object::*;
use crate::json::*;
use crate::value::*;
use crate::powr::*;
use crate::grisu::*;
use crate::float::{mag32, sign, sign32, fval32};
use crate::back::*;
verus! {

@@rules
f64::from($x) == *$y_id =>> feq_f64(Number::to_f64($x), *$y_id)
*$y_id == f64::from($x) =>> feq_f64(*$y_id, Number::to_f64($x))
f64::from($x) == *self =>> feq_f64(Number::to_f64($x), *self)
f32::from($x) == *$y_id =>> feq_f32(Number::to_f32($x), *$y_id)
f32::from($x) == *self =>> feq_f32(Number::to_f32($x), *self)
*$y_id == f32::from($x) =>> feq_f32(*$y_id, Number::to_f32($x))
*$a_id == *$b_id =>> (*$a_id).agrees($b_id)
*$a_id == $b_id =>> (*$a_id).agrees(&$b_id)
$a_id == $b_id =>> $a_id.agrees($b_id)
$a_id == self =>> $a_id.agrees(self)
@@endrules

@@for T in f64 f32
/// == of floats (IEEE 754): the same bits or two zeros, and no NaN
pub open spec fn same_{T}(a: {T}, b: {T}) -> bool {
    !nan_{T}(a) && !nan_{T}(b) && (a.to_bits_spec() == b.to_bits_spec() || zero_{T}(a) && zero_{T}(b))
}
#[verifier::external_body]
pub fn feq_{T}(a: {T}, b: {T}) -> (r: bool)
    ensures r == same_{T}(a, b)
{ a == b }
/// r is the answer for a number and a float
pub open spec fn answers_{T}(x: NumV, d: {T}, r: bool) -> bool {
    exists|f: {T}| #[trigger] becomes_{T}(x, f) && r == same_{T}(f, d)
}
@@endfor
pub open spec fn zero_f64(a: f64) -> bool { mag(a.to_bits_spec()) == 0 }
pub open spec fn zero_f32(a: f32) -> bool { mag32(a.to_bits_spec()) == 0 }

/// Stand-in for PartialEq with a float on one side.
pub trait Agrees<R: ?Sized> {
    spec fn can(&self, other: &R) -> bool;
    spec fn may(&self, other: &R, r: bool) -> bool;
    fn agrees(&self, other: &R) -> (r: bool)
        requires self.can(other)
        ensures self.may(other, r);
}

@@for T in f64 f32
impl Agrees<{T}> for Number {
    open spec fn can(&self, other: &{T}) -> bool { true }
    open spec fn may(&self, other: &{T}, r: bool) -> bool { answers_{T}(self.v(), *other, r) }
@@fn number.rs | impl PartialEq<{T}> for Number | eq
    @ret r
    @sig fn agrees(&self, other: &{T}) -> bool
@@end
}
impl Agrees<Number> for {T} {
    open spec fn can(&self, other: &Number) -> bool { true }
    open spec fn may(&self, other: &Number, r: bool) -> bool { answers_{T}(other.v(), *self, r) }
@@fn number.rs | impl PartialEq<Number> for {T} | eq
    @ret r
    @sig fn agrees(&self, other: &Number) -> bool
@@end
}
impl Agrees<{T}> for JsonValue {
    open spec fn can(&self, other: &{T}) -> bool { wf(*self) }
    open spec fn may(&self, other: &{T}, r: bool) -> bool { if jv(*self) is Num { answers_{T}(jv(*self)->Num_0.v(), *other, r) } else { !r } }
@@fn value/implements.rs | impl PartialEq<{T}> for JsonValue | eq
    @ret r
    @sig fn agrees(&self, other: &{T}) -> bool
    @entry
        proof { lemma_jv(*self); }
@@end
}
impl<'a> Agrees<{T}> for &'a JsonValue {
    open spec fn can(&self, other: &{T}) -> bool { wf(**self) }
    open spec fn may(&self, other: &{T}, r: bool) -> bool { if jv(**self) is Num { answers_{T}(jv(**self)->Num_0.v(), *other, r) } else { !r } }
@@fn value/implements.rs | impl<'a> PartialEq<{T}> for &'a JsonValue | eq
    @ret r
    @sig fn agrees(&self, other: &{T}) -> bool
    @entry
        proof { lemma_jv(**self); }
@@end
}
impl Agrees<JsonValue> for {T} {
    open spec fn can(&self, other: &JsonValue) -> bool { wf(*other) }
    open spec fn may(&self, other: &JsonValue, r: bool) -> bool { if jv(*other) is Num { answers_{T}(jv(*other)->Num_0.v(), *self, r) } else { !r } }
@@fn value/implements.rs | impl PartialEq<JsonValue> for {T} | eq
    @ret r
    @sig fn agrees(&self, other: &JsonValue) -> bool
    @entry
        proof { lemma_jv(*other); }
@@end
}
/// What it means: a float that a number equals is within the error of the conversion, NaN equals nothing, zeros are equal.
pub proof fn lemma_equal_is_near_{T}(x: NumV, d: {T}, r: bool)
    requires answers_{T}(x, d, r)
    ensures
        r ==> !x.nan && !nan_{T}(d),
        r && !zero_{T}(d) ==> becomes_{T}(x, d),
        !x.nan && x.m == 0 && zero_{T}(d) ==> r,
        !x.nan && x.m == 0 && r ==> zero_{T}(d),
{
    let f = choose|f: {T}| #[trigger] becomes_{T}(x, f) && r == same_{T}(f, d);
    lemma_zero_{T}(f);
    lemma_zero_{T}(d);
}
@@endfor
proof fn lemma_zero_f64(f: f64)
    ensures fin_f64(f) && val_f64(f) == 0real <==> zero_f64(f), zero_f64(f) ==> !nan_f64(f)
{
    let b = mag(f.to_bits_spec());
    lemma_pos(2real, expo(b));
    let x = mant(b) as real; let y = p2(expo(b));
    if x > 0real { assert(x * y > 0real) by (nonlinear_arith) requires x > 0real, y > 0real; }
    let k = f.to_bits_spec();
    assert(b <= 0x7fff_ffff_ffff_ffff) by (bit_vector) requires b == k & 0x7fff_ffff_ffff_ffff;
    assert(b == 0 <==> mant(b) == 0);
}
proof fn lemma_zero_f32(f: f32)
    ensures fin_f32(f) && val_f32(f) == 0real <==> zero_f32(f), zero_f32(f) ==> !nan_f32(f)
{
    let b = mag32(f.to_bits_spec());
    let e = (b / 0x80_0000) % 256;
    let m = b as int % 0x80_0000;
    let x = if e != 0 { (m + 0x80_0000) as real } else { m as real };
    let y = if e != 0 { p2(e - 150) } else { p2(-149) };
    lemma_pos(2real, e - 150);
    lemma_pos(2real, -149);
    if x > 0real { assert(x * y > 0real) by (nonlinear_arith) requires x > 0real, y > 0real; }
    let k = f.to_bits_spec();
    assert(b <= 0x7fff_ffff) by (bit_vector) requires b == k & 0x7fff_ffff;
    assert(b == 0 <==> e == 0 && m == 0);
}

} // verus!
