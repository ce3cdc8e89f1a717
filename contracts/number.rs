use vstd::prelude::*;
use vstd::std_specs::convert::{FromSpecImpl, TryFromSpecImpl, FromSpec, TryFromSpec, IntoSpec, TryIntoSpec};
use vstd::std_specs::cmp::{PartialEqSpecImpl, PartialEqSpec};
use vstd::std_specs::ops::{NegSpecImpl, NegSpec};
use std::convert::{TryFrom, Infallible};
use std::num::TryFromIntError;
use std::ops;
use crate::spec::*;
use crate::stdx::*;
verus! {

@@item number.rs | const NEGATIVE | pub
@@item number.rs | const POSITIVE | pub
@@item number.rs | const NAN_MASK | pub
#[derive(Copy, Clone)]
@@item number.rs | struct Number | pub | pubfields
@@item number.rs | const NAN | pub

impl Number {
    pub open spec fn nan(self) -> bool { self.category > 1 }
    /// Abstract value of a stored number.
    pub open spec fn v(self) -> NumV {
        NumV { nan: self.category > 1, pos: self.category == 1, m: self.mantissa as nat, e: self.exponent as int }
    }
}

proof fn lemma_nan_mask(c: u8)
    ensures (c & NAN_MASK != 0) <==> c > 1
{
    assert((c & !1u8 != 0) <==> c > 1) by (bit_vector);
}

@@fn number.rs | - | decimal_power
    @ret r
    @spec
        ensures
            r as nat == pow10(e as nat) % 0x1_0000_0000_0000_0000,
            e < 20 ==> r as nat == pow10(e as nat) && r >= 1,
    @entry
        proof {
            lemma_pow10_20(e as nat);
        }
@@end

/// a and b agree modulo 2^64
pub open spec fn same_mod64(a: int, b: int) -> bool { (a - b) % u64_mod() == 0 }

proof fn lemma_mod64(x: int)
    ensures
        0 <= x % u64_mod() < u64_mod(),
        same_mod64(x % u64_mod(), x),
        same_mod64(x % u64_mod() - u64_mod(), x),
        same_mod64(0 - x % u64_mod(), 0 - x),
        same_mod64(u64_mod() - x % u64_mod(), 0 - x),
{
    let q = x / u64_mod();
    let m = u64_mod();
    assert(x == q * m + x % m) by (nonlinear_arith) requires q == x / m, m == 0x1_0000_0000_0000_0000;
    assert(x % m - x == (-q) * m) by (nonlinear_arith) requires x == q * m + x % m;
    assert(x % m - m - x == (-q - 1) * m) by (nonlinear_arith) requires x == q * m + x % m;
    assert((0 - x % m) - (0 - x) == q * m) by (nonlinear_arith) requires x == q * m + x % m;
    assert((m - x % m) - (0 - x) == (q + 1) * m) by (nonlinear_arith) requires x == q * m + x % m;
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(-q, m);
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(-q - 1, m);
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(q, m);
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(q + 1, m);
}

proof fn lemma_cast_i64()
    ensures
        forall|x: u64| #![trigger x as i64] (x as i64) as int == if x < 0x8000_0000_0000_0000 { x as int } else { x as int - u64_mod() },
{
    assert forall|x: u64| #![trigger x as i64] (x as i64) as int == if x < 0x8000_0000_0000_0000 { x as int } else { x as int - u64_mod() } by {
        assert(x < 0x8000_0000_0000_0000u64 ==> (x as i64) as u64 == x && (x as i64) >= 0) by (bit_vector);
        assert(x >= 0x8000_0000_0000_0000u64 ==> (x as i64) < 0) by (bit_vector);
        assert(x >= 0x8000_0000_0000_0000u64 ==> (x as i64) == sub(x, 0x8000_0000_0000_0000) as i64 + (-0x8000_0000_0000_0000i64)) by (bit_vector);
    }
}

proof fn lemma_casts()
    ensures
        forall|x: u64| #![trigger x as i64] (x as i64) as int == if x < 0x8000_0000_0000_0000 { x as int } else { x as int - u64_mod() },
        forall|x: i64| #![trigger x as u64] (x as u64) as int == if x >= 0 { x as int } else { x as int + u64_mod() },
        (i64::MIN as u64) as int == 0x8000_0000_0000_0000,
{
    lemma_cast_i64();
    assert forall|x: i64| #![trigger x as u64] (x as u64) as int == if x >= 0 { x as int } else { x as int + u64_mod() } by {
        assert(x >= 0 ==> (x as u64) as i64 == x && (x as u64) < 0x8000_0000_0000_0000u64) by (bit_vector);
        assert(x < 0 ==> (x as u64) >= 0x8000_0000_0000_0000u64 && ((x as u64) as i64) == x) by (bit_vector);
    }
}

proof fn lemma_mul_mod64(m: int)
    ensures forall|e: nat| #![trigger pow10(e)] (m * (pow10(e) as int % u64_mod())) % u64_mod() == (m * pow10(e)) % u64_mod()
{
    assert forall|e: nat| #![trigger pow10(e)] (m * (pow10(e) as int % u64_mod())) % u64_mod() == (m * pow10(e)) % u64_mod() by {
        vstd::arithmetic::div_mod::lemma_mul_mod_noop_right(m, pow10(e) as int, u64_mod());
    }
}

proof fn lemma_div_small(m: u64)
    ensures
        forall|e: nat| #![trigger pow10(e)] e >= 20 ==> m as int / pow10(e) as int == 0,
        forall|e: nat| #![trigger pow10(e)] 0 <= m as int / pow10(e) as int <= m,
        forall|e: nat| #![trigger pow10(e)] pow10(e) >= 1,
{
    assert forall|e: nat| #![trigger pow10(e)] pow10(e) >= 1 by { lemma_pow10_pos(e); }
    assert forall|e: nat| #![trigger pow10(e)] e >= 20 implies m as int / pow10(e) as int == 0 by {
        lemma_pow10_mono(20, e);
        lemma_pow10_20(20);
        vstd::arithmetic::div_mod::lemma_basic_div(m as int, pow10(e) as int);
    }
    assert forall|e: nat| #![trigger pow10(e)] 0 <= m as int / pow10(e) as int <= m by {
        let p = pow10(e) as int;
        let q = m as int / p;
        assert(0 <= m as int / p <= m) by (nonlinear_arith) requires p >= 1, m >= 0;
    }
}

pub open spec fn u64_mod() -> int { 0x1_0000_0000_0000_0000 }

impl Number {
@@fn number.rs | impl Number | from_parts_unchecked
    @ret r
    @spec
        ensures r.v() == (NumV { nan: false, pos: positive, m: mantissa as nat, e: exponent as int })
@@end

@@fn number.rs | impl Number | from_parts
    @ret r
    @spec
        ensures
            !r.nan(),
            r.v().pos == positive,
            // the decimal value is kept
            same_value(r.v(), NumV { nan: false, pos: positive, m: mantissa as nat, e: exponent as int }),
            // no trailing zero that a negative exponent could absorb
            exponent >= 0 ==> r.v().m == mantissa && r.v().e == exponent,
            exponent < 0 ==> exponent <= r.v().e <= 0,
            r.v().e < 0 ==> r.v().m % 10 != 0,
            dropped(mantissa as nat, exponent as int, r.v().m, r.v().e),
    @loop 1
        invariant
            old_e <= exponent,
            old_e >= 0 ==> exponent == old_e && mantissa == old_m,
            old_e < 0 ==> exponent <= 0,
            mantissa * pow10((exponent - old_e) as nat) == old_m,
        decreases 0 - exponent
    @entry
        let ghost old_e = exponent as int;
        let ghost old_m = mantissa as nat;
        proof { assert(mantissa * pow10(0) == mantissa) by (nonlinear_arith) requires pow10(0) == 1; }
    @loopstart 1
        let ghost m0 = mantissa as nat;
        let ghost e0 = exponent as int;
    @loopend 1
        proof {
            let k = (e0 - old_e) as nat;
            assert((exponent - old_e) as nat == k + 1);
            assert(m0 == 10 * mantissa);
            let p = pow10(k);
            assert(mantissa * (10 * p) == (10 * mantissa) * p) by (nonlinear_arith);
        }
    @loopafter 1
        proof {
            let a = NumV { nan: false, pos: positive, m: mantissa as nat, e: exponent as int };
            let b = NumV { nan: false, pos: positive, m: old_m, e: old_e };
            lemma_same_magnitude_at(a, b, old_e);
            lemma_pow10_pos((exponent - old_e) as nat);
            let mm = mantissa as int;
            let pp = pow10((exponent - old_e) as nat) as int;
            assert(mm * pp == 0 <==> mm == 0) by (nonlinear_arith) requires pp >= 1;
            assert(old_m * pow10(0) == old_m) by (nonlinear_arith) requires pow10(0) == 1;
        }
@@end

@@fn number.rs | impl Number | as_parts
    @ret r
    @spec
        ensures r.0 == (self.category == 1), r.1 == self.mantissa, r.2 == self.exponent
@@end

@@fn number.rs | impl Number | is_sign_positive
    @ret r
    @spec
        ensures r == (self.category == 1)
@@end

@@fn number.rs | impl Number | is_zero
    @ret r
    @spec
        ensures r == (self.mantissa == 0 && !self.nan())
@@end

@@fn number.rs | impl Number | is_nan
    @ret r
    @spec
        ensures r == self.nan()
    @entry
        proof { lemma_nan_mask(self.category); }
@@end

@@fn number.rs | impl Number | is_empty
    @ret r
    @spec
        ensures r == (self.mantissa == 0 || self.nan())
@@end

@@fn number.rs | impl Number | as_fixed_point_u64
    @ret r
    @spec
        ensures
            self.nan() || !self.v().pos ==> r is None,
            !self.nan() && self.v().pos ==> r is Some
                && r.unwrap() as int == scaled(self.v().m, self.v().e + point) as int % u64_mod()
@@end

@@fn number.rs | impl Number | as_fixed_point_i64
    @ret r
    @spec
        ensures
            self.nan() ==> r is None,
            !self.nan() ==> r is Some && same_mod64(r->Some_0 as int,
                if self.v().pos { scaled(self.v().m, self.v().e + point) as int } else { 0 - scaled(self.v().m, self.v().e + point) as int })
    @entry
        proof { lemma_cast_i64(); lemma_mod64(scaled(self.v().m, self.v().e + point) as int); }
@@end

@@fn number.rs | impl Number | scaled_mantissa
    @ret r
    @spec
        ensures r as int == scaled(self.v().m, self.v().e + point) as int % u64_mod()
    @entry
        proof {
            lemma_mul_mod64(self.mantissa as int);
            lemma_div_small(self.mantissa);
        }
@@end
}


/// Equality of numbers is `same_value`.
impl PartialEqSpecImpl for Number {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Number) -> bool { same_value(self.v(), other.v()) }
}

proof fn lemma_eq_facts_1(m: u64)
    ensures
        m * pow10(0) == m,
        forall|e: nat| #![trigger pow10(e)] e >= 20 && m > 0 ==> m * pow10(e) > 0xffff_ffff_ffff_ffff,
        forall|e: nat| #![trigger pow10(e)] m > 0 ==> m * pow10(e) > 0,
        forall|e: nat| #![trigger pow10(e)] m == 0 ==> m * pow10(e) == 0,
{
    assert(m * 1 == m) by (nonlinear_arith);
    assert(pow10(0) == 1);
    lemma_pow10_20(20);
    assert forall|e: nat| #![trigger pow10(e)] e >= 20 && m > 0 implies m * pow10(e) > 0xffff_ffff_ffff_ffff by {
        lemma_pow10_mono(20, e);
        let q = pow10(e) as int;
        assert(m * q >= q) by (nonlinear_arith) requires q >= 1, m >= 1;
    }
    assert forall|e: nat| #![trigger pow10(e)] m > 0 implies m * pow10(e) > 0 by {
        lemma_pow10_pos(e);
        let q = pow10(e) as int;
        assert(m * q >= q) by (nonlinear_arith) requires q >= 1, m >= 1;
    }
}
proof fn lemma_eq_facts(a: Number, b: Number)
    ensures
        a.mantissa * pow10(0) == a.mantissa,
        b.mantissa * pow10(0) == b.mantissa,
        forall|e: nat| #![trigger pow10(e)] e >= 20 && a.mantissa > 0 ==> a.mantissa * pow10(e) > 0xffff_ffff_ffff_ffff,
        forall|e: nat| #![trigger pow10(e)] a.mantissa > 0 ==> a.mantissa * pow10(e) > 0,
        forall|e: nat| #![trigger pow10(e)] a.mantissa == 0 ==> a.mantissa * pow10(e) == 0,
        forall|e: nat| #![trigger pow10(e)] e >= 20 && b.mantissa > 0 ==> b.mantissa * pow10(e) > 0xffff_ffff_ffff_ffff,
        forall|e: nat| #![trigger pow10(e)] b.mantissa > 0 ==> b.mantissa * pow10(e) > 0,
        forall|e: nat| #![trigger pow10(e)] b.mantissa == 0 ==> b.mantissa * pow10(e) == 0,
{
    lemma_eq_facts_1(a.mantissa);
    lemma_eq_facts_1(b.mantissa);
}

impl PartialEq for Number {
@@fn number.rs | impl PartialEq for Number | eq
    @ret r
    @entry
        proof { lemma_eq_facts(*self, *other); }
@@end
}

/// Negation flips the sign, keeps the magnitude, and NaN stays NaN.
impl NegSpecImpl for Number {
    open spec fn obeys_neg_spec() -> bool { true }
    open spec fn neg_req(self) -> bool { true }
    open spec fn neg_spec(self) -> Number {
        Number { category: self.category ^ 1, exponent: self.exponent, mantissa: self.mantissa }
    }
}
pub proof fn lemma_neg(n: Number)
    ensures
        !n.nan() ==> NegSpec::neg_spec(n).v() == (NumV { pos: !n.v().pos, ..n.v() }),
        n.nan() ==> NegSpec::neg_spec(n).nan(),
{
    let c = n.category;
    assert(c == 0 ==> c ^ 1 == 1) by (bit_vector);
    assert(c == 1 ==> c ^ 1 == 0) by (bit_vector);
    assert(c > 1 ==> c ^ 1 > 1) by (bit_vector);
}
impl ops::Neg for Number {
    type Output = Number;
@@fn number.rs | impl ops :: Neg for Number | neg
    @ret r
@@end
}

@@item number.rs | struct NumberOutOfScope | pub

impl FromSpecImpl<Infallible> for NumberOutOfScope {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(x: Infallible) -> NumberOutOfScope { NumberOutOfScope }
}
impl From<Infallible> for NumberOutOfScope {
@@fn number.rs | impl From < Infallible > for NumberOutOfScope | from
@@end
}
impl FromSpecImpl<TryFromIntError> for NumberOutOfScope {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(x: TryFromIntError) -> NumberOutOfScope { NumberOutOfScope }
}
impl From<TryFromIntError> for NumberOutOfScope {
@@fn number.rs | impl From < TryFromIntError > for NumberOutOfScope | from
@@end
}

/// The number that denotes the integer x exactly, stored as an integer.
pub open spec fn int_num(x: int) -> NumV {
    NumV { nan: false, pos: x >= 0, m: (if x >= 0 { x } else { 0 - x }) as nat, e: 0 }
}

/// The integer a number denotes, when it is stored as an integer.
pub open spec fn num_int(n: NumV) -> int { if n.pos { n.m as int } else { 0 - n.m } }

@@for T in u8 u16 u32 u64 usize
impl FromSpecImpl<{T}> for Number {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(x: {T}) -> Number { Number { category: 1, exponent: 0, mantissa: x as u64 } }
}
pub proof fn lemma_from_{T}(x: {T})
    ensures <Number as FromSpec<{T}>>::from_spec(x).v() == int_num(x as int)
{}
impl From<{T}> for Number {
@@fn number.rs | impl From < {T} > for Number | from
    @ret r
    @entry
        proof { lemma_casts(); axiom_identity_conversion(); }
@@end
}
impl TryFromSpecImpl<Number> for {T} {
    open spec fn obeys_try_from_spec() -> bool { true }
    // exact or refused
    open spec fn try_from_spec(num: Number) -> Result<Self, NumberOutOfScope> {
        if !num.nan() && num.v().pos && num.v().e == 0 && num.v().m <= {T}::MAX { Ok(num_int(num.v()) as {T}) } else { Err(NumberOutOfScope) }
    }
}
impl TryFrom<Number> for {T} {
    type Error = NumberOutOfScope;
@@fn number.rs | impl TryFrom < Number > for {T} | try_from
    @ret r
    @entry
        proof { lemma_casts(); axiom_identity_conversion(); }
@@end
}
@@endfor

@@for T in i8 i16 i32 i64 isize
impl FromSpecImpl<{T}> for Number {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(x: {T}) -> Number {
        if x >= 0 { Number { category: 1, exponent: 0, mantissa: x as u64 } }
        else { Number { category: 0, exponent: 0, mantissa: (0 - x) as u64 } }
    }
}
pub proof fn lemma_from_{T}(x: {T})
    ensures <Number as FromSpec<{T}>>::from_spec(x).v() == int_num(x as int)
{}
impl From<{T}> for Number {
@@fn number.rs | impl From < {T} > for Number | from
    @ret r
    @entry
        proof { lemma_casts(); axiom_identity_conversion(); }
@@end
}
impl TryFromSpecImpl<Number> for {T} {
    open spec fn obeys_try_from_spec() -> bool { true }
    // exact or refused
    open spec fn try_from_spec(num: Number) -> Result<Self, NumberOutOfScope> {
        if !num.nan() && num.v().e == 0 && {T}::MIN <= num_int(num.v()) <= {T}::MAX { Ok(num_int(num.v()) as {T}) } else { Err(NumberOutOfScope) }
    }
}
impl TryFrom<Number> for {T} {
    type Error = NumberOutOfScope;
@@fn number.rs | impl TryFrom < Number > for {T} | try_from
    @ret r
    @entry
        proof { lemma_casts(); axiom_identity_conversion(); }
@@end
}
@@endfor

@@for T in u8 u16 u32 u64 usize i8 i16 i32 i64 isize
impl PartialEqSpecImpl<{T}> for Number {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &{T}) -> bool { same_value(self.v(), int_num(*other as int)) }
}
impl PartialEq<{T}> for Number {
@@fn number.rs | impl PartialEq < {T} > for Number | eq
    @ret r
@@end
}
impl PartialEqSpecImpl<Number> for {T} {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Number) -> bool { same_value(int_num(*self as int), other.v()) }
}
impl PartialEq<Number> for {T} {
@@fn number.rs | impl PartialEq < Number > for {T} | eq
    @ret r
@@end
}
@@endfor

} // verus!
