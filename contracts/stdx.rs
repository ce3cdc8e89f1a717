// Assumed contracts of standard-library functions that vstd does not specify.
// Every one of them is part of the trusted base (listed in the evidence).
use vstd::prelude::*;
use vstd::std_specs::convert::*;
use crate::spec::*;
verus! {

pub assume_specification [u64::wrapping_pow] (b: u64, e: u32) -> (r: u64)
    ensures b == 10 ==> r as int == pow10(e as nat) as int % 0x1_0000_0000_0000_0000;

pub assume_specification [i64::wrapping_neg] (x: i64) -> (r: i64)
    ensures r == if x == i64::MIN { i64::MIN } else { (-x) as i64 };

pub assume_specification [u8::min_value] () -> (r: u8) ensures r == u8::MIN;
pub assume_specification [u8::max_value] () -> (r: u8) ensures r == u8::MAX;

pub assume_specification [u16::min_value] () -> (r: u16) ensures r == u16::MIN;
pub assume_specification [u16::max_value] () -> (r: u16) ensures r == u16::MAX;

pub assume_specification [u32::min_value] () -> (r: u32) ensures r == u32::MIN;
pub assume_specification [u32::max_value] () -> (r: u32) ensures r == u32::MAX;

pub assume_specification [u64::min_value] () -> (r: u64) ensures r == u64::MIN;
pub assume_specification [u64::max_value] () -> (r: u64) ensures r == u64::MAX;

pub assume_specification [usize::min_value] () -> (r: usize) ensures r == usize::MIN;
pub assume_specification [usize::max_value] () -> (r: usize) ensures r == usize::MAX;

pub assume_specification [i8::min_value] () -> (r: i8) ensures r == i8::MIN;
pub assume_specification [i8::max_value] () -> (r: i8) ensures r == i8::MAX;

pub assume_specification [i16::min_value] () -> (r: i16) ensures r == i16::MIN;
pub assume_specification [i16::max_value] () -> (r: i16) ensures r == i16::MAX;

pub assume_specification [i32::min_value] () -> (r: i32) ensures r == i32::MIN;
pub assume_specification [i32::max_value] () -> (r: i32) ensures r == i32::MAX;

pub assume_specification [i64::min_value] () -> (r: i64) ensures r == i64::MIN;
pub assume_specification [i64::max_value] () -> (r: i64) ensures r == i64::MAX;

pub assume_specification [isize::min_value] () -> (r: isize) ensures r == isize::MIN;
pub assume_specification [isize::max_value] () -> (r: isize) ensures r == isize::MAX;

// vstd specifies every other pair of 64-bit integer conversions
pub assume_specification [<i64 as TryFrom<u64>>::try_from] (x: u64) -> (r: Result<i64, <i64 as TryFrom<u64>>::Error>)
    ensures
        x < 0x8000_0000_0000_0000 ==> r is Ok && r->Ok_0 == x,
        x >= 0x8000_0000_0000_0000 ==> r is Err;

// core: impl<T, U: Into<T>> TryFrom<U> for T with impl<T> From<T> for T is the identity.
#[verifier::external_body]
pub proof fn axiom_identity_conversion()
    ensures
        <u64 as TryFromSpec<u64>>::obeys_try_from_spec(),
        <i64 as TryFromSpec<i64>>::obeys_try_from_spec(),
        forall|x: u64| #[trigger] <u64 as TryFromSpec<u64>>::try_from_spec(x) == Ok::<u64, <u64 as TryFrom<u64>>::Error>(x),
        forall|x: i64| #[trigger] <i64 as TryFromSpec<i64>>::try_from_spec(x) == Ok::<i64, <i64 as TryFrom<i64>>::Error>(x),
{}

pub assume_specification [i8::checked_abs] (x: i8) -> (r: Option<i8>)
    ensures r == if x == i8::MIN { None } else if x < 0 { Some((-x) as i8) } else { Some(x) };
pub assume_specification [i8::unsigned_abs] (x: i8) -> (r: u8)
    ensures r as int == if x < 0 { -(x as int) } else { x as int };

pub assume_specification [i16::checked_abs] (x: i16) -> (r: Option<i16>)
    ensures r == if x == i16::MIN { None } else if x < 0 { Some((-x) as i16) } else { Some(x) };
pub assume_specification [i16::unsigned_abs] (x: i16) -> (r: u16)
    ensures r as int == if x < 0 { -(x as int) } else { x as int };

pub assume_specification [i32::checked_abs] (x: i32) -> (r: Option<i32>)
    ensures r == if x == i32::MIN { None } else if x < 0 { Some((-x) as i32) } else { Some(x) };
pub assume_specification [i32::unsigned_abs] (x: i32) -> (r: u32)
    ensures r as int == if x < 0 { -(x as int) } else { x as int };

pub assume_specification [i64::checked_abs] (x: i64) -> (r: Option<i64>)
    ensures r == if x == i64::MIN { None } else if x < 0 { Some((-x) as i64) } else { Some(x) };
pub assume_specification [i64::unsigned_abs] (x: i64) -> (r: u64)
    ensures r as int == if x < 0 { -(x as int) } else { x as int };

pub assume_specification [isize::checked_abs] (x: isize) -> (r: Option<isize>)
    ensures r == if x == isize::MIN { None } else if x < 0 { Some((-x) as isize) } else { Some(x) };
pub assume_specification [isize::unsigned_abs] (x: isize) -> (r: usize)
    ensures r as int == if x < 0 { -(x as int) } else { x as int };

pub open spec fn sat_i32(x: int) -> int { if x > i32::MAX { i32::MAX as int } else if x < i32::MIN { i32::MIN as int } else { x } }
pub assume_specification [i32::saturating_add] (x: i32, y: i32) -> (r: i32) ensures r as int == sat_i32(x + y);
pub assume_specification [i32::saturating_sub] (x: i32, y: i32) -> (r: i32) ensures r as int == sat_i32(x - y);
pub assume_specification [i32::saturating_mul] (x: i32, y: i32) -> (r: i32) ensures r as int == sat_i32(x * y);

} // verus!
