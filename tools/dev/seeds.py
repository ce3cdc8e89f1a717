SEEDS = [
 dict(id='c13-nan-equals-negative-zero', prop='C13', file='number.rs',
  old='        if self.category != other.category {', new='        if (self.category ^ other.category) & POSITIVE != 0 {',
  needs='comparing NaN with a negative number whose mantissa and exponent are both zero', breaks='NaN compares equal to minus zero',
  demo='''fn main() {
    let nan = json::JsonValue::from(f64::NAN);
    let zero = json::parse("-0").unwrap();
    assert!(nan == json::JsonValue::from(f64::NAN));
    assert!(nan != zero);
    assert!(zero != nan);
}
'''),
 dict(id='c14-nan-to-unsigned', prop='C14', file='number.rs',
  old='if !positive || exponent != 0 {', new='if !positive && mantissa != 0 || exponent != 0 {',
  needs='converting NaN (or minus zero) to an unsigned integer', breaks='NaN converts to 0 instead of being refused',
  demo='''use std::convert::TryFrom;
fn main() {
    assert!(u64::try_from(json::number::NAN).is_err());
    assert_eq!(json::JsonValue::from(f64::NAN).as_u8(), None);
}
'''),
 dict(id='c15-power-table', prop='C15', file='number.rs',
  old='        100000000000000000,\n        1000000000000000000,', new='        100000000000000000,\n        100000000000000000,',
  needs='a point and an exponent that differ by exactly 18', breaks='the power table has 10^17 in the place of 10^18',
  demo='''fn main() {
    assert_eq!(json::JsonValue::from(7).as_fixed_point_u64(18), Some(7_000_000_000_000_000_000));
    assert_eq!(json::JsonValue::from(7).as_fixed_point_u64(17), Some(700_000_000_000_000_000));
}
'''),
]
