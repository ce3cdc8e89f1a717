SEEDS = [
 {'id': 'c19-double-underflow', 'prop': 'C19', 'file': 'number.rs', 'old': '        if e < -308 {', 'new': '        if e < -312 {',
  'needs': 'an exponent from -312 to -309 with a mantissa that keeps the value above the least float',
  'breaks': 'the power of ten overflows and the value is divided away to zero',
  'demo': 'fn main() {\n    for (t, want) in vec![("1844674407370955161e-310", 1844674407370955161e-310), ("17976931348623157e-315", 17976931348623157e-315), ("5e-324", 5e-324), ("18446744073709551615e-330", 18446744073709551615e-330f64)] {\n        let d = json::parse(t).unwrap().as_f64().unwrap();\n        let w: f64 = want;\n        let (a, b) = (d.to_bits() as i64, w.to_bits() as i64);\n        assert!((a - b).abs() <= 16, "{}: {:e}", t, d);\n    }\n}\n'},
 {'id': 'c19-large-mantissa', 'prop': 'C19', 'file': 'number.rs', 'old': '        let mut n = num.mantissa as f32;', 'new': '        let mut n = num.mantissa as i64 as f32;',
  'needs': 'a mantissa of 2^63 or more converted to a 32-bit float',
  'breaks': 'the mantissa wraps and the float has the wrong sign and size',
  'demo': 'fn main() {\n    let n = json::parse("18446744073709551615").unwrap();\n    assert_eq!(n.as_f32(), Some(18446744073709551615f32));\n    assert_eq!(json::parse("-9223372036854775809").unwrap().as_f32(), Some(-9223372036854775809f32));\n    assert_eq!(json::parse("9223372036854775807").unwrap().as_f32(), Some(9223372036854775807f32));\n}\n'},
]
