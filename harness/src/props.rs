//! One case function per property: case number -> concrete input -> check.
use crate::cx::{check, Cx, Out, GUARD};
use crate::dec::Dec;
use crate::gen;
use crate::refjson::{self, build, parse as refparse, same, same_num, same_shape, short, Num, PErr, RV};
use crate::rng::{mix, Rng};
use json::number::Number;
use json::short::Short;
use json::JsonValue;
use std::convert::TryFrom;
use std::convert::TryInto;

pub const IDS: [&str; 19] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19",
];

pub fn run(prop: &str, id: u64, seed: u64, cx: &mut Cx) -> Out {
    let mut r = Rng::new(mix(seed) ^ mix(id.wrapping_add(0x5151)));
    let r = &mut r;
    match prop {
        "C01" => c01(id, r, cx),
        "C02" => c02(id, r, cx),
        "C03" => c03(id, r, cx),
        "C04" => c04(id, r, cx),
        "C05" => c05(id, r, cx),
        "C06" => c06(id, r, cx),
        "C07" => c07(id, r, cx),
        "C08" => c08(id, r, cx),
        "C09" => c09(id, r, cx),
        "C10" => c10(id, r, cx),
        "C11" => crate::hist::c11(id, r, cx),
        "C12" => crate::hist::c12(id, r, cx),
        "C13" => c13(id, r, cx),
        "C14" => c14(id, r, cx),
        "C15" => c15(id, r, cx),
        "C16" => c16(id, r, cx),
        "C17" => crate::hist::c17(id, r, cx),
        "C18" => c18(id, r, cx),
        "C19" => c19(id, r, cx),
        _ => panic!("unknown property {}", prop),
    }
}

pub fn rule(prop: &str) -> &'static str {
    match prop {
        "C01" | "C02" | "C03" | "C05" => "texts: hand-picked corners, every text of up to 3 characters over a 44-character alphabet (interleaved), then random valid texts, edited and truncated valid texts, nestings around and far beyond the limit, long numbers; non-trivial = at least 2 characters",
        "C04" => "number literals: corners around 2^64, digit overflow, exponent limits; then random literals; alone and inside arrays; non-trivial = more than 1 digit",
        "C06" | "C09" | "C10" => "random values (all types, strings on both sides of the inline limit, numbers over the whole mantissa and exponent range, colliding keys) with random indentation; non-trivial = a container or a string needing escapes or a number with an exponent",
        "C07" => "number parts: mantissas with 1-20 digits, powers of ten and neighbours, every exponent class; non-trivial = mantissa not 0",
        "C08" | "C18" => "strings: every single character below U+0800 and samples above, every length 0..64 of four fillings, then random mixtures; non-trivial = not empty",
        "C11" | "C12" | "C17" => "random operation histories of up to 60 steps over few keys, including two keys with equal hashes and lengths around the key buffer, compared with a list model after each step; non-trivial = at least 3 steps",
        "C13" => "pairs: same number scaled by powers of ten, multiplication wrap coincidences, neighbours, extremes; values and their reorderings and single changes; non-trivial = not both 0",
        "C14" => "every boundary of every integer type and neighbours, random integers, random number parts; non-trivial = all",
        "C15" => "number parts and points around the 2^64 boundary of the scaled value, exponent extremes; non-trivial = mantissa not 0",
        "C16" => "floats: powers of two and ten and neighbours, subnormals, boundaries of shortest-decimal search, random bit patterns; non-trivial = finite and not 0",
        "C19" => "number parts: every exponent from -720 to 720 with six mantissas, the corners of mantissa and exponent, random parts; non-trivial = mantissa not 0",
        _ => "",
    }
}

// ------------------------------------------------------------------ texts

const CORNERS: &[&str] = &[
    "", " ", "\n", "0", "-0", "00", "-", "-a", "1.", "1.x", ".5", "1e", "1e+", "1e-", "1ex", "1E5", "01", "-01", "1.0e", "+1", "0.0", "0e0", "1_0", "0x1",
    "18446744073709551615", "18446744073709551616", "184467440737095516150", "184467440737095516160", "0.18446744073709551615", "1.8446744073709551616",
    "null", "nul", "nulll", "true", "tru", "false", "fals", "nUll", "[", "]", "{", "}", "[]", "{}", "[,]", "[1,]", "[1", "[1,", "{\"a\"}", "{\"a\":}", "{\"a\":1,}", "{,}", "{1:2}", "{a:1}", "[1 2]", "[1:2]",
    "{\"a\" 1}", "{\"a\":1 \"b\":2}", "[]]", "{}}", "[] []", "1 2", "1,", "\"", "\"a", "\"\\", "\"\\u", "\"\\u1", "\"\\u12", "\"\\u123", "\"\\u1234", "\"\\u1234\"", "\"\\u123g\"",
    "\"\\ud800\"", "\"\\ud800\\", "\"\\ud800\\u", "\"\\ud800\\udc00\"", "\"\\udbff\\udfff\"", "\"\\udc00\\udc00\"", "\"\\ud800\\ud800\"", "\"\\ud800\\u0041\"", "\"\\ud800\\n\"", "\"\\ud800a\"", "\"\\udfff\"",
    "\"\\ud7ff\\ue000\"", "\"\\uD83D\\uDe00\"", "\"\\ud800\\udbff\"", "\"\\ud800\\ue000\"", "\"\\udc00\"", "\"\\udc00\\ud800\"",
    "\"\\x\"", "\"\\'\"", "\"\\U0041\"", "\"\u{1f}\"", "\"\u{7f}\"", "\"\n\"", "\"\t\"", "\"\u{0}\"", "\"é\"", "\"\u{10ffff}\"", "é", "[é", "{\"é\":é}", "\n\né", "\n x", "é\nx", "[\n\n\n x]", "\"a\nb\"", "\"\\n\nb\"",
    "[\"é\",\"\u{20ac}\u{1f600}\",x]", "\u{feff}1", "\u{a0}1", "1\u{a0}", "\u{b}1\u{c}", "\u{8}1", "\u{e}1", "\u{85}1", "1\u{2028}", "\r\n1\r\n", "\r\nx", "\"\\u00e9x\ny", "// c\n1", "[1] // c",
    "{\"a\":1,\"a\":2}", "{\"a\":1,\"b\":2,\"a\":3}", "{\"a\":{\"b\":[]},\"a\":[]}", "{\"\":1,\"\":2}", "{\"\\u0061\":1,\"a\":2}", "[[[]]]", "[[],[[]],{}]", "{\"a\":{},\"b\":[{}]}",
    "{\"8yn0iYCKYHlIj4-BwPqk\":1,\"GReLUrM4wMqfg9yzV3KQ\":2}", "{\"8yn0iYCKYHlIj4-BwPqk\":1,\"GReLUrM4wMqfg9yzV3KQ\":2,\"8yn0iYCKYHlIj4-BwPqk\":3,\"x\":1,\"GReLUrM4wMqfg9yzV3KQ\":4}",
    "1e32767", "1e32768", "-1e-32768", "1e-32769", "12e32767", "1.2e32768", "1.2e32769", "0.1e-32767", "0.1e-32768", "1e99999999999999999999", "1e-99999999999999999999", "1e4294967296", "1e65536", "1e2147483648", "1e-2147483648", "1.5e2147483647", "1.5e-2147483648", "1.5e-2147483649", "100000000000000000000e2147483647",
    "1844674407370955161e1", "18446744073709551619", "18446744073709551610", "18446744073709551625", "184467440737095516190", "1.00000000000000000000000000000000000000001", "0.00000000000000000000000000000000000000001",
    "576460752303423500", "576460752303423499", "576460752303423501", "576460752303423500.1", "57646075230342350.01e5", "0.576460752303423500123", "57646075230342349.9", "99999999999999999999.9999e-20",
    "0.10000000000000000000000000", "123456789012345678901234567890.123456789012345678901234567890e-30",
];

fn long_text(k: usize) -> Option<String> {
    let rep = |c: &str, n: usize| c.repeat(n);
    Some(match k {
        0 => rep("[", 512) + &rep("]", 512),
        1 => rep("[", 513) + &rep("]", 513),
        2 => rep("[", 514) + &rep("]", 514),
        3 => rep("[", 511) + "1" + &rep("]", 511),
        4 => rep("[", 512) + "1" + &rep("]", 512),
        5 => rep("[", 513) + "1" + &rep("]", 513),
        6 => rep("{\"a\":", 512) + "1" + &rep("}", 512),
        7 => rep("{\"a\":", 513) + "1" + &rep("}", 513),
        8 => rep("{\"a\":", 512) + "{}" + &rep("}", 512),
        9 => rep("[", 300000),
        10 => rep("{\"\":[", 200000),
        11 => rep("[", 512) + "x",
        12 => rep("[", 513) + "x",
        13 => rep("[", 513),
        14 => rep("[", 512),
        15 => rep("[", 512) + "{ \"a\"",
        16 => format!("1{}", rep("0", 32766 + 19)),
        17 => format!("1{}", rep("0", 32767 + 19)),
        18 => format!("1{}", rep("0", 32768 + 19)),
        19 => format!("1{}", rep("0", 32769 + 19)),
        20 => format!("1{}", rep("9", 66000)),
        21 => format!("0.{}1", rep("0", 32766)),
        22 => format!("0.{}1", rep("0", 32767)),
        23 => format!("0.{}1", rep("0", 32768)),
        24 => format!("0.{}1", rep("0", 33000)),
        25 => format!("1.{}", rep("0", 70000)),
        26 => format!("0.{}", rep("0", 70000)),
        27 => format!("1.{}1e5", rep("0", 70000)),
        28 => format!("1{}.5e-40000", rep("0", 32000)),
        29 => format!("1e{}", rep("9", 70000)),
        30 => format!("1e-{}", rep("9", 70000)),
        31 => format!("1e{}1", rep("0", 70000)),
        32 => format!("\"{}\"", rep("é", 40000)),
        33 => format!("\"{}\"", rep("\\u00e9", 9000)),
        34 => format!("{}1", rep("\n", 70000)),
        35 => format!("{}x", rep("\n", 70000)),
        36 => format!("{}x", rep(" ", 70000)),
        37 => format!("[{}1]", rep("1,", 40000)),
        38 => rep("[[],", 512) + "1" + &rep("]", 512),
        39 => rep("[{},", 513) + "1" + &rep("]", 513),
        40 => format!("{}[[1]]{}", rep("[", 510), rep("]", 510)),
        41 => format!("{}[{{\"a\":1}}]{}", rep("[", 511), rep("]", 511)),
        42 => format!("[{},{}]", rep("[", 511) + &rep("]", 511), rep("[", 511) + &rep("]", 511)),
        43 => format!("[{}]", vec![rep("[", 511) + "1" + &rep("]", 511); 3].join(",")),
        44 => format!("[{}1]", rep("{\"a\":1},", 1200)),
        45 => format!("[{}1]", rep("[1],", 1200)),
        46 => format!("{{{}\"z\":1}}", (0..700).map(|i| format!("\"{}\":[1],", i)).collect::<String>()),
        47 => format!("-0.{}1e32767", rep("0", 32000)),
        48 => format!("-1{}e-32768", rep("0", 32000)),
        // far beyond the limit, by every mixture of kinds around it: dropping or printing such a value would overflow the stack
        49 => rep("[", 200000) + &rep("]", 200000),
        50 => rep("{\"a\":", 200000) + "1" + &rep("}", 200000),
        51 => rep("[", 512) + "{\"a\":" + &rep("[", 200000) + &rep("]", 200000) + "}" + &rep("]", 512),
        52 => rep("{\"a\":", 512) + &rep("[", 200000) + &rep("]", 200000) + &rep("}", 512),
        53 => rep("[", 512) + &rep("{\"a\":", 200000) + "1" + &rep("}", 200000) + &rep("]", 512),
        54 => rep("{\"a\":", 512) + "[" + &rep("{\"a\":", 200000) + "1" + &rep("}", 200000) + "]" + &rep("}", 512),
        55 => rep("{\"a\":[", 100000) + "1" + &rep("]}", 100000),
        56 => rep("[{\"a\":", 100000) + "1" + &rep("}]", 100000),
        57 => rep("[1,", 511) + "{\"a\":{\"b\":" + &rep("[", 200000) + "1" + &rep("]", 200000) + "}}" + &rep("]", 511),
        58 => rep("[", 511) + "{\"a\":[" + &rep("{\"a\":", 200000) + "1" + &rep("}", 200000) + "]}" + &rep("]", 511),
        // wide before deep
        59 => format!("[{}{}1{}]", rep("1,", 3000), rep("[", 511), rep("]", 511)),
        60 => format!("[{}{}1{}]", rep("1,", 3000), rep("[", 512), rep("]", 512)),
        61 => format!("{}{}1{}", rep(" ", 70000), rep("[", 512), rep("]", 512)),
        62 => format!("{}{}1{}", rep("\n", 70000), rep("[", 513), rep("]", 513)),
        63 => format!("[{}{}1{}]", rep("{\"a\":[]},", 600), rep("[", 513), rep("]", 513)),
        64 => format!("{{\"k\":\"{}\",\"z\":{}1{}}}", rep("\\n", 40000), rep("{\"b\":", 512), rep("}", 512)),
        65 => format!("{{\"k\":\"{}\",\"z\":{}1{}}}", rep("\\n", 40000), rep("{\"b\":", 511), rep("}", 511)),
        66 => rep("{\"\\u0061\\n\":[\"\\t0123456789\",", 200) + "\"\\n\"" + &rep("]}", 200),
        67 => format!("{{\"a\":1,{}\"a\":2}}", (0..3000).map(|i| format!("\"k{}\":[],", i)).collect::<String>()),
        68 => format!("{{{}\"z\":1}}", (0..6000).map(|i| format!("\"{}\":{},", i % 5000, i)).collect::<String>()),
        69 => format!("[{}]", (0..70000).map(|i| i.to_string()).collect::<Vec<_>>().join(",")),
        70 => format!("\"{}\\n\"", rep("a", 65536)),
        71 => format!("\"{}\\u00e9\"", rep("é", 32768)),
        72 => format!("[{}{}1{}]", rep("1,", 3000), rep("[", 200000), rep("]", 200000)),
        73 => format!("{}{}1{}", rep("\n", 70000), rep("{\"a\":", 200000), rep("}", 200000)),
        _ => return None,
    })
}

const N_LONG: u64 = 74;

fn short_text(mut k: u64) -> String {
    // all texts of 0, 1, 2, 3 characters over the alphabet
    let n = gen::ALPHABET.len() as u64;
    let mut len = 0;
    let mut count = 1;
    while k >= count && len < 3 {
        k -= count;
        count *= n;
        len += 1;
    }
    k %= count;
    let mut s = String::new();
    for _ in 0..len {
        s.push_str(gen::ALPHABET[(k % n) as usize]);
        k /= n;
    }
    s
}

/// A text for parser properties; `valid` biases to accepted texts.
fn text(id: u64, r: &mut Rng, valid: bool) -> String {
    let c = CORNERS.len() as u64;
    if id < c {
        return CORNERS[id as usize].to_string();
    }
    let id = id - c;
    if id < 3 * c {
        let t = CORNERS[(id % c) as usize];
        return match id / c {
            0 => format!("[{}]", t),
            1 => format!("{{\"k\":{}}}", t),
            _ => format!(" [1,\"é\",\n{} ,2]\n", t),
        };
    }
    let id = id - 3 * c;
    if id < N_LONG {
        return long_text(id as usize).unwrap();
    }
    let id = id - N_LONG;
    if !valid && id % 2 == 0 && id / 2 < 1 + 44 + 44 * 44 + 44 * 44 * 44 {
        return short_text(id / 2);
    }
    let mut s = String::new();
    if r.chance(1, 4000) {
        return long_text(r.below(N_LONG as usize)).unwrap();
    }
    if r.chance(1, 60) {
        let n = *r.pick(&[1usize, 2, 3, 10, 100, 510, 511, 512, 513, 514, 600]);
        return gen::nested(r, n);
    }
    let d = r.below(5);
    if r.chance(1, 1500) {
        gen::large_text(r, &mut s);
    } else {
        gen::text(r, d, &mut s);
    }
    if r.chance(1, 12) {
        // not at the beginning of the input
        let n = *r.pick(&[40usize, 100, 250, 260, 300, 1030, 4100]);
        let (a, b, c) = *r.pick(&[("[\"", "a", "\","), ("{\"k\":\"", "é", "\",\"x\":"), ("", " ", ""), ("", "\n", ""), ("[", "1,", ""), ("{\"", "\\n", "\":")]);
        s = format!("{}{}{}{}{}", a, b.repeat(n + r.below(4)), c, s, match a.chars().next() { Some('[') => "]", Some('{') => "}", _ => "" });
    }
    match r.below(if valid { 12 } else { 4 }) {
        0 | 1 => gen::mutate(r, &s),
        2 => {
            let n = s.chars().count();
            let k = r.below(n + 1);
            s.chars().take(k).collect()
        }
        _ => s,
    }
}

fn lead(id: u64, r: &mut Rng, valid: bool, cx: &mut Cx) -> String {
    let t = text(id, r, valid);
    let nt = t.chars().count() >= 2;
    cx.input(format!("parse({})", if t.len() < 4000 { format!("{:?}", t) } else { short(&t) }), nt);
    t
}

fn parse_guarded(t: &str) -> Result<JsonValue, json::Error> {
    GUARD.with(|g| json::parse(g.place(t)))
}

fn c01(id: u64, r: &mut Rng, cx: &mut Cx) -> Out {
    let t = lead(id, r, false, cx);
    if let Ok(v) = parse_guarded(&t) {
        fn walk(v: &JsonValue) -> Out {
            match v {
                JsonValue::Short(_) | JsonValue::String(_) => {
                    let b = v.as_str().unwrap().as_bytes();
                    check(std::str::from_utf8(b).is_ok(), || format!("a returned string is not UTF-8: {:?}", b))
                }
                JsonValue::Array(a) => a.iter().map(walk).collect(),
                JsonValue::Object(o) => {
                    for (k, x) in o.iter() {
                        check(std::str::from_utf8(k.as_bytes()).is_ok(), || format!("a returned key is not UTF-8: {:?}", k.as_bytes()))?;
                        walk(x)?;
                    }
                    Ok(())
                }
                _ => Ok(()),
            }
        }
        walk(&v)?;
    }
    Ok(())
}

fn c02(id: u64, r: &mut Rng, cx: &mut Cx) -> Out {
    let t = lead(id, r, false, cx);
    let got = parse_guarded(&t);
    let want = refparse(&t);
    match (&got, &want) {
        (Ok(v), Err(e)) => Err(format!("expected {:?}, parsed as {}", e, short(&v.dump()))),
        (Err(e), Ok(_)) => Err(format!("the text is valid, but: {:?}", e)),
        _ => Ok(()),
    }
}

fn c03(id: u64, r: &mut Rng, cx: &mut Cx) -> Out {
    let t = lead(id, r, true, cx);
    if let (Ok(v), Ok(w)) = (json::parse(&t), refparse(&t)) {
        same_shape(&v, &w)?;
        // lookups find what iteration shows
        fn look(v: &JsonValue, w: &RV) -> Out {
            match w {
                RV::Obj(o) => {
                    for (k, x) in o {
                        same_shape(&v[k.as_str()], x).map_err(|e| format!("lookup of {}: {}", short(k), e))?;
                        look(&v[k.as_str()], x)?;
                    }
                    Ok(())
                }
                RV::Arr(a) => {
                    for (i, x) in a.iter().enumerate() {
                        look(&v[i], x)?;
                    }
                    Ok(())
                }
                _ => Ok(()),
            }
        }
        look(&v, &w)?;
    }
    Ok(())
}

fn c04(id: u64, r: &mut Rng, cx: &mut Cx) -> Out {
    let c = CORNERS.len() as u64;
    let lit = if id < c {
        CORNERS[id as usize].to_string()
    } else if id < c + N_LONG {
        long_text((id - c) as usize).unwrap()
    } else if r.chance(1, 5000) {
        long_text(16 + r.below(33)).unwrap()
    } else {
        gen::literal(r)
    };
    let t = match r.below(4) {
        0 => format!("[{}]", lit),
        1 => format!("{{\"a\":{} }}", lit),
        _ => lit,
    };
    cx.input(format!("parse({})", if t.len() < 4000 { format!("{:?}", t) } else { short(&t) }), t.len() > 1);
    let (v, w) = match (json::parse(&t), refparse(&t)) {
        (Ok(v), Ok(w)) => (v, w),
        _ => return Ok(()),
    };
    fn numbers(v: &JsonValue, w: &RV) -> Out {
        match (v, w) {
            (JsonValue::Number(n), RV::Num(m)) => same_num(n, m),
            (_, RV::Num(m)) => Err(format!("number {:?} expected, found {}", m.lit, short(&v.dump()))),
            (JsonValue::Array(a), RV::Arr(b)) => a.iter().zip(b).map(|(x, y)| numbers(x, y)).collect(),
            (JsonValue::Object(a), RV::Obj(b)) => a.iter().zip(b).map(|(x, y)| numbers(x.1, &y.1)).collect(),
            _ => Ok(()),
        }
    }
    numbers(&v, &w)
}

fn c05(id: u64, r: &mut Rng, cx: &mut Cx) -> Out {
    let t = lead(id, r, false, cx);
    if let (Err(e), Err(w)) = (parse_guarded(&t), refparse(&t)) {
        let got = match e {
            json::Error::UnexpectedEndOfJson => Some(PErr::End),
            json::Error::ExceededDepthLimit => Some(PErr::Depth),
            json::Error::FailedUtf8Parsing => Some(PErr::Utf8),
            json::Error::UnexpectedCharacter { ch, line, column } => Some(PErr::Unexp(ch, line, column)),
            _ => None,
        };
        check(got.as_ref() == Some(&w), || format!("expected error {:?}, got {:?}", w, got))?;
    }
    Ok(())
}

// ------------------------------------------------------------------ printing

fn value_case(id: u64, r: &mut Rng, cx: &mut Cx, nan: bool) -> RV {
    let v = match id {
        0 => RV::Arr(vec![]),
        1 => RV::Obj(vec![]),
        2..=6 => {
            // nesting up to the limit
            let n = [1usize, 2, 100, 511, 512][(id - 2) as usize];
            let mut v = RV::Num(Num::parts(false, 1, 0));
            for i in 0..n {
                v = if i % 2 == 0 { RV::Arr(vec![v]) } else { RV::Obj(vec![("k".into(), v)]) };
            }
            v
        }
        7 => RV::Arr((0..20).map(|i| RV::Num(Num::parts(i % 2 == 0, u64::MAX, [i16::MIN, i16::MAX, 0, -19, -20, 20, -1, 1, -30000, 30000][i % 10]))).collect()),
        8 => RV::Arr((0..20).map(|i| RV::Num(Num::parts(i % 2 == 0, [0u64, 12, 120, 1][i % 4], [i16::MIN, i16::MAX, 0, -19, i16::MAX - 1][i % 5]))).collect()),
        9 => RV::Arr(vec![RV::Arr(vec![]), RV::Obj(vec![]), RV::Arr(vec![RV::Arr(vec![])]), RV::Obj(vec![("".into(), RV::Obj(vec![])), ("a".into(), RV::Arr(vec![]))])]),
        10 => RV::Obj((0..40).map(|i| (format!("key {}", i), RV::Num(Num::parts(false, i, 0)))).collect()),
        14 | 16 | 18 | 20 | 22 | 24 => {
            let n = [255usize, 256, 257, 1025, 65536, 70000][(id as usize - 14) / 2];
            RV::Arr((0..n).map(|_| RV::Null).collect())
        }
        15 | 17 | 19 | 21 | 23 | 25 => {
            let n = [255usize, 256, 257, 1025, 65536, 70000][(id as usize - 15) / 2];
            RV::Obj((0..n).map(|i| (format!("k{}", i), RV::Num(Num::parts(false, i as u64, 0)))).collect())
        }
        26..=31 => {
            let n = [255usize, 256, 1024, 65535, 65536, 70000][id as usize - 26];
            RV::Obj(vec![("k".repeat(n), RV::Str("v".repeat(n))), ("é".repeat(n / 2), RV::Str("\n".repeat(n)))])
        }
        11 => RV::Obj(gen::COLLIDE.iter().map(|k| (k.to_string(), RV::Arr(vec![RV::Null, RV::Bool(true), RV::Bool(false)]))).collect()),
        _ => {
            let d = r.below(5);
            let d = if r.chance(1, 3) { d } else { d.max(1) };
            if r.chance(1, 1000) { gen::large(r, nan) } else { gen::value(r, d, nan) }
        }
    };
    let nt = match v {
        RV::Null | RV::Bool(_) => false,
        RV::Num(ref n) => n.e != 0,
        _ => true,
    };
    cx.input(format!("value {}", desc(&v)), nt);
    v
}

fn weight(v: &RV) -> usize {
    match v {
        RV::Arr(a) => a.iter().map(|x| 1 + weight(x)).sum(),
        RV::Obj(a) => a.iter().map(|x| 1 + weight(&x.1)).sum(),
        _ => 0,
    }
}

pub fn desc(v: &RV) -> String {
    fn go(v: &RV, out: &mut String) {
        if out.len() > 3000 {
            return;
        }
        match v {
            RV::Null => out.push_str("null"),
            RV::Bool(b) => out.push_str(&b.to_string()),
            RV::Num(n) => if n.nan { out.push_str("NaN") } else { out.push_str(&format!("Number{{{}{}e{}}}", if n.neg { "-" } else { "" }, n.m, n.e)) },
            RV::Str(s) => out.push_str(&format!("{:?}", s)),
            RV::Arr(a) => {
                out.push('[');
                for x in a {
                    go(x, out);
                    out.push(',');
                }
                out.push(']');
            }
            RV::Obj(a) => {
                out.push('{');
                for (k, x) in a {
                    out.push_str(&format!("{:?}:", k));
                    go(x, out);
                    out.push(',');
                }
                out.push('}');
            }
        }
    }
    let mut s = String::new();
    go(v, &mut s);
    s
}

fn indent(r: &mut Rng) -> u16 {
    if let Some(n) = gen::word_below(r, 400) {
        return n as u16;
    }
    *r.pick(&[0u16, 1, 2, 3, 4, 4, 7, 8, 100, 255, 256])
}

fn c06(id: u64, r: &mut Rng, cx: &mut Cx) -> Out {
    let rv = value_case(id, r, cx, false);
    let v = build(&rv, r.u64());
    let n = if id < 12 { 1 } else { indent(r) };
    for (how, t) in [("dump".to_string(), v.dump()), (format!("pretty({})", n), v.pretty(n))] {
        match json::parse(&t) {
            Err(e) => return Err(format!("{} printed {}, which does not parse: {:?}", how, short(&t), e)),
            Ok(w) => {
                same(&w, &rv).map_err(|e| format!("{} printed {}, which parses to something else: {}", how, short(&t), e))?;
                check(w == v && v == w, || format!("{} printed {}, which parses to a value that == calls different", how, short(&t)))?;
            }
        }
    }
    Ok(())
}

fn num_case(id: u64, r: &mut Rng) -> (bool, u64, i16) {
    let ms = [0u64, 1, 9, 10, 12, 100, 120, 999, u64::MAX, u64::MAX - 5, 10_000_000_000_000_000_000, 9_999_999_999_999_999_999, 18_446_744_073_709_551_610, 576460752303423500];
    let es = [0i16, 1, -1, 2, -2, 5, -5, 15, 16, 17, 18, 19, 20, 21, 22, -16, -17, -18, -19, -20, -21, -22, -40, 40, 400, -400, i16::MAX, i16::MIN, i16::MAX - 1, i16::MIN + 1, i16::MIN + 18, i16::MIN + 19, i16::MIN + 20, i16::MAX - 19];
    let n = (ms.len() * es.len() * 2) as u64;
    if id < n {
        let id = id as usize;
        return (id % 2 == 1, ms[id / 2 % ms.len()], es[id / 2 / ms.len()]);
    }
    (r.chance(1, 3), gen::mantissa(r), gen::exponent(r))
}

fn number(neg: bool, m: u64, e: i16) -> Number {
    unsafe { Number::from_parts_unchecked(!neg, m, e) }
}

fn c07(id: u64, r: &mut Rng, cx: &mut Cx) -> Out {
    if id == 0 || r.chance(1, 500) {
        cx.input("NaN".into(), true);
        let v: JsonValue = json::number::NAN.into();
        check(v.dump() == "null" && v.pretty(4) == "null", || format!("NaN prints as {}", v.dump()))?;
        let mut b = Vec::new();
        v.write(&mut b).unwrap();
        v.write_pretty(&mut b, 2).unwrap();
        check(b == b"nullnull", || format!("NaN is written as {:?}", String::from_utf8_lossy(&b)))?;
        let a = JsonValue::from(vec![f64::NAN]).dump();
        return check(a == "[null]", || format!("[NaN] prints as {}", a));
    }
    let (neg, m, e) = num_case(id, r);
    cx.input(format!("Number sign={} mantissa={} exponent={}", if neg { '-' } else { '+' }, m, e), m != 0);
    let n = number(neg, m, e);
    let want = Dec::from_u64(neg, m, e as i64);
    let v: JsonValue = n.into();
    let mut w = Vec::new();
    v.write(&mut w).unwrap();
    let mut wp = Vec::new();
    v.write_pretty(&mut wp, 3).unwrap();
    let texts = [
        ("Display", n.to_string()),
        ("dump", v.dump()),
        ("pretty", v.pretty(4)),
        ("write", String::from_utf8(w).map_err(|_| "write made invalid UTF-8".to_string())?),
        ("write_pretty", String::from_utf8(wp).map_err(|_| "write_pretty made invalid UTF-8".to_string())?),
    ];
    for (how, t) in texts.iter() {
        match refparse(t) {
            Ok(RV::Num(_)) if !t.starts_with(|c: char| (c as u32) < 128 && refjson::is_ws(c as u8)) && t.trim() == t => {
                let got = Dec::literal(t);
                check(got == want || (got.is_zero() && want.is_zero() && got.neg == want.neg), || format!("{} printed {}, which denotes {}, expected {}", how, short(t), got.text(), want.text()))?;
            }
            other => return Err(format!("{} printed {}, which is not a JSON number ({:?})", how, short(t), other.err())),
        }
    }
    Ok(())
}

fn string_case(id: u64, r: &mut Rng) -> String {
    if id < 0x800 {
        return std::char::from_u32(id as u32).unwrap().to_string();
    }
    let id = id - 0x800;
    if id < 65 * 6 {
        let n = (id % 65) as usize;
        return match id / 65 {
            0 => "a".repeat(n),
            1 => "\n".repeat(n),
            2 => "a".repeat(n) + "\u{1f600}",
            3 => "é".repeat(n / 2) + if n % 2 == 1 { "z" } else { "" },
            4 => "\"".to_string() + &"b".repeat(n) + "\\",
            _ => "\\".repeat(n),
        };
    }
    let id = id - 65 * 6;
    if id < 0x20 * 4 {
        let c = std::char::from_u32((id % 0x20) as u32).unwrap();
        return match id / 0x20 {
            0 => format!("a{}b", c),
            1 => format!("{}{}", c, "x".repeat(40)),
            2 => format!("{}{}", "x".repeat(40), c),
            _ => format!("{}{}{}\"", c, c, c),
        };
    }
    if r.chance(1, 300) {
        let n = gen::big(r);
        let c = gen::ch(r);
        let mut s: String = std::iter::repeat(c).take(n / c.len_utf8()).collect();
        for _ in 0..r.below(3) {
            s.push(gen::ch(r));
        }
        return s;
    }
    if r.chance(1, 500) {
        let mut s = String::new();
        for _ in 0..2000 + r.below(3000) {
            s.push(gen::ch(r));
        }
        return s;
    }
    if r.chance(1, 300) {
        let i = r.below(2);
        return gen::colliding(r)[i].clone();
    }
    gen::string(r)
}

/// The token is a JSON string literal for `s`, everything that needs no escape copied.
fn string_token(t: &str, s: &str) -> Out {
    let bad = |why: &str| Err(format!("{}: printed {} for {}", why, short(t), short(s)));
    if t.len() < 2 || !t.starts_with('"') || !t.ends_with('"') {
        return bad("not a quoted string");
    }
    match refparse(t) {
        Ok(RV::Str(ref x)) if x == s => {}
        Ok(_) => return bad("reads back as another string"),
        Err(e) => return bad(&format!("not a JSON string ({:?})", e)),
    }
    // re-read: one escape for each character that needs one, copies of the others
    let mut it = t[1..t.len() - 1].chars();
    for c in s.chars() {
        if c == '"' || c == '\\' || (c as u32) < 0x20 {
            if it.next() != Some('\\') {
                return bad("a character that needs an escape is not escaped");
            }
            if it.next() == Some('u') {
                for _ in 0..4 {
                    it.next();
                }
            }
        } else if it.next() != Some(c) {
            return bad(&format!("{:?} is not copied", c));
        }
    }
    if it.next().is_some() { bad("text left over") } else { Ok(()) }
}

fn c08(id: u64, r: &mut Rng, cx: &mut Cx) -> Out {
    let s = string_case(id, r);
    cx.input(format!("string {:?}", s), !s.is_empty());
    let a: JsonValue = s.as_str().into();
    let b = JsonValue::String(s.clone());
    for v in [&a, &b] {
        let t = v.dump();
        string_token(&t, &s)?;
        check(v.pretty(2) == t, || format!("pretty printed {}, dump {}", short(&v.pretty(2)), short(&t)))?;
        let mut w = Vec::new();
        v.write(&mut w).unwrap();
        check(w == t.as_bytes(), || format!("write made {}, dump {}", short(&String::from_utf8_lossy(&w)), short(&t)))?;
        let mut w = Vec::new();
        v.write_pretty(&mut w, 4).unwrap();
        check(w == t.as_bytes(), || format!("write_pretty made {}, dump {}", short(&String::from_utf8_lossy(&w)), short(&t)))?;
    }
    let mut o = JsonValue::new_object();
    o.insert(&s, JsonValue::Null).unwrap();
    let t = o.dump();
    check(t.starts_with('{') && t.ends_with(":null}"), || format!("object printed as {}", short(&t)))?;
    string_token(&t[1..t.len() - 6], &s)?;
    let t = o.pretty(2);
    check(t.starts_with("{\n  ") && t.ends_with(": null\n}"), || format!("object pretty printed as {}", short(&t)))?;
    string_token(&t[4..t.len() - 8], &s)?;
    let arr = JsonValue::Array(vec![a, b]).dump();
    let one = JsonValue::String(s.clone()).dump();
    check(arr == format!("[{},{}]", one, one), || format!("in an array printed as {}", short(&arr)))
}

/// The exact layout; leaves are printed by the code itself.
fn layout(v: &RV, pretty: Option<usize>, depth: usize, out: &mut String) {
    let nl = |d: usize, out: &mut String| {
        if let Some(n) = pretty {
            out.push('\n');
            for _ in 0..d * n {
                out.push(' ');
            }
        }
    };
    match v {
        RV::Null => out.push_str("null"),
        RV::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
        RV::Num(n) => out.push_str(&if n.nan { "null".to_string() } else { n.to_number().to_string() }),
        RV::Str(s) => out.push_str(&JsonValue::String(s.clone()).dump()),
        RV::Arr(a) if a.is_empty() => out.push_str("[]"),
        RV::Obj(a) if a.is_empty() => out.push_str("{}"),
        RV::Arr(a) => {
            out.push('[');
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                nl(depth + 1, out);
                layout(x, pretty, depth + 1, out);
            }
            nl(depth, out);
            out.push(']');
        }
        RV::Obj(a) => {
            out.push('{');
            for (i, (k, x)) in a.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                nl(depth + 1, out);
                out.push_str(&JsonValue::String(k.clone()).dump());
                out.push(':');
                if pretty.is_some() {
                    out.push(' ');
                }
                layout(x, pretty, depth + 1, out);
            }
            nl(depth, out);
            out.push('}');
        }
    }
}

fn first_diff(a: &str, b: &str) -> String {
    let n = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
    let cut = |s: &str| {
        let lo = n.saturating_sub(20);
        let hi = std::cmp::min(s.len(), n + 40);
        String::from_utf8_lossy(&s.as_bytes()[lo..hi]).into_owned()
    };
    format!("lengths {} and {}, first difference at byte {}: expected ..{:?}.., got ..{:?}..", a.len(), b.len(), n, cut(a), cut(b))
}

fn c09(id: u64, r: &mut Rng, cx: &mut Cx) -> Out {
    let rv = value_case(id, r, cx, true);
    let n = match id {
        0..=11 => 0,
        12 => 65535,
        13 => 40000,
        14..=30 => (id - 14) as u16,
        _ => if r.chance(1, 2000) { r.u64() as u16 } else { indent(r) },
    };
    let n = if (2..7).contains(&id) { [3u16, 200, 1, 129, 2][(id - 2) as usize] } else { n };
    let n = if weight(&rv) > 300 { n.min(260) } else { n };
    cx.input(format!("indent {}", n), false);
    let v = build(&rv, r.u64());
    let mut want = String::new();
    layout(&rv, None, 0, &mut want);
    let got = v.dump();
    check(got == want, || format!("dump: {}", first_diff(&want, &got)))?;
    let mut want = String::new();
    layout(&rv, Some(n as usize), 0, &mut want);
    let got = v.pretty(n);
    check(got == want, || format!("pretty({}): {}", n, first_diff(&want, &got)))?;
    if let JsonValue::Object(ref o) = v {
        check(o.pretty(n) == want, || format!("Object::pretty({}): {}", n, first_diff(&want, &o.pretty(n))))?;
    }
    if id % 5 == 2 {
        let mut want = String::new();
        layout(&rv, Some(4), 0, &mut want);
        for got in [format!("{:#}", v), format!("{:#7}", v)] {
            check(got == want, || format!("alternate Display: {}", first_diff(&want, &got)))?;
        }
    }
    Ok(())
}

/// A writer with a plan: how much each call takes, where it fails.
struct Plan {
    got: Vec<u8>,
    fail_at: usize,
    chunk: usize,
    kind: usize,
    calls: usize,
    failed: bool,
    error: std::io::ErrorKind,
}

impl std::io::Write for Plan {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.calls += 1;
        if self.kind == 2 && self.calls % 3 == 0 {
            return Err(std::io::Error::from(std::io::ErrorKind::Interrupted));
        }
        if b.is_empty() {
            return Ok(0);
        }
        let room = self.fail_at.saturating_sub(self.got.len());
        if room == 0 {
            if self.failed {
                // a recovered writer: whatever arrives now was not asked for
                self.got.extend_from_slice(b);
                return Ok(b.len());
            }
            self.failed = true;
            if self.kind == 1 {
                return Ok(0);
            }
            return Err(std::io::Error::new(self.error, "planned"));
        }
        let n = std::cmp::min(std::cmp::min(b.len(), room), self.chunk);
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn c10(id: u64, r: &mut Rng, cx: &mut Cx) -> Out {
    let rv = value_case(id, r, cx, true);
    let v = build(&rv, r.u64());
    let n = if id < 12 { 2 } else { indent(r) };
    let dump = v.dump();
    let pretty = v.pretty(n);
    let diff = |how: &str, a: &str, b: &[u8]| format!("{}: {}", how, first_diff(a, &String::from_utf8_lossy(b)));
    let mut w = Vec::new();
    v.write(&mut w).map_err(|e| format!("write to memory failed: {}", e))?;
    check(w == dump.as_bytes(), || diff("write against dump", &dump, &w))?;
    let mut w = Vec::new();
    v.write_pretty(&mut w, n).map_err(|e| format!("write_pretty to memory failed: {}", e))?;
    check(w == pretty.as_bytes(), || diff("write_pretty against pretty", &pretty, &w))?;
    #[allow(deprecated)]
    {
        let mut w = Vec::new();
        v.to_writer(&mut w);
        check(w == dump.as_bytes(), || diff("to_writer against dump", &dump, &w))?;
    }
    let alt = format!("{:#}", v);
    let p4 = v.pretty(4);
    check(alt == p4, || diff("{:#} against pretty(4)", &p4, alt.as_bytes()))?;
    if !p4.is_empty() && id % 7 == 3 {
        let alt = format!("{:#7.3}", v);
        check(alt == p4, || diff("{:#7.3} against pretty(4)", &p4, alt.as_bytes()))?;
    }
    check(json::stringify(v.clone()) == dump, || diff("stringify against dump", &dump, json::stringify(v.clone()).as_bytes()))?;
    check(json::stringify_pretty(v.clone(), n) == pretty, || diff("stringify_pretty against pretty", &pretty, json::stringify_pretty(v.clone(), n).as_bytes()))?;
    if let JsonValue::Object(ref o) = v {
        check(o.dump() == dump, || diff("Object::dump", &dump, o.dump().as_bytes()))?;
        check(o.pretty(n) == pretty, || diff("Object::pretty", &pretty, o.pretty(n).as_bytes()))?;
    }
    match v {
        JsonValue::Array(_) | JsonValue::Object(_) | JsonValue::Null | JsonValue::Boolean(_) => {
            check(format!("{}", v) == dump, || diff("{} against dump", &dump, format!("{}", v).as_bytes()))?;
        }
        _ => {}
    }
    for (full, is_pretty) in [(&dump, false), (&pretty, true)] {
        let rounds = if full.len() < 40 && id < 2000 { full.len() + 1 } else { 4 };
        for k in 0..rounds {
            let fail_at = if rounds == 4 { match k { 0 => usize::MAX, 1 => full.len(), _ => r.below(full.len() + 1) } } else { k };
            let chunk = *r.pick(&[1usize, 2, 3, 7, 1000000]);
            let kind = r.below(3);
            use std::io::ErrorKind::*;
            let error = *r.pick(&[Other, Other, WouldBlock, BrokenPipe, TimedOut, WriteZero, UnexpectedEof, PermissionDenied, InvalidData, ConnectionReset, NotFound, OutOfMemory]);
            let mut p = Plan { got: Vec::new(), fail_at, chunk, kind, calls: 0, failed: false, error };
            let res = if is_pretty { v.write_pretty(&mut p, n) } else { v.write(&mut p) };
            let what = || format!("{} to a writer that fails after {} bytes (kind {}, {} bytes at a time)", if is_pretty { "write_pretty" } else { "write" }, fail_at, kind, chunk);
            if let Err(ref e) = res {
                check(!p.failed || kind == 1 || e.kind() == error, || format!("{}: the writer failed with {:?}, write with {:?}", what(), error, e.kind()))?;
            }
            check(res.is_err() == p.failed, || format!("{}: returned {:?} but the writer {}", what(), res, if p.failed { "failed" } else { "did not fail" }))?;
            if res.is_ok() {
                check(p.got == full.as_bytes(), || diff(&what(), full, &p.got))?;
            } else {
                check(full.as_bytes().starts_with(&p.got) && p.got.len() == fail_at, || diff(&what(), full, &p.got))?;
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ equality

fn scale_pair(r: &mut Rng) -> ((bool, u64, i16), (bool, u64, i16)) {
    let neg = r.chance(1, 3);
    let (m, e) = (gen::mantissa(r), gen::exponent(r));
    let a = (neg, m, e);
    let pow = |k: u32| 10u64.checked_pow(k);
    let b = match r.below(12) {
        0 | 1 => {
            // the same number, written with more digits
            let k = r.below(20) as u32;
            let m2 = m >> r.below(64);
            match pow(k).and_then(|p| m2.checked_mul(p)) {
                Some(x) => return ((neg, m2, e), (neg, x, e.wrapping_sub(k as i16))),
                None => (neg, m, e),
            }
        }
        2 => {
            // equal after wrapping multiplication only
            let k = 1 + r.below(19) as u32;
            (neg, m.wrapping_mul(pow(k).unwrap()), e.wrapping_sub(k as i16))
        }
        3 => {
            // equal when the product is divided out
            let k = 1 + r.below(19) as u32;
            (neg, m / pow(k).unwrap(), e.saturating_add(k as i16))
        }
        4 => (neg, m, e.wrapping_add(r.range(-3, 3) as i16)),
        5 => (neg, m.wrapping_add(r.below(3) as u64), e),
        6 => (!neg, m, e),
        7 => (r.chance(1, 2), 0, gen::exponent(r)),
        8 => {
            // multiplying by 10^k with k over 19
            let k = 20 + r.below(60) as i16;
            let mut p: u64 = 1;
            for _ in 0..k {
                p = p.wrapping_mul(10);
            }
            (neg, m.wrapping_mul(p), e.wrapping_sub(k))
        }
        9 => {
            let k = *r.pick(&[18i16, 19, 20, 21, 64, 256, 100]);
            (neg, m, e.wrapping_sub(k))
        }
        _ => (r.chance(1, 3), gen::mantissa(r), gen::exponent(r)),
    };
    (a, b)
}

fn same_rv(a: &RV, b: &RV) -> bool {
    match (a, b) {
        (RV::Null, RV::Null) => true,
        (RV::Bool(x), RV::Bool(y)) => x == y,
        (RV::Num(x), RV::Num(y)) => if x.nan || y.nan { x.nan && y.nan } else { x.dec().same(&y.dec()) },
        (RV::Str(x), RV::Str(y)) => x == y,
        (RV::Arr(x), RV::Arr(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same_rv(p, q)),
        (RV::Obj(x), RV::Obj(y)) => x.len() == y.len() && x.iter().all(|(k, p)| y.iter().any(|(l, q)| k == l && same_rv(p, q))),
        _ => false,
    }
}

fn variant(r: &mut Rng, v: &RV, changes: &mut usize) -> RV {
    match v {
        RV::Num(n) => {
            if *changes > 0 && r.chance(1, 2) {
                *changes -= 1;
                return RV::Num(Num::parts(n.neg ^ r.chance(1, 3), n.m.wrapping_add(r.below(2) as u64), n.e as i16));
            }
            if !n.nan && n.m < u64::MAX / 10 && n.e > -32768 {
                return RV::Num(Num::parts(n.neg ^ (n.m == 0), n.m * 10, n.e as i16 - 1));
            }
            v.clone()
        }
        RV::Arr(a) => {
            let mut b: Vec<RV> = a.iter().map(|x| variant(r, x, changes)).collect();
            if *changes > 0 && r.chance(1, 3) {
                *changes -= 1;
                match r.below(3) {
                    0 => { b.pop(); }
                    1 => b.push(RV::Null),
                    _ => if b.len() > 1 { b.swap(0, 1) },
                }
            }
            RV::Arr(b)
        }
        RV::Obj(o) => {
            let mut b: Vec<(String, RV)> = o.iter().map(|(k, x)| (k.clone(), variant(r, x, changes))).collect();
            for i in (1..b.len()).rev() {
                let j = r.below(i + 1);
                b.swap(i, j);
            }
            if *changes > 0 && !b.is_empty() && r.chance(1, 2) {
                *changes -= 1;
                match r.below(3) {
                    0 => { b.pop(); }
                    1 => {
                        let k = gen::key(r);
                        if b.iter().all(|(x, _)| *x != k) {
                            b[0].0 = k;
                        }
                    }
                    _ => {
                        let k = gen::key(r);
                        if b.iter().all(|(x, _)| *x != k) {
                            b.push((k, RV::Null));
                        }
                    }
                }
            }
            RV::Obj(b)
        }
        RV::Str(s) if *changes > 0 && r.chance(1, 2) => {
            *changes -= 1;
            let mut t = s.clone();
            match r.below(3) {
                0 => { t.pop(); }
                1 => t.push('x'),
                _ => { t.pop(); t.push('~') }
            }
            RV::Str(t)
        }
        RV::Bool(b) if *changes > 0 => {
            *changes -= 1;
            RV::Bool(!b)
        }
        RV::Null if *changes > 0 && r.chance(1, 3) => {
            *changes -= 1;
            [RV::Bool(false), RV::Num(Num::parts(false, 0, 0)), RV::Str("".into()), RV::Arr(vec![]), RV::Obj(vec![])][r.below(5)].clone()
        }
        x => x.clone(),
    }
}

macro_rules! int_eq {
    ($n:expr, $dec:expr, $v:expr; $($t:ty),*) => { $({
        let x = $v as $t;
        let want = Dec::from_u64((x as i128) < 0, (x as i128).unsigned_abs() as u64, 0);
        let want = $dec.as_ref().map(|d: &Dec| d.same(&want)).unwrap_or(false);
        let jv: JsonValue = $n.into();
        check(($n == x) == want && (x == $n) == want && (jv == x) == want && (x == jv) == want && (&jv == x) == want,
            || format!("comparing with {}{}: expected {}, Number==int {}, int==Number {}, JsonValue==int {}, int==JsonValue {}", x, stringify!($t), want, $n == x, x == $n, jv == x, x == jv))?;
    })* };
}

fn c13(id: u64, r: &mut Rng, cx: &mut Cx) -> Out {
    if id % 3 != 2 {
        let ((n1, m1, e1), (n2, m2, e2)) = if id < 200 {
            let c = [(0u64, 0i16), (1, 0), (10, -1), (100, -2), (1, 19), (10_000_000_000_000_000_000, 0), (1, 20), (u64::MAX, i16::MAX), (u64::MAX, i16::MIN), (0, i16::MAX), (0, i16::MIN), (1, i16::MIN), (1, i16::MAX), (5, 256)];
            let i = id as usize;
            ((i % 4 == 0, c[i % 14].0, c[i % 14].1), (i % 8 == 0, c[i / 14 % 14].0, c[i / 14 % 14].1))
        } else {
            scale_pair(r)
        };
        let a = number(n1, m1, e1);
        let b = number(n2, m2, e2);
        cx.input(format!("numbers {}{}e{} and {}{}e{}", if n1 { "-" } else { "" }, m1, e1, if n2 { "-" } else { "" }, m2, e2), m1 != 0 || m2 != 0);
        let (da, db) = (Dec::from_u64(n1, m1, e1 as i64), Dec::from_u64(n2, m2, e2 as i64));
        let want = da.same(&db);
        check((a == b) == want && (b == a) == want, || format!("expected {}, a==b is {}, b==a is {}", want, a == b, b == a))?;
        check(a == a && b == b, || "not reflexive".into())?;
        let (ja, jb): (JsonValue, JsonValue) = (a.into(), b.into());
        check((ja == jb) == want && (ja == b) == want && (a == jb) == want, || format!("as values: expected {}, got {} {} {}", want, ja == jb, ja == b, a == jb))?;
        let nan = json::number::NAN;
        check(nan == nan && nan != a && a != nan, || "comparison with NaN".into())?;
        let na = -a;
        let dn = Dec::from_u64(!n1, m1, e1 as i64);
        check((na == b) == dn.same(&db), || format!("-a == b is {}", na == b))?;
        let da = Some(da);
        int_eq!(a, da, m1; u8, u16, u32, u64, usize, i8, i16, i32, i64, isize);
        int_eq!(a, da, r.below(300) as i64 - 150; u8, u16, u32, u64, usize, i8, i16, i32, i64, isize);
        int_eq!(a, da, (m1 as i64).wrapping_neg(); i8, i16, i32, i64, isize);
        let none: Option<Dec> = None;
        int_eq!(nan, none, m1; u8, u16, u32, u64, usize, i8, i16, i32, i64, isize);
        return Ok(());
    }
    if r.chance(1, 300) {
        return c13_wide(r, cx);
    }
    let d = r.below(4);
    let a = if r.chance(1, 1000) { gen::large(r, true) } else { gen::value(r, d, true) };
    let mut changes = r.below(2);
    let b = variant(r, &a, &mut changes);
    let mut changes = r.below(2);
    let c = variant(r, &b, &mut changes);
    cx.input(format!("values {} / {} / {}", desc(&a), desc(&b), desc(&c)), true);
    let (h1, h2, h3) = (r.u64(), r.u64(), r.u64());
    let (ja, jb, jc) = (build(&a, h1), build(&b, h2), build(&c, h3));
    for (x, y, p, q) in [(&a, &b, &ja, &jb), (&b, &c, &jb, &jc), (&a, &c, &ja, &jc)] {
        let want = same_rv(x, y);
        check((p == q) == want && (q == p) == want, || format!("expected {}: {} == {} is {}, the other way {}", want, desc(x), desc(y), p == q, q == p))?;
        if let (JsonValue::Object(o1), JsonValue::Object(o2)) = (p, q) {
            check((o1 == o2) == want && (p == o2) == want && (o1 == q) == want, || "comparison of Object disagrees".into())?;
        }
        if let RV::Str(s) = x {
            let want = q.as_str() == Some(s.as_str());
            let st: &str = s;
            check((*q == st) == want && (st == *q) == want && (*q == *st) == want && (*q == *s) == want && (*s == *q) == want && (*st == *q) == want && (&*q == *s) == want,
                || format!("comparison with the string {:?} disagrees", s))?;
            if s.len() <= 30 {
                let sh = unsafe { Short::from_slice(s) };
                if let RV::Str(t) = y {
                    let want = s == t;
                    check((sh == *t) == want && (*t == sh) == want && (sh == **t) == want && (**t == sh) == want, || format!("Short {:?} against {:?}", s, t))?;
                    if t.len() <= 30 {
                        let th = unsafe { Short::from_slice(t) };
                        check((sh == th) == want, || format!("Short {:?} == Short {:?}", s, t))?;
                    }
                }
            }
        }
        if let RV::Bool(x) = x {
            let want = q.as_bool() == Some(*x);
            check((*q == *x) == want && (*x == *q) == want && (&*q == *x) == want, || "comparison with bool disagrees".into())?;
        }
    }
    check(ja == ja && ja.clone() == ja, || "not reflexive".into())
}

/// Wide or deep values that are equal or differ in one place.
fn c13_wide(r: &mut Rng, cx: &mut Cx) -> Out {
    let n = match r.below(6) {
        0 => 10000 + r.below(30),
        1 => 66000 * r.below(2) + 1 + r.below(4),
        2 => r.below(100) + 1,
        _ => gen::big(r).max(1).min(9000),
    };
    let any = r.below(n);
    let at = *r.pick(&[0, n - 1, n / 2, n.saturating_sub(2), any, any]);
    let differ = r.chance(2, 3);
    let longer = !differ && r.chance(1, 3);
    let kind = r.below(5);
    cx.input(format!("a pair of kind {} and size {} that {} at {}", kind, n, if differ { "differs" } else if longer { "has one more" } else { "is the same" }, at), true);
    let make = |other: bool| -> JsonValue {
        let x = |i: usize| -> JsonValue {
            let c = other && differ && i == at;
            match i % 4 {
                0 => (i + c as usize).into(),
                1 => format!("{}{}", i, if c { "x" } else { "" }).into(),
                2 => if c { JsonValue::Null } else { JsonValue::Boolean(true) },
                _ => json::array![i as i64, if c { 1 } else { 0 }],
            }
        };
        let n = n + (other && longer) as usize;
        match kind {
            0 | 1 => JsonValue::Array((0..n).map(x).collect()),
            2 => {
                let mut o = json::object::Object::new();
                // in another order
                for i in 0..n {
                    let i = if other { n - 1 - i } else { i };
                    o.insert(&format!("key {}", i), x(i));
                }
                JsonValue::Object(o)
            }
            3 => {
                let mut v = x(at);
                for i in 0..n.min(60) {
                    v = if i % 2 == 0 { json::array![v] } else { json::object! { "a" => v } };
                }
                if other && longer { json::array![v] } else { v }
            }
            _ => (0..n).map(|i| if other && differ && i == at { 'b' } else { 'a' }).collect::<String>().into(),
        }
    };
    let (a, b) = (make(false), make(true));
    let want = !differ && !longer;
    check((a == b) == want && (b == a) == want, || format!("expected {}: a == b is {}, b == a is {}", want, a == b, b == a))?;
    check(a == a.clone() && b == b.clone(), || "not equal to its clone".into())
}

// ------------------------------------------------------------------ integers

fn int_want(nan: bool, neg: bool, m: u64, e: i16, lo: i128, hi: i128) -> Option<i128> {
    if nan || e != 0 {
        return None;
    }
    if lo == 0 && neg {
        return None;
    }
    let x = if neg { -(m as i128) } else { m as i128 };
    if x < lo || x > hi { None } else { Some(x) }
}

macro_rules! int_from {
    ($x:expr; $($t:ty),*) => { $({
        let x = $x as $t;
        let n: Number = x.into();
        let (pos, m, e) = n.as_parts();
        let want = (x as i128) < 0;
        check(Dec::from_u64(!pos, m, e as i64).same(&Dec::from_u64(want, (x as i128).unsigned_abs() as u64, 0)) && !n.is_nan() && (x == 0 || pos != want),
            || format!("Number::from({}{}) has parts ({}, {}, {})", x, stringify!($t), pos, m, e))?;
        let back = <$t>::try_from(n).ok();
        check(back == Some(x), || format!("{}{} -> Number -> {:?}", x, stringify!($t), back))?;
        let v: JsonValue = x.into();
        let t = v.dump();
        check(t == x.to_string(), || format!("{}{} dumps as {}", x, stringify!($t), t))?;
    })* };
}

macro_rules! int_to {
    ($n:expr, $nan:expr, $neg:expr, $m:expr, $e:expr; $($t:ident $acc:ident),*) => { $({
        let want = int_want($nan, $neg, $m, $e, $t::MIN as i128, $t::MAX as i128).map(|x| x as $t);
        let got: Option<$t> = $n.try_into().ok();
        check(got == want, || format!("{}::try_from(Number): expected {:?}, got {:?}", stringify!($t), want, got))?;
        let v: JsonValue = $n.into();
        check(v.$acc() == want, || format!("JsonValue::{}: expected {:?}, got {:?}", stringify!($acc), want, v.$acc()))?;
    })* };
}

fn c14(id: u64, r: &mut Rng, cx: &mut Cx) -> Out {
    let base: i128 = match id {
        0..=199 => {
            let b = [0i128, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0x1_0000_0000, 0x7fff_ffff_ffff_ffff, 0x8000_0000_0000_0000, 0xffff_ffff_ffff_ffff, 1_000_000_000_000_000_000, 10, 100, 1000];
            let x = b[(id / 10) as usize] + (id % 5) as i128 - 2;
            if id % 10 >= 5 { -x } else { x }
        }
        _ => match r.below(3) {
            0 => r.u64() as i64 as i128,
            1 => (r.u64() >> r.below(64)) as i128,
            _ => -((r.u64() >> r.below(64)) as i128),
        },
    };
    cx.input(format!("integer {}", base), true);
    let x = base as u64;
    int_from!(x; u8, u16, u32, u64, usize, i8, i16, i32, i64, isize);
    let (nan, neg, m, e) = match r.below(20) {
        0 => (true, false, 0, 0),
        1..=8 => (false, base < 0, base.unsigned_abs() as u64, 0),
        9 | 10 => (false, r.chance(1, 2), (1u64 << r.below(64)).wrapping_sub(r.below(2) as u64), 0),
        11 => (false, r.chance(1, 2), (1u64 << r.below(64)).wrapping_add(1), 0),
        12 => (false, r.chance(1, 2), gen::mantissa(r), 0),
        13 => (false, r.chance(1, 2), 0, 0),
        _ => (false, r.chance(1, 3), gen::mantissa(r), gen::exponent(r)),
    };
    cx.input(if nan { "NaN".into() } else { format!("Number {}{}e{}", if neg { "-" } else { "+" }, m, e) }, true);
    let n = if nan { json::number::NAN } else { number(neg, m, e) };
    int_to!(n, nan, neg, m, e; u8 as_u8, u16 as_u16, u32 as_u32, u64 as_u64, usize as_usize, i8 as_i8, i16 as_i16, i32 as_i32, i64 as_i64, isize as_isize);
    Ok(())
}

// ------------------------------------------------------------------ fixed point

/// floor(m * 10^p) mod 2^64
fn fixed(m: u64, p: i64) -> u64 {
    if p >= 0 {
        let mut x = m;
        for _ in 0..std::cmp::min(p, 64) {
            x = x.wrapping_mul(10);
        }
        x
    } else {
        let mut x = m;
        for _ in 0..std::cmp::min(-p, 25) {
            x /= 10;
        }
        x
    }
}

fn c15(id: u64, r: &mut Rng, cx: &mut Cx) -> Out {
    let (neg, m, e) = num_case(id / 4, r);
    let pts = [0u16, 1, 2, 5, 18, 19, 20, 21, 63, 64, 65, 255, 256, 32767, 32768, 32769, 65534, 65535];
    let point = match gen::word_below(r, 65536).map(|x| x + 5).unwrap_or(r.below(5)) {
        x if x >= 5 => (x - 5) as u16,
        0 => *r.pick(&pts),
        1 => r.u64() as u16,
        2 | 3 => {
            // near the point where the scaled value has a few digits, or overflows
            let p = -(e as i64) + r.range(-22, 22);
            if (0..65536).contains(&p) { p as u16 } else { *r.pick(&pts) }
        }
        _ => r.below(40) as u16,
    };
    cx.input(format!("number {}{}e{} at point {}", if neg { "-" } else { "+" }, m, e, point), m != 0);
    let n = number(neg, m, e);
    let x = fixed(m, e as i64 + point as i64);
    let wu = if neg { None } else { Some(x) };
    let wi = Some(if neg { (x as i64).wrapping_neg() } else { x as i64 });
    let v: JsonValue = n.into();
    check(n.as_fixed_point_u64(point) == wu, || format!("as_fixed_point_u64: expected {:?}, got {:?}", wu, n.as_fixed_point_u64(point)))?;
    check(n.as_fixed_point_i64(point) == wi, || format!("as_fixed_point_i64: expected {:?}, got {:?}", wi, n.as_fixed_point_i64(point)))?;
    check(v.as_fixed_point_u64(point) == wu, || format!("JsonValue::as_fixed_point_u64: expected {:?}, got {:?}", wu, v.as_fixed_point_u64(point)))?;
    check(v.as_fixed_point_i64(point) == wi, || format!("JsonValue::as_fixed_point_i64: expected {:?}, got {:?}", wi, v.as_fixed_point_i64(point)))?;
    let nan = json::number::NAN;
    check(nan.as_fixed_point_u64(point).is_none() && nan.as_fixed_point_i64(point).is_none(), || "NaN has a fixed point value".into())?;
    for v in [JsonValue::Null, true.into(), "1".into(), JsonValue::new_array(), JsonValue::new_object(), JsonValue::String("1".into())] {
        check(v.as_fixed_point_u64(point).is_none() && v.as_fixed_point_i64(point).is_none(), || format!("{} has a fixed point value", v.dump()))?;
    }
    Ok(())
}

// ------------------------------------------------------------------ floats

fn float(id: u64, r: &mut Rng) -> f64 {
    let special = [0.0, -0.0, 1.0, -1.0, 0.1, 0.3, 5e-324, f64::MIN_POSITIVE, f64::MAX, f64::MIN, f64::EPSILON, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 9007199254740993.0, 1e22, 1e23, 123456789.125, 5e-324 * 3.0, 2.2250738585072011e-308, 4.35, 0.000001, 1e21, 9.5367431640625e-7];
    if (id as usize) < special.len() {
        return special[id as usize];
    }
    let id = id - special.len() as u64;
    if id < 2048 * 6 {
        let e = id / 6;
        let m = [0u64, 1, 0xF_FFFF_FFFF_FFFF, 0x8_0000_0000_0000, 0x8_0000_0000_0001, 0x7_FFFF_FFFF_FFFF][(id % 6) as usize];
        return f64::from_bits((e << 52) | m);
    }
    let id = id - 2048 * 6;
    if id < 633 * 5 {
        let t = format!("{}e{}", ["1", "5", "9.999999999999999", "1.7976931348623157", "2.5"][(id % 5) as usize], (id / 5) as i64 - 324);
        return t.parse().unwrap();
    }
    if let Some(x) = gen::word_float(r) {
        return if r.chance(1, 4) { -x } else { x };
    }
    match r.below(8) {
        0 => f64::from_bits(r.u64() >> 12),
        1 => (r.u64() >> r.below(64)) as f64,
        2 => ((r.u64() >> r.below(64)) as f64) / 10f64.powi(r.below(22) as i32),
        3 => {
            let x = 10f64.powi(r.range(-300, 300) as i32);
            f64::from_bits(x.to_bits().wrapping_add(r.range(-3, 3) as u64))
        }
        4 => {
            let x = r.below(1_000_000) as f64 / 1000.0;
            if r.chance(1, 2) { -x } else { x }
        }
        5 => f64::from_bits((r.u64() & !(0x7ff << 52)) | ((1000 + r.below(60) as u64) << 52)),
        6 => f64::from_bits((r.u64() & 0xFFF0_0000_0000_0000) | (1u64 << r.below(52))),
        _ => f64::from_bits(r.u64()),
    }
}

fn c16(id: u64, r: &mut Rng, cx: &mut Cx) -> Out {
    let f = float(id, r);
    cx.input(format!("f64 {:e} (bits {:#018x})", f, f.to_bits()), f.is_finite() && f != 0.0);
    let n: Number = f.into();
    let v: JsonValue = f.into();
    check(v == n, || "JsonValue::from and Number::from differ".into())?;
    let g: f64 = n.into();
    if !f.is_finite() {
        check(n.is_nan() && v.dump() == "null", || format!("became {}, dump {}", n, v.dump()))?;
        return check(g.is_nan(), || format!("NaN converts back to {}", g));
    }
    check(!n.is_nan(), || "became NaN".into())?;
    let (pos, m, e) = n.as_parts();
    check(pos == f.is_sign_positive(), || format!("sign: parts ({}, {}, {})", pos, m, e))?;
    let d = Dec::from_u64(!pos, m, e as i64);
    check(d.digits.len() <= 17, || format!("{} digits: parts ({}, {}, {})", d.digits.len(), pos, m, e))?;
    // std's parser rounds correctly
    let back: f64 = d.text().parse().unwrap();
    check(back.to_bits() == f.to_bits(), || format!("decimal {} rounds to {:e} instead", d.text(), back))?;
    let t = v.dump();
    check(t.parse::<f64>().map(|x| x.to_bits()) == Ok(f.to_bits()), || format!("printed as {}, which is another float", t))?;
    // the same for 32-bit floats: the decimal identifies the float widened
    let h = f as f32;
    let n: Number = h.into();
    if h.is_finite() {
        let (pos, m, e) = n.as_parts();
        let back: f32 = Dec::from_u64(!pos, m, e as i64).text().parse().unwrap();
        check(back.to_bits() == h.to_bits(), || format!("f32 {:e}: decimal {}e{} rounds to {:e}", h, m, e, back))?;
    } else {
        check(n.is_nan(), || format!("f32 {} became {}", h, n))?;
    }
    Ok(())
}

// ------------------------------------------------------------------ numbers to floats

/// Units in the last place between two floats of the same sign; infinity is the float after the greatest.
const ULPS: u64 = 16;

fn c19(id: u64, r: &mut Rng, cx: &mut Cx) -> Out {
    let (neg, m, e) = if id < 1441 * 6 {
        let ms = [1u64, 9, 17976931348623157, 49406564584124654, u64::MAX, (1 << 53) + 1];
        (id % 5 == 2, ms[(id % 6) as usize], (id / 6) as i16 - 720)
    } else if r.chance(1, 2) {
        (r.chance(1, 2), gen::mantissa(r), r.range(-720, 720) as i16)
    } else {
        num_case(id - 1441 * 6, r)
    };
    cx.input(format!("number parts ({}, {}, {})", !neg, m, e), m != 0);
    let n = number(neg, m, e);
    let v = JsonValue::Number(n);
    let d: f64 = n.into();
    let f: f32 = n.into();
    check(v.as_f64().map(|x| x.to_bits()) == Some(d.to_bits()) && v.as_f32().map(|x| x.to_bits()) == Some(f.to_bits()), || "as_f64 or as_f32 and the conversion differ".into())?;
    let t = Dec::from_u64(neg, m, e as i64).text();
    let wd: f64 = t.parse().unwrap();
    let wf: f32 = t.parse().unwrap();
    check(!d.is_nan() && d.is_sign_negative() == neg, || format!("f64 {:e}", d))?;
    check(!f.is_nan() && f.is_sign_negative() == neg, || format!("f32 {:e}", f))?;
    if m == 0 {
        return check(d == 0.0 && f == 0.0 && n == 0.0 && n == -0.0 && 0.0f32 == n && -0.0 == v && v == 0.0f32 && n != f64::MIN_POSITIVE && n != f32::NAN, || format!("zero became {:e}, {:e}", d, f));
    }
    let near = |a: u64, b: u64| (if a > b { a - b } else { b - a }) <= ULPS;
    check(near(d.to_bits(), wd.to_bits()), || format!("f64 {:e}, the nearest is {:e}", d, wd))?;
    check(near(f.to_bits() as u64, wf.to_bits() as u64), || format!("f32 {:e}, the nearest is {:e}", f, wf))?;
    // against floats: the converted number is compared
    for x in [d, wd, -d, f64::from_bits(d.to_bits() ^ 1), f64::from_bits(d.to_bits().wrapping_add(1 << r.below(63))), f as f64, 0.0, f64::NAN, f64::INFINITY] {
        let w = d == x;
        check((n == x) == w && (x == n) == w && (v == x) == w && (x == v) == w && (&v == x) == w, || format!("{:e} compared with f64 {:e} is not {}", d, x, w))?;
    }
    for x in [f, wf, -f, f32::from_bits(f.to_bits() ^ 1), f32::from_bits(f.to_bits().wrapping_add(1 << r.below(31))), d as f32, 0.0, f32::NAN, f32::INFINITY] {
        let w = f == x;
        check((n == x) == w && (x == n) == w && (v == x) == w && (x == v) == w && (&v == x) == w, || format!("{:e} compared with f32 {:e} is not {}", f, x, w))?;
    }
    if id % 16 == 0 {
        let nan = Number::from(f64::NAN);
        for x in [0.0, 1.0, f64::INFINITY, f64::NAN, d] {
            check(nan != x && x != nan && nan != x as f32 && x as f32 != nan && JsonValue::Number(nan) != x, || format!("NaN equals the float {:e}", x))?;
        }
        for v in [JsonValue::Null, JsonValue::Boolean(false), JsonValue::from("0"), JsonValue::new_array(), JsonValue::new_object()] {
            check(v != 0.0 && v != 0.0f32 && 0.0 != v && 0.0f32 != v && &v != 0.0 && v != f64::NAN, || "a value that is no number equals a float".into())?;
        }
        check(f64::from(nan).is_nan() && f32::from(nan).is_nan(), || "NaN became a number".into())?;
        check(JsonValue::Number(nan).as_f64().map(|x| x.is_nan()) == Some(true), || "as_f64 of NaN".into())?;
        for v in [JsonValue::Null, JsonValue::Boolean(true), JsonValue::from("1"), JsonValue::new_array(), JsonValue::new_object()] {
            check(v.as_f64().is_none() && v.as_f32().is_none(), || "a value that is no number became a float".into())?;
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ strings

fn c18(id: u64, r: &mut Rng, cx: &mut Cx) -> Out {
    let s = string_case(id, r);
    cx.input(format!("string {:?}", s), !s.is_empty());
    let mut src = s.clone();
    let mut vs: Vec<(&str, JsonValue)> = vec![
        ("from(&str)", src.as_str().into()),
        ("from(String)", src.clone().into()),
        ("from(Option<&str>)", Some(src.as_str()).into()),
        ("from(Option<String>)", Some(src.clone()).into()),
    ];
    {
        // a string with room for more
        let mut roomy = String::with_capacity(s.len() + *r.pick(&[1usize, 8, 31, 64, 300, 5000]));
        roomy.push_str(&s);
        vs.push(("from(String with spare capacity)", roomy.into()));
    }
    let mut text = String::from("\"");
    for c in s.chars() {
        if r.chance(1, 6) || c < ' ' || c == '"' || c == '\\' {
            let mut b = [0u16; 2];
            for u in c.encode_utf16(&mut b) {
                text.push_str(&format!("\\u{:04x}", u));
            }
        } else {
            text.push(c);
        }
    }
    text.push('"');
    match json::parse(&text) {
        Ok(v) => vs.push(("parse", v)),
        Err(e) => return Err(format!("{} does not parse: {:?}", short(&text), e)),
    }
    if s.len() <= 30 {
        let sh = unsafe { Short::from_slice(&src) };
        let c = sh;
        check(sh.as_str() == s && &*c == s && String::from(sh) == s && sh.to_string() == s && format!("{:?}", sh) == format!("{:?}", s), || format!("Short holds {:?}", sh.as_str()))?;
        vs.push(("Short", JsonValue::Short(sh)));
    }
    // destroy the source
    unsafe {
        for b in src.as_bytes_mut() {
            *b = b'?';
        }
    }
    drop(src);
    if s.len() <= 30 {
        let (a, b) = unsafe { (Short::from_slice(&s), Short::from_slice(&s)) };
        check(a == b && a == *s && *s == a && a == s && s == a, || "a Short is not equal to its text, or to another of it".into())?;
        let mut t = s.clone();
        match r.below(3) {
            0 => { t.pop(); }
            1 => { t.pop(); t.push(gen::ch(r)); }
            _ => t.push(gen::ch(r)),
        }
        if t.len() <= 30 && t != s {
            let b = unsafe { Short::from_slice(&t) };
            check(a != b && b != *s && *s != b, || format!("the Short of {:?} equals that of {:?}", s, t))?;
        }
    }
    for (how, v) in vs.iter_mut() {
        check(v.is_string() && v.as_str() == Some(s.as_str()), || format!("{}: as_str gives {:?}", how, v.as_str()))?;
        check(v.to_string() == s, || format!("{}: to_string gives {:?}", how, v.to_string()))?;
        check(v.is_empty() == s.is_empty(), || format!("{}: is_empty", how))?;
        check(*v == s.as_str() && *v == s && s.as_str() == *v, || format!("{}: not == to the string", how))?;
        let mut c = v.clone();
        let t = v.take_string();
        check(t.as_deref() == Some(s.as_str()) && v.is_null(), || format!("{}: take_string gives {:?}", how, t))?;
        drop(t);
        check(c.as_str() == Some(s.as_str()), || format!("{}: the clone has {:?}", how, c.as_str()))?;
        let d = c.take();
        check(d.as_str() == Some(s.as_str()) && c.is_null(), || format!("{}: take gives {:?}", how, d.as_str()))?;
    }
    let none: Option<&str> = None;
    check(JsonValue::from(none).is_null(), || "None is not null".into())
}
