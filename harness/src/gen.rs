//! Generators: strings, numbers, values and JSON texts, weighted to boundaries.
use crate::refjson::{Num, RV};
use crate::rng::Rng;

pub const MAX_PRECISION: u64 = 576460752303423500;

/// Two keys with the same 64-bit FNV-1a hash; appending the same suffix keeps the collision.
pub const COLLIDE: [&str; 2] = ["8yn0iYCKYHlIj4-BwPqk", "GReLUrM4wMqfg9yzV3KQ"];

/// More pairs with equal hashes: a key and an extension of it, keys of
/// different lengths, keys that begin with the same 70 bytes.
pub fn colliding(r: &mut Rng) -> [String; 2] {
    match r.below(6) {
        0 => ["a".into(), "awUzWuvddWILKV_Uf4EpQGJ".into()],
        1 => ["".into(), "ZuWGCiYub5CAmh9q4WauxP".into()],
        2 => ["bW2fgrZFu3Mzq".into(), "v9oCFD5iA_O".into()],
        3 => ["p".repeat(70) + "baAs3HOSVpJ", "p".repeat(70) + "OzWzWsp0RMO"],
        4 => ["p".repeat(32), "p".repeat(32) + "u7hC4U5IJbHB5b66FcNekP"],
        _ => [COLLIDE[0].into(), COLLIDE[1].into()],
    }
}

/// Numbers and texts that the source has gained since the contracts were written (given
/// by the check in HARNESS_WORDS): inputs near them are likely to matter.
pub struct Words {
    ints: Vec<u64>,
    floats: Vec<f64>,
    texts: Vec<String>,
}

pub fn words() -> &'static Words {
    static W: std::sync::OnceLock<Words> = std::sync::OnceLock::new();
    W.get_or_init(|| {
        let mut w = Words { ints: vec![], floats: vec![], texts: vec![] };
        for t in std::env::var("HARNESS_WORDS").unwrap_or_default().split(',') {
            match t.split_at(t.len().min(1)) {
                ("i", x) => w.ints.extend(x.parse::<u64>().ok()),
                ("f", x) => w.floats.extend(x.parse::<f64>().ok()),
                ("t", x) => w.texts.extend(
                    (0..x.len() / 2).map(|i| x.get(2 * i..2 * i + 2).and_then(|h| u8::from_str_radix(h, 16).ok())).collect::<Option<Vec<u8>>>().and_then(|b| String::from_utf8(b).ok()),
                ),
                _ => {}
            }
        }
        w
    })
}

pub fn word(r: &mut Rng) -> Option<u64> {
    let w = &words().ints;
    if w.is_empty() || !r.chance(1, 6) {
        return None;
    }
    let x = *r.pick(w);
    Some(match r.below(8) {
        0 => x.wrapping_sub(1),
        1 => x.wrapping_add(1),
        2 => x.wrapping_add(r.below(12) as u64),
        3 => x.wrapping_mul(1 + r.below(3) as u64),
        4 => x.wrapping_add(*r.pick(w)),
        _ => x,
    })
}

pub fn word_below(r: &mut Rng, n: u64) -> Option<usize> {
    word(r).filter(|x| *x < n).map(|x| x as usize)
}

pub fn word_float(r: &mut Rng) -> Option<f64> {
    let w = &words().floats;
    if !w.is_empty() && r.chance(1, 6) {
        let x = *r.pick(w);
        return Some(f64::from_bits(x.to_bits().wrapping_add(r.range(-2, 2) as u64)));
    }
    word(r).map(|x| if r.chance(1, 2) { x as f64 } else { f64::from_bits(x) })
}

pub fn word_text(r: &mut Rng) -> Option<String> {
    let w = &words().texts;
    if w.is_empty() || !r.chance(1, 8) {
        return None;
    }
    let t = r.pick(w).clone();
    Some(match r.below(5) {
        0 => t + "x",
        1 => format!("x{}", t),
        2 => format!("{}{}", t, r.pick(w)),
        _ => t,
    })
}

pub fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    h
}

pub fn ch(r: &mut Rng) -> char {
    if let Some(c) = word(r).and_then(|x| std::char::from_u32(x as u32)) {
        return c;
    }
    match r.below(12) {
        0..=4 => (b'a' + r.below(26) as u8) as char,
        5 => *r.pick(&['"', '\\', '/', '\u{7f}', '\u{80}', ' ', '{', '}', '[', ']', ',', ':', '0', '-', 'u', 'e']),
        6 => std::char::from_u32(r.below(0x20) as u32).unwrap(),
        7 => std::char::from_u32(0x80 + r.below(0x780) as u32).unwrap(),
        8 => std::char::from_u32(0x800 + r.below(0xD000 - 0x800) as u32).unwrap(),
        9 => std::char::from_u32(0x10000 + r.below(0x100000) as u32).unwrap(),
        10 => std::char::from_u32(r.below(0x80) as u32).unwrap(),
        _ => *r.pick(&['\u{0}', '\u{1f}', '\u{20}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}', '\u{10ffff}', '\u{d7ff}', '\u{e000}', '\u{2028}', '\u{feff}', '\u{fffd}']),
    }
}

/// A length around which something could change; mostly moderate.
pub fn big(r: &mut Rng) -> usize {
    if let Some(n) = word_below(r, 80000) {
        if n > 0 {
            return n;
        }
    }
    let p = *r.pick(&[64usize, 100, 128, 256, 256, 512, 1000, 1024, 1024, 2048, 4096]);
    let p = if r.chance(1, 12) { *r.pick(&[8192usize, 16384, 32768, 65536, 65536, 70000]) } else { p };
    let n = match r.below(4) {
        0 => p + r.below(40),
        1 => p - r.below(40),
        _ => p + r.below(5) - 2,
    };
    n
}

pub fn string(r: &mut Rng) -> String {
    if let Some(t) = word_text(r) {
        return t;
    }
    let len = word_below(r, 600);
    let n = match if r.chance(1, 400) { 100 } else { r.below(10) } {
        100 => big(r),
        0 => 0,
        1..=5 => r.below(12),
        6 => 26 + r.below(10),
        7 => 28 + r.below(6),
        8 => r.below(80),
        _ => r.below(300),
    };
    let n = len.unwrap_or(n);
    let mut s = String::new();
    if r.chance(1, 16) {
        // a run of one character at the beginning or the end, or words of JSON
        let c = match r.below(3) {
            0 => *r.pick(&[' ', '\t', '\n', '\r', '\u{b}', '\u{c}', '\0', '\u{a0}', '\u{2028}', '\u{feff}', '0', '"', '\\', '/']),
            _ => ch(r),
        };
        let run: String = std::iter::repeat(c).take(r.below(n + 1)).collect();
        let other = (0..r.below(12)).map(|_| ch(r)).collect::<String>();
        return match r.below(3) {
            0 => run + &other,
            1 => other + &run,
            _ => (*r.pick(&["true", "false", "null", "0", "-1", "1e5", "{}", "[]", "nan", "\"", "\\u0041", "\\n", "//", "</", "a.b", "$", "-0"])).to_string(),
        };
    }
    let plain = r.chance(1, 2);
    while s.len() < n {
        if plain {
            s.push((b'a' + r.below(26) as u8) as char);
        } else {
            s.push(ch(r));
        }
    }
    s
}

pub fn key(r: &mut Rng) -> String {
    if let Some(t) = word_text(r) {
        return t;
    }
    match r.below(12) {
        0..=4 => ["a", "b", "c", "d", "e", "f", "g", "h"][r.below(8)].to_string(),
        5 | 6 => {
            let mut s = if r.chance(1, 2) { COLLIDE[r.below(2)].to_string() } else { let i = r.below(2); colliding(r)[i].clone() };
            let n = *r.pick(&[0usize, 0, 0, 0, 0, 1, 12, 13, 20, 70, 300]);
            for _ in 0..n {
                s.push('x');
            }
            s
        }
        7 => "".to_string(),
        8 => {
            let n = 30 + r.below(5);
            let c = (b'p' + r.below(3) as u8) as char;
            std::iter::repeat(c).take(n).collect()
        }
        _ => string(r),
    }
}

pub fn mantissa(r: &mut Rng) -> u64 {
    if let Some(x) = word(r) {
        return x;
    }
    match r.below(14) {
        0 => r.below(20) as u64,
        1 => 10u64.pow(r.below(20) as u32),
        2 => 10u64.pow(r.below(20) as u32).wrapping_sub(1 + r.below(3) as u64),
        3 => 10u64.pow(r.below(20) as u32).wrapping_add(1 + r.below(3) as u64),
        4 => u64::MAX - r.below(20) as u64,
        5 => (1u64 << r.below(64)).wrapping_add(r.below(3) as u64).wrapping_sub(1),
        6 => MAX_PRECISION + r.below(5) as u64 - 2,
        7 => r.u64() >> r.below(64),
        8 => (1 + r.below(99) as u64) * 10u64.pow(r.below(18) as u32),
        9 => 0,
        10 => {
            // a random number with exactly k digits
            let k = 1 + r.below(19) as u32;
            let lo = 10u64.pow(k - 1);
            lo + r.u64() % (lo * 9)
        }
        11 => 10_000_000_000_000_000_000 + r.u64() % (u64::MAX - 10_000_000_000_000_000_000),
        12 => {
            // digits with runs of zeros and nines
            let mut m: u64 = 0;
            let n = 1 + r.below(19);
            let mut d = 1 + r.below(9) as u64;
            for _ in 0..n {
                m = m * 10 + d;
                if r.chance(1, 3) {
                    d = *r.pick(&[0u64, 0, 9, 1, 5]);
                }
            }
            m
        }
        _ => r.u64(),
    }
}

pub fn exponent(r: &mut Rng) -> i16 {
    if let Some(x) = word(r) {
        return if r.chance(1, 2) { x as i16 } else { (x as i16).wrapping_neg() };
    }
    match r.below(10) {
        0 | 1 => 0,
        2..=5 => r.range(-45, 45) as i16,
        6 => *r.pick(&[i16::MIN, i16::MIN + 1, i16::MAX, i16::MAX - 1, -32750, 32750, -330, -308, -309, 308, 309, 256, -256, 255]),
        7 => r.range(-400, 400) as i16,
        _ => r.u64() as i16,
    }
}

pub fn num(r: &mut Rng) -> Num {
    Num::parts(r.chance(1, 3), mantissa(r), exponent(r))
}

/// Wide, or deep: sizes the recursive generator does not reach.
pub fn large(r: &mut Rng, nan: bool) -> RV {
    let inner = match r.below(4) {
        0 => {
            let mut v = value(r, 1, nan);
            let kind = r.below(3);
            let depth = *r.pick(&[20usize, 64, 100, 128, 200, 255, 256, 257, 300, 450]);
            for _ in 0..word_below(r, 460).unwrap_or(depth) {
                let obj = match kind { 0 => false, 1 => true, _ => r.chance(1, 2) };
                v = if obj { RV::Obj(vec![("k".into(), v)]) } else { RV::Arr(vec![v]) };
            }
            v
        }
        1 => {
            let n = big(r);
            let x = value(r, 1, nan);
            let mut a: Vec<RV> = Vec::new();
            for _ in 0..n {
                a.push(if r.chance(1, 2) { RV::Num(Num::parts(false, r.below(20) as u64, 0)) } else { RV::Null });
            }
            for _ in 0..2 {
                let i = r.below(n + 1);
                a.insert(i, x.clone());
            }
            RV::Arr(a)
        }
        _ => {
            let n = big(r).min(1300);
            let x = value(r, 1, nan);
            let mut o: Vec<(String, RV)> = Vec::new();
            for i in 0..n {
                o.push((format!("k{}", i), if r.chance(1, 2) { RV::Num(Num::parts(false, r.below(20) as u64, 0)) } else { RV::Null }));
            }
            for i in 0..2 {
                let at = r.below(n + 1);
                o.insert(at, (format!("x{}", i), x.clone()));
            }
            RV::Obj(o)
        }
    };
    match r.below(4) {
        0 => RV::Arr(vec![RV::Null, inner, RV::Null]),
        1 => RV::Obj(vec![("a".into(), inner), ("b".into(), RV::Null)]),
        _ => inner,
    }
}

pub fn value(r: &mut Rng, depth: usize, nan: bool) -> RV {
    if depth > 1 && r.chance(1, 1000) {
        return large(r, nan);
    }
    let some = if depth == 2 { word_below(r, 100) } else if depth > 0 { word_below(r, 20) } else { None };
    let n = if depth == 0 { 8 } else { 12 };
    match r.below(n) {
        0 => RV::Null,
        1 => RV::Bool(r.chance(1, 2)),
        2 | 3 => RV::Num(if nan && r.chance(1, 8) { Num::nan() } else { num(r) }),
        4 => RV::Num(Num::parts(r.chance(1, 3), r.below(1000) as u64, 0)),
        5 | 6 => RV::Str(string(r)),
        7 => if r.chance(1, 2) { RV::Arr(vec![]) } else { RV::Obj(vec![]) },
        8 | 9 => {
            let k = some.unwrap_or(*r.pick(&[0usize, 1, 1, 2, 3, 4, 7]));
            RV::Arr((0..k).map(|_| value(r, depth - 1, nan)).collect())
        }
        _ => {
            let k = some.unwrap_or(*r.pick(&[0usize, 1, 1, 2, 3, 4, 9]));
            let mut o: Vec<(String, RV)> = Vec::new();
            for _ in 0..k {
                let key = key(r);
                if o.iter().all(|(x, _)| *x != key) {
                    o.push((key, value(r, depth - 1, nan)));
                }
            }
            RV::Obj(o)
        }
    }
}

pub fn ws(r: &mut Rng, out: &mut String) {
    if r.chance(1, 4) {
        for _ in 0..r.below(4) {
            out.push(*r.pick(&[' ', '\n', '\t', '\r', '\u{b}', '\u{c}']));
        }
    }
}

pub fn literal(r: &mut Rng) -> String {
    let mut s = String::new();
    if r.chance(1, 3) {
        s.push('-');
    }
    match r.below(9) {
        0 => s.push('0'),
        1 | 2 => s.push_str(&mantissa(r).to_string()),
        3 => {
            s.push_str(&(u64::MAX / 10 - r.below(3) as u64).to_string());
            for _ in 0..r.below(4) {
                s.push((b'0' + r.below(10) as u8) as char);
            }
        }
        4 => {
            s.push_str(&(MAX_PRECISION / 10 + r.below(5) as u64 - 2).to_string());
            for _ in 0..r.below(4) {
                s.push((b'0' + r.below(10) as u8) as char);
            }
        }
        5 => {
            s.push((b'1' + r.below(9) as u8) as char);
            for _ in 0..r.below(30) {
                s.push((b'0' + r.below(10) as u8) as char);
            }
        }
        6 => {
            s.push_str(&r.below(1000).to_string());
        }
        7 => {
            s.push((b'1' + r.below(9) as u8) as char);
            for _ in 0..r.below(30) {
                s.push('0');
            }
        }
        _ => s.push_str(&r.below(10).to_string()),
    }
    if let Some(n) = word_below(r, 300) {
        for _ in 0..n {
            s.push(*r.pick(&['0', '9', '5']));
        }
    }
    if r.chance(1, 2) {
        s.push('.');
        let z = if r.chance(1, 3) { r.below(30) } else { 0 };
        let z = word_below(r, 400).unwrap_or(z);
        for _ in 0..z {
            s.push('0');
        }
        let n = *r.pick(&[1usize, 1, 2, 3, 5, 10, 17, 18, 19, 20, 21, 25, 40]);
        for _ in 0..n {
            s.push((b'0' + r.below(10) as u8) as char);
        }
    }
    if r.chance(1, 2) {
        s.push(*r.pick(&['e', 'E']));
        match r.below(3) {
            0 => s.push('-'),
            1 => s.push('+'),
            _ => {}
        }
        if r.chance(1, 8) {
            s.push_str("00");
        }
        let far = word(r).unwrap_or(8);
        match if far != 8 { 9 } else { r.below(6) } {
            9 => s.push_str(&far.to_string()),
            0 => s.push_str(&r.below(10).to_string()),
            1 | 2 => s.push_str(&r.below(400).to_string()),
            3 => s.push_str(&(32740 + r.below(60)).to_string()),
            4 => s.push_str(&r.below(100000).to_string()),
            _ => s.push_str(*r.pick(&["32767", "32768", "32769", "65535", "65536", "3276", "327670", "99999999999999999999", "18446744073709551616"])),
        }
    }
    s
}

pub fn string_text(r: &mut Rng, out: &mut String) {
    out.push('"');
    let n = match if r.chance(1, 400) { 100 } else { r.below(6) } {
        100 => big(r),
        0 => 0,
        1 | 2 => r.below(6),
        3 => 26 + r.below(12),
        4 => r.below(20),
        _ => r.below(90),
    };
    let n = word_below(r, 600).unwrap_or(n);
    if let Some(t) = word_text(r) {
        for c in t.chars() {
            if c < ' ' || c == '"' || c == '\\' || r.chance(1, 20) && (c as u32) < 0xd800 {
                hex(r, c as u32, out);
            } else {
                out.push(c);
            }
        }
    }
    let plain = r.chance(1, 3);
    let start = out.len();
    while out.len() - start < n {
        match if plain { 0 } else { r.below(8) } {
            0..=3 => out.push((b'a' + r.below(26) as u8) as char),
            4 => {
                let c = ch(r);
                if c >= ' ' && c != '"' && c != '\\' {
                    out.push(c);
                }
            }
            5 => {
                out.push('\\');
                out.push(*r.pick(&['"', '\\', '/', 'b', 'f', 'n', 'r', 't']));
            }
            6 => {
                let mut c = r.below(0x10000) as u32;
                if r.chance(1, 3) {
                    c = *r.pick(&[0, 0x1f, 0x7f, 0x80, 0xff, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xffff, 0x22, 0x5c, 0x2028]);
                }
                if let Some(x) = word_below(r, 0x10000) {
                    c = x as u32;
                }
                if (0xd800..0xe000).contains(&c) {
                    c = 0x41;
                }
                hex(r, c, out);
            }
            _ => {
                let hi = 0xd800 + *r.pick(&[0u32, 1, 0x3ff, 0x200, 0x3d]);
                let lo = 0xdc00 + *r.pick(&[0u32, 1, 0x3ff, 0x200, 0xfe]);
                let (hi, lo) = match word(r) {
                    Some(x) if x >= 0x10000 && x < 0x110000 => (0xd800 + ((x as u32 - 0x10000) >> 10), 0xdc00 + (x as u32 & 0x3ff)),
                    Some(x) if x >= 0xd800 && x < 0xdc00 => (x as u32, lo),
                    Some(x) if x >= 0xdc00 && x < 0xe000 => (hi, x as u32),
                    _ => (hi, lo),
                };
                hex(r, hi, out);
                hex(r, lo, out);
            }
        }
    }
    out.push('"');
}

pub fn hex(r: &mut Rng, c: u32, out: &mut String) {
    out.push_str("\\u");
    let t = format!("{:04x}", c);
    for x in t.chars() {
        out.push(if r.chance(1, 2) { x.to_ascii_uppercase() } else { x });
    }
}

/// Many members, many lines, long runs of white space.
pub fn large_text(r: &mut Rng, out: &mut String) {
    let kind = r.below(4);
    let n = big(r).min(if kind == 1 || kind == 2 { 1300 } else { 70000 });
    let odd = r.below(n);
    if kind == 3 {
        for _ in 0..n {
            out.push(*r.pick(&[' ', '\n', '\n', '\t', '\r']));
        }
        text(r, 2, out);
        return;
    }
    out.push(if kind == 0 { '[' } else { '{' });
    let sep = *r.pick(&[",", ",\n", " , ", ",é".get(0..1).unwrap()]);
    for i in 0..n {
        if i > 0 {
            out.push_str(sep);
        }
        if kind > 0 {
            // in the second kind, keys repeat
            out.push_str(&format!("\"k{}\":", if kind == 1 { i } else { i * 7 % (n / 2 + 1) }));
        }
        if i == odd {
            text(r, 2, out);
        } else {
            out.push_str(*r.pick(&["1", "[]", "{}", "null", "\"é\"", "12.5"]));
        }
    }
    out.push(if kind == 0 { ']' } else { '}' });
}

pub fn text(r: &mut Rng, depth: usize, out: &mut String) {
    if depth > 2 && r.chance(1, 4000) {
        return large_text(r, out);
    }
    ws(r, out);
    let n = if depth == 0 { 8 } else { 13 };
    match r.below(n) {
        0 => out.push_str("null"),
        1 => out.push_str("true"),
        2 => out.push_str("false"),
        3 | 4 => out.push_str(&literal(r)),
        5 | 6 => string_text(r, out),
        7 => out.push_str(*r.pick(&["[]", "{}", "[ ]", "{\n}", "0", "-0"])),
        8..=10 => {
            out.push('[');
            let k = *r.pick(&[0usize, 1, 1, 2, 3, 5]);
            let k = word_below(r, if depth > 2 { 70 } else { 12 }).unwrap_or(k);
            for i in 0..k {
                if i > 0 {
                    out.push(',');
                }
                text(r, depth - 1, out);
            }
            ws(r, out);
            out.push(']');
        }
        _ => {
            out.push('{');
            let k = *r.pick(&[0usize, 1, 1, 2, 3, 6]);
            let k = word_below(r, if depth > 2 { 70 } else { 12 }).unwrap_or(k);
            // keys with equal hashes, and a suffix they share
            let pair = if k >= 2 && r.chance(1, 4) { Some((colliding(r), "q".repeat(*r.pick(&[0usize, 0, 9, 28, 40])))) } else { None };
            for i in 0..k {
                if i > 0 {
                    out.push(',');
                }
                ws(r, out);
                if let (Some((p, suffix)), true) = (&pair, i < 2 || r.chance(1, 2)) {
                    out.push('"');
                    out.push_str(&p[i % 2]);
                    out.push_str(suffix);
                    out.push('"');
                } else if r.chance(1, 2) {
                    out.push('"');
                    out.push_str(*r.pick(&["a", "b", "c", "\\u0061", "", "8yn0iYCKYHlIj4-BwPqk", "GReLUrM4wMqfg9yzV3KQ"]));
                    out.push('"');
                } else {
                    string_text(r, out);
                }
                ws(r, out);
                out.push(':');
                text(r, depth - 1, out);
            }
            ws(r, out);
            out.push('}');
        }
    }
    ws(r, out);
}

pub fn nested(r: &mut Rng, n: usize) -> String {
    let mut s = String::new();
    let mut close = Vec::new();
    let kind = r.below(3);
    for _ in 0..n {
        let obj = match kind { 0 => false, 1 => true, _ => r.chance(1, 2) };
        if obj {
            s.push_str(*r.pick(&["{\"k\":", "{\"a\":1,\"k\":", "{ \"\" : "]));
            close.push(*r.pick(&["}", ",\"z\":2}", "\n}"]));
        } else {
            s.push_str(*r.pick(&["[", "[1,", "[[],", "[ {} ,"]));
            close.push(*r.pick(&["]", ",2]", " ]"]));
        }
    }
    s.push_str(*r.pick(&["1", "[]", "{}", "\"x\"", "[1]", "{\"q\":1}", "[", "", "x", "[]]"]));
    while let Some(c) = close.pop() {
        s.push_str(c);
    }
    s
}

pub const ALPHABET: [&str; 44] = [
    "\"", "\\", "/", "{", "}", "[", "]", ",", ":", "0", "1", "9", "-", "+", ".", "e", "E", "t", "r", "u", "f", "n", "l", "a", "b", "x", "\n", "\r", "\t", " ",
    "\u{0}", "\u{8}", "\u{e}", "\u{1f}", "\u{7f}", "\u{80}", "\u{e9}", "\u{20ac}", "\u{1f600}", "d", "D", "\u{a0}", "\u{2028}", "c",
];

/// A valid text with one to three edits: a text near the border of the language.
pub fn mutate(r: &mut Rng, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    if r.chance(1, 8) {
        // inside an escape, a neighbour of what may stand there
        let at: Vec<usize> = (0..c.len()).filter(|&i| c[i] == '\\').collect();
        if !at.is_empty() {
            let i = *r.pick(&at);
            let j = (i + 1 + if c.get(i + 1) == Some(&'u') { r.below(7) } else { r.below(2) }).min(c.len() - 1);
            c[j] = *r.pick(&['/', ':', '@', 'G', '`', 'g', 'A', 'F', 'a', 'f', '0', '9', '8', 'd', 'D', 'U', 'u', 'v', '"', '\'', ' ', '\u{bf}', '\u{e9}', '\u{130}', '\n']);
            return c.into_iter().collect();
        }
    }
    for _ in 0..1 + r.below(3) {
        let n = c.len();
        match r.below(7) {
            0 if n > 0 => {
                c.remove(r.below(n));
            }
            1 => {
                let x = r.pick(&ALPHABET).chars().next().unwrap();
                c.insert(r.below(n + 1), x);
            }
            2 | 3 if n > 0 => {
                let x = r.pick(&ALPHABET).chars().next().unwrap();
                let i = r.below(n);
                c[i] = x;
            }
            4 => {
                let k = r.below(n + 1);
                c.truncate(k);
            }
            5 if n > 1 => {
                let i = r.below(n - 1);
                c.swap(i, i + 1);
            }
            6 if n > 0 => {
                let i = r.below(n);
                let x = c[i];
                c.insert(i, x);
            }
            _ => {}
        }
    }
    c.into_iter().collect()
}
