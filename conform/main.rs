//! What contracts/*.rs assume of the standard library, run against it. Each group prints
//!   <name> <cases> whole|sampled ok
//! or  <name> <cases> whole|sampled FAIL <what>
//! The right-hand sides are the `ensures` of the stand-ins, written out; nothing here depends on /repo.
use std::convert::TryFrom;
use std::hint::black_box;
use std::io::Write;

struct R(u64);
impl R {
    fn u(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545f4914f6cdd1d)
    }
    fn below(&mut self, n: u64) -> u64 { self.u() % n }
    /// numbers of every size
    fn any(&mut self) -> u64 {
        match self.below(4) {
            0 => self.u() >> self.below(64),
            1 => (1u64 << self.below(64)).wrapping_add(self.below(5)).wrapping_sub(2),
            2 => u64::MAX - self.below(5),
            _ => self.u(),
        }
    }
}

type Res = Result<u64, String>;
fn scalar(x: u32) -> bool { x < 0xd800 || (0xe000 <= x && x < 0x110000) }

/// spec fn encode_scalar
fn encode(x: u32) -> Vec<u8> {
    if x < 0x80 { vec![x as u8] }
    else if x < 0x800 { vec![0xc0 + (x / 64) as u8, 0x80 + (x % 64) as u8] }
    else if x < 0x10000 { vec![0xe0 + (x / 4096) as u8, 0x80 + (x / 64 % 64) as u8, 0x80 + (x % 64) as u8] }
    else { vec![0xf0 + (x / 262144) as u8, 0x80 + (x / 4096 % 64) as u8, 0x80 + (x / 64 % 64) as u8, 0x80 + (x % 64) as u8] }
}

fn char_of(r: &mut R) -> Res {
    let mut n = 0;
    let mut one = |x: u32| -> Result<(), String> {
        n += 1;
        match char::try_from(black_box(x)) {
            Ok(c) if scalar(x) && c as u32 == x => Ok(()),
            Err(_) if !scalar(x) => Ok(()),
            other => Err(format!("{:x}: {:?}", x, other)),
        }
    };
    for x in 0..0x120000 { one(x)?; }
    for _ in 0..1000000 { one(r.any() as u32)?; }
    Ok(n)
}

fn decode_pair(_: &mut R) -> Res {
    let mut n = 0;
    for a in 0xd800..=0xdfffu16 {
        for b in 0..=0xffffu16 {
            n += 1;
            let got = std::char::decode_utf16([a, b].iter().copied()).next();
            let good = a <= 0xdbff && 0xdc00 <= b && b <= 0xdfff;
            let ok = match got {
                Some(Ok(c)) => good && c as u32 == 0x10000 + (a as u32 - 0xd800) * 0x400 + (b as u32 - 0xdc00),
                Some(Err(_)) => !good,
                None => false,
            };
            if !ok { return Err(format!("{:x} {:x}: {:?}", a, b, got)); }
        }
    }
    Ok(n)
}

fn push_char(_: &mut R) -> Res {
    let mut n = 0;
    for x in (0..0x110000).filter(|x| scalar(*x)) {
        n += 1;
        let c = char::try_from(x).unwrap();
        let mut v = vec![7u8];
        v.extend_from_slice(c.encode_utf8(&mut [0; 4]).as_bytes());
        let s: String = std::iter::once(c).collect();
        if v[0] != 7 || v[1..] != encode(x)[..] || s.as_bytes() != &encode(x)[..] || s.chars().next() != Some(c) || s.chars().count() != 1 { return Err(format!("{:x}", x)); }
    }
    Ok(n)
}

fn text(r: &mut R) -> Res {
    for n in 0..400000u64 {
        let chars: Vec<char> = (0..r.below(30)).map(|_| match r.below(5) { 0 => '\n', 1 => '\r', 2 => (r.below(128) as u8) as char, _ => loop { let x = r.below(0x110000) as u32 >> r.below(12); if let Ok(c) = char::try_from(x) { break c; } } }).collect();
        let s: String = chars.iter().collect();
        let bytes: Vec<u8> = chars.iter().flat_map(|c| encode(*c as u32)).collect();
        let bad = |w: &str| Err(format!("{}: {:?}", w, s));
        if s.len() != bytes.len() || s.as_bytes() != &bytes[..] { return bad("bytes"); }
        if s.chars().count() != chars.len() { return bad("count"); }
        let at = r.below(chars.len() as u64 + 1) as usize;
        let cut: usize = chars[..at].iter().map(|c| encode(*c as u32).len()).sum();
        if s[cut..].as_bytes() != &bytes[cut..] || s[..cut].as_bytes() != &bytes[..cut] { return bad("cut"); }
        if s[cut..].chars().next() != chars.get(at).copied() { return bad("first"); }
        // feeds and line_of
        let feeds = chars[..at].iter().filter(|c| **c == '\n').count();
        let line: Vec<char> = chars[..at].iter().rev().take_while(|c| **c != '\n').copied().collect();
        let (k, l) = s[..cut].split('\n').enumerate().last().unwrap_or((0, ""));
        if k != feeds || l.chars().rev().collect::<Vec<_>>() != line { return bad("last line"); }
        if n == 399999 { return Ok(n + 1); }
    }
    Ok(0)
}

fn hex4(_: &mut R) -> Res {
    for c in 0..=255u8 {
        let mut v = vec![1u8];
        write!(v, "{:04x}", c).unwrap();
        let h = |x: u8| if x < 10 { b'0' + x } else { b'a' + x - 10 };
        if v != [1, b'0', b'0', h(c / 16), h(c % 16)] { return Err(format!("{}", c)); }
    }
    Ok(256)
}

fn float32(_: &mut R) -> Res {
    use std::num::FpCategory::*;
    let fails: Vec<String> = (0..8u64).map(|k| std::thread::spawn(move || {
        for x in k << 29..(k + 1) << 29 {
            let b = x as u32;
            let d = f32::from_bits(b);
            let m = b & 0x7fff_ffff;
            let cat = d.classify();
            let neg = (-black_box(d)).to_bits();
            let mut ok = (cat == Nan) == (m > 0x7f80_0000) && (cat == Infinite) == (m == 0x7f80_0000) && (cat == Zero) == (m == 0)
                && d.is_sign_positive() == (b < 0x8000_0000) && (m > 0x7f80_0000 || neg == b ^ 0x8000_0000);
            if m < 0x7f80_0000 {
                let w = (black_box(d) as f64).to_bits();
                let wm = w & 0x7fff_ffff_ffff_ffff;
                // the same number: significand times power of two
                let (f, e) = if m >> 23 != 0 { ((m & 0x7f_ffff | 0x80_0000) as u64, (m >> 23) as i64 - 150) } else { (m as u64, -149) };
                let (g, h) = if wm >> 52 != 0 { (wm & 0xf_ffff_ffff_ffff | 0x10_0000_0000_0000, (wm >> 52) as i64 - 1075) } else { (wm, -1074) };
                ok = ok && wm < 0x7ff0_0000_0000_0000 && (w >> 63) as u32 == b >> 31 && (wm == 0) == (m == 0)
                    && (m == 0 || (e >= h && e - h < 64 && f.checked_mul(1 << (e - h)) == Some(g)));
            }
            if !ok { return Some(format!("{:x}", b)); }
        }
        None
    })).collect::<Vec<_>>().into_iter().filter_map(|t| t.join().unwrap()).collect();
    if fails.is_empty() { Ok(1 << 32) } else { Err(fails.join(" ")) }
}

fn any_f64(r: &mut R) -> u64 {
    match r.below(5) {
        0 => r.u() & 0x7ff0_0000_0000_0000 | r.below(3).wrapping_sub(1) & 0xf_ffff_ffff_ffff | (r.u() & 1 << 63),
        1 => r.u() & 0x800f_ffff_ffff_ffff,
        2 => 0x7ff0_0000_0000_0000 + r.below(5) - 2 | (r.u() & 1 << 63),
        _ => r.u(),
    }
}

fn float64(r: &mut R) -> Res {
    use std::num::FpCategory::*;
    for _ in 0..20_000_000u64 {
        let b = any_f64(r);
        let d = black_box(f64::from_bits(b));
        let m = b & 0x7fff_ffff_ffff_ffff;
        let cat = d.classify();
        let ok = (cat == Nan) == (m > 0x7ff0_0000_0000_0000) && (cat == Infinite) == (m == 0x7ff0_0000_0000_0000) && (cat == Zero) == (m == 0)
            && d.is_sign_positive() == (b >> 63 == 0) && (m > 0x7ff0_0000_0000_0000 || (-d).to_bits() == b ^ 1 << 63)
            && (d == 0.0) == (m == 0) && (m > 0x7ff0_0000_0000_0000 || d.to_bits() == b);
        if !ok { return Err(format!("{:x}", b)); }
        // ==
        let c = match r.below(4) { 0 => b, 1 => b ^ 1 << 63, 2 => b ^ 1 << r.below(64), _ => any_f64(r) };
        let k = c & 0x7fff_ffff_ffff_ffff;
        let want = m <= 0x7ff0_0000_0000_0000 && k <= 0x7ff0_0000_0000_0000 && (b == c || m == 0 && k == 0);
        if (d == black_box(f64::from_bits(c))) != want { return Err(format!("{:x} == {:x}", b, c)); }
        let (b, c) = (b as u32, (b ^ ((b ^ c) & 0xffff_ffff)) as u32 ^ match r.below(3) { 0 => 0, 1 => 1 << 31, _ => 1 << r.below(32) });
        let (m, k) = (b & 0x7fff_ffff, c & 0x7fff_ffff);
        let want = m <= 0x7f80_0000 && k <= 0x7f80_0000 && (b == c || m == 0 && k == 0);
        if (black_box(f32::from_bits(b)) == black_box(f32::from_bits(c))) != want { return Err(format!("{:x} == {:x}", b, c)); }
    }
    Ok(60_000_000)
}

/// floats as significand and exponent
fn parts64(b: u64) -> (u128, i64) { if b >> 52 != 0 { ((b & 0xf_ffff_ffff_ffff | 0x10_0000_0000_0000) as u128, (b >> 52) as i64 - 1075) } else { (b as u128, -1074) } }
fn parts32(b: u32) -> (u128, i64) { if b >> 23 != 0 { ((b & 0x7f_ffff | 0x80_0000) as u128, (b >> 23) as i64 - 150) } else { (b as u128, -149) } }

/// Is n/d * 2^e rounded to (f, g), a float with p bits, least exponent lo, or to infinity?
/// |x - v| <= x 2^-p + 2^(lo - 1) and x < over when finite; x >= over when infinite; all exactly.
/// over = 2^top - 2^(top - p - 1).
fn near(n: u128, d: u128, e: i64, res: Option<(u128, i64)>, p: u32, top: i64) -> bool {
    use std::cmp::Ordering::*;
    // compare a 2^i with b 2^j, a and b below 2^120
    fn cmp(a: u128, i: i64, b: u128, j: i64) -> std::cmp::Ordering {
        if a == 0 || b == 0 { return a.cmp(&b); }
        let (x, y) = (128 - a.leading_zeros() as i64 + i, 128 - b.leading_zeros() as i64 + j);
        if x != y { return x.cmp(&y); }
        let (za, zb) = (a.leading_zeros(), b.leading_zeros());
        (a << za).cmp(&(b << zb))
    }
    // x against over: n 2^e against d (2^(p+1) - 1) 2^(top - p - 1)
    let over = cmp(n, e, d * ((1 << (p + 1)) - 1), top - p as i64 - 1);
    match res {
        None => over != Less,
        Some((f, g)) => {
            if over != Less { return false; }
            if n == 0 { return f == 0; }
            // (f - 1/2) 2^g <= n 2^e / d <= (f + 1/2) 2^g: half a unit, which is within the contract's bound
            cmp(2 * n, e, (2 * f + 1) * d, g) != Greater && (f == 0 || cmp(2 * n, e, (2 * f - 1) * d, g) != Less)
        }
    }
}

fn arith(r: &mut R) -> Res {
    for _ in 0..8_000_000u64 {
        let (a, b) = (any_f64(r) & !(1 << 63), any_f64(r) & !(1 << 63));
        let inf = 0x7ff0_0000_0000_0000u64;
        if a < inf && b < inf {
            let ((m, e), (k, h)) = (parts64(a), parts64(b));
            let z = (black_box(f64::from_bits(a)) * black_box(f64::from_bits(b))).to_bits();
            let res = if z == inf { None } else { Some(parts64(z)) };
            if z > inf || !near(m * k, 1, e + h, res, 53, 1024) { return Err(format!("{:x} * {:x} = {:x}", a, b, z)); }
            if b != 0 {
                let z = (black_box(f64::from_bits(a)) / black_box(f64::from_bits(b))).to_bits();
                let res = if z == inf { None } else { Some(parts64(z)) };
                if z > inf || !near(m, k, e - h, res, 53, 1024) { return Err(format!("{:x} / {:x} = {:x}", a, b, z)); }
            }
        } else if a < inf && b == inf {
            if a != 0 && (f64::from_bits(a) * f64::from_bits(b)).to_bits() != inf || (f64::from_bits(a) / f64::from_bits(b)).to_bits() != 0 { return Err(format!("{:x} and infinity", a)); }
        }
        let (a, b) = (r.any() as u32 & 0x7fff_ffff, r.any() as u32 & 0x7fff_ffff);
        let inf = 0x7f80_0000u32;
        if a < inf && b < inf {
            let ((m, e), (k, h)) = (parts32(a), parts32(b));
            let z = (black_box(f32::from_bits(a)) * black_box(f32::from_bits(b))).to_bits();
            let res = if z == inf { None } else { Some(parts32(z)) };
            if z > inf || !near(m * k, 1, e + h, res, 24, 128) { return Err(format!("f32 {:x} * {:x} = {:x}", a, b, z)); }
            if b != 0 {
                let z = (black_box(f32::from_bits(a)) / black_box(f32::from_bits(b))).to_bits();
                let res = if z == inf { None } else { Some(parts32(z)) };
                if z > inf || !near(m, k, e - h, res, 24, 128) { return Err(format!("f32 {:x} / {:x} = {:x}", a, b, z)); }
            }
        }
        let m = r.any();
        let (x, y) = ((black_box(m) as f64).to_bits(), (black_box(m) as f32).to_bits());
        if !near(m as u128, 1, 0, Some(parts64(x)), 53, 1024) || !near(m as u128, 1, 0, Some(parts32(y)), 24, 128) { return Err(format!("{} as float", m)); }
    }
    Ok(8_000_000 * 6)
}

fn integers(r: &mut R) -> Res {
    let mut n = 0;
    for e in 0..=200u32 {
        // 10^e mod 2^64 by repeated multiplication
        let want = (0..e).fold(1u64, |p, _| ((p as u128 * 10) % (1u128 << 64)) as u64);
        if black_box(10u64).wrapping_pow(e) != want { return Err(format!("wrapping_pow {}", e)); }
    }
    for x in i16::MIN..=i16::MAX {
        n += 1;
        let w = x as i64;
        if x.checked_abs().map(i64::from) != (if x == i16::MIN { None } else { Some(w.max(-w)) }) || x.unsigned_abs() as i64 != w.max(-w) { return Err(format!("abs {}", x)); }
        let y = x as i8;
        let w = y as i64;
        if y.checked_abs().map(i64::from) != (if y == i8::MIN { None } else { Some(w.max(-w)) }) || y.unsigned_abs() as i64 != w.max(-w) { return Err(format!("abs {}", y)); }
    }
    for _ in 0..3_000_000 {
        n += 1;
        let (u, v) = (r.any(), r.any());
        let (x, y) = (u as i64, v as i64);
        let w = x as i128;
        let neg = x.wrapping_neg();
        let ok = neg == (if x == i64::MIN { x } else { -x }) && x.checked_abs().map(i128::from) == (if x == i64::MIN { None } else { Some(w.max(-w)) })
            && x.unsigned_abs() as i128 == w.max(-w) && i64::try_from(u).ok() == (if u < 1 << 63 { Some(u as i64) } else { None })
            && u64::try_from(u).ok() == Some(u) && (x as isize).unsigned_abs() as i128 == w.max(-w);
        let (p, q) = (x as i32, y as i32);
        let sat = |z: i64| z.max(i32::MIN as i64).min(i32::MAX as i64);
        let ok = ok && p.saturating_add(q) as i64 == sat(p as i64 + q as i64) && p.saturating_sub(q) as i64 == sat(p as i64 - q as i64)
            && p.saturating_mul(q) as i64 == sat(p as i64 * q as i64) && p.unsigned_abs() as i64 == (p as i64).max(-(p as i64));
        if !ok { return Err(format!("{} {}", x, y)); }
    }
    Ok(n)
}

fn vectors(r: &mut R) -> Res {
    for _ in 0..200000u64 {
        let v: Vec<u8> = (0..r.below(12)).map(|_| r.u() as u8).collect();
        let mut w = v.clone();
        let k = r.u() as u8;
        match w.last_mut() {
            None => if !v.is_empty() { return Err("last_mut".into()); },
            Some(x) => { *x = k; let mut e = v[..v.len() - 1].to_vec(); e.push(k); if w != e { return Err("last_mut".into()); } }
        }
        let (mut a, mut b) = (v.clone(), vec![k]);
        std::mem::swap(&mut a, &mut b);
        if a != [k] || b != v { return Err("swap".into()); }
        let old = std::mem::replace(&mut a, v.clone());
        if old != [k] || a != v { return Err("replace".into()); }
        let (s, e) = { let s = r.below(v.len() as u64 + 1) as usize; (s, s + r.below((v.len() - s) as u64 + 1) as usize) };
        let mut x = vec![k];
        x.extend_from_slice(&v[s..e]);
        if x.len() != 1 + e - s || x[0] != k || (s..e).any(|i| x[1 + i - s] != v[i]) { return Err("extend_from_slice".into()); }
        let mut y = Vec::with_capacity(v.len());
        y.reserve(v.len());
        if !y.is_empty() || y.capacity() < v.len() { return Err("reserve".into()); }
        y.extend_from_slice(&v);
        // a block that is leaked is given back; its capacity is its length
        let mut boxed = v.to_vec();
        if boxed.capacity() != boxed.len() { return Err("to_vec: the capacity is not the length".into()); }
        let p = boxed.as_mut_ptr();
        let n = boxed.len();
        std::mem::forget(boxed);
        if unsafe { Vec::from_raw_parts(p, n, n) } != v { return Err("from_raw_parts".into()); }
    }
    Ok(200000)
}

fn display(r: &mut R) -> Res {
    for _ in 0..200000u64 {
        let s: String = (0..r.below(9)).map(|_| char::try_from((r.below(0x110000) as u32) >> r.below(14)).unwrap_or('x')).collect();
        if format!("{}", s) != s || format!("{:#}", s) != s || format!("{}", &s[..]) != s || format!("{}", true) != "true" || format!("{:#}", false) != "false" { return Err(s); }
    }
    Ok(200000)
}

fn main() {
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let groups: [(&str, &str, fn(&mut R) -> Res); 12] = [
        ("char_of", "whole", char_of), ("decode_pair", "whole", decode_pair), ("push_char", "whole", push_char), ("text", "sampled", text),
        ("write_hex4", "whole", hex4), ("float32", "whole", float32), ("float64", "sampled", float64), ("arithmetic", "sampled", arith),
        ("integers", "sampled", integers), ("vectors", "sampled", vectors), ("display", "sampled", display), ("end", "whole", |_| Ok(0)),
    ];
    let only: Vec<String> = std::env::args().skip(1).collect();
    for (name, how, f) in groups.iter() {
        if !only.is_empty() && !only.iter().any(|x| x == name) && *name != "end" { continue; }
        match f(&mut R(seed.wrapping_mul(0x9e3779b97f4a7c15) | 1)) {
            Ok(n) => println!("{} {} {} ok", name, n, how),
            Err(w) => println!("{} 0 {} FAIL {}", name, how, w),
        }
    }
}
