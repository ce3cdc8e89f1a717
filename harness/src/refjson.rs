//! The reference: what a JSON text denotes, or where and how it is wrong.
use crate::dec::Dec;
use json::JsonValue;
use json::number::Number;

#[derive(Clone, Debug, PartialEq)]
pub struct Num {
    pub nan: bool,
    pub neg: bool,
    pub m: u64,
    pub e: i64,
    /// The literal, when the number was parsed.
    pub lit: Option<String>,
    /// The exact value can be stored: no digit was dropped that mattered, no exponent was clamped.
    pub exact: bool,
    pub clamped: bool,
}

impl Num {
    pub fn parts(neg: bool, m: u64, e: i16) -> Num {
        Num { nan: false, neg, m, e: e as i64, lit: None, exact: true, clamped: false }
    }
    pub fn nan() -> Num {
        Num { nan: true, neg: false, m: 0, e: 0, lit: None, exact: true, clamped: false }
    }
    pub fn dec(&self) -> Dec {
        Dec::from_u64(self.neg, self.m, self.e)
    }
    pub fn to_number(&self) -> Number {
        if self.nan {
            json::number::NAN
        } else {
            unsafe { Number::from_parts_unchecked(!self.neg, self.m, self.e as i16) }
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum RV {
    Null,
    Bool(bool),
    Num(Num),
    Str(String),
    Arr(Vec<RV>),
    Obj(Vec<(String, RV)>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum PErr {
    End,
    Depth,
    Utf8,
    Unexp(char, usize, usize),
}

pub const DEPTH: usize = 512;

struct P<'a> {
    s: &'a str,
    b: &'a [u8],
    i: usize,
    depth: usize,
}

type R<T> = Result<T, PErr>;

pub fn is_ws(c: u8) -> bool {
    c == b' ' || (9..=13).contains(&c)
}

pub fn parse(s: &str) -> Result<RV, PErr> {
    let mut p = P { s, b: s.as_bytes(), i: 0, depth: 0 };
    let c = p.skip_ws()?;
    let v = p.value(c)?;
    while p.i < p.b.len() {
        if !is_ws(p.b[p.i]) {
            return Err(p.unexp(p.i));
        }
        p.i += 1;
    }
    Ok(v)
}

impl<'a> P<'a> {
    fn unexp(&self, at: usize) -> PErr {
        let before = &self.s[..at];
        let ch = self.s[at..].chars().next().unwrap();
        let line = 1 + before.bytes().filter(|b| *b == b'\n').count();
        let start = before.rfind('\n').map(|x| x + 1).unwrap_or(0);
        PErr::Unexp(ch, line, 1 + before[start..].chars().count())
    }

    fn peek(&self) -> Option<u8> {
        self.b.get(self.i).copied()
    }

    /// The next byte, consumed.
    fn next(&mut self) -> R<u8> {
        match self.peek() {
            None => Err(PErr::End),
            Some(c) => {
                self.i += 1;
                Ok(c)
            }
        }
    }

    /// The next byte after whitespace, consumed.
    fn skip_ws(&mut self) -> R<u8> {
        loop {
            let c = self.next()?;
            if !is_ws(c) {
                return Ok(c);
            }
        }
    }

    fn word(&mut self, w: &str) -> R<()> {
        for x in w.bytes() {
            if self.next()? != x {
                return Err(self.unexp(self.i - 1));
            }
        }
        Ok(())
    }

    /// A value whose first byte `c` has been consumed.
    fn value(&mut self, c: u8) -> R<RV> {
        match c {
            b'n' => self.word("ull").map(|_| RV::Null),
            b't' => self.word("rue").map(|_| RV::Bool(true)),
            b'f' => self.word("alse").map(|_| RV::Bool(false)),
            b'"' => self.string().map(RV::Str),
            b'-' | b'0'..=b'9' => self.number(c).map(RV::Num),
            b'[' => {
                let mut c = self.skip_ws()?;
                let mut out = Vec::new();
                if c == b']' {
                    return Ok(RV::Arr(out));
                }
                if self.depth == DEPTH {
                    return Err(PErr::Depth);
                }
                self.depth += 1;
                loop {
                    out.push(self.value(c)?);
                    match self.skip_ws()? {
                        b',' => c = self.skip_ws()?,
                        b']' => break,
                        _ => return Err(self.unexp(self.i - 1)),
                    }
                }
                self.depth -= 1;
                Ok(RV::Arr(out))
            }
            b'{' => {
                let mut c = self.skip_ws()?;
                let mut out: Vec<(String, RV)> = Vec::new();
                if c == b'}' {
                    return Ok(RV::Obj(out));
                }
                if self.depth == DEPTH {
                    return Err(PErr::Depth);
                }
                self.depth += 1;
                loop {
                    if c != b'"' {
                        return Err(self.unexp(self.i - 1));
                    }
                    let k = self.string()?;
                    if self.skip_ws()? != b':' {
                        return Err(self.unexp(self.i - 1));
                    }
                    // the key keeps the place of its first occurrence
                    let at = match out.iter().position(|(x, _)| *x == k) {
                        Some(at) => at,
                        None => {
                            out.push((k, RV::Null));
                            out.len() - 1
                        }
                    };
                    let c2 = self.skip_ws()?;
                    let v = self.value(c2)?;
                    out[at].1 = v;
                    match self.skip_ws()? {
                        b',' => c = self.skip_ws()?,
                        b'}' => break,
                        _ => return Err(self.unexp(self.i - 1)),
                    }
                }
                self.depth -= 1;
                Ok(RV::Obj(out))
            }
            _ => Err(self.unexp(self.i - 1)),
        }
    }

    fn hex4(&mut self) -> R<u32> {
        let mut x = 0;
        for _ in 0..4 {
            let c = self.next()?;
            match (c as char).to_digit(16) {
                Some(d) if c < 128 => x = x * 16 + d,
                _ => return Err(self.unexp(self.i - 1)),
            }
        }
        Ok(x)
    }

    fn string(&mut self) -> R<String> {
        let mut out = String::new();
        loop {
            let at = self.i;
            let c = self.next()?;
            match c {
                b'"' => return Ok(out),
                b'\\' => {
                    let e = self.next()?;
                    match e {
                        b'"' | b'\\' | b'/' => out.push(e as char),
                        b'b' => out.push('\u{8}'),
                        b'f' => out.push('\u{c}'),
                        b'n' => out.push('\n'),
                        b'r' => out.push('\r'),
                        b't' => out.push('\t'),
                        b'u' => {
                            let a = self.hex4()?;
                            if (0xD800..0xE000).contains(&a) {
                                self.word("\\u")?;
                                let b = self.hex4()?;
                                if a >= 0xDC00 || !(0xDC00..0xE000).contains(&b) {
                                    return Err(PErr::Utf8);
                                }
                                let x = 0x10000 + ((a - 0xD800) << 10) + (b - 0xDC00);
                                out.push(std::char::from_u32(x).unwrap());
                            } else {
                                out.push(std::char::from_u32(a).unwrap());
                            }
                        }
                        _ => return Err(self.unexp(self.i - 1)),
                    }
                }
                0..=0x1f => return Err(self.unexp(at)),
                _ => {
                    let ch = self.s[at..].chars().next().unwrap();
                    out.push(ch);
                    self.i = at + ch.len_utf8();
                }
            }
        }
    }

    fn number(&mut self, first: u8) -> R<Num> {
        let start = self.i - 1;
        let mut c = first;
        let neg = c == b'-';
        if neg {
            c = self.next()?;
            if !c.is_ascii_digit() {
                return Err(self.unexp(self.i - 1));
            }
        }
        let mut m: u128 = 0;
        let mut e: i64 = 0;
        let mut exact = true;
        let fits = |m: u128, d: u8| m * 10 + (d - b'0') as u128 <= u64::MAX as u128;
        m = m * 10 + (c - b'0') as u128;
        if c != b'0' {
            while let Some(d) = self.peek() {
                if !d.is_ascii_digit() {
                    break;
                }
                self.i += 1;
                if fits(m, d) {
                    if e > 0 {
                        exact = false;
                    }
                    m = m * 10 + (d - b'0') as u128;
                } else {
                    if d != b'0' {
                        exact = false;
                    }
                    e += 1;
                    if e > 32767 {
                        return Err(PErr::Depth);
                    }
                }
            }
        }
        if self.peek() == Some(b'.') {
            self.i += 1;
            let mut n = 0;
            let mut dropped = false;
            loop {
                match self.peek() {
                    Some(d) if d.is_ascii_digit() => {
                        self.i += 1;
                        n += 1;
                        if fits(m, d) {
                            if dropped || e > 0 {
                                exact = false;
                            }
                            m = m * 10 + (d - b'0') as u128;
                            e -= 1;
                            if e < -32768 {
                                return Err(PErr::Depth);
                            }
                        } else {
                            if d != b'0' {
                                exact = false;
                            }
                            dropped = true;
                        }
                    }
                    None if n == 0 => return Err(PErr::End),
                    Some(_) if n == 0 => return Err(self.unexp(self.i)),
                    _ => break,
                }
            }
        }
        let mut clamped = false;
        if let Some(b'e') | Some(b'E') = self.peek() {
            self.i += 1;
            let mut c = self.next()?;
            let en = c == b'-';
            if c == b'-' || c == b'+' {
                c = self.next()?;
            }
            if !c.is_ascii_digit() {
                return Err(self.unexp(self.i - 1));
            }
            let mut x: i64 = (c - b'0') as i64;
            while let Some(d) = self.peek() {
                if !d.is_ascii_digit() {
                    break;
                }
                self.i += 1;
                x = std::cmp::min(x * 10 + (d - b'0') as i64, 1_000_000_000);
            }
            e += if en { -x } else { x };
            if e > 32767 {
                e = 32767;
                clamped = true;
            }
            if e < -32768 {
                e = -32768;
                clamped = true;
            }
        }
        Ok(Num { nan: false, neg, m: m as u64, e, lit: Some(self.s[start..self.i].to_string()), exact, clamped })
    }
}

// ---------------------------------------------------------------- comparison

pub fn short(s: &str) -> String {
    if s.len() <= 300 {
        return format!("{:?}", s);
    }
    let mut a = 200;
    while !s.is_char_boundary(a) {
        a -= 1;
    }
    let mut b = s.len() - 60;
    while !s.is_char_boundary(b) {
        b -= 1;
    }
    format!("{:?}...({} bytes)...{:?}", &s[..a], s.len(), &s[b..])
}

/// The number the code holds against the reference number.
pub fn same_num(n: &Number, r: &Num) -> Result<(), String> {
    if n.is_nan() || r.nan {
        return if n.is_nan() && r.nan { Ok(()) } else { Err(format!("NaN expected: {}, found: {}", r.nan, n.is_nan())) };
    }
    let (pos, m, e) = n.as_parts();
    let got = Dec::from_u64(!pos, m, e as i64);
    if pos == r.neg {
        return Err(format!("sign of {:?}: found parts ({}, {}, {})", r.lit, pos, m, e));
    }
    let want = match r.lit {
        // independent of how digits are accumulated
        Some(ref l) if !r.clamped => Dec::literal(l),
        _ => r.dec(),
    };
    if r.exact || r.clamped {
        if !got.same(&want) && !(got.is_zero() && want.is_zero()) {
            return Err(format!("value {} expected, found parts ({}, {}, {})", want.text(), pos, m, e));
        }
    } else if !got.close(&want) {
        return Err(format!("value within 1e-18 of {} expected, found parts ({}, {}, {})", want.text(), pos, m, e));
    }
    Ok(())
}

/// The value the code holds against the reference value, through the public interface.
fn compare(v: &JsonValue, r: &RV, numbers: bool) -> Result<(), String> {
    match r {
        RV::Null => if v.is_null() { Ok(()) } else { Err(format!("null expected, found {}", short(&v.dump()))) },
        RV::Bool(b) => if v.as_bool() == Some(*b) { Ok(()) } else { Err(format!("{} expected, found {}", b, short(&v.dump()))) },
        RV::Num(n) => match *v {
            JsonValue::Number(ref x) => if numbers { same_num(x, n) } else { Ok(()) },
            _ => Err(format!("a number expected, found {}", short(&v.dump()))),
        },
        RV::Str(s) => match v.as_str() {
            Some(x) if std::str::from_utf8(x.as_bytes()).is_err() => Err(format!("invalid UTF-8 in a string: {:?}", x.as_bytes())),
            Some(x) if x == s => Ok(()),
            Some(x) => Err(format!("string {} expected, found {}", short(s), short(x))),
            None => Err(format!("string {} expected, found {}", short(s), short(&v.dump()))),
        },
        RV::Arr(a) => {
            if !v.is_array() || v.len() != a.len() {
                return Err(format!("array of {} expected, found {}", a.len(), short(&v.dump())));
            }
            for (x, y) in v.members().zip(a) {
                compare(x, y, numbers)?;
            }
            Ok(())
        }
        RV::Obj(o) => {
            if !v.is_object() || v.len() != o.len() {
                return Err(format!("object of {} expected, found {}", o.len(), short(&v.dump())));
            }
            for ((k, x), (rk, y)) in v.entries().zip(o) {
                if std::str::from_utf8(k.as_bytes()).is_err() {
                    return Err(format!("invalid UTF-8 in a key: {:?}", k.as_bytes()));
                }
                if k != rk {
                    return Err(format!("key {} expected, found {}", short(rk), short(k)));
                }
                compare(x, y, numbers)?;
            }
            Ok(())
        }
    }
}

pub fn same(v: &JsonValue, r: &RV) -> Result<(), String> {
    compare(v, r, true)
}

/// Equal but for the values of numbers.
pub fn same_shape(v: &JsonValue, r: &RV) -> Result<(), String> {
    compare(v, r, false)
}

/// Build the value through the public interface; `how` selects among ways.
pub fn build(r: &RV, how: u64) -> JsonValue {
    match r {
        RV::Null => JsonValue::Null,
        RV::Bool(b) => (*b).into(),
        RV::Num(n) => n.to_number().into(),
        RV::Str(s) => if how & 1 == 0 { s.as_str().into() } else { s.clone().into() },
        RV::Arr(a) => {
            if how & 2 == 0 {
                let mut v = JsonValue::new_array();
                for x in a {
                    v.push(build(x, crate::rng::mix(how))).unwrap();
                }
                v
            } else {
                JsonValue::Array(a.iter().map(|x| build(x, crate::rng::mix(how))).collect())
            }
        }
        RV::Obj(o) => {
            let mut v = if how & 4 == 0 { JsonValue::new_object() } else { JsonValue::Object(json::object::Object::with_capacity((how >> 8) as usize % 5)) };
            for (k, x) in o {
                let x = build(x, crate::rng::mix(how));
                if how & 8 == 0 {
                    v.insert(k, x).unwrap();
                } else {
                    v[k.as_str()] = x;
                }
            }
            v
        }
    }
}
