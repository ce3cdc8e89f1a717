//! Exact decimal numbers as digit strings: the oracle for number values.

/// (-1)^neg * 0.d1d2d3.. style canonical form: digits without leading or
/// trailing zeros, value = digits * 10^exp. Zero has no digits.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Dec {
    pub neg: bool,
    pub digits: Vec<u8>,
    pub exp: i64,
}

impl Dec {
    pub fn new(neg: bool, digits: &[u8], exp: i64) -> Dec {
        let mut d: Vec<u8> = digits.iter().copied().skip_while(|c| *c == 0).collect();
        let mut exp = exp;
        while d.last() == Some(&0) {
            d.pop();
            exp += 1;
        }
        if d.is_empty() {
            exp = 0;
        }
        Dec { neg, digits: d, exp }
    }

    pub fn from_u64(neg: bool, m: u64, e: i64) -> Dec {
        let s = m.to_string();
        let d: Vec<u8> = s.bytes().map(|b| b - b'0').collect();
        Dec::new(neg, &d, e)
    }

    pub fn is_zero(&self) -> bool {
        self.digits.is_empty()
    }

    /// Equal as values, the sign of zero ignored.
    pub fn same(&self, o: &Dec) -> bool {
        (self.is_zero() && o.is_zero()) || self == o
    }

    /// Text that std's correctly rounded parsers read.
    pub fn text(&self) -> String {
        let mut s = String::new();
        if self.neg {
            s.push('-');
        }
        if self.digits.is_empty() {
            s.push('0');
        }
        for d in &self.digits {
            s.push((d + b'0') as char);
        }
        s.push('e');
        s.push_str(&self.exp.to_string());
        s
    }

    /// The literal's exact value, from JSON number syntax (already known valid).
    pub fn literal(t: &str) -> Dec {
        let b = t.as_bytes();
        let mut i = 0;
        let neg = b[0] == b'-';
        if neg {
            i = 1;
        }
        let mut digits = Vec::new();
        let mut exp = 0i64;
        while i < b.len() && b[i].is_ascii_digit() {
            digits.push(b[i] - b'0');
            i += 1;
        }
        if i < b.len() && b[i] == b'.' {
            i += 1;
            while i < b.len() && b[i].is_ascii_digit() {
                digits.push(b[i] - b'0');
                exp -= 1;
                i += 1;
            }
        }
        if i < b.len() && (b[i] == b'e' || b[i] == b'E') {
            i += 1;
            let mut en = false;
            if b[i] == b'+' || b[i] == b'-' {
                en = b[i] == b'-';
                i += 1;
            }
            let mut x = 0i64;
            while i < b.len() && b[i].is_ascii_digit() {
                x = std::cmp::min(x * 10 + (b[i] - b'0') as i64, 1_000_000_000);
                i += 1;
            }
            exp += if en { -x } else { x };
        }
        Dec::new(neg, &digits, exp)
    }

    /// |a - b| * 10^18 < |b|, same sign: relative error below 10^-18.
    pub fn close(&self, o: &Dec) -> bool {
        if self.is_zero() || o.is_zero() {
            return self.is_zero() && o.is_zero();
        }
        if self.neg != o.neg {
            return false;
        }
        // align both to the same exponent, as digit strings of equal length
        let lo = std::cmp::min(self.exp, o.exp);
        if (self.exp - lo) > 300000 || (o.exp - lo) > 300000 {
            return false;
        }
        let mut a = self.digits.clone();
        let mut b = o.digits.clone();
        a.extend(std::iter::repeat(0).take((self.exp - lo) as usize));
        b.extend(std::iter::repeat(0).take((o.exp - lo) as usize));
        let n = std::cmp::max(a.len(), b.len());
        let pad = |v: Vec<u8>| {
            let mut r = vec![0; n - v.len()];
            r.extend(v);
            r
        };
        let (a, b) = (pad(a), pad(b));
        let (big, small) = if a >= b { (&a, &b) } else { (&b, &a) };
        let mut d = vec![0i8; n];
        let mut borrow = 0;
        for i in (0..n).rev() {
            let mut x = big[i] as i8 - small[i] as i8 - borrow;
            borrow = 0;
            if x < 0 {
                x += 10;
                borrow = 1;
            }
            d[i] = x;
        }
        // diff * 10^18 < b
        let mut dd: Vec<u8> = d.iter().map(|x| *x as u8).collect();
        dd.extend(std::iter::repeat(0).take(18));
        let mut bb = vec![0; 18];
        bb.extend(b);
        dd < bb
    }
}
