// What JSON text denotes: a reference reader over the bytes of the text.
use vstd::prelude::*;
use vstd::utf8::*;
use crate::spec::*;
use crate::number::*;
use crate::json::*;
use crate::tree::*;
use crate::gram::*;
use crate::jvalid::*;
verus! {

// ------------------------------------------------------------ tokens

pub open spec fn ws(b: u8) -> bool { 9 <= b <= 13 || b == 32 }

/// The first place from i on that holds no whitespace.
pub open spec fn skip(s: Seq<u8>, i: int) -> int
    decreases s.len() - i
{
    if 0 <= i < s.len() && ws(s[i]) { skip(s, i + 1) } else { i }
}

/// The next byte that is no whitespace.
pub open spec fn tok(s: Seq<u8>, i: int) -> Got<u8> { byte_at(s, skip(s, i)) }

/// One particular byte.
pub open spec fn this(s: Seq<u8>, i: int, b: u8) -> Got<()> {
    match byte_at(s, i) { Got::No(e) => Got::No(e), Got::Yes(c, j) => if c == b { Got::Yes((), j) } else { Got::No(Stop::Byte(i)) } }
}
/// One particular byte after whitespace.
pub open spec fn mark(s: Seq<u8>, i: int, b: u8) -> Got<()> {
    match tok(s, i) { Got::No(e) => Got::No(e), Got::Yes(c, j) => if c == b { Got::Yes((), j) } else { Got::No(Stop::Byte(j - 1)) } }
}

// ------------------------------------------------------------ numbers

pub open spec fn is_digit(b: u8) -> bool { 48 <= b <= 57 }

/// A number being read: its digits so far and the exponent that goes with them.
pub struct Dec { pub m: int, pub e: int }

/// Digits of the integer part: those that fit are kept, the others raise the exponent.
pub open spec fn int_part(s: Seq<u8>, i: int, m: int, e: int) -> Got<Dec>
    decreases s.len() - i
{
    if 0 <= i < s.len() && is_digit(s[i]) {
        if m * 10 + (s[i] - 48) <= u64::MAX { int_part(s, i + 1, m * 10 + (s[i] - 48), e) }
        else if e >= 32767 { Got::No(Stop::Depth) }
        else { int_part(s, i + 1, m, e + 1) }
    } else { Got::Yes(Dec { m: m, e: e }, i) }
}
/// Digits of the fraction: those that fit are kept and lower the exponent, the others are dropped.
pub open spec fn frac_part(s: Seq<u8>, i: int, m: int, e: int) -> Got<Dec>
    decreases s.len() - i
{
    if 0 <= i < s.len() && is_digit(s[i]) {
        if m * 10 + (s[i] - 48) <= u64::MAX {
            if e <= -32768 { Got::No(Stop::Depth) } else { frac_part(s, i + 1, m * 10 + (s[i] - 48), e - 1) }
        } else { frac_part(s, i + 1, m, e) }
    } else { Got::Yes(Dec { m: m, e: e }, i) }
}

/// Where the digits from i on end.
pub open spec fn digits_end(s: Seq<u8>, i: int) -> int
    decreases s.len() - i
{
    if 0 <= i < s.len() && is_digit(s[i]) { digits_end(s, i + 1) } else { i }
}
/// The integer that the digits at i .. j spell.
pub open spec fn digits_val(s: Seq<u8>, i: int, j: int) -> int
    decreases j - i
{
    if i < j { digits_val(s, i, j - 1) * 10 + (s[j - 1] - 48) } else { 0 }
}

pub open spec fn clamp(x: int) -> int { if x < -32768 { -32768 } else if x > 32767 { 32767 } else { x } }

pub open spec fn num(m: int, e: int) -> Number { Number { category: 1, exponent: e as i16, mantissa: m as u64 } }

/// The digits of an exponent.
pub open spec fn exp_digits(s: Seq<u8>, i: int, neg: bool, m: int, e: int) -> Got<Number> {
    if i >= s.len() { Got::No(Stop::End) }
    else if !is_digit(s[i]) { Got::No(Stop::Byte(i)) }
    else {
        let j = digits_end(s, i);
        let x = digits_val(s, i, j);
        Got::Yes(num(m, clamp((if neg { -x } else { x }) + e)), j)
    }
}
/// What follows the letter e.
pub open spec fn exp_part(s: Seq<u8>, i: int, m: int, e: int) -> Got<Number> {
    if i >= s.len() { Got::No(Stop::End) }
    else if s[i] == 45 { exp_digits(s, i + 1, true, m, e) }
    else if s[i] == 43 { exp_digits(s, i + 1, false, m, e) }
    else { exp_digits(s, i, false, m, e) }
}
/// The end of a number, after its fraction.
pub open spec fn num_end(s: Seq<u8>, i: int, m: int, e: int) -> Got<Number> {
    if i < s.len() && (s[i] == 101 || s[i] == 69) { exp_part(s, i + 1, m, e) } else { Got::Yes(num(m, e), i) }
}
pub open spec fn frac_end(s: Seq<u8>, i: int, m: int, e: int) -> Got<Number> {
    match frac_part(s, i, m, e) { Got::No(x) => Got::No(x), Got::Yes(d, j) => num_end(s, j, d.m, d.e) }
}
/// What follows the point.
pub open spec fn frac(s: Seq<u8>, i: int, m: int, e: int) -> Got<Number> {
    if i >= s.len() { Got::No(Stop::End) }
    else if !is_digit(s[i]) { Got::No(Stop::Byte(i)) }
    else { frac_end(s, i, m, e) }
}
/// What follows the integer part.
pub open spec fn num_rest(s: Seq<u8>, i: int, m: int, e: int) -> Got<Number> {
    if i < s.len() && s[i] == 46 { frac(s, i + 1, m, e) } else { num_end(s, i, m, e) }
}
pub open spec fn int_end(s: Seq<u8>, i: int, m: int, e: int) -> Got<Number> {
    match int_part(s, i, m, e) { Got::No(x) => Got::No(x), Got::Yes(d, j) => num_rest(s, j, d.m, d.e) }
}
/// A number without its sign; `c` is its first digit, the rest begins at i.
pub open spec fn unsigned(s: Seq<u8>, c: u8, i: int) -> Got<Number> {
    if c == 48 { num_rest(s, i, 0, 0) }
    else if is_digit(c) { int_end(s, i, c - 48, 0) }
    else { Got::No(Stop::Byte(i - 1)) }
}
pub open spec fn negated(n: Number) -> Number { Number { category: if n.category == 1 { 0 } else { 1 }, ..n } }

// ------------------------------------------------------------ values

/// A container that is not closed yet: the elements so far, or the members so
/// far with the key whose value comes next.
pub enum Frame { Arr(Seq<J>), Obj(Seq<(Seq<u8>, J)>, Seq<u8>) }

pub open spec fn lit3(s: Seq<u8>, i: int, a: u8, b: u8, c: u8) -> Got<()> {
    match this(s, i, a) { Got::No(e) => Got::No(e), Got::Yes(_, j) =>
        match this(s, j, b) { Got::No(e) => Got::No(e), Got::Yes(_, k) => this(s, k, c) } }
}
pub open spec fn lit4(s: Seq<u8>, i: int, a: u8, b: u8, c: u8, d: u8) -> Got<()> {
    match lit3(s, i, a, b, c) { Got::No(e) => Got::No(e), Got::Yes(_, k) => this(s, k, d) }
}

/// The value that begins with the byte `ch`; the rest of it begins at i.
/// It stands inside `d` containers.
pub open spec fn value_from(s: Seq<u8>, ch: u8, i: int, d: int) -> Got<J>
    decreases s.len() - i, 0int
{
    if ch == 91 {
        match tok(s, i) {
            Got::No(e) => Got::No(e),
            Got::Yes(c, j) =>
                if c == 93 { Got::Yes(J::Arr(Seq::empty()), j) }
                else if d >= 512 { Got::No(Stop::Depth) }
                else if i < j <= s.len() { inside(s, c, j, d + 1, Frame::Arr(Seq::empty())) }
                else { Got::No(Stop::End) },
        }
    } else if ch == 123 {
        match tok(s, i) {
            Got::No(e) => Got::No(e),
            Got::Yes(c, j) =>
                if c == 125 { Got::Yes(J::Obj(Seq::empty()), j) }
                else if d >= 512 { Got::No(Stop::Depth) }
                else if c != 34 { Got::No(Stop::Byte(j - 1)) }
                else if i < j <= s.len() { entry_at(s, j, d + 1, Seq::empty()) }
                else { Got::No(Stop::End) },
        }
    } else { leaf(s, ch, i) }
}

/// A value that is no container.
pub open spec fn leaf(s: Seq<u8>, ch: u8, i: int) -> Got<J> {
    if ch == 34 {
        match str_at(s, i, Seq::empty()) { Got::No(e) => Got::No(e), Got::Yes(t, j) => Got::Yes(J::Str(t), j) }
    } else if is_digit(ch) {
        match unsigned(s, ch, i) { Got::No(e) => Got::No(e), Got::Yes(n, j) => Got::Yes(J::Num(n), j) }
    } else if ch == 45 {
        match byte_at(s, i) {
            Got::No(e) => Got::No(e),
            Got::Yes(c, j) => match unsigned(s, c, j) { Got::No(e) => Got::No(e), Got::Yes(n, k) => Got::Yes(J::Num(negated(n)), k) },
        }
    } else if ch == 116 {
        match lit3(s, i, 114, 117, 101) { Got::No(e) => Got::No(e), Got::Yes(_, j) => Got::Yes(J::Bool(true), j) }
    } else if ch == 102 {
        match lit4(s, i, 97, 108, 115, 101) { Got::No(e) => Got::No(e), Got::Yes(_, j) => Got::Yes(J::Bool(false), j) }
    } else if ch == 110 {
        match lit3(s, i, 117, 108, 108) { Got::No(e) => Got::No(e), Got::Yes(_, j) => Got::Yes(J::Null, j) }
    } else { Got::No(Stop::Byte(i - 1)) }
}

/// The rest of the container f from the first byte of its next value on.
pub open spec fn inside(s: Seq<u8>, ch: u8, i: int, d: int, f: Frame) -> Got<J>
    decreases s.len() - i, 1int
{
    match value_from(s, ch, i, d) {
        Got::No(e) => Got::No(e),
        Got::Yes(v, j) => if i <= j <= s.len() { after(s, j, d, f, v) } else { Got::No(Stop::End) },
    }
}

/// The rest of the container f after its value v.
pub open spec fn after(s: Seq<u8>, i: int, d: int, f: Frame, v: J) -> Got<J>
    decreases s.len() - i, 0int
{
    match tok(s, i) {
        Got::No(e) => Got::No(e),
        Got::Yes(c, j) => match f {
            Frame::Arr(a) =>
                if c == 44 {
                    match tok(s, j) {
                        Got::No(e) => Got::No(e),
                        Got::Yes(ch, k) => if i < k <= s.len() { inside(s, ch, k, d, Frame::Arr(a.push(v))) } else { Got::No(Stop::End) },
                    }
                }
                else if c == 93 { Got::Yes(J::Arr(a.push(v)), j) }
                else { Got::No(Stop::Byte(j - 1)) },
            Frame::Obj(o, key) =>
                if c == 44 {
                    match mark(s, j, 34) {
                        Got::No(e) => Got::No(e),
                        Got::Yes(_, k) => if i < k <= s.len() { entry_at(s, k, d, put(o, key, v)) } else { Got::No(Stop::End) },
                    }
                }
                else if c == 125 { Got::Yes(J::Obj(put(o, key, v)), j) }
                else { Got::No(Stop::Byte(j - 1)) },
        },
    }
}

/// A key and the colon, after the opening quote; the first byte of the value is next.
pub open spec fn key_at(s: Seq<u8>, i: int) -> Got<(Seq<u8>, u8)> {
    match str_at(s, i, Seq::empty()) {
        Got::No(e) => Got::No(e),
        Got::Yes(key, j) => match mark(s, j, 58) {
            Got::No(e) => Got::No(e),
            Got::Yes(_, k) => match tok(s, k) { Got::No(e) => Got::No(e), Got::Yes(ch, m) => Got::Yes((key, ch), m) },
        },
    }
}
/// The rest of an object from after the opening quote of a key on.
pub open spec fn entry_at(s: Seq<u8>, i: int, d: int, o: Seq<(Seq<u8>, J)>) -> Got<J>
    decreases s.len() - i, 0int
{
    match key_at(s, i) {
        Got::No(e) => Got::No(e),
        Got::Yes((key, ch), j) => if i < j <= s.len() { inside(s, ch, j, d, Frame::Obj(o, key)) } else { Got::No(Stop::End) },
    }
}

/// After the outermost value only whitespace may follow.
pub open spec fn closed(s: Seq<u8>, i: int, v: J) -> Got<J> {
    if skip(s, i) >= s.len() { Got::Yes(v, skip(s, i)) } else { Got::No(Stop::Byte(skip(s, i))) }
}

/// What a text denotes, or why and where it is no JSON text.
pub open spec fn document(s: Seq<u8>) -> Got<J> {
    match tok(s, 0) {
        Got::No(e) => Got::No(e),
        Got::Yes(ch, i) => match value_from(s, ch, i, 0) { Got::No(e) => Got::No(e), Got::Yes(v, j) => closed(s, j, v) },
    }
}

/// The document, when `g` has been read inside the open containers `fs`.
pub open spec fn resume(s: Seq<u8>, g: Got<J>, fs: Seq<Frame>) -> Got<J>
    decreases fs.len()
{
    match g {
        Got::No(e) => Got::No(e),
        Got::Yes(v, i) => if fs.len() == 0 { closed(s, i, v) } else { resume(s, after(s, i, fs.len() as int, fs.last(), v), fs.drop_last()) },
    }
}

// ------------------------------------------------------------ bounds

/// A place that no character straddles, as the byte before it is ASCII.
pub open spec fn edge(s: Seq<u8>, i: int) -> bool { i == 0 || 0 < i <= s.len() && s[i - 1] < 128 }

pub proof fn lemma_skip(s: Seq<u8>, i: int)
    requires 0 <= i <= s.len()
    ensures
        i <= skip(s, i) <= s.len(), edge(s, i) ==> edge(s, skip(s, i)),
        skip(s, i) < s.len() ==> !ws(s[skip(s, i)]),
    decreases s.len() - i
{
    if i < s.len() && ws(s[i]) { lemma_skip(s, i + 1); }
}

pub proof fn lemma_piece_bound(s: Seq<u8>, i: int)
    requires 0 <= i
    ensures piece_at(s, i) matches Got::Yes(p, j) ==> i < j <= s.len()
{}

pub proof fn lemma_str_bound(s: Seq<u8>, i: int, acc: Seq<u8>)
    requires 0 <= i
    ensures str_at(s, i, acc) matches Got::Yes(t, j) ==> i < j <= s.len() && s[j - 1] == 34
    decreases s.len() - i
{
    if i < s.len() && s[i] == 34 {} else {
        match piece_at(s, i) { Got::Yes(p, j) => if i < j <= s.len() { lemma_str_bound(s, j, acc + p); }, _ => {} }
    }
}

pub proof fn lemma_digits_end(s: Seq<u8>, i: int)
    requires 0 <= i <= s.len()
    ensures i <= digits_end(s, i) <= s.len(), edge(s, i) ==> edge(s, digits_end(s, i))
    decreases s.len() - i
{
    if i < s.len() && is_digit(s[i]) { lemma_digits_end(s, i + 1); }
}

pub proof fn lemma_int_part(s: Seq<u8>, i: int, m: int, e: int)
    requires 0 <= i <= s.len(), 0 <= m <= u64::MAX, -32768 <= e <= 32767
    ensures int_part(s, i, m, e) matches Got::Yes(d, j) ==> j == digits_end(s, i) && 0 <= d.m <= u64::MAX && -32768 <= d.e <= 32767
    decreases s.len() - i
{
    if i < s.len() && is_digit(s[i]) {
        if m * 10 + (s[i] - 48) <= u64::MAX { lemma_int_part(s, i + 1, m * 10 + (s[i] - 48), e); }
        else if e < 32767 { lemma_int_part(s, i + 1, m, e + 1); }
    }
}
pub proof fn lemma_frac_part(s: Seq<u8>, i: int, m: int, e: int)
    requires 0 <= i <= s.len(), 0 <= m <= u64::MAX, -32768 <= e <= 32767
    ensures frac_part(s, i, m, e) matches Got::Yes(d, j) ==> j == digits_end(s, i) && 0 <= d.m <= u64::MAX && -32768 <= d.e <= 32767
    decreases s.len() - i
{
    if i < s.len() && is_digit(s[i]) {
        if m * 10 + (s[i] - 48) <= u64::MAX { if e > -32768 { lemma_frac_part(s, i + 1, m * 10 + (s[i] - 48), e - 1); } }
        else { lemma_frac_part(s, i + 1, m, e); }
    }
}

/// Where a number ends, no character is cut.
pub proof fn lemma_num_end(s: Seq<u8>, i: int, m: int, e: int)
    requires 0 <= i <= s.len(), edge(s, i)
    ensures num_end(s, i, m, e) matches Got::Yes(n, j) ==> i <= j <= s.len() && edge(s, j)
{
    if i < s.len() && (s[i] == 101 || s[i] == 69) {
        let k = if i + 1 < s.len() && (s[i + 1] == 45 || s[i + 1] == 43) { i + 2 } else { i + 1 };
        if k < s.len() { lemma_digits_end(s, k); }
    }
}
pub proof fn lemma_num_rest(s: Seq<u8>, i: int, m: int, e: int)
    requires 0 <= i <= s.len(), edge(s, i), 0 <= m <= u64::MAX, -32768 <= e <= 32767
    ensures num_rest(s, i, m, e) matches Got::Yes(n, j) ==> i <= j <= s.len() && edge(s, j)
{
    lemma_num_end(s, i, m, e);
    if i < s.len() && s[i] == 46 && i + 1 < s.len() {
        lemma_frac_part(s, i + 1, m, e);
        lemma_digits_end(s, i + 1);
        match frac_part(s, i + 1, m, e) { Got::Yes(d, j) => { lemma_num_end(s, j, d.m, d.e); } _ => {} }
    }
}
pub proof fn lemma_unsigned(s: Seq<u8>, c: u8, i: int)
    requires 0 <= i <= s.len(), edge(s, i)
    ensures unsigned(s, c, i) matches Got::Yes(n, j) ==> i <= j <= s.len() && edge(s, j)
{
    if c == 48 { lemma_num_rest(s, i, 0, 0); }
    else if is_digit(c) {
        lemma_int_part(s, i, c - 48, 0);
        lemma_digits_end(s, i);
        match int_part(s, i, c - 48, 0) { Got::Yes(d, j) => { lemma_num_rest(s, j, d.m, d.e); } _ => {} }
    }
}

pub proof fn lemma_leaf(s: Seq<u8>, ch: u8, i: int)
    requires 0 < i <= s.len(), s[i - 1] == ch
    ensures leaf(s, ch, i) matches Got::Yes(v, j) ==> i <= j <= s.len() && edge(s, j)
{
    if ch == 34 { lemma_str_bound(s, i, Seq::empty()); }
    else if is_digit(ch) { lemma_unsigned(s, ch, i); }
    else if ch == 45 && i < s.len() && is_digit(s[i]) { lemma_unsigned(s, s[i], i + 1); }
}

pub proof fn lemma_value(s: Seq<u8>, ch: u8, i: int, d: int)
    requires 0 < i <= s.len(), s[i - 1] == ch
    ensures value_from(s, ch, i, d) matches Got::Yes(v, j) ==> i <= j <= s.len() && edge(s, j)
    decreases s.len() - i, 0int
{
    lemma_skip(s, i);
    if ch == 91 || ch == 123 {
        match tok(s, i) {
            Got::Yes(c, j) => {
                if ch == 91 { if c != 93 && d < 512 { lemma_inside(s, c, j, d + 1, Frame::Arr(Seq::empty())); } }
                else if c == 34 && d < 512 { lemma_member(s, j, d + 1, Seq::empty()); }
            }
            _ => {}
        }
    } else { lemma_leaf(s, ch, i); }
}
pub proof fn lemma_inside(s: Seq<u8>, ch: u8, i: int, d: int, f: Frame)
    requires 0 < i <= s.len(), s[i - 1] == ch
    ensures inside(s, ch, i, d, f) matches Got::Yes(v, j) ==> i <= j <= s.len() && edge(s, j)
    decreases s.len() - i, 1int
{
    lemma_value(s, ch, i, d);
    match value_from(s, ch, i, d) { Got::Yes(v, j) => { if i <= j <= s.len() { lemma_after(s, j, d, f, v); } } _ => {} }
}
pub proof fn lemma_after(s: Seq<u8>, i: int, d: int, f: Frame, v: J)
    requires 0 <= i <= s.len()
    ensures after(s, i, d, f, v) matches Got::Yes(w, j) ==> i <= j <= s.len() && edge(s, j)
    decreases s.len() - i, 0int
{
    lemma_skip(s, i);
    match tok(s, i) {
        Got::Yes(c, j) => {
            lemma_skip(s, j);
            if c == 44 {
                match f {
                    Frame::Arr(a) => match tok(s, j) { Got::Yes(ch, k) => { lemma_inside(s, ch, k, d, Frame::Arr(a.push(v))); } _ => {} },
                    Frame::Obj(o, key) => match mark(s, j, 34) { Got::Yes(_, k) => { lemma_member(s, k, d, put(o, key, v)); } _ => {} },
                }
            }
        }
        _ => {}
    }
}
pub proof fn lemma_key_at(s: Seq<u8>, i: int)
    requires 0 <= i <= s.len()
    ensures key_at(s, i) matches Got::Yes((key, ch), j) ==> i < j <= s.len() && s[j - 1] == ch
{
    lemma_str_bound(s, i, Seq::empty());
    match str_at(s, i, Seq::empty()) {
        Got::Yes(key, j) => {
            lemma_skip(s, j);
            match mark(s, j, 58) { Got::Yes(_, k) => { lemma_skip(s, k); } _ => {} }
        }
        _ => {}
    }
}
pub proof fn lemma_member(s: Seq<u8>, i: int, d: int, o: Seq<(Seq<u8>, J)>)
    requires 0 <= i <= s.len()
    ensures entry_at(s, i, d, o) matches Got::Yes(w, j) ==> i <= j <= s.len() && edge(s, j)
    decreases s.len() - i, 0int
{
    lemma_key_at(s, i);
    match key_at(s, i) { Got::Yes((key, ch), j) => { lemma_inside(s, ch, j, d, Frame::Obj(o, key)); } _ => {} }
}

// ------------------------------------------------------------ single steps

pub proof fn lemma_str_step(s: Seq<u8>, i: int, acc: Seq<u8>)
    requires 0 <= i
    ensures
        i >= s.len() ==> str_at(s, i, acc) == Got::<Seq<u8>>::No(Stop::End),
        i < s.len() && s[i] == 34 ==> str_at(s, i, acc) == Got::Yes(acc, i + 1),
        i < s.len() && s[i] < 32 ==> str_at(s, i, acc) == Got::<Seq<u8>>::No(Stop::Byte(i)),
        i < s.len() && plain(s[i]) ==> str_at(s, i, acc) == str_at(s, i + 1, acc + seq![s[i]]),
        i < s.len() && s[i] == 92 && i + 1 >= s.len() ==> str_at(s, i, acc) == Got::<Seq<u8>>::No(Stop::End),
        i + 1 < s.len() && s[i] == 92 && s[i + 1] == 117 ==> str_at(s, i, acc) == match code_at(s, i + 2) {
            Got::No(e) => Got::No(e),
            Got::Yes(c, j) => str_at(s, j, acc + utf8(c)),
        },
        i + 1 < s.len() && s[i] == 92 && s[i + 1] != 117 ==> str_at(s, i, acc) == match unesc(s[i + 1]) {
            None => Got::No(Stop::Byte(i + 1)),
            Some(b) => str_at(s, i + 2, acc + seq![b]),
        },
{
    lemma_hex4(s, i + 2);
    lemma_hex4(s, i + 8);
}

pub proof fn lemma_str_end(s: Seq<u8>)
    ensures forall|i: int, acc: Seq<u8>| i >= s.len() && i >= 0 ==> #[trigger] str_at(s, i, acc) == Got::<Seq<u8>>::No(Stop::End)
{}

pub proof fn lemma_int_step(s: Seq<u8>, i: int, m: int, e: int)
    requires 0 <= i
    ensures
        !(i < s.len() && is_digit(s[i])) ==> int_end(s, i, m, e) == num_rest(s, i, m, e),
        i < s.len() && is_digit(s[i]) ==> int_end(s, i, m, e) ==
            if m * 10 + (s[i] - 48) <= u64::MAX { int_end(s, i + 1, m * 10 + (s[i] - 48), e) }
            else if e >= 32767 { Got::No(Stop::Depth) }
            else { int_end(s, i + 1, m, e + 1) },
{}
pub proof fn lemma_frac_step(s: Seq<u8>, i: int, m: int, e: int)
    requires 0 <= i
    ensures
        !(i < s.len() && is_digit(s[i])) ==> frac_end(s, i, m, e) == num_end(s, i, m, e),
        i < s.len() && is_digit(s[i]) ==> frac_end(s, i, m, e) ==
            if m * 10 + (s[i] - 48) <= u64::MAX { if e <= -32768 { Got::No(Stop::Depth) } else { frac_end(s, i + 1, m * 10 + (s[i] - 48), e - 1) } }
            else { frac_end(s, i + 1, m, e) },
{}
/// A number is its parts.
pub proof fn lemma_num()
    ensures forall|n: Number, m: u64, e: i16| #![trigger n.v(), num(m as int, e as int)]
        n.v() == (NumV { nan: false, pos: true, m: m as nat, e: e as int }) ==> n == num(m as int, e as int)
{}

// ------------------------------------------------------------ strings are UTF-8

pub open spec fn scalar(c: int) -> bool { 0 <= c <= 0xd7ff || 0xe000 <= c <= 0x10ffff }

/// UTF-8 of a character.
pub proof fn lemma_utf8(c: int)
    requires scalar(c)
    ensures valid_utf8(utf8(c)), utf8(c) == encode_utf8(seq![c as u32 as char])
{
    let ch = c as u32 as char;
    assert(ch as u32 == c as u32);
    let q = seq![ch];
    assert(q.drop_first() =~= Seq::<char>::empty());
    reveal_with_fuel(encode_utf8, 2);
    assert(encode_utf8(q) =~= utf8(c));
    encode_utf8_valid_utf8(q);
}

pub proof fn lemma_hex4(s: Seq<u8>, i: int)
    ensures hex4(s, i) matches Got::Yes(u, j) ==> 0 <= u < 0x10000 && j == i + 4 && j <= s.len()
{}

pub proof fn lemma_code_at(s: Seq<u8>, i: int)
    ensures code_at(s, i) matches Got::Yes(c, j) ==> scalar(c)
{
    lemma_hex4(s, i);
    match hex4(s, i) { Got::Yes(u, j) => { lemma_hex4(s, j + 2); } _ => {} }
}

/// What a string holds is UTF-8 when the text is.
pub proof fn lemma_str_valid(s: Seq<u8>, i: int, acc: Seq<u8>)
    requires 0 <= i <= s.len(), valid_utf8(s.skip(i)), valid_utf8(acc)
    ensures str_at(s, i, acc) matches Got::Yes(t, j) ==> valid_utf8(t)
    decreases s.len() - i
{
    let r = s.skip(i);
    if i < s.len() && s[i] != 34 && s[i] >= 32 {
        lemma_first_scalar(r);
        let h = take_first_scalar(r);
        let t = pop_first_scalar(r);
        assert(r[0] == s[i]);
        assert(s.skip(i + h.len()) =~= t) by { assert((h + t).skip(h.len() as int) =~= t); }
        if s[i] == 92 {
            match piece_at(s, i) {
                Got::Yes(p, j) => {
                    lemma_ascii_suffix(s, i, j);
                    lemma_piece_valid(s, i);
                    lemma_valid_cat(acc, p);
                    lemma_str_valid(s, j, acc + p);
                }
                _ => {}
            }
        } else {
            if s[i] >= 128 {
                assert forall|k: int| 0 <= k < h.len() implies #[trigger] s[i + k] >= 128 by { assert(s[i + k] == (h + t)[k]); assert(h[k] >= 128); }
            } else {
                assert(h.len() == 1);
            }
            lemma_str_run(s, i, h.len() as int, acc);
            assert(s.subrange(i, i + h.len()) =~= h) by { assert((h + t).take(h.len() as int) =~= h); }
            lemma_valid_cat(acc, h);
            lemma_str_valid(s, i + h.len(), acc + h);
        }
    }
}

/// Bytes that stand for themselves.
pub open spec fn plain(b: u8) -> bool { b >= 32 && b != 34 && b != 92 }

pub proof fn lemma_str_run(s: Seq<u8>, i: int, n: int, acc: Seq<u8>)
    requires 0 <= i, 0 <= n, i + n <= s.len(), forall|k: int| 0 <= k < n ==> plain(#[trigger] s[i + k])
    ensures str_at(s, i, acc) == str_at(s, i + n, acc + s.subrange(i, i + n))
    decreases n
{
    if n == 0 {
        assert(acc + s.subrange(i, i) =~= acc);
    } else {
        assert(plain(s[i + 0]));
        assert forall|k: int| 0 <= k < n - 1 implies plain(#[trigger] s[i + 1 + k]) by { assert(plain(s[i + (k + 1)])); }
        lemma_str_run(s, i + 1, n - 1, acc + seq![s[i]]);
        assert(acc + seq![s[i]] + s.subrange(i + 1, i + n) =~= acc + s.subrange(i, i + n));
    }
}

pub proof fn lemma_piece_valid(s: Seq<u8>, i: int)
    requires 0 <= i < s.len(), s[i] == 92
    ensures piece_at(s, i) matches Got::Yes(p, j) ==> valid_utf8(p)
{
    match piece_at(s, i) {
        Got::Yes(p, j) => {
            if s[i + 1] == 117 {
                lemma_code_at(s, i + 2);
                match code_at(s, i + 2) { Got::Yes(c, _) => { lemma_utf8(c); } _ => {} }
            } else {
                lemma_ascii_valid(p);
            }
        }
        _ => {}
    }
}

/// After an escape the text goes on with a whole character.
pub proof fn lemma_ascii_suffix(s: Seq<u8>, i: int, j: int)
    requires 0 <= i < s.len(), s[i] == 92, valid_utf8(s.skip(i)), piece_at(s, i) matches Got::Yes(p, k) && k == j
    ensures valid_utf8(s.skip(j))
{
    assert(forall|k: int| i <= k < j ==> #[trigger] s[k] < 128);
    lemma_ascii_run(s, i, j);
}

pub proof fn lemma_ascii_run(s: Seq<u8>, i: int, j: int)
    requires 0 <= i <= j <= s.len(), valid_utf8(s.skip(i)), forall|k: int| i <= k < j ==> #[trigger] s[k] < 128
    ensures valid_utf8(s.skip(j))
    decreases j - i
{
    if i < j {
        let r = s.skip(i);
        assert(r[0] == s[i]);
        lemma_first_scalar(r);
        let h = take_first_scalar(r);
        let t = pop_first_scalar(r);
        assert(s.skip(i + 1) =~= t) by { assert((h + t).skip(1) =~= t); }
        lemma_ascii_run(s, i + 1, j);
    }
}

} // verus!
