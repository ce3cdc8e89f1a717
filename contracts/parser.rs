// The parser reads what the reference reader reads.
use vstd::prelude::*;
use vstd::utf8::*;
use vstd::std_specs::convert::*;
use vstd::std_specs::ops::{NegSpecImpl, NegSpec};
use std::str;
use crate::spec::*;
use crate::stdx::*;
use crate::raw::*;
use crate::number::*;
use crate::short::*;
use crate::object::*;
use crate::json::*;
use crate::tree::*;
use crate::value::*;
use crate::gram::*;
use crate::jvalid::*;
use crate::reader::*;
verus! {

@@rules
expect_byte!($p_id) =>> $p_id.expect_byte()?
expect_byte_ignore_whitespace!($p_id) =>> $p_id.expect_byte_ignore_whitespace()?
expect_eof!($p_id) =>> $p_id.expect_eof()?
expect_string!($p_id) =>> $p_id.expect_string()?
expect_number!($p_id, $c_id) =>> $p_id.expect_number($c_id)?
allow_number_extensions!($p_id, $n_id, $e_id, $c_id) =>> $p_id.number_extensions($n_id, $e_id, $c_id)?
allow_number_extensions!($p_id) =>> $p_id.zero_extensions()?
expect_fraction!($p_id, $n_id, $e_id) =>> $p_id.expect_fraction($n_id, $e_id)?
source.as_ptr() =>> str_raw(source)
source.len() =>> text_len(source)
*self.byte_ptr.offset(self.index as isize) =>> self.byte_ptr[self.index]
self.source[$a..].chars().next().expect($m) =>> first_char(text_from(self.source, $a))
self.source[$a..].chars().next().unwrap() =>> first_char(text_from(self.source, $a))
self.source[..$a].split('\n').enumerate().last().unwrap_or((0, "")) =>> last_line(text_to(self.source, $a))
$c_id.chars().count() =>> char_count($c_id)
char::try_from($x) =>> char_of($x)
decode_utf16([$a, $b].iter().copied()).next() =>> decode_pair($a, $b)
let mut $b_id = [0; 4]; =>> 
self.buffer.extend_from_slice($c_id.encode_utf8(&mut $b_id).as_bytes()) =>> push_char(&mut self.buffer, $c_id)
self.buffer.extend_from_slice(&self.source.as_bytes()[$a .. $b]) =>> push_bytes(&mut self.buffer, str_raw(self.source), $a, $b)
let $q_id = self.byte_ptr.offset($a as isize); =>> let $q_id: usize = $a;
slice::from_raw_parts(self.buffer[$a ..].as_ptr(), $n) =>> far_part(self.buffer.as_slice(), $a, $n)
slice::from_raw_parts($p_id, $n) =>> far_part(self.byte_ptr, $p_id, $n)
$n_id.checked_mul(10).and_then(|$m_id| { $b }) =>> (match $n_id.checked_mul(10) { Some($m_id) => { $b }, None => None })
i16::checked_sub($a, $b).ok_or_else(|| $x)? =>> (match i16::checked_sub($a, $b) { Some(z) => z, None => return Err($x) })
$a_id.checked_add($b).ok_or_else(|| $x)? =>> (match $a_id.checked_add($b) { Some(z) => z, None => return Err($x) })
0.into() =>> Number::from(0i32)
num.into() =>> Number::from(num)
expect_string()?.into() =>> expect_string_value()?
e.max(i16::min_value() as i32).min(i16::max_value() as i32) =>> least_i32(most_i32(e, i16::min_value() as i32), i16::max_value() as i32)
stack.last_mut() =>> last_of(&mut stack)
&mut StackBlock(JsonValue::Array(ref mut $a_id), _) =>> StackBlock(JsonValue::Array($a_id), _)
&mut StackBlock(JsonValue::Object(ref mut $a_id), ref mut $b_id) =>> StackBlock(JsonValue::Object($a_id), $b_id)
@@endrules

// ---- trusted stand-ins for operations of the standard library

/// str::len; no string is longer than isize::MAX
#[verifier::external_body]
fn text_len(s: &str) -> (r: usize)
    ensures r == sb(s@).len(), r <= isize::MAX
{ unimplemented!() }

/// &s[at..]; panics inside a character
#[verifier::external_body]
fn text_from<'a>(s: &'a str, at: usize) -> (r: &'a str)
    requires at <= sb(s@).len(), valid_utf8(sb(s@).take(at as int)), valid_utf8(sb(s@).skip(at as int))
    ensures sb(r@) == sb(s@).skip(at as int)
{ unimplemented!() }

/// &s[..at]; panics inside a character
#[verifier::external_body]
fn text_to<'a>(s: &'a str, at: usize) -> (r: &'a str)
    requires at <= sb(s@).len(), valid_utf8(sb(s@).take(at as int)), valid_utf8(sb(s@).skip(at as int))
    ensures sb(r@) == sb(s@).take(at as int)
{ unimplemented!() }

/// s.chars().next().expect(..)
#[verifier::external_body]
fn first_char(s: &str) -> (r: char)
    requires s@.len() > 0
    ensures r == s@[0]
{ unimplemented!() }

/// s.chars().count()
#[verifier::external_body]
fn char_count(s: &str) -> (r: usize)
    ensures r == s@.len()
{ unimplemented!() }

/// s.split('\n').enumerate().last().unwrap_or((0, "")): the number of line feeds and what follows the last
#[verifier::external_body]
fn last_line<'a>(s: &'a str) -> (r: (usize, &'a str))
    ensures r.0 == feeds(s@), r.1@ == line_of(s@)
{ unimplemented!() }

/// char::try_from(u32)
#[verifier::external_body]
fn char_of(x: u32) -> (r: core::result::Result<char, ()>)
    ensures scalar(x as int) ==> r == Ok::<char, ()>(x as char), !scalar(x as int) ==> r is Err
{ unimplemented!() }

/// decode_utf16([a, b]).next() where a is a surrogate
#[verifier::external_body]
fn decode_pair(a: u16, b: u16) -> (r: Option<core::result::Result<char, ()>>)
    requires 0xd800 <= a <= 0xdfff
    ensures
        a <= 0xdbff && 0xdc00 <= b <= 0xdfff ==> r == Some(Ok::<char, ()>((0x10000 + (a - 0xd800) * 0x400 + (b - 0xdc00)) as u32 as char)),
        !(a <= 0xdbff && 0xdc00 <= b <= 0xdfff) ==> r is Some && r->0 is Err,
{ unimplemented!() }

/// The UTF-8 of a character is appended.
#[verifier::external_body]
fn push_char(v: &mut Vec<u8>, c: char)
    ensures final(v)@ == old(v)@ + encode_scalar(c as u32)
{ unimplemented!() }

/// Vec::extend_from_slice with s[a..b]
#[verifier::external_body]
fn push_bytes(v: &mut Vec<u8>, s: &[u8], a: usize, b: usize)
    requires a <= b <= s@.len()
    ensures final(v)@ == old(v)@ + s@.subrange(a as int, b as int)
{ unimplemented!() }

/// slice::from_raw_parts on a pointer to s[at]; the lifetime is the caller's to choose
#[verifier::external_body]
fn far_part<'b>(s: &[u8], at: usize, n: usize) -> (r: &'b [u8])
    requires at + n <= s@.len()
    ensures r@ == s@.subrange(at as int, at + n)
{ unimplemented!() }

/// <[T]>::last_mut
#[verifier::external_body]
fn last_of<'a, T>(v: &'a mut Vec<T>) -> (r: Option<&'a mut T>)
    ensures
        old(v)@.len() == 0 ==> r is None && final(v)@ == old(v)@,
        old(v)@.len() > 0 ==> r is Some && *r->0 == old(v)@.last() && final(v)@ == old(v)@.drop_last().push(*final(r->0)),
{ unimplemented!() }

/// Ord::min and Ord::max
fn least_i32(a: i32, b: i32) -> (r: i32) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
fn most_i32(a: i32, b: i32) -> (r: i32) ensures r == if a >= b { a } else { b } { if a >= b { a } else { b } }

// ---- positions

/// The number of line feeds.
pub open spec fn feeds(c: Seq<char>) -> int
    decreases c.len()
{
    if c.len() == 0 { 0 } else { feeds(c.drop_last()) + if c.last() == '\n' { 1int } else { 0 } }
}
/// What follows the last line feed.
pub open spec fn line_of(c: Seq<char>) -> Seq<char>
    decreases c.len()
{
    if c.len() == 0 || c.last() == '\n' { Seq::empty() } else { line_of(c.drop_last()).push(c.last()) }
}
pub proof fn lemma_feeds(c: Seq<char>)
    ensures 0 <= feeds(c) <= c.len(), line_of(c).len() <= c.len()
    decreases c.len()
{
    if c.len() > 0 { lemma_feeds(c.drop_last()); }
}
pub proof fn lemma_char_len(c: Seq<char>)
    ensures c.len() <= encode_utf8(c).len()
    decreases c.len()
{
    if c.len() > 0 {
        lemma_char_len(c.drop_first());
        let h = seq![c[0]];
        assert(h + c.drop_first() =~= c);
        encode_utf8_concat(h, c.drop_first());
        encode_utf8_decode_utf8(h);
        if encode_utf8(h).len() == 0 { assert(encode_utf8(h) =~= Seq::<u8>::empty()); assert(decode_utf8(encode_utf8(h)).len() == 0); }
    }
}

/// The error that names the character at a place: 1 + the number of line feeds
/// before it, and 1 + the number of characters since the last of them.
pub open spec fn place(s: Seq<u8>, at: int) -> Error {
    Error::UnexpectedCharacter {
        ch: decode_utf8(s.skip(at))[0],
        line: (1 + feeds(decode_utf8(s.take(at)))) as usize,
        column: (1 + line_of(decode_utf8(s.take(at))).len()) as usize,
    }
}
/// The error that is reported when reading stops.
pub open spec fn error_of(s: Seq<u8>, x: Stop) -> Error {
    match x {
        Stop::End => Error::UnexpectedEndOfJson,
        Stop::Depth => Error::ExceededDepthLimit,
        Stop::Pair => Error::FailedUtf8Parsing,
        Stop::Byte(at) => place(s, at),
    }
}

/// A text can be cut next to an ASCII byte.
pub proof fn lemma_cut(s: Seq<u8>, at: int)
    requires valid_utf8(s), 0 <= at <= s.len(), at == 0 || s[at - 1] < 128 || at < s.len() && s[at] < 128
    ensures valid_utf8(s.take(at)), valid_utf8(s.skip(at))
    decreases s.len()
{
    if at == 0 {
        assert(s.take(0) =~= Seq::<u8>::empty());
        assert(s.skip(0) =~= s);
    } else {
        lemma_first_scalar(s);
        let h = take_first_scalar(s);
        let t = pop_first_scalar(s);
        let n = h.len() as int;
        if n > at {
            assert(s[0] == h[0]);
            assert(s[at - 1] == (h + t)[at - 1]);
            assert(s[at] == (h + t)[at]);
            if s[0] >= 128 { assert(h[at - 1] >= 128); assert(h[at] >= 128); }
            assert(false);
        }
        if at < s.len() { assert(s[at] == (h + t)[at]); }
        if at > n { assert(s[at - 1] == (h + t)[at - 1]); }
        lemma_cut(t, at - n);
        lemma_valid_cat(h, t.take(at - n));
        assert(h + t.take(at - n) =~= s.take(at)) by { assert((h + t).take(at) =~= h + t.take(at - n)); }
        assert(t.skip(at - n) =~= s.skip(at)) by { assert((h + t).skip(at) =~= t.skip(at - n)); }
    }
}

// ---- the parser

@@item parser.rs | const MAX_PRECISION | pub
@@item parser.rs | const DEPTH_LIMIT | pub
@@item parser.rs | struct Parser | pub | pubfields
    @rw *const u8 =>> &'a [u8]
@@item parser.rs | struct StackBlock | pub
    @rw (JsonValue, usize) =>> (pub JsonValue, pub usize)
@@item parser.rs | const QU
@@item parser.rs | const BS
@@item parser.rs | const CT
@@item parser.rs | const __
@@item parser.rs | static ALLOWED | | ensures plain_table(ALLOWED@)

pub open spec fn plain_table(t: Seq<bool>) -> bool { t.len() == 256 && forall|b: int| 0 <= b < 256 ==> #[trigger] t[b] == plain(b as u8) }

impl<'a> Parser<'a> {
    /// The text that is read.
    pub open spec fn text(self) -> Seq<u8> { sb(self.source@) }
    pub open spec fn ok(self) -> bool {
        &&& self.byte_ptr@ == self.text()
        &&& self.length == self.text().len() <= isize::MAX
        &&& self.index <= self.length
    }
    /// Everything but the position.
    pub open spec fn at(self, o: Self, i: int) -> bool {
        self.source == o.source && self.ok() && self.index == i && self.buffer@ == o.buffer@
    }
    /// Everything but the position and the buffer.
    pub open spec fn by(self, o: Self) -> bool { self.source == o.source && self.ok() }

@@fn parser.rs | impl<'a> Parser<'a> | new
    @ret r
    @vis pub
    @spec
        ensures r.ok(), r.source == source, r.index == 0
@@end

@@fn parser.rs | impl<'a> Parser<'a> | is_eof
    @ret r
    @spec
        requires old(self).ok()
        ensures *final(self) == *old(self), r == (old(self).index >= old(self).text().len())
@@end

@@fn parser.rs | impl<'a> Parser<'a> | read_byte
    @ret r
    @rw debug_assert!(self.index < self.length, "Reading out of bounds"); =>> 
    @spec
        requires old(self).ok(), old(self).index < old(self).length
        ensures *final(self) == *old(self), r == old(self).text()[old(self).index as int]
@@end

@@fn parser.rs | impl<'a> Parser<'a> | bump
    @spec
        requires old(self).ok(), old(self).index < old(self).length
        ensures final(self).at(*old(self), old(self).index + 1)
@@end

@@fn parser.rs | impl<'a> Parser<'a> | unexpected_character
    @ret r
    @spec
        requires
            old(self).ok(), old(self).index > 0,
            edge(old(self).text(), old(self).index - 1) || old(self).text()[old(self).index - 1] < 128,
        ensures
            *final(self) == *old(self),
            r is Err, r->Err_0 == place(old(self).text(), old(self).index - 1),
    @entry
        proof {
            let s = self.text();
            let at = self.index - 1;
            lemma_str(self.source@);
            lemma_cut(s, at);
            lemma_feeds(decode_utf8(s.take(at)));
            lemma_char_len(decode_utf8(s.take(at)));
            decode_utf8_encode_utf8(s.take(at));
            decode_utf8_encode_utf8(s.skip(at));
            assert(decode_utf8(s.skip(at)).len() > 0) by {
                if decode_utf8(s.skip(at)).len() == 0 { assert(encode_utf8(decode_utf8(s.skip(at))) =~= Seq::<u8>::empty()); }
            }
            assert forall|c: Seq<char>| #![trigger sb(c)] decode_utf8(sb(c)) == c by { encode_utf8_decode_utf8(c); }
        }
@@end

@@lift parser.rs | expect_byte | expect_byte
    @sig fn expect_byte(&mut self) -> Result<u8>
    @bind $parser = self
    @wrap
    @ret r
    @spec
        requires old(self).ok()
        ensures
            match byte_at(old(self).text(), old(self).index as int) {
                Got::Yes(b, j) => r == Ok::<u8, Error>(b) && final(self).at(*old(self), j),
                Got::No(x) => r == Err::<u8, Error>(error_of(old(self).text(), x)) && final(self).by(*old(self)),
            }
@@end

@@lift parser.rs | expect_byte_ignore_whitespace | expect_byte_ignore_whitespace
    @sig fn expect_byte_ignore_whitespace(&mut self) -> Result<u8>
    @bind $parser = self
    @keepmacro expect_byte
    @wrap
    @ret r
    @spec
        requires old(self).ok()
        ensures
            match tok(old(self).text(), old(self).index as int) {
                Got::Yes(b, j) => r == Ok::<u8, Error>(b) && final(self).at(*old(self), j),
                Got::No(x) => r == Err::<u8, Error>(error_of(old(self).text(), x)) && final(self).by(*old(self)),
            }
    @loop 1
        invariant_except_break
            ws(ch),
        invariant
            self.at(*old(self), self.index as int), self.index > old(self).index,
            tok(old(self).text(), old(self).index as int) == if ws(ch) { tok(old(self).text(), self.index as int) } else { Got::Yes(ch, self.index as int) },
        ensures
            !ws(ch),
        decreases self.length - self.index
@@end

@@lift parser.rs | expect_eof | expect_eof
    @sig fn expect_eof(&mut self) -> Result<()>
    @bind $parser = self
    @wrap
    @ret r
    @spec
        requires old(self).ok(), edge(old(self).text(), old(self).index as int)
        ensures
            final(self).by(*old(self)),
            ({
                let j = skip(old(self).text(), old(self).index as int);
                r == if j >= old(self).text().len() { Ok::<(), Error>(()) } else { Err::<(), Error>(place(old(self).text(), j)) }
            })
    @loop 1
        invariant
            self.at(*old(self), self.index as int), edge(self.text(), self.index as int),
            skip(old(self).text(), old(self).index as int) == skip(old(self).text(), self.index as int),
        decreases self.length - self.index
@@end

@@fn parser.rs | impl<'a> Parser<'a> | read_hexdec_digit
    @ret r
    @keepmacro expect_byte
    @spec
        requires old(self).ok(), edge(old(self).text(), old(self).index as int)
        ensures
            ({
                let s = old(self).text();
                let i = old(self).index as int;
                if i >= s.len() { r == Err::<u16, Error>(Error::UnexpectedEndOfJson) && final(self).by(*old(self)) }
                else if !is_hex(s[i]) { r == Err::<u16, Error>(place(s, i)) && final(self).by(*old(self)) }
                else { r is Ok && r->Ok_0 as int == hex_val(s[i]) && 0 <= hex_val(s[i]) < 16 && final(self).at(*old(self), i + 1) && edge(s, i + 1) }
            })
@@end

@@fn parser.rs | impl<'a> Parser<'a> | read_hexdec_codepoint
    @ret r
    @spec
        requires old(self).ok(), edge(old(self).text(), old(self).index as int)
        ensures
            match hex4(old(self).text(), old(self).index as int) {
                Got::Yes(u, j) => r is Ok && r->Ok_0 as int == u && final(self).at(*old(self), j) && edge(old(self).text(), j),
                Got::No(x) => r == Err::<u16, Error>(error_of(old(self).text(), x)) && final(self).by(*old(self)),
            }
    @entry
        proof {
            assert(forall|a: u16, b: u16, c: u16, d: u16| a < 16 && b < 16 && c < 16 && d < 16 ==>
                #[trigger] (a << 12 | b << 8 | c << 4 | d) == a * 4096 + b * 256 + c * 16 + d) by (bit_vector);
            assert(forall|a: u16| a < 16 ==> #[trigger] (a << 12) == a * 4096) by (bit_vector);
            assert(forall|a: u16| a < 16 ==> #[trigger] (a << 8) == a * 256) by (bit_vector);
            assert(forall|a: u16| a < 16 ==> #[trigger] (a << 4) == a * 16) by (bit_vector);
            assert(forall|a: u16, d: u16| a < 4096 && d < 16 ==> #[trigger] (a << 4 | d) == a * 16 + d) by (bit_vector);
        }
@@end

@@fn parser.rs | impl<'a> Parser<'a> | read_codepoint
    @ret r
    @keepmacro expect_byte
    @spec
        requires old(self).ok(), edge(old(self).text(), old(self).index as int)
        ensures
            final(self).by(*old(self)),
            match code_at(old(self).text(), old(self).index as int) {
                Got::Yes(c, j) => r is Ok && final(self).index == j && final(self).buffer@ == old(self).buffer@ + utf8(c) && j > old(self).index && edge(old(self).text(), j),
                Got::No(x) => r == Err::<(), Error>(error_of(old(self).text(), x)),
            }
    @entry
        proof { lemma_hex4(self.text(), self.index as int); lemma_hex4(self.text(), self.index + 6); }
@@end

@@fn parser.rs | impl<'a> Parser<'a> | read_complex_string
    @ret r
    @keepmacro expect_byte
    @spec
        requires
            old(self).ok(), start < old(self).index, old(self).text()[old(self).index - 1] == 92,
            forall|k: int| start <= k < old(self).index - 1 ==> plain(#[trigger] old(self).text()[k]),
            valid_utf8(old(self).text().skip(start as int)),
        ensures
            final(self).by(*old(self)),
            match str_at(old(self).text(), start as int, Seq::empty()) {
                Got::Yes(t, j) => r is Ok && sb(r->Ok_0@) == t && valid_utf8(t) && final(self).index == j,
                Got::No(x) => r is Err && r->Err_0 == error_of(old(self).text(), x),
            }
    @entry
        hide(str_at); hide(code_at); hide(valid_utf8);
        let ghost s = self.text();
        let ghost n = self.index - 1;
        proof {
            assert forall|k: int| 0 <= k < n - start implies plain(#[trigger] s[start + k]) by {}
            lemma_str_run(s, start as int, n - start, Seq::empty());
            lemma_ascii_valid(Seq::empty());
            lemma_str_valid(s, start as int, Seq::empty());
            lemma_str_bound(s, start as int, Seq::empty());
        }
    @loop 1
        invariant
            s == old(self).text(), self.by(*old(self)), 0 < self.index, self.text()[self.index - 1] == ch, len <= self.buffer@.len(),
            str_at(s, start as int, Seq::empty()) == str_at(s, self.index - 1, self.buffer@.skip(len as int)),
        ensures
            str_at(s, start as int, Seq::empty()) == Got::Yes(self.buffer@.skip(len as int), self.index as int),
        decreases self.length - self.index
    @loopstart 1
        proof {
            let b0 = self.buffer@;
            let acc = b0.skip(len as int);
            lemma_str_step(s, self.index - 1, acc);
            assert forall|x: u8| #[trigger] b0.push(x).skip(len as int) == acc + seq![x] by { assert(b0.push(x).skip(len as int) =~= acc + seq![x]); }
            assert forall|x: Seq<u8>| #[trigger] (b0 + x).skip(len as int) == acc + x by { assert((b0 + x).skip(len as int) =~= acc + x); }
            lemma_str_end(s);
        }
    @loopbefore 1
        proof { assert(self.buffer@.skip(len as int) =~= Seq::empty() + s.subrange(start as int, n)); }
@@end

@@lift parser.rs | expect_string | expect_string
    @sig fn expect_string<'b>(&mut self) -> Result<&'b str>
    @bind $parser = self
    @keepmacro expect_byte
    @wrap
    @ret r
    @spec
        requires old(self).ok(), edge(old(self).text(), old(self).index as int)
        ensures
            final(self).by(*old(self)),
            match str_at(old(self).text(), old(self).index as int, Seq::empty()) {
                Got::Yes(t, j) => r is Ok && sb(r->Ok_0@) == t && final(self).index == j,
                Got::No(x) => r is Err && r->Err_0 == error_of(old(self).text(), x),
            }
    @entry
        hide(str_at); hide(valid_utf8);
        let ghost s = self.text();
        proof {
            lemma_str(self.source@);
            lemma_cut(s, self.index as int);
        }
    @loop 1
        invariant_except_break
            start <= self.index,
            forall|k: int| start <= k < self.index ==> plain(#[trigger] s[k]),
        invariant
            s == old(self).text(), self.by(*old(self)), start == old(self).index, start < s.len() ==> edge(s, start as int),
            valid_utf8(s), valid_utf8(s.skip(start as int)),
        ensures
            str_at(s, start as int, Seq::empty()) == Got::Yes(sb(result@), self.index as int),
        decreases self.length - self.index
    @loopstart 1
        proof {
            let i = self.index as int;
            let acc = s.subrange(start as int, i);
            assert forall|k: int| 0 <= k < i - start implies plain(#[trigger] s[start + k]) by {}
            lemma_str_run(s, start as int, i - start, Seq::empty());
            assert(Seq::<u8>::empty() + acc =~= acc);
            lemma_str_step(s, i, acc);
            lemma_ascii_valid(Seq::empty());
            lemma_str_valid(s, start as int, Seq::empty());
        }
@@end

@@lift parser.rs | expect_number | expect_number
    @sig fn expect_number(&mut self, first: u8) -> Result<Number>
    @bind $parser = self
    @bind $first = first
    @keepmacro allow_number_extensions
    @wrap
    @ret r
    @spec
        requires old(self).ok(), edge(old(self).text(), old(self).index as int), is_digit(first)
        ensures
            final(self).by(*old(self)),
            match int_end(old(self).text(), old(self).index as int, first - 48, 0) {
                Got::Yes(n, j) => r == Ok::<Number, Error>(n) && final(self).index == j,
                Got::No(x) => r == Err::<Number, Error>(error_of(old(self).text(), x)),
            }
    @loop 1
        invariant_except_break
            edge(self.text(), self.index as int), num <= MAX_PRECISION * 10 + 9,
            int_end(old(self).text(), old(self).index as int, first - 48, 0) == int_end(old(self).text(), self.index as int, num as int, 0),
        invariant
            self.by(*old(self)),
        ensures
            int_end(old(self).text(), old(self).index as int, first - 48, 0) == Got::Yes(result, self.index as int),
        decreases self.length - self.index
    @entry
        hide(int_end); hide(frac);
    @loopstart 1
        proof { lemma_num(); lemma_int_step(self.text(), self.index as int, num as int, 0); }
@@end

@@lift parser.rs | allow_number_extensions | number_extensions | arm0
    @id parser::number_extensions
    @sig fn number_extensions(&mut self, num: u64, e: i16, ch: u8) -> Result<Number>
    @bind $parser = self
    @bind $num = num
    @bind $e = e
    @bind $ch = ch
    @keepmacro expect_fraction
    @wrap
    @ret r
    @spec
        requires
            old(self).ok(), edge(old(self).text(), old(self).index as int), e == 0,
            old(self).index < old(self).length, ch == old(self).text()[old(self).index as int],
        ensures
            final(self).by(*old(self)),
            match num_rest(old(self).text(), old(self).index as int, num as int, 0) {
                Got::Yes(n, j) => r == Ok::<Number, Error>(n) && final(self).index == j,
                Got::No(x) => r == Err::<Number, Error>(error_of(old(self).text(), x)),
            }
@@end

@@lift parser.rs | allow_number_extensions | zero_extensions | arm1
    @id parser::zero_extensions
    @sig fn zero_extensions(&mut self) -> Result<Number>
    @bind $parser = self
    @keepmacro allow_number_extensions
    @wrap
    @ret r
    @spec
        requires old(self).ok(), edge(old(self).text(), old(self).index as int)
        ensures
            final(self).by(*old(self)),
            match num_rest(old(self).text(), old(self).index as int, 0, 0) {
                Got::Yes(n, j) => r == Ok::<Number, Error>(n) && final(self).index == j,
                Got::No(x) => r == Err::<Number, Error>(error_of(old(self).text(), x)),
            }
@@end

@@lift parser.rs | expect_fraction | expect_fraction
    @sig fn expect_fraction(&mut self, num_: u64, e_: i16) -> Result<Number>
    @bind $parser = self
    @bind $num = num
    @bind $e = e
    @keepmacro expect_byte
    @wrap
    @ret r
    @spec
        requires old(self).ok(), edge(old(self).text(), old(self).index as int)
        ensures
            final(self).by(*old(self)),
            match frac(old(self).text(), old(self).index as int, num_ as int, e_ as int) {
                Got::Yes(n, j) => r == Ok::<Number, Error>(n) && final(self).index == j,
                Got::No(x) => r == Err::<Number, Error>(error_of(old(self).text(), x)),
            }
    @entry
        hide(frac_end); hide(exp_part);
        let mut num = num_;
        let mut e = e_;
        proof { lemma_frac_step(self.text(), self.index as int, num as int, e as int); }
    @loopstart 1
        proof { lemma_num(); lemma_frac_step(self.text(), self.index as int, num as int, e as int); }
    @loop 1
        invariant_except_break
            edge(self.text(), self.index as int),
            frac(old(self).text(), old(self).index as int, num_ as int, e_ as int) == frac_end(old(self).text(), self.index as int, num as int, e as int),
        invariant
            self.by(*old(self)),
        ensures
            frac(old(self).text(), old(self).index as int, num_ as int, e_ as int) == Got::Yes(result, self.index as int),
        decreases self.length - self.index
@@end

@@fn parser.rs | impl<'a> Parser<'a> | read_big_number
    @ret r
    @attr #[verifier::loop_isolation(false)]
    @keepmacro expect_fraction
    @rw return Ok(self.expect_fraction($a, $b)?) =>> return self.expect_fraction($a, $b)
    @spec
        requires old(self).ok(), edge(old(self).text(), old(self).index as int)
        ensures
            final(self).by(*old(self)),
            match int_end(old(self).text(), old(self).index as int, num as int, 0) {
                Got::Yes(n, j) => r == Ok::<Number, Error>(n) && final(self).index == j,
                Got::No(x) => r == Err::<Number, Error>(error_of(old(self).text(), x)),
            }
    @entry
        hide(int_end); hide(frac); hide(exp_part);
        let ghost num0 = num;
    @loopstart 1
        proof { lemma_num(); lemma_int_step(self.text(), self.index as int, num as int, e as int); }
    @loopattr 1
        #[verifier::allow_complex_invariants]
    @loop 1
        invariant
            self.by(*old(self)), edge(self.text(), self.index as int), 0 <= e,
            int_end(old(self).text(), old(self).index as int, num0 as int, 0) == int_end(old(self).text(), self.index as int, num as int, e as int),
        ensures
            int_end(old(self).text(), old(self).index as int, num0 as int, 0) == Got::Yes(crate::reader::num(num as int, e as int), self.index as int),
        decreases self.length - self.index
@@end

@@fn parser.rs | impl<'a> Parser<'a> | expect_exponent
    @ret r
    @keepmacro expect_byte
    @spec
        requires old(self).ok(), edge(old(self).text(), old(self).index as int)
        ensures
            final(self).by(*old(self)),
            match exp_part(old(self).text(), old(self).index as int, num as int, big_e as int) {
                Got::Yes(n, j) => r == Ok::<Number, Error>(n) && final(self).index == j,
                Got::No(x) => r == Err::<Number, Error>(error_of(old(self).text(), x)),
            }
    @entry
        hide(digits_end);
    @loopstart 1
        proof { reveal_with_fuel(digits_end, 2); }
    @loopafter 1
        proof {
            assert(e * 1 == e && e * -1 == -e) by (nonlinear_arith);
            assert(e * sign == sign * e) by (nonlinear_arith);
            assert(sign == 1 || sign == -1);
        }
    @loopbefore 1
        let ghost k = self.index - 1;
        proof { reveal_with_fuel(digits_val, 2); reveal_with_fuel(digits_end, 2); }
    @loop 1
        invariant
            self.by(*old(self)), k < self.index, 0 <= k, 0 <= e,
            digits_end(self.text(), k) == digits_end(self.text(), self.index as int),
            e == min_int(digits_val(self.text(), k, self.index as int), i32::MAX as int),
        ensures
            self.index == digits_end(self.text(), k),
        decreases self.length - self.index
@@end
}

// ---- values and containers

/// What a container on the stack stands for. Its pending key has no value yet.
pub open spec fn frame_of(b: StackBlock) -> Frame {
    match b.0 {
        JsonValue::Array(a) => Frame::Arr(arr_j(a@)),
        JsonValue::Object(o) => Frame::Obj(obj_j(o), obj_j(o)[b.1 as int].0),
        _ => Frame::Arr(Seq::empty()),
    }
}
pub open spec fn frames(b: Seq<StackBlock>) -> Seq<Frame> { Seq::new(b.len(), |i: int| frame_of(b[i])) }
pub open spec fn block_ok(b: StackBlock) -> bool {
    wf(b.0) && (b.0 is Array || b.0 is Object && b.1 < b.0->Object_0.store@.len())
}
pub open spec fn blocks_ok(b: Seq<StackBlock>) -> bool { forall|i: int| 0 <= i < b.len() ==> block_ok(#[trigger] b[i]) }

/// Going into a container.
pub proof fn lemma_enter(s: Seq<u8>, ch: u8, i: int, f: Frame, fs: Seq<Frame>)
    requires 0 < i <= s.len(), s[i - 1] == ch
    ensures resume(s, inside(s, ch, i, (fs.len() + 1) as int, f), fs) == resume(s, value_from(s, ch, i, (fs.len() + 1) as int), fs.push(f))
{
    lemma_value(s, ch, i, (fs.len() + 1) as int);
    assert(fs.push(f).drop_last() =~= fs);
}

/// A key with no value yet may be put before its value.
pub proof fn lemma_put_again(o: Seq<(Seq<u8>, J)>, key: Seq<u8>, v: J)
    requires distinct(o)
    ensures put(put(o, key, J::Null), key, v) == put(o, key, v)
{
    lemma_put(o, key, J::Null);
    lemma_put(o, key, v);
    lemma_pos(o, key);
    assert(put(put(o, key, J::Null), key, v) =~= put(o, key, v));
}
pub proof fn lemma_pending(s: Seq<u8>, ch: u8, i: int, d: int, o: Seq<(Seq<u8>, J)>, key: Seq<u8>)
    requires distinct(o)
    ensures inside(s, ch, i, d, Frame::Obj(o, key)) == inside(s, ch, i, d, Frame::Obj(put(o, key, J::Null), key))
{
    match value_from(s, ch, i, d) {
        Got::Yes(v, j) => { lemma_put_again(o, key, v); }
        _ => {}
    }
}

/// A value that begins.
proof fn lemma_open(s: Seq<u8>, ch: u8, i: int, n: int, fs: Seq<Frame>)
    requires n == fs.len(), 0 < i <= s.len(), s[i - 1] == ch, edge(s, i - 1)
    ensures
        ch == 91 || ch == 123 ==> match tok(s, i) {
            Got::No(x) => resume(s, value_from(s, ch, i, n), fs) == Got::<J>::No(x),
            Got::Yes(c, j) => i < j <= s.len() && edge(s, j - 1) && s[j - 1] == c && (
                if ch == 91 && c == 93 { edge(s, j) && resume(s, value_from(s, ch, i, n), fs) == resume(s, Got::Yes(J::Arr(Seq::empty()), j), fs) }
                else if ch == 123 && c == 125 { edge(s, j) && resume(s, value_from(s, ch, i, n), fs) == resume(s, Got::Yes(J::Obj(Seq::empty()), j), fs) }
                else if n >= 512 { resume(s, value_from(s, ch, i, n), fs) == Got::<J>::No(Stop::Depth) }
                else if ch == 91 { resume(s, value_from(s, ch, i, n), fs) == resume(s, value_from(s, c, j, n + 1), fs.push(Frame::Arr(Seq::empty()))) }
                else if c != 34 { resume(s, value_from(s, ch, i, n), fs) == Got::<J>::No(Stop::Byte(j - 1)) }
                else { edge(s, j) && resume(s, value_from(s, ch, i, n), fs) == resume(s, entry_at(s, j, n + 1, Seq::empty()), fs) }
            ),
        },
        ch != 91 && ch != 123 ==> value_from(s, ch, i, n) == leaf(s, ch, i)
            && (leaf(s, ch, i) matches Got::No(x) ==> resume(s, value_from(s, ch, i, n), fs) == Got::<J>::No(x)),
        ch < 128 ==> edge(s, i),
        leaf(s, ch, i) matches Got::Yes(v, j) ==> i <= j <= s.len() && (ch != 91 && ch != 123 ==> edge(s, j)),
{
    lemma_value(s, ch, i, n);
    lemma_skip(s, i);
    if ch == 91 {
        match tok(s, i) { Got::Yes(c, j) => { if c != 93 && n < 512 { lemma_enter(s, c, j, Frame::Arr(Seq::empty()), fs); } } _ => {} }
    }
}
proof fn lemma_neg_num(s: Seq<u8>)
    ensures
        forall|n: Number| !n.nan() ==> #[trigger] NegSpec::neg_spec(n) == negated(n),
        forall|i: int, m: int, e: int| #[trigger] num_rest(s, i, m, e) is Yes ==> !num_rest(s, i, m, e)->Yes_0.nan(),
        forall|i: int, m: int, e: int| #[trigger] int_end(s, i, m, e) is Yes ==> !int_end(s, i, m, e)->Yes_0.nan(),
{
    assert forall|n: Number| !n.nan() implies #[trigger] NegSpec::neg_spec(n) == negated(n) by { lemma_neg(n); }
}
proof fn lemma_start(s: Seq<u8>)
    ensures
        match tok(s, 0) {
            Got::No(x) => document(s) == Got::<J>::No(x),
            Got::Yes(ch, i) => 0 < i <= s.len() && s[i - 1] == ch && edge(s, i - 1) && document(s) == resume(s, value_from(s, ch, i, 0), Seq::empty()),
        },
{
    lemma_skip(s, 0);
}
/// Facts about the stack.
proof fn lemma_stack()
    ensures
        forall|b: Seq<StackBlock>, x: StackBlock| #[trigger] frames(b.push(x)) == frames(b).push(frame_of(x)),
        forall|b: Seq<StackBlock>, x: StackBlock| blocks_ok(b) && block_ok(x) ==> #[trigger] blocks_ok(b.push(x)),
        forall|b: Seq<StackBlock>, x: StackBlock| #[trigger] b.push(x).drop_last() == b,
        forall|b: Seq<StackBlock>| (#[trigger] frames(b)).len() == b.len(),
        blocks_ok(Seq::empty()), frames(Seq::empty()) == Seq::<Frame>::empty(),
{
    assert forall|b: Seq<StackBlock>, x: StackBlock| #[trigger] b.push(x).drop_last() == b by { assert(b.push(x).drop_last() =~= b); }
    assert forall|b: Seq<StackBlock>, x: StackBlock| #[trigger] frames(b.push(x)) == frames(b).push(frame_of(x)) by { assert(frames(b.push(x)) =~= frames(b).push(frame_of(x))); }
    assert(frames(Seq::empty()) =~= Seq::<Frame>::empty());
}
/// Going on after a value.
proof fn lemma_top(s: Seq<u8>, b: Seq<StackBlock>, v: J, i: int)
    requires blocks_ok(b)
    ensures
        b.len() == 0 ==> resume(s, Got::Yes(v, i), frames(b)) == closed(s, i, v),
        b.len() > 0 ==> {
            &&& resume(s, Got::Yes(v, i), frames(b)) == resume(s, after(s, i, b.len() as int, frame_of(b.last()), v), frames(b.drop_last()))
            &&& wf(b.last().0)
            &&& b.last().0 is Array ==> frame_of(b.last()) == Frame::Arr(arr_j(b.last().0->Array_0@)) && wf_all(b.last().0->Array_0@)
            &&& b.last().0 is Object ==> frame_of(b.last()) == Frame::Obj(obj_j(b.last().0->Object_0), obj_j(b.last().0->Object_0)[b.last().1 as int].0)
                    && b.last().0->Object_0.ok() && b.last().1 < b.last().0->Object_0.store@.len()
            &&& b.last().0 is Array || b.last().0 is Object
            &&& blocks_ok(b.drop_last()) && frames(b.drop_last()).len() == b.len() - 1
        },
{
    if b.len() > 0 { assert(block_ok(b.last())); assert(frames(b).drop_last() =~= frames(b.drop_last())); }
}

/// After an element.
proof fn lemma_element(s: Seq<u8>, i: int, a: Seq<J>, v: J, d: int, fs: Seq<Frame>)
    requires d == fs.len() + 1, 0 <= i <= s.len(), edge(s, i)
    ensures
        match tok(s, i) {
            Got::No(x) => resume(s, after(s, i, d, Frame::Arr(a), v), fs) == Got::<J>::No(x),
            Got::Yes(c, j) => i < j <= s.len() && edge(s, j - 1) && s[j - 1] == c && (
                if c == 44 {
                    match tok(s, j) {
                        Got::No(x) => resume(s, after(s, i, d, Frame::Arr(a), v), fs) == Got::<J>::No(x),
                        Got::Yes(ch, k) => j < k <= s.len() && edge(s, k - 1) && s[k - 1] == ch &&
                            resume(s, after(s, i, d, Frame::Arr(a), v), fs) == resume(s, value_from(s, ch, k, d), fs.push(Frame::Arr(a.push(v)))),
                    }
                }
                else if c == 93 { edge(s, j) && resume(s, after(s, i, d, Frame::Arr(a), v), fs) == resume(s, Got::Yes(J::Arr(a.push(v)), j), fs) }
                else { resume(s, after(s, i, d, Frame::Arr(a), v), fs) == Got::<J>::No(Stop::Byte(j - 1)) }
            ),
        }
{
    lemma_skip(s, i);
    match tok(s, i) {
        Got::No(_) => {}
        Got::Yes(c, j) => {
            lemma_skip(s, j);
            if c == 44 {
                match tok(s, j) {
                    Got::No(_) => {}
                    Got::Yes(ch, k) => { lemma_enter(s, ch, k, Frame::Arr(a.push(v)), fs); }
                }
            }
        }
    }
}
/// After a member.
proof fn lemma_member_done(s: Seq<u8>, i: int, o: Seq<(Seq<u8>, J)>, key: Seq<u8>, v: J, d: int, fs: Seq<Frame>)
    requires d == fs.len() + 1, 0 <= i <= s.len(), edge(s, i), distinct(o)
    ensures
        match tok(s, i) {
            Got::No(x) => resume(s, after(s, i, d, Frame::Obj(o, key), v), fs) == Got::<J>::No(x),
            Got::Yes(c, j) => i < j <= s.len() && edge(s, j - 1) && s[j - 1] == c && (
                if c == 44 {
                    (tok(s, j) matches Got::Yes(_, k) ==> edge(s, k - 1)) && match mark(s, j, 34) {
                        Got::No(x) => resume(s, after(s, i, d, Frame::Obj(o, key), v), fs) == Got::<J>::No(x),
                        Got::Yes(_, k) => j < k <= s.len() && edge(s, k) &&
                            resume(s, after(s, i, d, Frame::Obj(o, key), v), fs) == resume(s, entry_at(s, k, d, put(o, key, v)), fs),
                    }
                }
                else if c == 125 { edge(s, j) && resume(s, after(s, i, d, Frame::Obj(o, key), v), fs) == resume(s, Got::Yes(J::Obj(put(o, key, v)), j), fs) }
                else { resume(s, after(s, i, d, Frame::Obj(o, key), v), fs) == Got::<J>::No(Stop::Byte(j - 1)) }
            ),
        }
{
    lemma_skip(s, i);
    match tok(s, i) {
        Got::No(_) => {}
        Got::Yes(c, j) => { lemma_skip(s, j); }
    }
}
/// A member up to its value.
spec fn key_step(s: Seq<u8>, i: int, o: Seq<(Seq<u8>, J)>, d: int, fs: Seq<Frame>) -> bool {
        match str_at(s, i, Seq::empty()) {
            Got::No(x) => resume(s, entry_at(s, i, d, o), fs) == Got::<J>::No(x),
            Got::Yes(key, j) => i < j <= s.len() && edge(s, j) && (tok(s, j) matches Got::Yes(_, k) ==> edge(s, k - 1)) && match mark(s, j, 58) {
                Got::No(x) => resume(s, entry_at(s, i, d, o), fs) == Got::<J>::No(x),
                Got::Yes(_, k) => j < k <= s.len() && edge(s, k) && match tok(s, k) {
                    Got::No(x) => resume(s, entry_at(s, i, d, o), fs) == Got::<J>::No(x),
                    Got::Yes(ch, m) => k < m <= s.len() && edge(s, m - 1) && s[m - 1] == ch &&
                        resume(s, entry_at(s, i, d, o), fs) == resume(s, value_from(s, ch, m, d), fs.push(Frame::Obj(put(o, key, J::Null), key))),
                },
            },
        }
}
proof fn lemma_key(s: Seq<u8>, i: int, o: Seq<(Seq<u8>, J)>, d: int, fs: Seq<Frame>)
    requires d == fs.len() + 1, 0 <= i <= s.len(), edge(s, i), distinct(o)
    ensures
        key_step(s, i, o, d, fs),
{
    lemma_str_bound(s, i, Seq::empty());
    match str_at(s, i, Seq::empty()) {
        Got::No(_) => {}
        Got::Yes(key, j) => {
            lemma_skip(s, j);
            match mark(s, j, 58) {
                Got::No(_) => {}
                Got::Yes(_, k) => {
                    lemma_skip(s, k);
                    match tok(s, k) {
                        Got::No(_) => {}
                        Got::Yes(ch, m) => { lemma_pending(s, ch, m, d, o, key); lemma_enter(s, ch, m, Frame::Obj(put(o, key, J::Null), key), fs); }
                    }
                }
            }
        }
    }
}

/// Facts about values and members.
proof fn lemma_values()
    ensures
        forall|v: JsonValue| #![trigger jv(v)] v is Array ==> jv(v) == J::Arr(arr_j(v->Array_0@)),
        forall|v: JsonValue| #![trigger jv(v)] v is Object ==> jv(v) == J::Obj(obj_j(v->Object_0)),
        forall|v: JsonValue| #![trigger wf(v)] v is Array ==> wf(v) == wf_all(v->Array_0@),
        forall|v: JsonValue| #![trigger wf(v)] v is Object ==> wf(v) == v->Object_0.ok(),
        forall|v: JsonValue| #![trigger wf(v)] v is Boolean || v is Null || v is Number ==> wf(v),
        forall|v: JsonValue| #![trigger jv(v)] v is Number ==> jv(v) == J::Num(v->Number_0),
        forall|v: JsonValue| #![trigger jv(v)] v is Boolean ==> jv(v) == J::Bool(v->Boolean_0),
        forall|v: JsonValue| #![trigger jv(v)] v is Null ==> jv(v) == J::Null,
        forall|a: Seq<JsonValue>, x: JsonValue| wf_all(a) && wf(x) ==> #[trigger] wf_all(a.push(x)),
        forall|a: Seq<JsonValue>| #![trigger wf_all(a)] a.len() == 0 ==> wf_all(a),
        forall|a: Seq<JsonValue>, x: JsonValue| #![trigger a.push(x)] arr_j(a.push(x)) == arr_j(a).push(jv(x)),
        forall|a: Seq<JsonValue>| #![trigger arr_j(a)] a.len() == 0 ==> arr_j(a) == Seq::<J>::empty(),
        forall|o: Object| #![trigger obj_j(o)] obj_j(o).len() == 0 ==> obj_j(o) == Seq::<(Seq<u8>, J)>::empty(),
        forall|o: Object| #![trigger obj_j(o)] o.ok() ==> distinct(obj_j(o)) && obj_j(o).len() == o.store@.len(),
        forall|o: Seq<(Seq<u8>, J)>, k: Seq<u8>| #![trigger pos(o, k)] pos(o, k) >= 0 ==> o[pos(o, k)].0 == k,
{
    assert forall|v: JsonValue| #![trigger jv(v)] v is Array implies jv(v) == J::Arr(arr_j(v->Array_0@)) by { lemma_jv(v); }
    assert forall|v: JsonValue| #![trigger jv(v)] v is Object implies jv(v) == J::Obj(obj_j(v->Object_0)) by { lemma_jv(v); }
    assert forall|a: Seq<JsonValue>, x: JsonValue| #![trigger a.push(x)] arr_j(a.push(x)) == arr_j(a).push(jv(x)) by { assert(arr_j(a.push(x)) =~= arr_j(a).push(jv(x))); }
    assert forall|a: Seq<JsonValue>| #![trigger arr_j(a)] a.len() == 0 implies arr_j(a) == Seq::<J>::empty() by { assert(arr_j(a) =~= Seq::<J>::empty()); }
    assert forall|o: Object| #![trigger obj_j(o)] obj_j(o).len() == 0 implies obj_j(o) == Seq::<(Seq<u8>, J)>::empty() by { assert(obj_j(o) =~= Seq::<(Seq<u8>, J)>::empty()); }
    assert forall|o: Object| #![trigger obj_j(o)] o.ok() implies distinct(obj_j(o)) && obj_j(o).len() == o.store@.len() by { lemma_obj(o); }
    assert forall|o: Seq<(Seq<u8>, J)>, k: Seq<u8>| #![trigger pos(o, k)] pos(o, k) >= 0 implies o[pos(o, k)].0 == k by { lemma_pos(o, k); }
}

impl<'a> Parser<'a> {
/// expect_string!(self).into()
fn expect_string_value(&mut self) -> (r: Result<JsonValue>)
    requires old(self).ok(), edge(old(self).text(), old(self).index as int)
    ensures
        final(self).by(*old(self)),
        match str_at(old(self).text(), old(self).index as int, Seq::empty()) {
            Got::Yes(t, j) => r is Ok && wf(r->Ok_0) && jv(r->Ok_0) == J::Str(t) && final(self).index == j,
            Got::No(x) => r is Err && r->Err_0 == error_of(old(self).text(), x),
        }
{
    Ok(JsonValue::from_str(self.expect_string()?))
}
}

impl<'a> Parser<'a> {
@@fn parser.rs | impl<'a> Parser<'a> | parse
    @ret r
    @keepmacro expect_byte expect_byte_ignore_whitespace expect_eof expect_string expect_number allow_number_extensions
    @attr #[verifier::loop_isolation(false)] #[verifier::spinoff_prover] #[verifier::rlimit(100)]
    @vis pub
    @spec
        requires old(self).ok(), old(self).index == 0
        ensures
            match document(old(self).text()) {
                Got::Yes(v, j) => r is Ok && wf(r->Ok_0) && jv(r->Ok_0) == v,
                Got::No(x) => r is Err && r->Err_0 == error_of(old(self).text(), x),
            }
    @entry
        hide(str_at); hide(num_rest); hide(inside); hide(after); hide(entry_at); hide(int_end); hide(skip); hide(frames); hide(blocks_ok); hide(sb); hide(encode_utf8); hide(encode_scalar); hide(decode_utf8); hide(resume); hide(value_from); hide(document); hide(place); hide(feeds); hide(line_of); hide(distinct); hide(put); hide(pos); hide(jv); hide(wf); hide(wf_all); hide(arr_j); hide(obj_j); hide(Object::ok); hide(Object::tree);
        let ghost s = self.text();
        proof { lemma_start(s); lemma_stack(); lemma_values(); lemma_neg_num(s); }
    @loop 1
        invariant
            s == old(self).text(), self.by(*old(self)), 0 < self.index, s[self.index - 1] == ch, edge(s, self.index - 1),
            blocks_ok(stack@), stack@.len() <= 512,
            document(s) == resume(s, value_from(s, ch, self.index as int, stack@.len() as int), frames(stack@)),
        decreases self.length - self.index
    @after let mut object = Object::with_capacity($e);
        let ghost fs = frames(stack@);
        proof {
            assert(distinct(Seq::<(Seq<u8>, J)>::empty())) by { reveal(distinct); }
            assert forall|j: int| #![trigger str_at(s, j, Seq::empty())] 0 <= j <= s.len() && edge(s, j) implies key_step(s, j, Seq::empty(), (stack@.len() + 1) as int, fs) by { lemma_key(s, j, Seq::empty(), (stack@.len() + 1) as int, fs); }
        }
    @loopstart 1
        let ghost i0 = self.index as int;
        proof { lemma_open(s, ch, i0, stack@.len() as int, frames(stack@)); }
    @loop 2
        invariant
            s == old(self).text(), self.by(*old(self)), 0 < self.index, edge(s, self.index as int), i0 <= self.index,
            blocks_ok(stack@), stack@.len() <= 512, wf(value),
            document(s) == resume(s, Got::Yes(jv(value), self.index as int), frames(stack@)),
        decreases stack@.len()
    @loopstart 2
        let ghost fs = frames(stack@.drop_last());
        let ghost n = stack@.len() as int;
        let ghost below = stack@.drop_last();
        let ghost i = self.index as int;
        proof { lemma_top(s, stack@, jv(value), i); }
    @loopend 2
        proof {
            assert(stack@ =~= below);
        }
    @before array.push(value);
        proof { lemma_element(s, i, arr_j(array@), jv(value), n, fs); }
    @before object.override_at(*index, value);
        proof {
            let o = obj_j(*object);
            let k = o[*index as int].0;
            assert(o.update(*index as int, (k, jv(value))) == put(o, k, jv(value))) by { reveal(put); lemma_pos_at(o, *index as int); }
            lemma_put(o, k, jv(value));
            lemma_member_done(s, i, o, k, jv(value), n, fs);
            assert forall|j: int| #![trigger str_at(s, j, Seq::empty())] 0 <= j <= s.len() && edge(s, j) implies key_step(s, j, put(o, k, jv(value)), n, fs) by { lemma_key(s, j, put(o, k, jv(value)), n, fs); }
        }
@@end
}

@@fn parser.rs | - | parse
    @ret r
    @spec
        ensures
            match document(sb(source@)) {
                Got::Yes(v, j) => r is Ok && wf(r->Ok_0) && jv(r->Ok_0) == v,
                Got::No(x) => r is Err && r->Err_0 == error_of(sb(source@), x),
            }
@@end

} // verus!
