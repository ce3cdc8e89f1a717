// How JSON text is read: the grammar with its meaning and the place of the first error.
use vstd::prelude::*;
use vstd::utf8::*;
use crate::spec::*;
use crate::text::*;
verus! {

/// Why reading stops.
pub enum Stop {
    /// the text ends
    End,
    /// the byte at this place cannot stand there
    Byte(int),
    Depth,
    Pair,
}

/// The outcome of reading something from a place on: what it is and where it ends.
pub enum Got<T> { Yes(T, int), No(Stop) }

pub open spec fn byte_at(s: Seq<u8>, i: int) -> Got<u8> { if 0 <= i < s.len() { Got::Yes(s[i], i + 1) } else { Got::No(Stop::End) } }

// ------------------------------------------------------------ strings

pub open spec fn is_hex(b: u8) -> bool { 48 <= b <= 57 || 97 <= b <= 102 || 65 <= b <= 70 }
pub open spec fn hex_val(b: u8) -> int { if b <= 57 { b - 48 } else if b >= 97 { b - 87 } else { b - 55 } }

/// Four hexadecimal digits.
pub open spec fn hex4(s: Seq<u8>, i: int) -> Got<int> {
    if i >= s.len() { Got::No(Stop::End) } else if !is_hex(s[i]) { Got::No(Stop::Byte(i)) }
    else if i + 1 >= s.len() { Got::No(Stop::End) } else if !is_hex(s[i + 1]) { Got::No(Stop::Byte(i + 1)) }
    else if i + 2 >= s.len() { Got::No(Stop::End) } else if !is_hex(s[i + 2]) { Got::No(Stop::Byte(i + 2)) }
    else if i + 3 >= s.len() { Got::No(Stop::End) } else if !is_hex(s[i + 3]) { Got::No(Stop::Byte(i + 3)) }
    else { Got::Yes(hex_val(s[i]) * 4096 + hex_val(s[i + 1]) * 256 + hex_val(s[i + 2]) * 16 + hex_val(s[i + 3]), i + 4) }
}

/// The character that follows `\u`.
pub open spec fn code_at(s: Seq<u8>, i: int) -> Got<int> {
    match hex4(s, i) {
        Got::No(e) => Got::No(e),
        Got::Yes(u, j) =>
            if !(0xd800 <= u <= 0xdfff) { Got::Yes(u, j) }
            else if j >= s.len() { Got::No(Stop::End) } else if s[j] != 92 { Got::No(Stop::Byte(j)) }
            else if j + 1 >= s.len() { Got::No(Stop::End) } else if s[j + 1] != 117 { Got::No(Stop::Byte(j + 1)) }
            else {
                match hex4(s, j + 2) {
                    Got::No(e) => Got::No(e),
                    Got::Yes(v, k) =>
                        if u <= 0xdbff && 0xdc00 <= v <= 0xdfff { Got::Yes(0x10000 + (u - 0xd800) * 0x400 + (v - 0xdc00), k) }
                        else { Got::No(Stop::Pair) },
                }
            },
    }
}

/// UTF-8 of one character.
pub open spec fn utf8(c: int) -> Seq<u8> { encode_scalar(c as u32) }

/// The byte an escape letter stands for.
pub open spec fn unesc(b: u8) -> Option<u8> {
    if b == 34 || b == 92 || b == 47 { Some(b) }
    else if b == 98 { Some(8u8) } else if b == 102 { Some(12u8) } else if b == 116 { Some(9u8) }
    else if b == 114 { Some(13u8) } else if b == 110 { Some(10u8) } else { None }
}

/// One piece of a string: a byte that stands for itself, or an escape.
pub open spec fn piece_at(s: Seq<u8>, i: int) -> Got<Seq<u8>> {
    if i >= s.len() { Got::No(Stop::End) }
    else if s[i] < 32 || s[i] == 34 { Got::No(Stop::Byte(i)) }
    else if s[i] != 92 { Got::Yes(seq![s[i]], i + 1) }
    else if i + 1 >= s.len() { Got::No(Stop::End) }
    else if s[i + 1] == 117 {
        match code_at(s, i + 2) {
            Got::No(e) => Got::No(e),
            Got::Yes(c, j) => Got::Yes(utf8(c), j),
        }
    }
    else {
        match unesc(s[i + 1]) {
            None => Got::No(Stop::Byte(i + 1)),
            Some(b) => Got::Yes(seq![b], i + 2),
        }
    }
}

/// The rest of a string up to its closing quote, after what `acc` holds.
pub open spec fn str_at(s: Seq<u8>, i: int, acc: Seq<u8>) -> Got<Seq<u8>>
    decreases s.len() - i
{
    if i < s.len() && s[i] == 34 { Got::Yes(acc, i + 1) }
    else {
        match piece_at(s, i) {
            Got::No(e) => Got::No(e),
            Got::Yes(p, j) => if i < j <= s.len() { str_at(s, j, acc + p) } else { Got::No(Stop::End) },
        }
    }
}

} // verus!
