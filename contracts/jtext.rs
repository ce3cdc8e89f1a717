// The JSON text of a value, in both layouts.
use vstd::prelude::*;
use crate::spec::*;
use crate::text::*;
use crate::number::Number;
use crate::wr::*;
use crate::json::*;
verus! {

/// Layout of the output.
pub ghost struct St { pub pretty: bool, pub spaces: nat, pub depth: nat }

pub open spec fn deeper(l: St) -> St { if l.pretty { St { depth: l.depth + 1, ..l } } else { l } }
pub open spec fn blanks(n: nat) -> Seq<u8> { Seq::new(n, |i: int| 32u8) }
/// What separates lines.
pub open spec fn nl(l: St) -> Seq<u8> { if l.pretty { seq![10u8] + blanks(l.depth * l.spaces) } else { Seq::empty() } }
/// What separates a key from its value.
pub open spec fn colon(l: St) -> Seq<u8> { if l.pretty { seq![58u8, 32u8] } else { seq![58u8] } }

pub open spec fn null_text() -> Seq<u8> { seq![110u8, 117u8, 108u8, 108u8] }
pub open spec fn true_text() -> Seq<u8> { seq![116u8, 114u8, 117u8, 101u8] }
pub open spec fn false_text() -> Seq<u8> { seq![102u8, 97u8, 108u8, 115u8, 101u8] }

/// The character after the backslash for an escaped byte, 0 for the others.
pub open spec fn esc_code(b: u8) -> u8 {
    if b == 8 { 98 } else if b == 9 { 116 } else if b == 10 { 110 } else if b == 12 { 102 } else if b == 13 { 114 }
    else if b == 34 { 34 } else if b == 92 { 92 } else if b < 32 { 117 } else { 0 }
}
pub open spec fn hex(d: int) -> u8 { if d < 10 { (48 + d) as u8 } else { (87 + d) as u8 } }
/// How one byte of a string is written.
pub open spec fn esc1(b: u8) -> Seq<u8> {
    if esc_code(b) == 0 { seq![b] }
    else if esc_code(b) == 117 { seq![92u8, 117u8, 48u8, 48u8, hex(b as int / 16), hex(b as int % 16)] }
    else { seq![92u8, esc_code(b)] }
}
pub open spec fn esc(s: Seq<u8>) -> Seq<u8>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { esc(s.drop_last()) + esc1(s.last()) }
}
pub open spec fn str_text(s: Seq<u8>) -> Seq<u8> { seq![34u8] + (esc(s) + seq![34u8]) }

pub open spec fn number_text(n: Number) -> Seq<u8> {
    if n.nan() { null_text() } else { num_text(n.category == 1, n.mantissa as nat, n.exponent as int) }
}

pub open spec fn json_text(j: J, l: St) -> Seq<u8>
    decreases j, 0int
{
    match j {
        J::Null => null_text(),
        J::Bool(b) => if b { true_text() } else { false_text() },
        J::Num(n) => number_text(n),
        J::Str(s) => str_text(s),
        J::Arr(a) => if a.len() == 0 { seq![91u8, 93u8] } else { seq![91u8] + (items_text(a, a.len() as int, deeper(l)) + (nl(l) + seq![93u8])) },
        J::Obj(o) => if o.len() == 0 { seq![123u8, 125u8] } else { seq![123u8] + (members_text(o, o.len() as int, deeper(l)) + (nl(l) + seq![125u8])) },
    }
}
/// The text of the first n elements.
pub open spec fn items_text(a: Seq<J>, n: int, l: St) -> Seq<u8>
    decreases a, n
{
    if 0 < n <= a.len() { items_text(a, n - 1, l) + ((if n > 1 { seq![44u8] } else { Seq::empty() }) + (nl(l) + json_text(a[n - 1], l))) } else { Seq::empty() }
}
pub open spec fn members_text(o: Seq<(Seq<u8>, J)>, n: int, l: St) -> Seq<u8>
    decreases o, n
{
    if 0 < n <= o.len() {
        members_text(o, n - 1, l) + ((if n > 1 { seq![44u8] } else { Seq::empty() }) + (nl(l) + (str_text(o[n - 1].0) + (colon(l) + json_text(o[n - 1].1, l)))))
    } else { Seq::empty() }
}

/// At most n levels of containers.
pub open spec fn shallow(j: J, n: int) -> bool
    decreases j
{
    match j {
        J::Arr(a) => n > 0 && forall|i: int| 0 <= i < a.len() ==> shallow(#[trigger] a[i], n - 1),
        J::Obj(o) => n > 0 && forall|i: int| 0 <= i < o.len() ==> shallow(#[trigger] o[i].1, n - 1),
        _ => true,
    }
}

/// The indentation counter can hold the depth of the value.
pub open spec fn fits(j: J, l: St) -> bool { l.pretty ==> shallow(j, 65535 - l.depth) }

/// A generator has written `text`.
pub open spec fn gwrote(r: Result<()>, old_sink: Seq<u8>, new_sink: Seq<u8>, old_st: St, new_st: St, text: Seq<u8>) -> bool {
    &&& wrote(r, old_sink, new_sink, text)
    &&& r is Ok ==> new_st == old_st
}

} // verus!
