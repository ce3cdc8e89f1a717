// What is printed for a string reads back as that string.
use vstd::prelude::*;
use vstd::utf8::*;
use crate::spec::*;
use crate::text::*;
use crate::json::*;
use crate::jtext::*;
use crate::gram::*;
verus! {

/// The piece that begins at i is the printed form of the byte b.
proof fn lemma_piece(s: Seq<u8>, i: int, b: u8)
    requires
        0 <= i, i + esc1(b).len() <= s.len(),
        s.subrange(i, i + esc1(b).len()) == esc1(b),
    ensures
        piece_at(s, i) == Got::Yes(seq![b], i + esc1(b).len()), s[i] != 34, esc1(b).len() > 0
{
    let t = esc1(b);
    let u = s.subrange(i, i + t.len());
    assert(forall|k: int| 0 <= k < t.len() ==> s[i + k] == t[k]) by { assert(forall|k: int| 0 <= k < t.len() ==> s[i + k] == u[k]); }
    assert(t.len() > 0);
    assert(s[i + 0] == t[0]);
    if esc_code(b) == 0 {
    } else if esc_code(b) == 117 {
        assert(s[i + 1] == 117); assert(s[i + 2] == 48); assert(s[i + 3] == 48);
        assert(s[i + 4] == t[4]); assert(s[i + 5] == t[5]);
        let c = b as int;
        assert(hex_val(t[4]) * 16 + hex_val(t[5]) == c);
        assert(hex4(s, i + 2) == Got::Yes(c, i + 6));
        assert(b & 0x80 == 0) by (bit_vector) requires b < 32;
        assert(c as u32 as u8 == b);
        lemma_encode_ascii(b);
        assert(utf8(c) =~= seq![b]);
    } else {
        assert(s[i + 1] == t[1]);
    }
}

pub proof fn lemma_encode_ascii(b: u8)
    requires b < 128
    ensures encode_scalar(b as u32) == seq![b]
{
    let x = b as u32;
    assert(x & 0x7f == x) by (bit_vector) requires x < 128;
    assert(x as u8 == b);
    assert(leading_byte_width_1(x) == b);
    assert(encode_scalar(x) =~= seq![b]);
}

/// Reading the printed form of b gives b and stops after it.
pub proof fn lemma_str_back(s: Seq<u8>, i: int, b: Seq<u8>, acc: Seq<u8>)
    requires
        0 <= i, i + esc(b).len() + 1 <= s.len(),
        s.subrange(i, i + esc(b).len() + 1) == esc(b) + seq![34u8],
    ensures
        str_at(s, i, acc) == Got::Yes(acc + b, i + esc(b).len() + 1)
    decreases b.len()
{
    let t = esc(b) + seq![34u8];
    let u = s.subrange(i, i + esc(b).len() + 1);
    assert(forall|k: int| 0 <= k < t.len() ==> s[i + k] == t[k]) by { assert(forall|k: int| 0 <= k < t.len() ==> s[i + k] == u[k]); }
    if b.len() == 0 {
        assert(t[0] == 34);
        assert(s[i + 0] == t[0]);
        assert(acc + b =~= acc);
    } else {
        let h = seq![b[0]];
        let r = b.subrange(1, b.len() as int);
        assert(h + r =~= b);
        crate::jvalid::lemma_esc_cat(h, r);
        assert(esc(h) =~= esc1(b[0])) by { reveal_with_fuel(esc, 2); assert(h.drop_last() =~= Seq::<u8>::empty()); }
        let n = esc1(b[0]).len();
        assert(s.subrange(i, i + n) =~= esc1(b[0])) by {
            assert(forall|k: int| 0 <= k < n ==> t[k] == esc1(b[0])[k]);
        }
        lemma_piece(s, i, b[0]);
        let w = s.subrange(i + n, i + n + esc(r).len() + 1);
        assert forall|k: int| 0 <= k < w.len() implies w[k] == (esc(r) + seq![34u8])[k] by {
            assert(s[i + (n + k)] == t[n + k]);
        }
        assert(w =~= esc(r) + seq![34u8]);
        lemma_str_back(s, i + n, r, acc + h);
        assert(acc + h + r =~= acc + b);
    }
}

/// C08: what is printed for a string is a string literal that denotes exactly it.
pub proof fn lemma_string_literal(b: Seq<u8>)
    ensures
        str_text(b)[0] == 34,
        str_at(str_text(b), 1, Seq::empty()) == Got::Yes(b, str_text(b).len() as int),
{
    let s = str_text(b);
    assert(s.subrange(1, s.len() as int) =~= esc(b) + seq![34u8]);
    lemma_str_back(s, 1, b, Seq::empty());
    assert(Seq::<u8>::empty() + b =~= b);
}

/// C08: only quote, backslash and control characters are escaped; no raw one of them remains.
pub proof fn lemma_copied(b: u8)
    ensures
        b != 34 && b != 92 && b >= 32 ==> esc1(b) == seq![b],
        b == 34 || b == 92 || b < 32 ==> esc1(b)[0] == 92 && esc1(b).len() > 1,
{
}

} // verus!
