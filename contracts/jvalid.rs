// The text of a value is UTF-8.
use vstd::prelude::*;
use vstd::utf8::*;
use crate::spec::*;
use crate::text::*;
use crate::json::*;
use crate::jtext::*;
use crate::short::*;
use crate::raw::*;
use crate::object::*;
use crate::number::Number;
verus! {

pub open spec fn ascii(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] < 128 }

pub proof fn lemma_valid_cat(a: Seq<u8>, b: Seq<u8>)
    requires valid_utf8(a), valid_utf8(b)
    ensures valid_utf8(a + b)
{
    decode_utf8_encode_utf8(a);
    decode_utf8_encode_utf8(b);
    let x = decode_utf8(a);
    let y = decode_utf8(b);
    encode_utf8_concat(x, y);
    encode_utf8_valid_utf8(x + y);
}

pub proof fn lemma_ascii_valid(s: Seq<u8>)
    requires ascii(s)
    ensures valid_utf8(s)
    decreases s.len()
{
    if s.len() > 0 {
        assert(s[0] < 128);
        let c = s[0];
        assert(c & 0x80 == 0) by (bit_vector) requires c < 128;
        lemma_ascii_valid(pop_first_scalar(s));
    }
}

pub proof fn lemma_esc_cat(a: Seq<u8>, b: Seq<u8>)
    ensures esc(a + b) == esc(a) + esc(b)
    decreases b.len()
{
    if b.len() == 0 {
        assert(a + b =~= a);
        assert(esc(b) =~= Seq::<u8>::empty());
        assert(esc(a) + esc(b) =~= esc(a));
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_esc_cat(a, b.drop_last());
        assert((esc(a) + esc(b.drop_last())) + esc1(b.last()) =~= esc(a) + (esc(b.drop_last()) + esc1(b.last())));
    }
}


/// Bytes of 128 and above are copied.
pub proof fn lemma_esc_high(h: Seq<u8>)
    requires forall|i: int| 0 <= i < h.len() ==> #[trigger] h[i] >= 128
    ensures esc(h) == h
    decreases h.len()
{
    if h.len() > 0 {
        assert(h.last() >= 128);
        lemma_esc_high(h.drop_last());
        assert(h.drop_last() + seq![h.last()] =~= h);
    }
}

pub proof fn lemma_first_scalar(s: Seq<u8>)
    requires valid_utf8(s), s.len() > 0
    ensures
        take_first_scalar(s).len() > 0,
        take_first_scalar(s) + pop_first_scalar(s) == s,
        valid_utf8(take_first_scalar(s)), valid_utf8(pop_first_scalar(s)),
        s[0] < 128 ==> take_first_scalar(s) == seq![s[0]],
        s[0] >= 128 ==> forall|i: int| 0 <= i < take_first_scalar(s).len() ==> #[trigger] take_first_scalar(s)[i] >= 128,
{
    let h = take_first_scalar(s);
    let t = pop_first_scalar(s);
    assert(h + t =~= s);
    let c0 = s[0];
    assert(c0 < 128 <==> c0 & 0x80 == 0) by (bit_vector);
    if c0 < 128 {
        assert(h =~= seq![s[0]]);
        lemma_ascii_valid(h);
    } else {
        assert forall|i: int| 0 <= i < h.len() implies #[trigger] h[i] >= 128 by {
            let c = h[i];
            assert(c & 0xc0 == 0x80 ==> c >= 128) by (bit_vector);
        }
        assert(pop_first_scalar(h) =~= Seq::<u8>::empty());
        assert(valid_utf8(pop_first_scalar(h)));
        assert(valid_utf8(h));
    }
}

pub proof fn lemma_esc_valid(s: Seq<u8>)
    requires valid_utf8(s)
    ensures valid_utf8(esc(s))
    decreases s.len()
{
    if s.len() > 0 {
        let h = take_first_scalar(s);
        let t = pop_first_scalar(s);
        lemma_first_scalar(s);
        lemma_esc_valid(t);
        lemma_esc_cat(h, t);
        if s[0] < 128 {
            reveal_with_fuel(esc, 2);
            assert(h.drop_last() =~= Seq::<u8>::empty());
            assert(esc(h) =~= esc1(s[0]));
            lemma_ascii_valid(esc(h));
        } else {
            lemma_esc_high(h);
        }
        lemma_valid_cat(esc(h), esc(t));
    }
}

pub proof fn lemma_str_text_valid(s: Seq<u8>)
    requires valid_utf8(s)
    ensures valid_utf8(str_text(s))
{
    lemma_esc_valid(s);
    lemma_ascii_valid(seq![34u8]);
    lemma_valid_cat(esc(s), seq![34u8]);
    lemma_valid_cat(seq![34u8], esc(s) + seq![34u8]);
}

pub proof fn lemma_number_ascii(n: Number)
    ensures ascii(number_text(n))
{
    if !n.nan() {
        let l = num_lit(n.category == 1, n.mantissa as nat, n.exponent as int);
        lemma_num_text(n.category == 1, n.mantissa as nat, n.exponent as int);
        let t = lit_text(l);
        assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] < 128 by {}
    }
}

/// Every string in it is text.
pub open spec fn jok(j: J) -> bool
    decreases j
{
    match j {
        J::Str(s) => valid_utf8(s),
        J::Arr(a) => forall|i: int| 0 <= i < a.len() ==> jok(#[trigger] a[i]),
        J::Obj(o) => forall|i: int| 0 <= i < o.len() ==> valid_utf8((#[trigger] o[i]).0) && jok(o[i].1),
        _ => true,
    }
}

pub proof fn lemma_jok(v: JsonValue)
    requires wf(v)
    ensures jok(jv(v))
    decreases v
{
    lemma_jv(v);
    match v {
        JsonValue::String(s) => { lemma_str(s@); }
        JsonValue::Array(a) => {
            assert forall|i: int| 0 <= i < a@.len() implies jok(#[trigger] arr_j(a@)[i]) by { assert(wf(a@[i])); lemma_jok(a@[i]); }
        }
        JsonValue::Object(o) => {
            assert forall|i: int| 0 <= i < o.store@.len() implies valid_utf8((#[trigger] obj_j(o)[i]).0) && jok(obj_j(o)[i].1) by {
                assert(o.store@[i].key.readable());
                assert(wf(o.store@[i].value));
                lemma_jok(o.store@[i].value);
            }
        }
        _ => {}
    }
}

pub proof fn lemma_ends(l: St)
    ensures
        valid_utf8(nl(l)), valid_utf8(colon(l)), valid_utf8(Seq::<u8>::empty()),
        valid_utf8(seq![44u8]), valid_utf8(seq![91u8]), valid_utf8(seq![93u8]), valid_utf8(seq![123u8]), valid_utf8(seq![125u8]),
        valid_utf8(seq![91u8, 93u8]), valid_utf8(seq![123u8, 125u8]),
        valid_utf8(null_text()), valid_utf8(true_text()), valid_utf8(false_text()),
{
    lemma_ascii_valid(nl(l)); lemma_ascii_valid(colon(l)); lemma_ascii_valid(Seq::<u8>::empty());
    lemma_ascii_valid(seq![44u8]); lemma_ascii_valid(seq![91u8]); lemma_ascii_valid(seq![93u8]); lemma_ascii_valid(seq![123u8]); lemma_ascii_valid(seq![125u8]);
    lemma_ascii_valid(seq![91u8, 93u8]); lemma_ascii_valid(seq![123u8, 125u8]);
    lemma_ascii_valid(null_text()); lemma_ascii_valid(true_text()); lemma_ascii_valid(false_text());
}

pub proof fn lemma_j_valid(j: J, l: St)
    requires jok(j)
    ensures valid_utf8(json_text(j, l))
    decreases j, 0int
{
    hide(valid_utf8);
    lemma_ends(l);
    match j {
        J::Num(n) => { lemma_number_ascii(n); lemma_ascii_valid(number_text(n)); }
        J::Str(s) => { lemma_str_text_valid(s); }
        J::Arr(a) => {
            lemma_items_valid(a, a.len() as int, deeper(l));
            lemma_valid_cat(nl(l), seq![93u8]);
            lemma_valid_cat(items_text(a, a.len() as int, deeper(l)), nl(l) + seq![93u8]);
            lemma_valid_cat(seq![91u8], items_text(a, a.len() as int, deeper(l)) + (nl(l) + seq![93u8]));
        }
        J::Obj(o) => {
            lemma_members_valid(o, o.len() as int, deeper(l));
            lemma_valid_cat(nl(l), seq![125u8]);
            lemma_valid_cat(members_text(o, o.len() as int, deeper(l)), nl(l) + seq![125u8]);
            lemma_valid_cat(seq![123u8], members_text(o, o.len() as int, deeper(l)) + (nl(l) + seq![125u8]));
        }
        _ => {}
    }
}

proof fn lemma_items_valid(a: Seq<J>, n: int, l: St)
    requires forall|i: int| 0 <= i < a.len() ==> jok(#[trigger] a[i])
    ensures valid_utf8(items_text(a, n, l))
    decreases a, n
{
    hide(valid_utf8);
    lemma_ends(l);
    if 0 < n <= a.len() {
        lemma_items_valid(a, n - 1, l);
        let x = a[n - 1];
        assert(jok(x));
        lemma_j_valid(x, l);
        let c = if n > 1 { seq![44u8] } else { Seq::empty() };
        lemma_valid_cat(nl(l), json_text(x, l));
        lemma_valid_cat(c, nl(l) + json_text(x, l));
        lemma_valid_cat(items_text(a, n - 1, l), c + (nl(l) + json_text(x, l)));
    }
}

proof fn lemma_members_valid(o: Seq<(Seq<u8>, J)>, n: int, l: St)
    requires forall|i: int| 0 <= i < o.len() ==> valid_utf8((#[trigger] o[i]).0) && jok(o[i].1)
    ensures valid_utf8(members_text(o, n, l))
    decreases o, n
{
    hide(valid_utf8);
    lemma_ends(l);
    if 0 < n <= o.len() {
        lemma_members_valid(o, n - 1, l);
        let x = o[n - 1];
        assert(jok(x.1));
        lemma_j_valid(x.1, l);
        lemma_str_text_valid(x.0);
        let c = if n > 1 { seq![44u8] } else { Seq::empty() };
        lemma_valid_cat(colon(l), json_text(x.1, l));
        lemma_valid_cat(str_text(x.0), colon(l) + json_text(x.1, l));
        lemma_valid_cat(nl(l), str_text(x.0) + (colon(l) + json_text(x.1, l)));
        lemma_valid_cat(c, nl(l) + (str_text(x.0) + (colon(l) + json_text(x.1, l))));
        lemma_valid_cat(members_text(o, n - 1, l), c + (nl(l) + (str_text(x.0) + (colon(l) + json_text(x.1, l)))));
    }
}

pub proof fn lemma_text_valid(v: JsonValue, l: St)
    requires wf(v)
    ensures valid_utf8(json_text(jv(v), l))
{
    lemma_jok(v);
    lemma_j_valid(jv(v), l);
}

pub proof fn lemma_obj_valid(o: Object, l: St)
    requires o.ok()
    ensures valid_utf8(json_text(J::Obj(obj_j(o)), l))
{
    lemma_text_valid(JsonValue::Object(o), l);
    lemma_jv(JsonValue::Object(o));
}

} // verus!
