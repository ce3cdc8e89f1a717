use vstd::prelude::*;
use vstd::utf8::*;
use crate::spec::*;
use crate::stdx::*;
use crate::raw::*;
use crate::text::*;
use crate::wr as io;
use crate::wr::*;
use crate::json::*;
use crate::jtext::*;
use crate::short::*;
use crate::object::*;
use crate::number::Number;
use crate::print_dec;
verus! {

@@rules
$s_id.bytes().enumerate().skip($n) =>> ByteEnum::new($s_id, $n)
$s_id.bytes().enumerate() =>> ByteEnum::new($s_id, 0)
write!($w, "{:04x}", $c) =>> write_hex4($w, $c)
for ($k_id, $v_id) in $it { $body_blk } =>> let mut it = $it; loop { match it.next() { Some(($k_id, $v_id)) => { $body_blk } None => { break } } }
@@endrules

@@item codegen.rs | const QU
@@item codegen.rs | const BS
@@item codegen.rs | const BB
@@item codegen.rs | const TT
@@item codegen.rs | const NN
@@item codegen.rs | const FF
@@item codegen.rs | const RR
@@item codegen.rs | const UU
@@item codegen.rs | const __
@@item codegen.rs | static ESCAPED | | ensures esc_table(ESCAPED@)

pub open spec fn esc_table(t: Seq<u8>) -> bool { t.len() == 256 && forall|b: int| 0 <= b < 256 ==> #[trigger] t[b] == esc_code(b as u8) }

/// write!(w, "{:04x}", c)
#[verifier::external_body]
fn write_hex4<W: Write>(w: &mut W, c: u8) -> (r: Result<()>)
    ensures final(w).sure() == old(w).sure(), r is Err ==> !old(w).sure(), wrote(r, old(w).out(), final(w).out(), seq![48u8, 48u8, hex(c as int / 16), hex(c as int % 16)])
{ unimplemented!() }

proof fn lemma_esc_step(b: Seq<u8>)
    ensures
        forall|i: int| #![trigger b.subrange(0, i + 1)] 0 <= i < b.len() ==> esc(b.subrange(0, i + 1)) == esc(b.subrange(0, i)) + esc1(b[i]),
        forall|i: int| #![trigger b.subrange(0, i)] 0 <= i <= b.len() ==> prefix(esc(b.subrange(0, i)), esc(b)),
        esc(b.subrange(0, 0)) == Seq::<u8>::empty(),
        b.subrange(0, b.len() as int) == b,
{
    assert forall|i: int| #![trigger b.subrange(0, i + 1)] 0 <= i < b.len() implies esc(b.subrange(0, i + 1)) == esc(b.subrange(0, i)) + esc1(b[i]) by {
        assert(b.subrange(0, i + 1).drop_last() =~= b.subrange(0, i));
    }
    assert(b.subrange(0, b.len() as int) =~= b);
    assert forall|i: int| #![trigger b.subrange(0, i)] 0 <= i <= b.len() implies prefix(esc(b.subrange(0, i)), esc(b)) by {
        lemma_esc_prefix(b, i);
    }
}

proof fn lemma_esc_prefix(b: Seq<u8>, i: int)
    requires 0 <= i <= b.len()
    ensures prefix(esc(b.subrange(0, i)), esc(b))
    decreases b.len()
{
    if i < b.len() {
        lemma_esc_prefix(b.drop_last(), i);
        assert(b.drop_last().subrange(0, i) =~= b.subrange(0, i));
    } else {
        assert(b.subrange(0, i) =~= b);
    }
}

/// Everything written so far is on the way to the whole text.
proof fn lemma_esc_track(o: Seq<u8>, b: Seq<u8>)
    ensures
        forall|i: int| #![trigger b.subrange(0, i)] 0 <= i <= b.len() ==> emitted_part(o, o + esc(b.subrange(0, i)), esc(b) + seq![34u8]),
        forall|i: int| #![trigger b.subrange(0, i)] 0 <= i <= b.len() ==> prefix(o, o + esc(b.subrange(0, i))),
        emitted_part(o, o + (esc(b) + seq![34u8]), esc(b) + seq![34u8]),
        forall|i: int| #![trigger b[i]] 0 <= i < b.len() && esc_code(b[i]) == 117 ==>
            emitted_part(o, o + (esc(b.subrange(0, i)) + seq![92u8, 117u8]), esc(b) + seq![34u8]),
{
    assert forall|i: int| #![trigger b.subrange(0, i)] 0 <= i <= b.len() implies emitted_part(o, o + esc(b.subrange(0, i)), esc(b) + seq![34u8]) by {
        lemma_esc_prefix(b, i);
    }
    assert forall|i: int| #![trigger b[i]] 0 <= i < b.len() && esc_code(b[i]) == 117 implies
            emitted_part(o, o + (esc(b.subrange(0, i)) + seq![92u8, 117u8]), esc(b) + seq![34u8]) by {
        lemma_esc_prefix(b, i + 1);
        assert(b.subrange(0, i + 1).drop_last() =~= b.subrange(0, i));
        let x = esc(b.subrange(0, i)) + seq![92u8, 117u8];
        let y = esc(b.subrange(0, i + 1));
        assert(y == esc(b.subrange(0, i)) + esc1(b[i]));
        lemma_esc1(b[i]);
        assert(x + seq![48u8, 48u8, hex(b[i] as int / 16), hex(b[i] as int % 16)] =~= y);
        assert(prefix(y, esc(b) + seq![34u8]));
        lemma_chain(x, seq![48u8, 48u8, hex(b[i] as int / 16), hex(b[i] as int % 16)], esc(b) + seq![34u8]);
    }
}

proof fn lemma_esc1(c: u8)
    ensures
        esc_code(c) == 0 ==> esc1(c) == seq![c],
        esc_code(c) == 117 ==> esc1(c) == seq![92u8, 117u8] + seq![48u8, 48u8, hex(c as int / 16), hex(c as int % 16)],
        esc_code(c) != 0 && esc_code(c) != 117 ==> esc1(c) == seq![92u8, esc_code(c)],
{
    assert(seq![92u8, 117u8] + seq![48u8, 48u8, hex(c as int / 16), hex(c as int % 16)] =~= seq![92u8, 117u8, 48u8, 48u8, hex(c as int / 16), hex(c as int % 16)]);
}

proof fn lemma_esc_clean(b: Seq<u8>)
    requires forall|i: int| 0 <= i < b.len() ==> esc_code(#[trigger] b[i]) == 0
    ensures esc(b) == b
    decreases b.len()
{
    if b.len() > 0 {
        lemma_esc_clean(b.drop_last());
        assert(b.drop_last() + seq![b.last()] =~= b);
    }
}

proof fn lemma_bytes()
    ensures
        [b'"']@ == seq![34u8], [b'{']@ == seq![123u8], [b'}']@ == seq![125u8], [b'[']@ == seq![91u8], [b']']@ == seq![93u8], [b',']@ == seq![44u8],
        [58u8, 32u8]@ == seq![58u8, 32u8],
        [110u8, 117u8, 108u8, 108u8]@ == null_text(),
        [116u8, 114u8, 117u8, 101u8]@ == true_text(),
        [102u8, 97u8, 108u8, 115u8, 101u8]@ == false_text(),
{
    assert([b'"']@ =~= seq![34u8]); assert([b'{']@ =~= seq![123u8]); assert([b'}']@ =~= seq![125u8]); assert([b'[']@ =~= seq![91u8]);
    assert([b']']@ =~= seq![93u8]); assert([b',']@ =~= seq![44u8]); assert([58u8, 32u8]@ =~= seq![58u8, 32u8]);
    assert([110u8, 117u8, 108u8, 108u8]@ =~= null_text());
    assert([116u8, 114u8, 117u8, 101u8]@ =~= true_text());
    assert([102u8, 97u8, 108u8, 115u8, 101u8]@ =~= false_text());
}

/// The text of the first i members is the beginning of the text of all.
proof fn lemma_members_prefix(o: Seq<(Seq<u8>, J)>, i: int, n: int, l: St)
    requires 0 <= i <= n <= o.len()
    ensures prefix(members_text(o, i, l), members_text(o, n, l))
    decreases n - i
{
    if i < n { lemma_members_prefix(o, i, n - 1, l); }
}

proof fn lemma_items_prefix(a: Seq<J>, i: int, n: int, l: St)
    requires 0 <= i <= n <= a.len()
    ensures prefix(items_text(a, i, l), items_text(a, n, l))
    decreases n - i
{
    if i < n { lemma_items_prefix(a, i, n - 1, l); }
}

/// `part` has been written and `rest` is still to come.
pub open spec fn towards(whole: Seq<u8>, part: Seq<u8>) -> bool { prefix(part, whole) }

/// What is written for the member i, and that all of it is part of the whole.
proof fn lemma_member(es: Seq<(Seq<u8>, J)>, l: St, i: int)
    requires 0 <= i < es.len()
    ensures ({
        let k = deeper(l);
        let whole = json_text(J::Obj(es), l);
        let d0 = seq![123u8] + members_text(es, i, k);
        let d1 = if i > 0 { d0 + seq![44u8] } else { d0 };
        let d2 = d1 + nl(k);
        let d3 = d2 + str_text(es[i].0);
        let d4 = d3 + colon(k);
        let d5 = d4 + json_text(es[i].1, k);
        &&& d5 == seq![123u8] + members_text(es, i + 1, k)
        &&& prefix(d1, whole) && prefix(d2, whole) && prefix(d3, whole) && prefix(d4, whole) && prefix(d5, whole)
        &&& i == 0 ==> d0 == seq![123u8]
    })
{
    hide(prefix); hide(str_text); hide(nl); hide(colon);
    let k = deeper(l);
    let whole = json_text(J::Obj(es), l);
    let d0 = seq![123u8] + members_text(es, i, k);
    let d1 = if i > 0 { d0 + seq![44u8] } else { d0 };
    let d2 = d1 + nl(k);
    let d3 = d2 + str_text(es[i].0);
    let d4 = d3 + colon(k);
    let x = json_text(es[i].1, k);
    let d5 = d4 + x;
    if i == 0 { assert(d0 =~= seq![123u8]); }
    lemma_members_prefix(es, i + 1, es.len() as int, k);
    lemma_pre(seq![123u8], members_text(es, i + 1, k), members_text(es, es.len() as int, k), nl(l) + seq![125u8]);
    lemma_six(seq![123u8], members_text(es, i, k), if i > 0 { seq![44u8] } else { Seq::empty() }, nl(k), str_text(es[i].0), colon(k), x);
    if i == 0 { assert(d1 =~= d0 + Seq::<u8>::empty()); }
    assert(d5 == seq![123u8] + members_text(es, i + 1, k));
    assert(prefix(d5, whole));
    lemma_chain(d4, x, whole);
    lemma_chain(d3, colon(k), whole);
    lemma_chain(d2, str_text(es[i].0), whole);
    lemma_chain(d1, nl(k), whole);
}

/// What is written for the element i.
proof fn lemma_item(es: Seq<J>, l: St, i: int)
    requires 0 <= i < es.len()
    ensures ({
        let k = deeper(l);
        let whole = json_text(J::Arr(es), l);
        let d0 = seq![91u8] + items_text(es, i, k);
        let d1 = if i > 0 { d0 + seq![44u8] } else { d0 };
        let d2 = d1 + nl(k);
        let d3 = d2 + json_text(es[i], k);
        &&& d3 == seq![91u8] + items_text(es, i + 1, k)
        &&& prefix(d1, whole) && prefix(d2, whole) && prefix(d3, whole)
        &&& i == 0 ==> d0 == seq![91u8]
    })
{
    let k = deeper(l);
    let whole = json_text(J::Arr(es), l);
    let d0 = seq![91u8] + items_text(es, i, k);
    let d1 = if i > 0 { d0 + seq![44u8] } else { d0 };
    let d2 = d1 + nl(k);
    let d3 = d2 + json_text(es[i], k);
    if i == 0 { assert(d0 =~= seq![91u8]); }
    lemma_items_prefix(es, i + 1, es.len() as int, k);
    assert(d3 =~= seq![91u8] + items_text(es, i + 1, k));
    assert(prefix(d3, whole));
    lemma_chain(d2, json_text(es[i], k), whole);
    lemma_chain(d1, nl(k), whole);
}

/// The end of an array.
proof fn lemma_arr_end(es: Seq<J>, l: St)
    ensures ({
        let whole = json_text(J::Arr(es), l);
        let d0 = seq![91u8] + items_text(es, es.len() as int, deeper(l));
        &&& prefix(seq![91u8], whole)
        &&& es.len() == 0 ==> whole == seq![91u8] + seq![93u8]
        &&& es.len() > 0 ==> whole == (d0 + nl(l)) + seq![93u8] && prefix(d0 + nl(l), whole)
    })
{
    let whole = json_text(J::Arr(es), l);
    let d0 = seq![91u8] + items_text(es, es.len() as int, deeper(l));
    if es.len() == 0 { assert(whole =~= seq![91u8] + seq![93u8]); } else { assert(whole =~= (d0 + nl(l)) + seq![93u8]); }
}

proof fn lemma_shallow(j: J, n: int)
    ensures
        j is Obj && shallow(j, n) ==> n > 0 && forall|i: int| 0 <= i < j->Obj_0.len() ==> shallow(#[trigger] j->Obj_0[i].1, n - 1),
        j is Arr && shallow(j, n) ==> n > 0 && forall|i: int| 0 <= i < j->Arr_0.len() ==> shallow(#[trigger] j->Arr_0[i], n - 1),
{
}

proof fn lemma_pre(o: Seq<u8>, a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    requires prefix(a, b)
    ensures prefix(o + a, o + (b + c))
{
}

proof fn lemma_six(o: Seq<u8>, m: Seq<u8>, a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, d: Seq<u8>, e: Seq<u8>)
    ensures (((((o + m) + a) + b) + c) + d) + e == o + (m + (a + (b + (c + (d + e)))))
{
    assert((((((o + m) + a) + b) + c) + d) + e =~= o + (m + (a + (b + (c + (d + e))))));
}

proof fn lemma_fits(j: J, l: St)
    requires fits(j, l)
    ensures
        j is Obj || j is Arr ==> (l.pretty ==> l.depth < 65535),
        j is Obj ==> forall|i: int| 0 <= i < j->Obj_0.len() ==> fits(#[trigger] j->Obj_0[i].1, deeper(l)),
        j is Arr ==> forall|i: int| 0 <= i < j->Arr_0.len() ==> fits(#[trigger] j->Arr_0[i], deeper(l)),
{
    if l.pretty {
        lemma_shallow(j, 65535 - l.depth);
        assert(65535 - l.depth - 1 == 65535 - deeper(l).depth);
    }
}

proof fn lemma_fits_obj(es: Seq<(Seq<u8>, J)>, l: St, n: int)
    requires fits(J::Obj(es), l), 0 <= n < es.len()
    ensures fits(es[n].1, deeper(l)), l.pretty ==> l.depth < 65535
{
    lemma_fits(J::Obj(es), l);
    let j = J::Obj(es);
    assert(fits(j->Obj_0[n].1, deeper(l)));
}

proof fn lemma_chain(a: Seq<u8>, b: Seq<u8>, whole: Seq<u8>)
    requires prefix(a + b, whole)
    ensures prefix(a, whole)
{
    assert forall|i: int| 0 <= i < a.len() implies #[trigger] a[i] == whole[i] by { assert((a + b)[i] == a[i]); }
}

/// The end of an object.
proof fn lemma_obj_end(es: Seq<(Seq<u8>, J)>, l: St)
    ensures ({
        let whole = json_text(J::Obj(es), l);
        let d0 = seq![123u8] + members_text(es, es.len() as int, deeper(l));
        &&& prefix(seq![123u8], whole)
        &&& es.len() == 0 ==> whole == seq![123u8] + seq![125u8]
        &&& es.len() > 0 ==> whole == (d0 + nl(l)) + seq![125u8] && prefix(d0 + nl(l), whole)
    })
{
    let whole = json_text(J::Obj(es), l);
    let d0 = seq![123u8] + members_text(es, es.len() as int, deeper(l));
    if es.len() == 0 { assert(whole =~= seq![123u8] + seq![125u8]); } else { assert(whole =~= (d0 + nl(l)) + seq![125u8]); }
}

/// Default trait for serializing JSONValue into string.
pub trait Generator {
    type T: Write;

    /// What the output has received.
    spec fn sink(&self) -> Seq<u8>;
    spec fn st(&self) -> St;
    /// Writing cannot fail.
    spec fn sure(&self) -> bool;
    /// What the sink holds in the end, when the generator only borrows it.
    #[verifier::prophetic]
    spec fn target(&self) -> Seq<u8>;

@@fn codegen.rs | trait Generator | get_writer
    @ret r
    @spec
        ensures r.out() == old(self).sink(), r.sure() == old(self).sure(), final(r).sure() == final(self).sure(), final(self).sink() == final(r).out(), final(self).st() == old(self).st(), final(self).target() == old(self).target()
@@end

@@fn codegen.rs | trait Generator | write
    @ret r
    @spec
        ensures gwrote(r, old(self).sink(), final(self).sink(), old(self).st(), final(self).st(), slice@), final(self).target() == old(self).target(), final(self).sure() == old(self).sure(), r is Err ==> !old(self).sure()
@@end

@@fn codegen.rs | trait Generator | write_char
    @ret r
    @spec
        ensures gwrote(r, old(self).sink(), final(self).sink(), old(self).st(), final(self).st(), seq![ch]), final(self).target() == old(self).target(), final(self).sure() == old(self).sure(), r is Err ==> !old(self).sure()
@@end

@@fn codegen.rs | trait Generator | write_min
    @ret r
    @spec
        ensures gwrote(r, old(self).sink(), final(self).sink(), old(self).st(), final(self).st(), if old(self).st().pretty { slice@ } else { seq![min] }), final(self).target() == old(self).target(), final(self).sure() == old(self).sure(), r is Err ==> !old(self).sure()
@@end

@@fn codegen.rs | trait Generator | new_line
    @decl
    @ret r
    @spec
        ensures gwrote(r, old(self).sink(), final(self).sink(), old(self).st(), final(self).st(), nl(old(self).st())), final(self).target() == old(self).target(), final(self).sure() == old(self).sure(), r is Err ==> !old(self).sure()
@@end

@@fn codegen.rs | trait Generator | indent
    @decl
    @spec
        requires old(self).st().pretty ==> old(self).st().depth < 65535
        ensures final(self).sink() == old(self).sink(), final(self).st() == deeper(old(self).st()), final(self).target() == old(self).target(), final(self).sure() == old(self).sure()
@@end

@@fn codegen.rs | trait Generator | dedent
    @decl
    @spec
        requires old(self).st().pretty ==> old(self).st().depth > 0
        ensures final(self).sink() == old(self).sink(), old(self).st() == deeper(final(self).st()), final(self).target() == old(self).target(), final(self).sure() == old(self).sure()
@@end

@@fn codegen.rs | trait Generator | write_string_complex
    @ret r
    @spec
        requires
            start <= sb(string@).len(),
            forall|i: int| 0 <= i < start ==> esc_code(#[trigger] sb(string@)[i]) == 0,
        ensures gwrote(r, old(self).sink(), final(self).sink(), old(self).st(), final(self).st(), esc(sb(string@)) + seq![34u8]), final(self).target() == old(self).target(), final(self).sure() == old(self).sure(), r is Err ==> !old(self).sure()
    @entry
        hide(prefix); hide(emitted_part); hide(esc); hide(esc1);
        let ghost b = sb(string@);
        let ghost o = self.sink();
        let ghost whole = esc(b) + seq![34u8];
        proof {
            lemma_esc_step(b);
            lemma_track(o, whole);
            lemma_concat();
            lemma_esc_track(o, b);
            let c = b.subrange(0, start as int);
            assert forall|i: int| 0 <= i < c.len() implies esc_code(#[trigger] c[i]) == 0 by { assert(c[i] == b[i]); }
            lemma_esc_clean(c);
        }
    @loop 1
        invariant
            b == sb(string@), it.s@ == b, start <= it.i <= b.len(),
            self.st() == old(self).st(), self.target() == old(self).target(), self.sure() == old(self).sure(),
            o == old(self).sink(), whole == esc(b) + seq![34u8],
            self.sink() == o + esc(b.subrange(0, start as int)),
            esc(b.subrange(0, it.i as int)) == esc(b.subrange(0, start as int)) + b.subrange(start as int, it.i as int),
        ensures it.i == b.len()
        decreases b.len() - it.i
    @loopstart 1
        let ghost i0 = it.i as int;
        proof {
            lemma_esc_step(b); lemma_concat(); lemma_track(o, whole); lemma_esc_track(o, b);
            if i0 < b.len() {
                assert(b.subrange(start as int, i0) + seq![b[i0]] =~= b.subrange(start as int, i0 + 1));
                assert(b.subrange(i0 + 1, i0 + 1) =~= Seq::<u8>::empty());
                assert(esc(b.subrange(0, i0 + 1)) == esc(b.subrange(0, i0)) + esc1(b[i0]));
                lemma_esc1(b[i0]);
                assert(emitted_part(o, o + esc(b.subrange(0, i0)), whole));
                assert(emitted_part(o, o + esc(b.subrange(0, i0 + 1)), whole));
            }
        }
    @before self.write(&[b'\\', escape])?;
        proof { assert([b'\\', escape]@ =~= seq![92u8, escape]); }
@@end

@@fn codegen.rs | trait Generator | write_string
    @ret r
    @spec
        ensures gwrote(r, old(self).sink(), final(self).sink(), old(self).st(), final(self).st(), str_text(sb(string@))), final(self).target() == old(self).target(), final(self).sure() == old(self).sure(), r is Err ==> !old(self).sure()
    @entry
        hide(prefix); hide(emitted_part); hide(esc); hide(esc1);
        let ghost b = sb(string@);
        let ghost o = self.sink();
        let ghost whole = str_text(b);
        proof {
            lemma_track(o, whole);
            lemma_concat();
            assert([b'"']@ =~= seq![34u8]);
            lemma_part(o, seq![34u8], esc(b) + seq![34u8]);
            lemma_part(o, seq![34u8] + esc(b), seq![34u8]);
        }
    @loop 1
        invariant
            b == sb(string@), it.s@ == b, it.i <= b.len(),
            self.st() == old(self).st(), self.target() == old(self).target(), self.sure() == old(self).sure(),
            o == old(self).sink(), whole == str_text(b),
            self.sink() == o + seq![34u8],
            forall|i: int| 0 <= i < it.i ==> esc_code(#[trigger] b[i]) == 0,
        ensures it.i == b.len()
        decreases b.len() - it.i
    @loopstart 1
        proof { lemma_track(o, whole); lemma_concat(); }
    @loopafter 1
        proof { lemma_esc_clean(b); }
@@end

@@fn codegen.rs | trait Generator | write_number
    @ret r
    @spec
        ensures gwrote(r, old(self).sink(), final(self).sink(), old(self).st(), final(self).st(), number_text(*num)), final(self).target() == old(self).target(), final(self).sure() == old(self).sure(), r is Err ==> !old(self).sure()
    @entry
        proof { assert([110u8, 117u8, 108u8, 108u8]@ =~= null_text()); }
@@end

@@fn codegen.rs | trait Generator | write_object
    @ret r
    @attr #[verifier::exec_allows_no_decreases_clause]
    @spec
        requires object.ok(), fits(J::Obj(obj_j(*object)), old(self).st())
        ensures gwrote(r, old(self).sink(), final(self).sink(), old(self).st(), final(self).st(), json_text(J::Obj(obj_j(*object)), old(self).st())), final(self).target() == old(self).target(), final(self).sure() == old(self).sure(), r is Err ==> !old(self).sure()
    @entry
        hide(prefix); hide(emitted_part); hide(str_text); hide(json_text); hide(members_text); hide(nl); hide(shallow);
        let ghost o = self.sink();
        let ghost es = obj_j(*object);
        let ghost l = self.st();
        let ghost whole = json_text(J::Obj(es), l);
        proof {
            lemma_track(o, whole);
            lemma_base(o);
            lemma_obj_end(es, l);
            if es.len() > 0 { lemma_member(es, l, 0); lemma_fits_obj(es, l, 0); }
            lemma_bytes();
        }
    @loop 1
        invariant
            object.ok(), fits(J::Obj(es), l),
            o == old(self).sink(), l == old(self).st(), es == obj_j(*object), whole == json_text(J::Obj(es), l),
            it.ok(), it.rest().len() < es.len(), it.rest() == es.subrange(es.len() - it.rest().len(), es.len() as int),
            self.st() == deeper(l), self.target() == old(self).target(), self.sure() == old(self).sure(),
            self.sink() == o + (seq![123u8] + members_text(es, es.len() - it.rest().len(), deeper(l))),
        ensures it.rest().len() == 0
        decreases it.rest().len()
    @loopstart 1
        proof { let n = es.len() - it.rest().len(); lemma_track(o, whole); lemma_base(o); lemma_obj_end(es, l); lemma_bytes(); if n < es.len() { lemma_member(es, l, n); lemma_fits_obj(es, l, n); assert(it.rest()[0] == es[n]); } }
@@end

@@fn codegen.rs | trait Generator | write_json
    @ret r
    @attr #[verifier::exec_allows_no_decreases_clause]
    @rw array.iter() =>> SliceIter::new(array)
    @rw for $k_id in $it { $body_blk } =>> let mut it = $it; loop { match it.next() { Some($k_id) => { $body_blk } None => { break } } }
    @spec
        requires wf(*json), fits(jv(*json), old(self).st())
        ensures gwrote(r, old(self).sink(), final(self).sink(), old(self).st(), final(self).st(), json_text(jv(*json), old(self).st())), final(self).target() == old(self).target(), final(self).sure() == old(self).sure(), r is Err ==> !old(self).sure()
    @entry
        hide(prefix); hide(emitted_part); hide(str_text); hide(number_text); hide(items_text); hide(nl); hide(num_text); hide(number_text);
        let ghost o = self.sink();
        let ghost l = self.st();
        let ghost whole = json_text(jv(*json), l);
        let ghost es = jv(*json)->Arr_0;
        proof {
            lemma_jv(*json);
            lemma_track(o, whole);
            lemma_base(o);
            lemma_bytes();
            if *json is Array {
                lemma_arr_end(es, l);
                lemma_fits(J::Arr(es), l);
                if es.len() > 0 { lemma_item(es, l, 0); assert(wf(json->Array_0@[0])); assert(es[0] == jv(json->Array_0@[0])); }
            }
        }
    @loop 1
        invariant
            *json is Array, wf(*json), fits(jv(*json), l), jv(*json) == J::Arr(es), es == arr_j(json->Array_0@),
            o == old(self).sink(), l == old(self).st(), whole == json_text(jv(*json), l),
            it.ok(), it.rest().len() < es.len(), it.rest() == json->Array_0@.subrange(es.len() - it.rest().len(), es.len() as int),
            self.st() == deeper(l), self.target() == old(self).target(), self.sure() == old(self).sure(),
            self.sink() == o + (seq![91u8] + items_text(es, es.len() - it.rest().len(), deeper(l))),
        ensures it.rest().len() == 0
        decreases it.rest().len()
    @loopstart 1
        proof { let n = es.len() - it.rest().len(); lemma_track(o, whole); lemma_base(o); lemma_arr_end(es, l); lemma_bytes(); if n < es.len() { lemma_item(es, l, n); lemma_fits(J::Arr(es), l); assert(wf(json->Array_0@[n])); assert(it.rest()[0] == json->Array_0@[n]); assert(es[n] == jv(json->Array_0@[n])); } }
@@end

}


@@item codegen.rs | struct DumpGenerator | pub | pubfields

impl DumpGenerator {
@@fn codegen.rs | impl DumpGenerator | new
    @ret r
    @spec
        ensures r.sink() == Seq::<u8>::empty(), r.st() == compact()
@@end

@@fn codegen.rs | impl DumpGenerator | consume
    @ret r
    @spec
        requires valid_utf8(self.sink())
        ensures sb(r@) == self.sink()
@@end
}

/// State of a generator that fills a buffer.
pub open spec fn compact() -> St { St { pretty: false, spaces: 0, depth: 0 } }

impl Generator for DumpGenerator {
    type T = Vec<u8>;
    open spec fn sink(&self) -> Seq<u8> { self.code@ }
    open spec fn sure(&self) -> bool { true }
    #[verifier::prophetic]
    open spec fn target(&self) -> Seq<u8> { Seq::empty() }
    open spec fn st(&self) -> St { compact() }
@@fn codegen.rs | impl Generator for DumpGenerator | write
@@end
@@fn codegen.rs | impl Generator for DumpGenerator | write_char
@@end
@@fn codegen.rs | impl Generator for DumpGenerator | get_writer
    @ret r
@@end
@@fn codegen.rs | impl Generator for DumpGenerator | write_min
@@end
@@fn codegen.rs | trait Generator | new_line
    @id codegen::DumpGenerator::new_line
@@end
@@fn codegen.rs | trait Generator | indent
    @id codegen::DumpGenerator::indent
@@end
@@fn codegen.rs | trait Generator | dedent
    @id codegen::DumpGenerator::dedent
@@end
}

@@item codegen.rs | struct PrettyGenerator | pub | pubfields

impl PrettyGenerator {
@@fn codegen.rs | impl PrettyGenerator | new
    @ret r
    @spec
        ensures r.sink() == Seq::<u8>::empty(), r.st() == (St { pretty: true, spaces: spaces as nat, depth: 0 })
@@end

@@fn codegen.rs | impl PrettyGenerator | consume
    @ret r
    @spec
        requires valid_utf8(self.sink())
        ensures sb(r@) == self.sink()
@@end
}

impl Generator for PrettyGenerator {
    type T = Vec<u8>;
    open spec fn sink(&self) -> Seq<u8> { self.code@ }
    open spec fn sure(&self) -> bool { true }
    #[verifier::prophetic]
    open spec fn target(&self) -> Seq<u8> { Seq::empty() }
    open spec fn st(&self) -> St { St { pretty: true, spaces: self.spaces_per_indent as nat, depth: self.dent as nat } }
@@fn codegen.rs | impl Generator for PrettyGenerator | write
@@end
@@fn codegen.rs | impl Generator for PrettyGenerator | write_char
@@end
@@fn codegen.rs | impl Generator for PrettyGenerator | get_writer
    @ret r
@@end
@@fn codegen.rs | impl Generator for PrettyGenerator | write_min
@@end
@@fn codegen.rs | impl Generator for PrettyGenerator | new_line
    @ret r
    @rw for _ in 0..$n { $body_blk } =>> let _end: usize = $n; for _k in 0.._end { $body_blk }
    @entry
        proof { lemma_width(self.dent, self.spaces_per_indent); }
        let ghost o = self.code@;
    @loop 1
        invariant
            self.dent == old(self).dent, self.spaces_per_indent == old(self).spaces_per_indent,
            _end as int == self.dent as nat * self.spaces_per_indent as nat,
            o == old(self).code@, self.code@ =~= o + (seq![10u8] + blanks(_k as nat)),
@@end
@@fn codegen.rs | impl Generator for PrettyGenerator | indent
@@end
@@fn codegen.rs | impl Generator for PrettyGenerator | dedent
@@end
}

proof fn lemma_width(a: u16, b: u16)
    ensures 0 <= a as usize * b as usize <= 0xffff_ffff, (a as usize * b as usize) as int == a as nat * b as nat,
        a as usize * b as usize == b as usize * a as usize, a as nat * b as nat == b as nat * a as nat
{
    assert(a as usize * b as usize == b as usize * a as usize) by (nonlinear_arith);
    assert(a as nat * b as nat == b as nat * a as nat) by (nonlinear_arith);
    assert(a as usize * b as usize <= 0xffff * 0xffff) by (nonlinear_arith) requires a as usize <= 0xffff, b as usize <= 0xffff;
    assert(0 <= a as usize * b as usize) by (nonlinear_arith);
}

@@item codegen.rs | struct WriterGenerator | pub | pubfields

impl<'a, W> WriterGenerator<'a, W> where W: 'a + Write {
@@fn codegen.rs | impl<'a, W> WriterGenerator<'a, W> where W: 'a + Write | new
    @ret r
    @spec
        ensures r.sink() == old(writer).out(), r.sure() == old(writer).sure(), r.st() == compact(), r.target() == final(writer).out()
@@end
}

impl<'a, W> Generator for WriterGenerator<'a, W> where W: Write {
    type T = W;
    open spec fn sink(&self) -> Seq<u8> { self.writer.out() }
    open spec fn sure(&self) -> bool { self.writer.sure() }
    open spec fn st(&self) -> St { compact() }
    #[verifier::prophetic]
    open spec fn target(&self) -> Seq<u8> { final(self.writer).out() }
@@fn codegen.rs | impl<'a, W> Generator for WriterGenerator<'a, W> where W: Write | get_writer
    @ret r
@@end
@@fn codegen.rs | impl<'a, W> Generator for WriterGenerator<'a, W> where W: Write | write_min
@@end
@@fn codegen.rs | trait Generator | new_line
    @id codegen::WriterGenerator::new_line
@@end
@@fn codegen.rs | trait Generator | indent
    @id codegen::WriterGenerator::indent
@@end
@@fn codegen.rs | trait Generator | dedent
    @id codegen::WriterGenerator::dedent
@@end
}

@@item codegen.rs | struct PrettyWriterGenerator | pub | pubfields

impl<'a, W> PrettyWriterGenerator<'a, W> where W: 'a + Write {
@@fn codegen.rs | impl<'a, W> PrettyWriterGenerator<'a, W> where W: 'a + Write | new
    @ret r
    @spec
        ensures r.sink() == old(writer).out(), r.sure() == old(writer).sure(), r.st() == (St { pretty: true, spaces: spaces as nat, depth: 0 }), r.target() == final(writer).out()
@@end
}

impl<'a, W> Generator for PrettyWriterGenerator<'a, W> where W: Write {
    type T = W;
    open spec fn sink(&self) -> Seq<u8> { self.writer.out() }
    open spec fn sure(&self) -> bool { self.writer.sure() }
    open spec fn st(&self) -> St { St { pretty: true, spaces: self.spaces_per_indent as nat, depth: self.dent as nat } }
    #[verifier::prophetic]
    open spec fn target(&self) -> Seq<u8> { final(self.writer).out() }
@@fn codegen.rs | impl<'a, W> Generator for PrettyWriterGenerator<'a, W> where W: Write | get_writer
    @ret r
@@end
@@fn codegen.rs | impl<'a, W> Generator for PrettyWriterGenerator<'a, W> where W: Write | write_min
@@end
@@fn codegen.rs | impl<'a, W> Generator for PrettyWriterGenerator<'a, W> where W: Write | new_line
    @ret r
    @rw for _ in 0..$n { $body_blk } =>> let _end: usize = $n; for _k in 0.._end { $body_blk }
    @entry
        proof { lemma_width(self.dent, self.spaces_per_indent); lemma_bytes(); assert([b'\n']@ =~= seq![10u8]); assert([b' ']@ =~= seq![32u8]); }
        let ghost o = self.sink();
    @loop 1
        invariant
            self.dent == old(self).dent, self.spaces_per_indent == old(self).spaces_per_indent,
            o == old(self).sink(), self.st() == old(self).st(), self.target() == old(self).target(), self.sure() == old(self).sure(),
            self.sink() =~= o + (seq![10u8] + blanks(_k as nat)),
            _end as int == self.dent as nat * self.spaces_per_indent as nat,
    @loopstart 1
        proof {
            let l = self.st();
            lemma_track(o, nl(l)); lemma_base(o);
            assert([b' ']@ =~= seq![32u8]);
            assert((seq![10u8] + blanks(_k as nat)) + seq![32u8] =~= seq![10u8] + blanks(_k as nat + 1));
            assert(l.depth * l.spaces == self.dent as nat * self.spaces_per_indent as nat);
            assert(nl(l).len() == 1 + l.depth * l.spaces);
            assert(_k < l.depth * l.spaces);
            assert(prefix(seq![10u8] + blanks(_k as nat + 1), nl(l)));
        }
@@end
@@fn codegen.rs | impl<'a, W> Generator for PrettyWriterGenerator<'a, W> where W: Write | indent
@@end
@@fn codegen.rs | impl<'a, W> Generator for PrettyWriterGenerator<'a, W> where W: Write | dedent
@@end
}

impl Write for Vec<u8> {
    open spec fn out(&self) -> Seq<u8> { self@ }
    open spec fn sure(&self) -> bool { true }
    fn write_all(&mut self, buf: &[u8]) -> (r: Result<()>) {
        self.extend_from_slice(buf);
        Ok(())
    }
}

@@fn codegen.rs | - | extend_from_slice
    @rw ptr::copy_nonoverlapping($s.as_ptr(), $d.as_mut_ptr().offset($k), $n) =>> raw_append($s, $d, $k, $n)
    @rw $d_id.reserve($n) =>> raw_reserve($d_id, $n)
    @rw $d_id.set_len($n) =>> raw_set_len($d_id, $n)
    @spec
        ensures final(dst)@ =~= old(dst)@ + src@
@@end

} // verus!
