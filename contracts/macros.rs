// The macros array! and object!, applied to every kind of argument.
// The shapes are fixed, the contents are not: a macro is expanded anew for each use.
use vstd::prelude::*;
use crate::spec::*;
use crate::raw::*;
use crate::json::*;
use crate::object::*;
use crate::value::*;
use crate::tree::*;
verus! {

/// Into<JsonValue>::into
fn conv<T: IntoValue>(x: T) -> (r: JsonValue)
    requires x.can()
    ensures wf(r), jv(r) == x.val()
{ x.into() }

/// The entries that result from inserting these one after the other.
pub open spec fn puts(s: Seq<(Seq<char>, J)>) -> Seq<(Seq<u8>, J)>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { put(puts(s.drop_last()), sb(s.last().0), s.last().1) }
}

proof fn lemma_puts()
    ensures
        puts(Seq::empty()) == Seq::<(Seq<u8>, J)>::empty(),
        forall|s: Seq<(Seq<char>, J)>, x: (Seq<char>, J)| #[trigger] puts(s.push(x)) == put(puts(s), sb(x.0), x.1),
        forall|s: Seq<J>| #[trigger] s.len() == 0 ==> s == Seq::<J>::empty(),
{
    assert forall|s: Seq<(Seq<char>, J)>, x: (Seq<char>, J)| #[trigger] puts(s.push(x)) == put(puts(s), sb(x.0), x.1) by {
        assert(s.push(x).drop_last() =~= s);
    }
    assert forall|s: Seq<J>| #[trigger] s.len() == 0 implies s == Seq::<J>::empty() by { assert(s =~= Seq::<J>::empty()); }
}

/// Vec::push
fn push(v: &mut Vec<JsonValue>, x: JsonValue)
    requires wf_all(old(v)@), wf(x)
    ensures wf_all(final(v)@), arr_j(final(v)@) == arr_j(old(v)@).push(jv(x))
{
    proof { lemma_parts(); }
    v.push(x);
}

@@rules
crate::JsonValue =>> JsonValue
crate::Null =>> JsonValue::Null
@@endrules

@@lift lib.rs | array | array_empty
    @ret r
    @sig fn array_empty() -> JsonValue
    @invoke []
    @spec
        ensures wf(r), jv(r) == J::Arr(Seq::empty())
    @entry
        proof { lemma_parts(); lemma_puts(); }
@@end

@@lift lib.rs | array | array_1
    @ret r
    @rw array.push($e.into()) =>> push(&mut array, conv($e))
    @sig fn array_1<A: IntoValue>(a: A) -> JsonValue
    @invoke [a]
    @spec
        requires a.can()
        ensures wf(r), jv(r) == J::Arr(Seq::empty().push(a.val()))
    @entry
        proof { lemma_parts(); lemma_puts(); }
@@end

@@lift lib.rs | array | array_1_comma
    @ret r
    @rw array.push($e.into()) =>> push(&mut array, conv($e))
    @sig fn array_1_comma<A: IntoValue>(a: A) -> JsonValue
    @invoke [a,]
    @spec
        requires a.can()
        ensures wf(r), jv(r) == J::Arr(Seq::empty().push(a.val()))
    @entry
        proof { lemma_parts(); lemma_puts(); }
@@end

@@lift lib.rs | array | array_2
    @ret r
    @rw array.push($e.into()) =>> push(&mut array, conv($e))
    @sig fn array_2<A: IntoValue, B: IntoValue>(a: A, b: B) -> JsonValue
    @invoke [a, b]
    @spec
        requires a.can(), b.can()
        ensures wf(r), jv(r) == J::Arr(Seq::empty().push(a.val()).push(b.val()))
    @entry
        proof { lemma_parts(); lemma_puts(); }
@@end

@@lift lib.rs | array | array_2_comma
    @ret r
    @rw array.push($e.into()) =>> push(&mut array, conv($e))
    @sig fn array_2_comma<A: IntoValue, B: IntoValue>(a: A, b: B) -> JsonValue
    @invoke [a, b,]
    @spec
        requires a.can(), b.can()
        ensures wf(r), jv(r) == J::Arr(Seq::empty().push(a.val()).push(b.val()))
    @entry
        proof { lemma_parts(); lemma_puts(); }
@@end

@@lift lib.rs | array | array_3
    @ret r
    @rw array.push($e.into()) =>> push(&mut array, conv($e))
    @sig fn array_3<A: IntoValue, B: IntoValue, C: IntoValue>(a: A, b: B, c: C) -> JsonValue
    @invoke [a, b, c]
    @spec
        requires a.can(), b.can(), c.can()
        ensures wf(r), jv(r) == J::Arr(Seq::empty().push(a.val()).push(b.val()).push(c.val()))
    @entry
        proof { lemma_parts(); lemma_puts(); }
@@end

@@lift lib.rs | array | array_3_comma
    @ret r
    @rw array.push($e.into()) =>> push(&mut array, conv($e))
    @sig fn array_3_comma<A: IntoValue, B: IntoValue, C: IntoValue>(a: A, b: B, c: C) -> JsonValue
    @invoke [a, b, c,]
    @spec
        requires a.can(), b.can(), c.can()
        ensures wf(r), jv(r) == J::Arr(Seq::empty().push(a.val()).push(b.val()).push(c.val()))
    @entry
        proof { lemma_parts(); lemma_puts(); }
@@end

@@lift lib.rs | array | array_5
    @ret r
    @rw array.push($e.into()) =>> push(&mut array, conv($e))
    @sig fn array_5<A: IntoValue, B: IntoValue, C: IntoValue, D: IntoValue, E: IntoValue>(a: A, b: B, c: C, d: D, e: E) -> JsonValue
    @invoke [a, b, c, d, e]
    @spec
        requires a.can(), b.can(), c.can(), d.can(), e.can()
        ensures wf(r), jv(r) == J::Arr(Seq::empty().push(a.val()).push(b.val()).push(c.val()).push(d.val()).push(e.val()))
    @entry
        proof { lemma_parts(); lemma_puts(); }
@@end

@@lift lib.rs | array | array_5_comma
    @ret r
    @rw array.push($e.into()) =>> push(&mut array, conv($e))
    @sig fn array_5_comma<A: IntoValue, B: IntoValue, C: IntoValue, D: IntoValue, E: IntoValue>(a: A, b: B, c: C, d: D, e: E) -> JsonValue
    @invoke [a, b, c, d, e,]
    @spec
        requires a.can(), b.can(), c.can(), d.can(), e.can()
        ensures wf(r), jv(r) == J::Arr(Seq::empty().push(a.val()).push(b.val()).push(c.val()).push(d.val()).push(e.val()))
    @entry
        proof { lemma_parts(); lemma_puts(); }
@@end

@@lift lib.rs | array | array_1_exprs
    @ret r
    @rw array.push($e.into()) =>> push(&mut array, conv($e))
    @sig fn array_1_exprs<A: IntoValue>(a: A) -> JsonValue
    @invoke [conv(a)]
    @spec
        requires a.can()
        ensures wf(r), jv(r) == J::Arr(Seq::empty().push(a.val()))
    @entry
        proof { lemma_parts(); lemma_puts(); }
@@end

@@lift lib.rs | array | array_1_exprs_comma
    @ret r
    @rw array.push($e.into()) =>> push(&mut array, conv($e))
    @sig fn array_1_exprs_comma<A: IntoValue>(a: A) -> JsonValue
    @invoke [conv(a),]
    @spec
        requires a.can()
        ensures wf(r), jv(r) == J::Arr(Seq::empty().push(a.val()))
    @entry
        proof { lemma_parts(); lemma_puts(); }
@@end

@@lift lib.rs | array | array_2_exprs
    @ret r
    @rw array.push($e.into()) =>> push(&mut array, conv($e))
    @sig fn array_2_exprs<A: IntoValue, B: IntoValue>(a: A, b: B) -> JsonValue
    @invoke [conv(a), conv(b)]
    @spec
        requires a.can(), b.can()
        ensures wf(r), jv(r) == J::Arr(Seq::empty().push(a.val()).push(b.val()))
    @entry
        proof { lemma_parts(); lemma_puts(); }
@@end

@@lift lib.rs | array | array_2_exprs_comma
    @ret r
    @rw array.push($e.into()) =>> push(&mut array, conv($e))
    @sig fn array_2_exprs_comma<A: IntoValue, B: IntoValue>(a: A, b: B) -> JsonValue
    @invoke [conv(a), conv(b),]
    @spec
        requires a.can(), b.can()
        ensures wf(r), jv(r) == J::Arr(Seq::empty().push(a.val()).push(b.val()))
    @entry
        proof { lemma_parts(); lemma_puts(); }
@@end

@@lift lib.rs | array | array_3_exprs
    @ret r
    @rw array.push($e.into()) =>> push(&mut array, conv($e))
    @sig fn array_3_exprs<A: IntoValue, B: IntoValue, C: IntoValue>(a: A, b: B, c: C) -> JsonValue
    @invoke [conv(a), conv(b), conv(c)]
    @spec
        requires a.can(), b.can(), c.can()
        ensures wf(r), jv(r) == J::Arr(Seq::empty().push(a.val()).push(b.val()).push(c.val()))
    @entry
        proof { lemma_parts(); lemma_puts(); }
@@end

@@lift lib.rs | array | array_3_exprs_comma
    @ret r
    @rw array.push($e.into()) =>> push(&mut array, conv($e))
    @sig fn array_3_exprs_comma<A: IntoValue, B: IntoValue, C: IntoValue>(a: A, b: B, c: C) -> JsonValue
    @invoke [conv(a), conv(b), conv(c),]
    @spec
        requires a.can(), b.can(), c.can()
        ensures wf(r), jv(r) == J::Arr(Seq::empty().push(a.val()).push(b.val()).push(c.val()))
    @entry
        proof { lemma_parts(); lemma_puts(); }
@@end

@@lift lib.rs | array | array_mixed
    @ret r
    @rw array.push($e.into()) =>> push(&mut array, conv($e))
    @sig fn array_mixed<A: IntoValue, B: IntoValue, C: IntoValue, D: IntoValue>(a: A, b: B, c: C, d: D) -> JsonValue
    @invoke [conv(a), b, conv(c), d]
    @spec
        requires a.can(), b.can(), c.can(), d.can()
        ensures wf(r), jv(r) == J::Arr(Seq::empty().push(a.val()).push(b.val()).push(c.val()).push(d.val()))
    @entry
        proof { lemma_parts(); lemma_puts(); }
@@end

@@lift lib.rs | array | array_mixed_2
    @ret r
    @rw array.push($e.into()) =>> push(&mut array, conv($e))
    @sig fn array_mixed_2<A: IntoValue, B: IntoValue, C: IntoValue, D: IntoValue>(a: A, b: B, c: C, d: D) -> JsonValue
    @invoke [a, conv(b), c, conv(d),]
    @spec
        requires a.can(), b.can(), c.can(), d.can()
        ensures wf(r), jv(r) == J::Arr(Seq::empty().push(a.val()).push(b.val()).push(c.val()).push(d.val()))
    @entry
        proof { lemma_parts(); lemma_puts(); }
@@end

@@lift lib.rs | array | array_nested
    @ret r
    @rw array.push($e.into()) =>> push(&mut array, conv($e))
    @sig fn array_nested<A: IntoValue, B: IntoValue, C: IntoValue>(a: A, b: B, c: C) -> JsonValue
    @invoke [a, [b, null], [], {}, null, [[c]]]
    @spec
        requires a.can(), b.can(), c.can()
        ensures wf(r), jv(r) == J::Arr(Seq::empty().push(a.val()).push(J::Arr(Seq::empty().push(b.val()).push(J::Null))).push(J::Arr(Seq::empty())).push(J::Obj(Seq::empty())).push(J::Null).push(J::Arr(Seq::empty().push(J::Arr(Seq::empty().push(c.val()))))))
    @entry
        proof { lemma_parts(); lemma_puts(); }
@@end

@@lift lib.rs | array | array_of_object
    @ret r
    @rw array.push($e.into()) =>> push(&mut array, conv($e))
    @rw object.insert($k, $e.into()) =>> object.insert($k, conv($e))
    @sig fn array_of_object<A: IntoValue, B: IntoValue, C: IntoValue>(a: A, b: B, c: C) -> JsonValue
    @invoke [{ "x": a, "y": [b] }, c]
    @spec
        requires a.can(), b.can(), c.can()
        ensures wf(r), jv(r) == J::Arr(Seq::empty().push(J::Obj(puts(Seq::empty().push(("x"@, a.val())).push(("y"@, J::Arr(Seq::empty().push(b.val()))))))).push(c.val()))
    @entry
        proof { lemma_parts(); lemma_puts(); }
@@end

@@lift lib.rs | array | array_null
    @ret r
    @rw array.push($e.into()) =>> push(&mut array, conv($e))
    @sig fn array_null() -> JsonValue
    @invoke [null]
    @spec
        ensures wf(r), jv(r) == J::Arr(Seq::empty().push(J::Null))
    @entry
        proof { lemma_parts(); lemma_puts(); }
@@end

@@lift lib.rs | object | object_empty
    @ret r
    @sig fn object_empty() -> JsonValue
    @invoke {}
    @spec
        ensures wf(r), jv(r) == J::Obj(Seq::empty())
    @entry
        proof { lemma_parts(); lemma_puts(); }
@@end

@@lift lib.rs | object | object_1
    @ret r
    @rw object.insert($k, $e.into()) =>> object.insert($k, conv($e))
    @sig fn object_1<A: IntoValue>(a: A) -> JsonValue
    @invoke { alpha: a }
    @spec
        requires a.can()
        ensures wf(r), jv(r) == J::Obj(puts(Seq::empty().push(("alpha"@, a.val()))))
    @entry
        proof { lemma_parts(); lemma_puts(); }
@@end

@@lift lib.rs | object | object_1_comma
    @ret r
    @rw object.insert($k, $e.into()) =>> object.insert($k, conv($e))
    @sig fn object_1_comma<A: IntoValue>(a: A) -> JsonValue
    @invoke { alpha: a, }
    @spec
        requires a.can()
        ensures wf(r), jv(r) == J::Obj(puts(Seq::empty().push(("alpha"@, a.val()))))
    @entry
        proof { lemma_parts(); lemma_puts(); }
@@end

@@lift lib.rs | object | object_2
    @ret r
    @rw object.insert($k, $e.into()) =>> object.insert($k, conv($e))
    @sig fn object_2<A: IntoValue, B: IntoValue>(a: A, b: B) -> JsonValue
    @invoke { alpha: a, beta: b }
    @spec
        requires a.can(), b.can()
        ensures wf(r), jv(r) == J::Obj(puts(Seq::empty().push(("alpha"@, a.val())).push(("beta"@, b.val()))))
    @entry
        proof { lemma_parts(); lemma_puts(); }
@@end

@@lift lib.rs | object | object_2_comma
    @ret r
    @rw object.insert($k, $e.into()) =>> object.insert($k, conv($e))
    @sig fn object_2_comma<A: IntoValue, B: IntoValue>(a: A, b: B) -> JsonValue
    @invoke { alpha: a, beta: b, }
    @spec
        requires a.can(), b.can()
        ensures wf(r), jv(r) == J::Obj(puts(Seq::empty().push(("alpha"@, a.val())).push(("beta"@, b.val()))))
    @entry
        proof { lemma_parts(); lemma_puts(); }
@@end

@@lift lib.rs | object | object_3
    @ret r
    @rw object.insert($k, $e.into()) =>> object.insert($k, conv($e))
    @sig fn object_3<A: IntoValue, B: IntoValue, C: IntoValue>(a: A, b: B, c: C) -> JsonValue
    @invoke { alpha: a, beta: b, gamma: c }
    @spec
        requires a.can(), b.can(), c.can()
        ensures wf(r), jv(r) == J::Obj(puts(Seq::empty().push(("alpha"@, a.val())).push(("beta"@, b.val())).push(("gamma"@, c.val()))))
    @entry
        proof { lemma_parts(); lemma_puts(); }
@@end

@@lift lib.rs | object | object_3_comma
    @ret r
    @rw object.insert($k, $e.into()) =>> object.insert($k, conv($e))
    @sig fn object_3_comma<A: IntoValue, B: IntoValue, C: IntoValue>(a: A, b: B, c: C) -> JsonValue
    @invoke { alpha: a, beta: b, gamma: c, }
    @spec
        requires a.can(), b.can(), c.can()
        ensures wf(r), jv(r) == J::Obj(puts(Seq::empty().push(("alpha"@, a.val())).push(("beta"@, b.val())).push(("gamma"@, c.val()))))
    @entry
        proof { lemma_parts(); lemma_puts(); }
@@end

@@lift lib.rs | object | object_5
    @ret r
    @rw object.insert($k, $e.into()) =>> object.insert($k, conv($e))
    @sig fn object_5<A: IntoValue, B: IntoValue, C: IntoValue, D: IntoValue, E: IntoValue>(a: A, b: B, c: C, d: D, e: E) -> JsonValue
    @invoke { alpha: a, beta: b, gamma: c, delta: d, alpha: e }
    @spec
        requires a.can(), b.can(), c.can(), d.can(), e.can()
        ensures wf(r), jv(r) == J::Obj(puts(Seq::empty().push(("alpha"@, a.val())).push(("beta"@, b.val())).push(("gamma"@, c.val())).push(("delta"@, d.val())).push(("alpha"@, e.val()))))
    @entry
        proof { lemma_parts(); lemma_puts(); }
@@end

@@lift lib.rs | object | object_5_comma
    @ret r
    @rw object.insert($k, $e.into()) =>> object.insert($k, conv($e))
    @sig fn object_5_comma<A: IntoValue, B: IntoValue, C: IntoValue, D: IntoValue, E: IntoValue>(a: A, b: B, c: C, d: D, e: E) -> JsonValue
    @invoke { alpha: a, beta: b, gamma: c, delta: d, alpha: e, }
    @spec
        requires a.can(), b.can(), c.can(), d.can(), e.can()
        ensures wf(r), jv(r) == J::Obj(puts(Seq::empty().push(("alpha"@, a.val())).push(("beta"@, b.val())).push(("gamma"@, c.val())).push(("delta"@, d.val())).push(("alpha"@, e.val()))))
    @entry
        proof { lemma_parts(); lemma_puts(); }
@@end

@@lift lib.rs | object | object_1_literals
    @ret r
    @rw object.insert($k, $e.into()) =>> object.insert($k, conv($e))
    @sig fn object_1_literals<A: IntoValue>(a: A) -> JsonValue
    @invoke { "k0": a }
    @spec
        requires a.can()
        ensures wf(r), jv(r) == J::Obj(puts(Seq::empty().push(("k0"@, a.val()))))
    @entry
        proof { lemma_parts(); lemma_puts(); }
@@end

@@lift lib.rs | object | object_1_computed
    @ret r
    @rw object.insert($k, $e.into()) =>> object.insert($k, conv($e))
    @sig fn object_1_computed<A: IntoValue>(a: A, p: &str) -> JsonValue
    @invoke { [p]: a }
    @spec
        requires a.can()
        ensures wf(r), jv(r) == J::Obj(puts(Seq::empty().push((p@, a.val()))))
    @entry
        proof { lemma_parts(); lemma_puts(); }
@@end

@@lift lib.rs | object | object_1_exprs
    @ret r
    @rw object.insert($k, $e.into()) =>> object.insert($k, conv($e))
    @sig fn object_1_exprs<A: IntoValue>(a: A, p: &str) -> JsonValue
    @invoke { [p]: conv(a) }
    @spec
        requires a.can()
        ensures wf(r), jv(r) == J::Obj(puts(Seq::empty().push((p@, a.val()))))
    @entry
        proof { lemma_parts(); lemma_puts(); }
@@end

@@lift lib.rs | object | object_1_arrows
    @ret r
    @rw object.insert($k, $e.into()) =>> object.insert($k, conv($e))
    @sig fn object_1_arrows<A: IntoValue>(a: A, p: &str) -> JsonValue
    @invoke { p => a }
    @spec
        requires a.can()
        ensures wf(r), jv(r) == J::Obj(puts(Seq::empty().push((p@, a.val()))))
    @entry
        proof { lemma_parts(); lemma_puts(); }
@@end

@@lift lib.rs | object | object_1_literals_comma
    @ret r
    @rw object.insert($k, $e.into()) =>> object.insert($k, conv($e))
    @sig fn object_1_literals_comma<A: IntoValue>(a: A) -> JsonValue
    @invoke { "k0": a, }
    @spec
        requires a.can()
        ensures wf(r), jv(r) == J::Obj(puts(Seq::empty().push(("k0"@, a.val()))))
    @entry
        proof { lemma_parts(); lemma_puts(); }
@@end

@@lift lib.rs | object | object_1_computed_comma
    @ret r
    @rw object.insert($k, $e.into()) =>> object.insert($k, conv($e))
    @sig fn object_1_computed_comma<A: IntoValue>(a: A, p: &str) -> JsonValue
    @invoke { [p]: a, }
    @spec
        requires a.can()
        ensures wf(r), jv(r) == J::Obj(puts(Seq::empty().push((p@, a.val()))))
    @entry
        proof { lemma_parts(); lemma_puts(); }
@@end

@@lift lib.rs | object | object_1_exprs_comma
    @ret r
    @rw object.insert($k, $e.into()) =>> object.insert($k, conv($e))
    @sig fn object_1_exprs_comma<A: IntoValue>(a: A, p: &str) -> JsonValue
    @invoke { [p]: conv(a), }
    @spec
        requires a.can()
        ensures wf(r), jv(r) == J::Obj(puts(Seq::empty().push((p@, a.val()))))
    @entry
        proof { lemma_parts(); lemma_puts(); }
@@end

@@lift lib.rs | object | object_1_arrows_comma
    @ret r
    @rw object.insert($k, $e.into()) =>> object.insert($k, conv($e))
    @sig fn object_1_arrows_comma<A: IntoValue>(a: A, p: &str) -> JsonValue
    @invoke { p => a, }
    @spec
        requires a.can()
        ensures wf(r), jv(r) == J::Obj(puts(Seq::empty().push((p@, a.val()))))
    @entry
        proof { lemma_parts(); lemma_puts(); }
@@end

@@lift lib.rs | object | object_2_literals
    @ret r
    @rw object.insert($k, $e.into()) =>> object.insert($k, conv($e))
    @sig fn object_2_literals<A: IntoValue, B: IntoValue>(a: A, b: B) -> JsonValue
    @invoke { "k0": a, "k1": b }
    @spec
        requires a.can(), b.can()
        ensures wf(r), jv(r) == J::Obj(puts(Seq::empty().push(("k0"@, a.val())).push(("k1"@, b.val()))))
    @entry
        proof { lemma_parts(); lemma_puts(); }
@@end

@@lift lib.rs | object | object_2_computed
    @ret r
    @rw object.insert($k, $e.into()) =>> object.insert($k, conv($e))
    @sig fn object_2_computed<A: IntoValue, B: IntoValue>(a: A, b: B, p: &str, q: &str) -> JsonValue
    @invoke { [p]: a, [q]: b }
    @spec
        requires a.can(), b.can()
        ensures wf(r), jv(r) == J::Obj(puts(Seq::empty().push((p@, a.val())).push((q@, b.val()))))
    @entry
        proof { lemma_parts(); lemma_puts(); }
@@end

@@lift lib.rs | object | object_2_exprs
    @ret r
    @rw object.insert($k, $e.into()) =>> object.insert($k, conv($e))
    @sig fn object_2_exprs<A: IntoValue, B: IntoValue>(a: A, b: B, p: &str, q: &str) -> JsonValue
    @invoke { [p]: conv(a), [q]: conv(b) }
    @spec
        requires a.can(), b.can()
        ensures wf(r), jv(r) == J::Obj(puts(Seq::empty().push((p@, a.val())).push((q@, b.val()))))
    @entry
        proof { lemma_parts(); lemma_puts(); }
@@end

@@lift lib.rs | object | object_2_arrows
    @ret r
    @rw object.insert($k, $e.into()) =>> object.insert($k, conv($e))
    @sig fn object_2_arrows<A: IntoValue, B: IntoValue>(a: A, b: B, p: &str, q: &str) -> JsonValue
    @invoke { p => a, q => b }
    @spec
        requires a.can(), b.can()
        ensures wf(r), jv(r) == J::Obj(puts(Seq::empty().push((p@, a.val())).push((q@, b.val()))))
    @entry
        proof { lemma_parts(); lemma_puts(); }
@@end

@@lift lib.rs | object | object_2_literals_comma
    @ret r
    @rw object.insert($k, $e.into()) =>> object.insert($k, conv($e))
    @sig fn object_2_literals_comma<A: IntoValue, B: IntoValue>(a: A, b: B) -> JsonValue
    @invoke { "k0": a, "k1": b, }
    @spec
        requires a.can(), b.can()
        ensures wf(r), jv(r) == J::Obj(puts(Seq::empty().push(("k0"@, a.val())).push(("k1"@, b.val()))))
    @entry
        proof { lemma_parts(); lemma_puts(); }
@@end

@@lift lib.rs | object | object_2_computed_comma
    @ret r
    @rw object.insert($k, $e.into()) =>> object.insert($k, conv($e))
    @sig fn object_2_computed_comma<A: IntoValue, B: IntoValue>(a: A, b: B, p: &str, q: &str) -> JsonValue
    @invoke { [p]: a, [q]: b, }
    @spec
        requires a.can(), b.can()
        ensures wf(r), jv(r) == J::Obj(puts(Seq::empty().push((p@, a.val())).push((q@, b.val()))))
    @entry
        proof { lemma_parts(); lemma_puts(); }
@@end

@@lift lib.rs | object | object_2_exprs_comma
    @ret r
    @rw object.insert($k, $e.into()) =>> object.insert($k, conv($e))
    @sig fn object_2_exprs_comma<A: IntoValue, B: IntoValue>(a: A, b: B, p: &str, q: &str) -> JsonValue
    @invoke { [p]: conv(a), [q]: conv(b), }
    @spec
        requires a.can(), b.can()
        ensures wf(r), jv(r) == J::Obj(puts(Seq::empty().push((p@, a.val())).push((q@, b.val()))))
    @entry
        proof { lemma_parts(); lemma_puts(); }
@@end

@@lift lib.rs | object | object_2_arrows_comma
    @ret r
    @rw object.insert($k, $e.into()) =>> object.insert($k, conv($e))
    @sig fn object_2_arrows_comma<A: IntoValue, B: IntoValue>(a: A, b: B, p: &str, q: &str) -> JsonValue
    @invoke { p => a, q => b, }
    @spec
        requires a.can(), b.can()
        ensures wf(r), jv(r) == J::Obj(puts(Seq::empty().push((p@, a.val())).push((q@, b.val()))))
    @entry
        proof { lemma_parts(); lemma_puts(); }
@@end

@@lift lib.rs | object | object_3_literals
    @ret r
    @rw object.insert($k, $e.into()) =>> object.insert($k, conv($e))
    @sig fn object_3_literals<A: IntoValue, B: IntoValue, C: IntoValue>(a: A, b: B, c: C) -> JsonValue
    @invoke { "k0": a, "k1": b, "k2": c }
    @spec
        requires a.can(), b.can(), c.can()
        ensures wf(r), jv(r) == J::Obj(puts(Seq::empty().push(("k0"@, a.val())).push(("k1"@, b.val())).push(("k2"@, c.val()))))
    @entry
        proof { lemma_parts(); lemma_puts(); }
@@end

@@lift lib.rs | object | object_3_computed
    @ret r
    @rw object.insert($k, $e.into()) =>> object.insert($k, conv($e))
    @sig fn object_3_computed<A: IntoValue, B: IntoValue, C: IntoValue>(a: A, b: B, c: C, p: &str, q: &str, t: &str) -> JsonValue
    @invoke { [p]: a, [q]: b, [t]: c }
    @spec
        requires a.can(), b.can(), c.can()
        ensures wf(r), jv(r) == J::Obj(puts(Seq::empty().push((p@, a.val())).push((q@, b.val())).push((t@, c.val()))))
    @entry
        proof { lemma_parts(); lemma_puts(); }
@@end

@@lift lib.rs | object | object_3_exprs
    @ret r
    @rw object.insert($k, $e.into()) =>> object.insert($k, conv($e))
    @sig fn object_3_exprs<A: IntoValue, B: IntoValue, C: IntoValue>(a: A, b: B, c: C, p: &str, q: &str, t: &str) -> JsonValue
    @invoke { [p]: conv(a), [q]: conv(b), [t]: conv(c) }
    @spec
        requires a.can(), b.can(), c.can()
        ensures wf(r), jv(r) == J::Obj(puts(Seq::empty().push((p@, a.val())).push((q@, b.val())).push((t@, c.val()))))
    @entry
        proof { lemma_parts(); lemma_puts(); }
@@end

@@lift lib.rs | object | object_3_arrows
    @ret r
    @rw object.insert($k, $e.into()) =>> object.insert($k, conv($e))
    @sig fn object_3_arrows<A: IntoValue, B: IntoValue, C: IntoValue>(a: A, b: B, c: C, p: &str, q: &str, t: &str) -> JsonValue
    @invoke { p => a, q => b, t => c }
    @spec
        requires a.can(), b.can(), c.can()
        ensures wf(r), jv(r) == J::Obj(puts(Seq::empty().push((p@, a.val())).push((q@, b.val())).push((t@, c.val()))))
    @entry
        proof { lemma_parts(); lemma_puts(); }
@@end

@@lift lib.rs | object | object_3_literals_comma
    @ret r
    @rw object.insert($k, $e.into()) =>> object.insert($k, conv($e))
    @sig fn object_3_literals_comma<A: IntoValue, B: IntoValue, C: IntoValue>(a: A, b: B, c: C) -> JsonValue
    @invoke { "k0": a, "k1": b, "k2": c, }
    @spec
        requires a.can(), b.can(), c.can()
        ensures wf(r), jv(r) == J::Obj(puts(Seq::empty().push(("k0"@, a.val())).push(("k1"@, b.val())).push(("k2"@, c.val()))))
    @entry
        proof { lemma_parts(); lemma_puts(); }
@@end

@@lift lib.rs | object | object_3_computed_comma
    @ret r
    @rw object.insert($k, $e.into()) =>> object.insert($k, conv($e))
    @sig fn object_3_computed_comma<A: IntoValue, B: IntoValue, C: IntoValue>(a: A, b: B, c: C, p: &str, q: &str, t: &str) -> JsonValue
    @invoke { [p]: a, [q]: b, [t]: c, }
    @spec
        requires a.can(), b.can(), c.can()
        ensures wf(r), jv(r) == J::Obj(puts(Seq::empty().push((p@, a.val())).push((q@, b.val())).push((t@, c.val()))))
    @entry
        proof { lemma_parts(); lemma_puts(); }
@@end

@@lift lib.rs | object | object_3_exprs_comma
    @ret r
    @rw object.insert($k, $e.into()) =>> object.insert($k, conv($e))
    @sig fn object_3_exprs_comma<A: IntoValue, B: IntoValue, C: IntoValue>(a: A, b: B, c: C, p: &str, q: &str, t: &str) -> JsonValue
    @invoke { [p]: conv(a), [q]: conv(b), [t]: conv(c), }
    @spec
        requires a.can(), b.can(), c.can()
        ensures wf(r), jv(r) == J::Obj(puts(Seq::empty().push((p@, a.val())).push((q@, b.val())).push((t@, c.val()))))
    @entry
        proof { lemma_parts(); lemma_puts(); }
@@end

@@lift lib.rs | object | object_3_arrows_comma
    @ret r
    @rw object.insert($k, $e.into()) =>> object.insert($k, conv($e))
    @sig fn object_3_arrows_comma<A: IntoValue, B: IntoValue, C: IntoValue>(a: A, b: B, c: C, p: &str, q: &str, t: &str) -> JsonValue
    @invoke { p => a, q => b, t => c, }
    @spec
        requires a.can(), b.can(), c.can()
        ensures wf(r), jv(r) == J::Obj(puts(Seq::empty().push((p@, a.val())).push((q@, b.val())).push((t@, c.val()))))
    @entry
        proof { lemma_parts(); lemma_puts(); }
@@end

@@lift lib.rs | object | object_mixed
    @ret r
    @rw object.insert($k, $e.into()) =>> object.insert($k, conv($e))
    @sig fn object_mixed<A: IntoValue, B: IntoValue, C: IntoValue, D: IntoValue>(a: A, b: B, c: C, d: D, p: &str) -> JsonValue
    @invoke { alpha: a, "beta": conv(b), [p]: c, alpha: conv(d), }
    @spec
        requires a.can(), b.can(), c.can(), d.can()
        ensures wf(r), jv(r) == J::Obj(puts(Seq::empty().push(("alpha"@, a.val())).push(("beta"@, b.val())).push((p@, c.val())).push(("alpha"@, d.val()))))
    @entry
        proof { lemma_parts(); lemma_puts(); }
@@end

@@lift lib.rs | object | object_nested
    @ret r
    @rw array.push($e.into()) =>> push(&mut array, conv($e))
    @rw object.insert($k, $e.into()) =>> object.insert($k, conv($e))
    @sig fn object_nested<A: IntoValue, B: IntoValue>(a: A, b: B, p: &str, q: &str) -> JsonValue
    @invoke { [p]: [a, null], "x": { [q]: b, y: {} }, n: null, e: [] }
    @spec
        requires a.can(), b.can()
        ensures wf(r), jv(r) == J::Obj(puts(Seq::empty().push((p@, J::Arr(Seq::empty().push(a.val()).push(J::Null)))).push(("x"@, J::Obj(puts(Seq::empty().push((q@, b.val())).push(("y"@, J::Obj(Seq::empty()))))))).push(("n"@, J::Null)).push(("e"@, J::Arr(Seq::empty())))))
    @entry
        proof { lemma_parts(); lemma_puts(); }
@@end

} // verus!
