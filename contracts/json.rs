// JsonValue with its parts, what a value means, and the shape every value has.
use vstd::prelude::*;
use vstd::utf8::*;
use crate::spec::*;
use crate::number::Number;
use crate::short::*;
use crate::object::*;
verus! {

@@item value/mod.rs | enum JsonValue | pub

/// What a value means. Numbers are kept as stored.
pub enum J {
    Null,
    Bool(bool),
    Num(Number),
    Str(Seq<u8>),
    Arr(Seq<J>),
    Obj(Seq<(Seq<u8>, J)>),
}

/// The bytes of a string.
pub open spec fn sb(s: Seq<char>) -> Seq<u8> { encode_utf8(s) }

pub open spec fn jv(v: JsonValue) -> J
    decreases v
{
    match v {
        JsonValue::Null => J::Null,
        JsonValue::Short(s) => J::Str(s.text()),
        JsonValue::String(s) => J::Str(sb(s@)),
        JsonValue::Number(n) => J::Num(n),
        JsonValue::Boolean(b) => J::Bool(b),
        JsonValue::Array(a) => J::Arr(Seq::new(a@.len(), |i: int| if 0 <= i < a@.len() { jv(a@[i]) } else { J::Null })),
        JsonValue::Object(o) => J::Obj(Seq::new(o.store@.len(), |i: int| if 0 <= i < o.store@.len() {
            (o.store@[i].key.text(), jv(o.store@[i].value))
        } else { (Seq::empty(), J::Null) })),
    }
}

pub open spec fn arr_j(a: Seq<JsonValue>) -> Seq<J> { Seq::new(a.len(), |i: int| jv(a[i])) }

/// The entries of an object, in order.
pub open spec fn obj_j(o: Object) -> Seq<(Seq<u8>, J)> {
    Seq::new(o.store@.len(), |i: int| (o.store@[i].key.text(), jv(o.store@[i].value)))
}

pub proof fn lemma_jv(v: JsonValue)
    ensures
        v is Array ==> jv(v) == J::Arr(arr_j(v->Array_0@)),
        v is Object ==> jv(v) == J::Obj(obj_j(v->Object_0)),
{
    match v {
        JsonValue::Array(a) => { assert(jv(v)->Arr_0 =~= arr_j(a@)); }
        JsonValue::Object(o) => { assert(jv(v)->Obj_0 =~= obj_j(o)); }
        _ => {}
    }
}

/// The invariant of every value: short strings are in bounds and text,
/// the nodes of objects form a search tree whose keys are readable.
pub open spec fn wf(v: JsonValue) -> bool
    decreases v
{
    match v {
        JsonValue::Short(s) => s.ok(),
        JsonValue::Array(a) => forall|i: int| 0 <= i < a@.len() ==> wf(#[trigger] a@[i]),
        JsonValue::Object(o) => o.tree() && forall|i: int| 0 <= i < o.store@.len() ==> wf(#[trigger] o.store@[i].value),
        _ => true,
    }
}

pub open spec fn wf_all(a: Seq<JsonValue>) -> bool { forall|i: int| 0 <= i < a.len() ==> wf(#[trigger] a[i]) }

impl Object {
    pub open spec fn ok(self) -> bool {
        self.tree() && forall|i: int| 0 <= i < self.store@.len() ==> wf(#[trigger] self.store@[i].value)
    }
}

} // verus!
