// Accessors and mutators of values, indexing, conversions into values.
use vstd::prelude::*;
use vstd::utf8::*;
use std::convert::TryFrom;
use crate::spec::*;
use crate::stdx::*;
use crate::raw::*;
use crate::tree::*;
use crate::short;
use crate::short::*;
use crate::object::*;
use crate::number::*;
use crate::json::*;
verus! {

@@rules
$e.and_then(|$v_id| { $b }) =>> match $e { Some($v_id) => $b, None => None }
$e.and_then(|$v_id| $b) =>> match $e { Some($v_id) => $b, None => None }
mem::replace($d, $v) =>> replace($d, $v)
mem::swap($a, $b) =>> swap($a, $b)
index.deref() =>> index.as_str()
@@endrules

@@item error.rs | enum Error | pub
pub type Result<T> = core::result::Result<T, Error>;

// ---- stand-ins

/// mem::replace
#[verifier::external_body]
fn replace<T>(d: &mut T, v: T) -> (r: T)
    ensures r == *old(d), *final(d) == v
{ unimplemented!() }

/// mem::swap
#[verifier::external_body]
fn swap<T>(a: &mut T, b: &mut T)
    ensures *final(a) == *old(b), *final(b) == *old(a)
{ unimplemented!() }

/// String::from(&str), str::into
fn str_string(s: &str) -> (r: String)
    ensures r@ == s@
{ s.to_string() }

/// <[T]>::get
fn vec_get<T>(v: &Vec<T>, i: usize) -> (r: Option<&T>)
    ensures if i < v@.len() { r is Some && *r->0 == v@[i as int] } else { r is None }
{ if i < v.len() { Some(&v[i]) } else { None } }

/// <[T]>::last_mut
#[verifier::external_body]
fn vec_last_mut<T>(v: &mut Vec<T>) -> (r: Option<&mut T>)
    ensures
        old(v)@.len() == 0 ==> r is None && final(v)@ == old(v)@,
        old(v)@.len() > 0 ==> r is Some && *r->0 == old(v)@.last() && final(v)@ == old(v)@.update(old(v)@.len() - 1, *final(r->0)),
{ unimplemented!() }

/// &mut v[i]
#[verifier::external_body]
fn vec_at_mut<T>(v: &mut Vec<T>, i: usize) -> (r: &mut T)
    requires i < old(v)@.len()
    ensures *r == old(v)@[i as int], final(v)@ == old(v)@.update(i as int, *final(r))
{ unimplemented!() }

/// Option::unwrap on something that is there
fn got<T>(x: Option<T>) -> (r: T)
    requires x is Some
    ensures r == x->0
{ x.unwrap() }

/// Result::unwrap where there is no error
fn must(r: Result<()>)
    requires r is Ok
{}

/// The static NULL
#[verifier::external_body]
fn null_ref<'a>() -> (r: &'a JsonValue)
    ensures *r == JsonValue::Null
{ unimplemented!() }

proof fn lemma_empty(s: Seq<char>)
    ensures (s.len() == 0) == (sb(s).len() == 0)
{
    reveal_with_fuel(encode_utf8, 2);
    if s.len() > 0 {
        encode_utf8_concat(seq![s[0]], s.subrange(1, s.len() as int));
        assert(seq![s[0]] + s.subrange(1, s.len() as int) =~= s);
    }
}

proof fn lemma_short_empty()
    ensures forall|s: Seq<u8>| #![trigger s.len()] s.len() == 0 ==> s == Seq::<u8>::empty(), sb(""@) == Seq::<u8>::empty(), forall|s: Seq<char>| s.len() == 0 ==> #[trigger] sb(s) == Seq::<u8>::empty()
{
    reveal_strlit("");
    lemma_empty(""@);
    assert forall|s: Seq<char>| s.len() == 0 implies #[trigger] sb(s) == Seq::<u8>::empty() by { lemma_empty(s); assert(sb(s) =~= Seq::<u8>::empty()); }
    assert forall|s: Seq<u8>| #![trigger s.len()] s.len() == 0 implies s == Seq::<u8>::empty() by { assert(s =~= Seq::<u8>::empty()); }
}

// ---- short strings as &str

impl Short {
@@fn short.rs | impl Deref for Short | deref
    @ret r
    @vis pub
    @spec
        requires self.ok()
        ensures sb(r@) == self.text()
@@end

/// str::is_empty through Deref
fn is_empty(&self) -> (r: bool)
    requires self.ok()
    ensures r == (self.text().len() == 0)
{
    let s = self.deref();
    proof { lemma_empty(s@); }
    s.is_empty()
}

@@fn short.rs | impl From<Short> for String | from
    @ret r
    @sig fn string(short: Short) -> String
    @rw String::from($e) =>> str_string($e)
    @spec
        requires short.ok()
        ensures sb(r@) == short.text()
@@end
}

// ---- what a value is

pub open spec fn str_of(v: J) -> Option<Seq<u8>> { match v { J::Str(s) => Some(s), _ => None } }
pub open spec fn num_of(v: J) -> Option<Number> { match v { J::Num(n) => Some(n), _ => None } }

/// The unsigned integer a value is.
pub open spec fn uint_of(v: J) -> Option<int> {
    match v { J::Num(n) => if !n.nan() && n.v().pos && n.v().e == 0 { Some(n.v().m as int) } else { None }, _ => None }
}
/// The integer a value is.
pub open spec fn int_of(v: J) -> Option<int> {
    match v { J::Num(n) => if !n.nan() && n.v().e == 0 { Some(num_int(n.v())) } else { None }, _ => None }
}
pub open spec fn empty_value(v: J) -> bool {
    match v {
        J::Null => true,
        J::Bool(b) => !b,
        J::Num(n) => n.mantissa == 0 || n.nan(),
        J::Str(s) => s.len() == 0,
        J::Arr(a) => a.len() == 0,
        J::Obj(e) => e.len() == 0,
    }
}
pub open spec fn len_value(v: J) -> nat {
    match v { J::Arr(a) => a.len(), J::Obj(e) => e.len(), _ => 0 }
}
/// What clearing leaves.
pub open spec fn cleared(v: J) -> J {
    match v { J::Str(_) => J::Str(Seq::empty()), J::Arr(_) => J::Arr(Seq::empty()), J::Obj(_) => J::Obj(Seq::empty()), _ => J::Null }
}
/// The element at an index.
pub open spec fn elem(v: J, i: int) -> J {
    match v { J::Arr(a) => if 0 <= i < a.len() { a[i] } else { J::Null }, _ => J::Null }
}
/// The member with a key.
pub open spec fn member(v: J, k: Seq<u8>) -> J {
    match v { J::Obj(e) => if pos(e, k) >= 0 { e[pos(e, k)].1 } else { J::Null }, _ => J::Null }
}
pub open spec fn entries_of(v: J) -> Seq<(Seq<u8>, J)> { match v { J::Obj(e) => e, _ => Seq::empty() } }
pub open spec fn elems_of(v: J) -> Seq<J> { match v { J::Arr(a) => a, _ => Seq::empty() } }

proof fn lemma_blank()
    ensures
        forall|o: Object| #![trigger jv(JsonValue::Object(o))] o.store@.len() == 0 ==> jv(JsonValue::Object(o)) == J::Obj(Seq::empty()),
        forall|a: Vec<JsonValue>| #![trigger jv(JsonValue::Array(a))] a@.len() == 0 ==> jv(JsonValue::Array(a)) == J::Arr(Seq::empty()),
{
    assert forall|o: Object| #![trigger jv(JsonValue::Object(o))] o.store@.len() == 0 implies jv(JsonValue::Object(o)) == J::Obj(Seq::empty()) by {
        lemma_jv(JsonValue::Object(o));
        assert(obj_j(o) =~= Seq::empty());
    }
    assert forall|a: Vec<JsonValue>| #![trigger jv(JsonValue::Array(a))] a@.len() == 0 implies jv(JsonValue::Array(a)) == J::Arr(Seq::empty()) by {
        lemma_jv(JsonValue::Array(a));
        assert(arr_j(a@) =~= Seq::empty());
    }
}

/// What follows from the parts of a value.
pub proof fn lemma_parts()
    ensures
        forall|v: JsonValue| #![trigger jv(v)] v is Object ==> jv(v) == J::Obj(obj_j(v->Object_0)),
        forall|v: JsonValue| #![trigger jv(v)] v is Array ==> jv(v) == J::Arr(arr_j(v->Array_0@)),
        forall|a: Seq<JsonValue>, i: int, j: int| #![trigger a.subrange(i, j)] 0 <= i <= j <= a.len() ==> arr_j(a.subrange(i, j)) == arr_j(a).subrange(i, j),
        forall|a: Seq<JsonValue>, i: int| #![trigger a.remove(i)] 0 <= i < a.len() ==> arr_j(a.remove(i)) == arr_j(a).remove(i),
        forall|a: Seq<JsonValue>, x: JsonValue| #![trigger a.push(x)] arr_j(a.push(x)) == arr_j(a).push(jv(x)),
        forall|a: Seq<JsonValue>, i: int, x: JsonValue| #![trigger a.update(i, x)] 0 <= i < a.len() ==> arr_j(a.update(i, x)) == arr_j(a).update(i, jv(x)),
        forall|a: Seq<JsonValue>| #![trigger arr_j(a)] a.len() == 0 ==> arr_j(a) == Seq::<J>::empty(),
        forall|o: Object| #![trigger obj_j(o)] obj_j(o).len() == 0 ==> obj_j(o) == Seq::<(Seq<u8>, J)>::empty(),
{
    assert forall|v: JsonValue| #![trigger jv(v)] v is Object implies jv(v) == J::Obj(obj_j(v->Object_0)) by { lemma_jv(v); }
    assert forall|v: JsonValue| #![trigger jv(v)] v is Array implies jv(v) == J::Arr(arr_j(v->Array_0@)) by { lemma_jv(v); }
    assert forall|a: Seq<JsonValue>, i: int, j: int| #![trigger a.subrange(i, j)] 0 <= i <= j <= a.len() implies arr_j(a.subrange(i, j)) == arr_j(a).subrange(i, j) by { assert(arr_j(a.subrange(i, j)) =~= arr_j(a).subrange(i, j)); }
    assert forall|a: Seq<JsonValue>, i: int| #![trigger a.remove(i)] 0 <= i < a.len() implies arr_j(a.remove(i)) == arr_j(a).remove(i) by { assert(arr_j(a.remove(i)) =~= arr_j(a).remove(i)); }
    assert forall|a: Seq<JsonValue>, x: JsonValue| #![trigger a.push(x)] arr_j(a.push(x)) == arr_j(a).push(jv(x)) by { assert(arr_j(a.push(x)) =~= arr_j(a).push(jv(x))); }
    assert forall|a: Seq<JsonValue>, i: int, x: JsonValue| #![trigger a.update(i, x)] 0 <= i < a.len() implies arr_j(a.update(i, x)) == arr_j(a).update(i, jv(x)) by { assert(arr_j(a.update(i, x)) =~= arr_j(a).update(i, jv(x))); }
    assert forall|a: Seq<JsonValue>| #![trigger arr_j(a)] a.len() == 0 implies arr_j(a) == Seq::<J>::empty() by { assert(arr_j(a) =~= Seq::<J>::empty()); }
    assert forall|o: Object| #![trigger obj_j(o)] obj_j(o).len() == 0 implies obj_j(o) == Seq::<(Seq<u8>, J)>::empty() by { assert(obj_j(o) =~= Seq::<(Seq<u8>, J)>::empty()); }
}

impl JsonValue {
@@fn value/mod.rs | impl JsonValue | new_object
    @ret r
    @spec
        ensures wf(r), jv(r) == J::Obj(Seq::empty()), r is Object
    @entry
        proof { lemma_parts(); }
@@end

@@fn value/mod.rs | impl JsonValue | new_array
    @ret r
    @spec
        ensures wf(r), jv(r) == J::Arr(Seq::empty()), r is Array, r->Array_0@.len() == 0
    @entry
        proof { lemma_parts(); }
@@end

@@fn value/mod.rs | impl JsonValue | is_string
    @ret r
    @spec
        ensures r == (jv(*self) is Str)
@@end
@@fn value/mod.rs | impl JsonValue | is_number
    @ret r
    @spec
        ensures r == (jv(*self) is Num)
@@end
@@fn value/mod.rs | impl JsonValue | is_boolean
    @ret r
    @spec
        ensures r == (jv(*self) is Bool)
@@end
@@fn value/mod.rs | impl JsonValue | is_null
    @ret r
    @spec
        ensures r == (jv(*self) is Null)
@@end
@@fn value/mod.rs | impl JsonValue | is_object
    @ret r
    @spec
        ensures r == (jv(*self) is Obj)
@@end
@@fn value/mod.rs | impl JsonValue | is_array
    @ret r
    @spec
        ensures r == (jv(*self) is Arr)
@@end

@@fn value/mod.rs | impl JsonValue | is_empty
    @ret r
    @rw JsonValue::Boolean(ref $v_id) => !$v_id =>> JsonValue::Boolean(ref $v_id) => !*$v_id
    @rw JsonValue::Array(ref $v_id) => $v_id.is_empty() =>> JsonValue::Array(ref $v_id) => $v_id.len() == 0
    @spec
        requires wf(*self)
        ensures r == empty_value(jv(*self))
    @entry
        proof { lemma_jv(*self); if let JsonValue::String(s) = self { lemma_empty(s@); } }
@@end

@@fn value/mod.rs | impl JsonValue | as_str
    @ret r
    @rw JsonValue::Short(ref $v_id) => Some($v_id) =>> JsonValue::Short(ref $v_id) => Some($v_id.deref())
    @rw JsonValue::String(ref $v_id) => Some($v_id) =>> JsonValue::String(ref $v_id) => Some($v_id.as_str())
    @spec
        requires wf(*self)
        ensures
            r is Some == (jv(*self) is Str),
            r is Some ==> jv(*self) == J::Str(sb(r->0@)),
@@end

@@fn value/mod.rs | impl JsonValue | as_number
    @ret r
    @spec
        ensures r == num_of(jv(*self))
@@end

@@for T in u64 i64
@@fn value/mod.rs | impl JsonValue | as_{T}
    @ret r
    @rw value.try_into().ok() =>> {T}::try_from(value).ok()
    @spec
        ensures r is Some <==> num_of(jv(*self)) is Some && <{T} as vstd::std_specs::convert::TryFromSpec<Number>>::try_from_spec(num_of(jv(*self))->0) is Ok,
            r is Some ==> <{T} as vstd::std_specs::convert::TryFromSpec<Number>>::try_from_spec(num_of(jv(*self))->0) == Ok::<{T}, NumberOutOfScope>(r->0),
            r is Some ==> int_of(jv(*self)) == Some(r->0 as int),
@@end
@@endfor

@@for T in u32 u16 u8 usize
@@fn value/mod.rs | impl JsonValue | as_{T}
    @ret r
    @spec
        ensures
            r is Some <==> uint_of(jv(*self)) is Some && uint_of(jv(*self))->0 <= {T}::MAX,
            r is Some ==> uint_of(jv(*self)) == Some(r->0 as int),
@@end
@@endfor

@@for T in i32 i16 i8 isize
@@fn value/mod.rs | impl JsonValue | as_{T}
    @ret r
    @spec
        ensures
            r is Some <==> int_of(jv(*self)) is Some && {T}::MIN <= int_of(jv(*self))->0 <= {T}::MAX,
            r is Some ==> int_of(jv(*self)) == Some(r->0 as int),
@@end
@@endfor

@@fn value/mod.rs | impl JsonValue | as_bool
    @ret r
    @spec
        ensures r == (match jv(*self) { J::Bool(b) => Some(b), _ => None })
@@end

@@fn value/mod.rs | impl JsonValue | as_fixed_point_u64
    @ret r
    @spec
        ensures
            r is Some <==> num_of(jv(*self)) is Some && !num_of(jv(*self))->0.nan() && num_of(jv(*self))->0.v().pos,
            r is Some ==> r->0 as int == scaled(num_of(jv(*self))->0.v().m, num_of(jv(*self))->0.v().e + point) as int % u64_mod(),
@@end
@@fn value/mod.rs | impl JsonValue | as_fixed_point_i64
    @ret r
    @spec
        ensures
            r is Some <==> num_of(jv(*self)) is Some && !num_of(jv(*self))->0.nan(),
            r is Some ==> ({
                let n = num_of(jv(*self))->0.v();
                same_mod64(r->0 as int, if n.pos { scaled(n.m, n.e + point) as int } else { 0 - scaled(n.m, n.e + point) as int })
            }),
@@end

@@fn value/mod.rs | impl JsonValue | take
    @ret r
    @spec
        ensures r == *old(self), *final(self) == JsonValue::Null
@@end

@@fn value/mod.rs | impl JsonValue | take_string
    @ret r
    @rw Some($s_id.into()) =>> Some(Short::string($s_id))
    @spec
        requires wf(*old(self))
        ensures
            jv(*old(self)) is Str ==> r is Some && J::Str(sb(r->0@)) == jv(*old(self)) && *final(self) == JsonValue::Null,
            !(jv(*old(self)) is Str) ==> r is None && *final(self) == *old(self),
@@end

@@fn value/mod.rs | impl JsonValue | pop
    @ret r
    @spec
        requires wf(*old(self))
        ensures
            wf(*final(self)), wf(r),
            elems_of(jv(*old(self))).len() == 0 ==> r == JsonValue::Null && jv(*final(self)) == jv(*old(self)),
            elems_of(jv(*old(self))).len() > 0 ==> jv(r) == elems_of(jv(*old(self))).last() && jv(*final(self)) == J::Arr(elems_of(jv(*old(self))).drop_last()),
    @entry
        proof { lemma_parts(); }
@@end

@@fn value/mod.rs | impl JsonValue | has_key
    @ret r
    @spec
        requires wf(*self)
        ensures r == (pos(entries_of(jv(*self)), sb(key@)) >= 0)
    @entry
        proof { lemma_jv(*self); lemma_pos(entries_of(jv(*self)), sb(key@)); }
@@end

@@fn value/mod.rs | impl JsonValue | len
    @ret r
    @spec
        ensures r == len_value(jv(*self))
    @entry
        proof { lemma_parts(); }
@@end

@@fn value/mod.rs | impl JsonValue | remove
    @ret r
    @spec
        requires wf(*old(self))
        ensures
            wf(*final(self)), wf(r),
            jv(r) == member(jv(*old(self)), sb(key@)),
            jv(*old(self)) is Obj ==> jv(*final(self)) == J::Obj(without(entries_of(jv(*old(self))), sb(key@))),
            !(jv(*old(self)) is Obj) ==> *final(self) == *old(self),
    @entry
        proof { lemma_parts(); }
@@end

@@fn value/mod.rs | impl JsonValue | array_remove
    @ret r
    @spec
        requires wf(*old(self))
        ensures
            wf(*final(self)), wf(r),
            jv(r) == elem(jv(*old(self)), index as int),
            index < elems_of(jv(*old(self))).len() ==> jv(*final(self)) == J::Arr(elems_of(jv(*old(self))).remove(index as int)),
            index >= elems_of(jv(*old(self))).len() ==> *final(self) == *old(self),
    @entry
        proof { lemma_parts(); }
@@end

@@fn value/mod.rs | impl JsonValue | clear
    @rw "".into() =>> JsonValue::from_str("")
    @spec
        requires wf(*old(self))
        ensures wf(*final(self)), jv(*final(self)) == cleared(jv(*old(self)))
    @entry
        proof { lemma_parts(); lemma_empty(Seq::empty()); lemma_short_empty(); }
@@end

@@fn value/implements.rs | impl<'a> From<&'a str> for JsonValue | from
    @ret r
    @sig fn from_str(val: &str) -> JsonValue
    @vis pub
    @rw val.len() =>> str_len(val)
    @rw val.into() =>> str_string(val)
    @spec
        ensures wf(r), jv(r) == J::Str(sb(val@))
@@end

@@fn value/implements.rs | impl From<String> for JsonValue | from
    @ret r
    @sig fn from_string(val: String) -> JsonValue
    @spec
        ensures wf(r), jv(r) == J::Str(sb(val@))
@@end

@@fn value/mod.rs | impl Index<usize> for JsonValue | index
    @ret r
    @sig fn index(&self, index: usize) -> &JsonValue
    @rw &NULL =>> null_ref()
    @rw $v_id.get(index) =>> vec_get($v_id, index)
    @spec
        ensures jv(*r) == elem(jv(*self), index as int), wf(*self) ==> wf(*r)
    @entry
        proof { lemma_parts(); }
@@end

@@fn value/mod.rs | impl<'a> Index<&'a str> for JsonValue | index
    @ret r
    @sig fn index_str(&self, index: &str) -> &JsonValue
    @rw &NULL =>> null_ref()
    @rw &$o_id[index] =>> $o_id.index_str(index)
    @spec
        requires wf(*self)
        ensures jv(*r) == member(jv(*self), sb(index@)), wf(*r)
    @entry
        proof { lemma_parts(); }
@@end

@@fn value/mod.rs | impl Index<String> for JsonValue | index
    @ret r
    @sig fn index_string(&self, index: String) -> &JsonValue
    @rw self.index($e) =>> self.index_str($e)
    @spec
        requires wf(*self)
        ensures jv(*r) == member(jv(*self), sb(index@)), wf(*r)
@@end

@@fn value/mod.rs | impl<'a> Index<&'a String> for JsonValue | index
    @ret r
    @sig fn index_string_ref(&self, index: &String) -> &JsonValue
    @rw self.index($e) =>> self.index_str($e)
    @spec
        requires wf(*self)
        ensures jv(*r) == member(jv(*self), sb(index@)), wf(*r)
@@end
}

impl Object {
@@fn object.rs | impl<'a> Index<&'a str> for Object | index
    @ret r
    @sig fn index_str(&self, index: &str) -> &JsonValue
    @rw &NULL =>> null_ref()
    @spec
        requires self.ok()
        ensures jv(*r) == member(J::Obj(obj_j(*self)), sb(index@)), wf(*r)
@@end
@@fn object.rs | impl Index<String> for Object | index
    @ret r
    @sig fn index_string(&self, index: String) -> &JsonValue
    @rw self.index($e) =>> self.index_str($e)
    @spec
        requires self.ok()
        ensures jv(*r) == member(J::Obj(obj_j(*self)), sb(index@)), wf(*r)
@@end
@@fn object.rs | impl<'a> Index<&'a String> for Object | index
    @ret r
    @sig fn index_string_ref(&self, index: &String) -> &JsonValue
    @rw self.index($e) =>> self.index_str($e)
    @spec
        requires self.ok()
        ensures jv(*r) == member(J::Obj(obj_j(*self)), sb(index@)), wf(*r)
@@end
}

// ---- conversions into values

/// Stand-in for Into<JsonValue>: what the value converts to.
/// What the elements become.
pub open spec fn vals<T: IntoValue>(s: Seq<T>) -> Seq<J> { Seq::new(s.len(), |i: int| s[i].val()) }

/// Vec::into_iter, map(Into::into), collect: each element converted, in order.
#[verifier::external_body]
fn into_all<T: IntoValue>(v: Vec<T>) -> (r: Vec<JsonValue>)
    requires forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]).can()
    ensures wf_all(r@), arr_j(r@) == vals(v@)
{ unimplemented!() }

/// The same from a slice, each element cloned first.
#[verifier::external_body]
fn clone_into_all<T: IntoValue>(v: &[T]) -> (r: Vec<JsonValue>)
    requires forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]).can()
    ensures wf_all(r@), arr_j(r@) == vals(v@)
{ unimplemented!() }

pub trait IntoValue: Sized {
    spec fn can(&self) -> bool;
    spec fn val(&self) -> J;
    fn into(self) -> (r: JsonValue)
        requires self.can()
        ensures wf(r), jv(r) == self.val();
}

impl IntoValue for JsonValue {
    open spec fn can(&self) -> bool { wf(*self) }
    open spec fn val(&self) -> J { jv(*self) }
    /// the identity
    fn into(self) -> (r: JsonValue) { self }
}
impl<'a> IntoValue for &'a str {
    open spec fn can(&self) -> bool { true }
    open spec fn val(&self) -> J { J::Str(sb(self@)) }
    fn into(self) -> (r: JsonValue) { JsonValue::from_str(self) }
}
impl IntoValue for String {
    open spec fn can(&self) -> bool { true }
    open spec fn val(&self) -> J { J::Str(sb(self@)) }
    fn into(self) -> (r: JsonValue) { JsonValue::from_string(self) }
}
impl<T: IntoValue> IntoValue for Option<T> {
    open spec fn can(&self) -> bool { *self is Some ==> self->0.can() }
    open spec fn val(&self) -> J { if *self is Some { self->0.val() } else { J::Null } }
    fn into(self) -> (r: JsonValue) { JsonValue::from_option(self) }
}

impl JsonValue {
@@fn value/implements.rs | impl<T: Into<JsonValue>> From<Option<T>> for JsonValue | from
    @ret r
    @sig fn from_option<T: IntoValue>(val: Option<T>) -> JsonValue
    @spec
        requires val is Some ==> val->0.can()
        ensures wf(r), jv(r) == if val is Some { val->0.val() } else { J::Null }
@@end

@@fn value/implements.rs | impl<T: Into<JsonValue>> From<Vec<T>> for JsonValue | from
    @ret r
    @sig fn from_vec<T: IntoValue>(val: Vec<T>) -> JsonValue
    @rw $v_id.into_iter().map(Into::into).collect() =>> into_all($v_id)
    @spec
        requires forall|i: int| 0 <= i < val@.len() ==> (#[trigger] val@[i]).can()
        ensures wf(r), jv(r) == J::Arr(vals(val@))
    @entry
        proof { lemma_parts(); }
@@end
@@fn value/implements.rs | impl<'a, T: Into<JsonValue> + Clone> From<&'a [T]> for JsonValue | from
    @ret r
    @sig fn from_slice<T: IntoValue>(val: &[T]) -> JsonValue
    @rw $v_id.iter().cloned().map(Into::into).collect() =>> clone_into_all($v_id)
    @spec
        requires forall|i: int| 0 <= i < val@.len() ==> (#[trigger] val@[i]).can()
        ensures wf(r), jv(r) == J::Arr(vals(val@))
    @entry
        proof { lemma_parts(); }
@@end
@@for T in HashMap BTreeMap
@@fn value/implements.rs | impl<K: AsRef<str>, V: Into<JsonValue>> From<{T}<K, V>> for JsonValue | from
    @ret r
    @sig fn from_{T}(val: Pairs) -> JsonValue
    @rw $v_id.into_iter().collect() =>> Object::from_iter($v_id)
    @spec
        ensures wf(r), jv(r) == J::Obj(put_all(Seq::empty(), val.left()))
    @entry
        proof { lemma_parts(); }
@@end
@@endfor

@@for T in u8 u16 u32 u64 usize i8 i16 i32 i64 isize
@@fn value/implements.rs | impl From<{T}> for JsonValue | from
    @ret r
    @sig fn from_{T}(val: {T}) -> JsonValue
    @spec
        ensures wf(r), jv(r) == J::Num(r->Number_0), r->Number_0.v() == int_num(val as int), int_of(jv(r)) == Some(val as int)
    @entry
        proof { lemma_from_{T}(val); }
@@end
@@endfor

@@fn value/implements.rs | impl From<Number> for JsonValue | from
    @ret r
    @sig fn from_number(val: Number) -> JsonValue
    @spec
        ensures wf(r), jv(r) == J::Num(val)
@@end
@@fn value/implements.rs | impl From<bool> for JsonValue | from
    @ret r
    @sig fn from_bool(val: bool) -> JsonValue
    @spec
        ensures wf(r), jv(r) == J::Bool(val)
@@end
@@fn value/implements.rs | impl From<Object> for JsonValue | from
    @ret r
    @sig fn from_object(val: Object) -> JsonValue
    @spec
        requires val.ok()
        ensures wf(r), jv(r) == J::Obj(obj_j(val))
    @entry
        proof { lemma_parts(); }
@@end

@@fn value/mod.rs | impl JsonValue | push
    @ret r
    @sig fn push<T: IntoValue>(&mut self, value: T) -> Result<()>
    @spec
        requires wf(*old(self)), value.can()
        ensures
            wf(*final(self)),
            r is Ok == (jv(*old(self)) is Arr),
            r is Ok ==> jv(*final(self)) == J::Arr(elems_of(jv(*old(self))).push(value.val())) && *final(self) is Array,
            r is Ok ==> exists|v: JsonValue| final(self)->Array_0@ == (old(self)->Array_0)@.push(v) && jv(v) == value.val() && wf(v),
            r is Err ==> *final(self) == *old(self),
    @entry
        proof { lemma_parts(); }
@@end

@@fn value/mod.rs | impl JsonValue | insert
    @ret r
    @sig fn insert<T: IntoValue>(&mut self, key: &str, value: T) -> Result<()>
    @spec
        requires wf(*old(self)), value.can()
        ensures
            wf(*final(self)),
            r is Ok == (jv(*old(self)) is Obj),
            r is Ok ==> jv(*final(self)) == J::Obj(put(entries_of(jv(*old(self))), sb(key@), value.val())),
            r is Err ==> *final(self) == *old(self),
    @entry
        proof { lemma_parts(); }
@@end
}

impl Error {
@@fn error.rs | impl Error | wrong_type
    @ret r
    @rw expected.into() =>> str_string(expected)
@@end
}

// ---- writing through an index

/// Writing one value into an object, seen from after the borrow.
proof fn lemma_written(a: Object)
    requires a.ok()
    ensures forall|b: Object, i: int, v: JsonValue| #![trigger written(a, b, i, v)]
        written(a, b, i, v) && wf(v) ==> b.ok() && obj_j(b) == obj_j(a).update(i, (obj_j(a)[i].0, jv(v)))
{
    assert forall|b: Object, i: int, v: JsonValue| #![trigger written(a, b, i, v)] written(a, b, i, v) && wf(v) implies
            b.ok() && obj_j(b) == obj_j(a).update(i, (obj_j(a)[i].0, jv(v))) by {
        lemma_set(a, b, i, v);
    }
}

proof fn lemma_put_twice(e: Seq<(Seq<u8>, J)>, k: Seq<u8>)
    requires distinct(e)
    ensures
        pos(put(e, k, J::Null), k) >= 0,
        pos(e, k) < 0 ==> put(e, k, J::Null)[pos(put(e, k, J::Null), k)].1 == J::Null,
        forall|v: J| #![trigger put(e, k, v)] pos(e, k) < 0 ==> put(e, k, J::Null).update(pos(put(e, k, J::Null), k), (k, v)) == put(e, k, v),
        forall|v: J| #![trigger put(e, k, v)] pos(e, k) >= 0 ==> e.update(pos(e, k), (k, v)) == put(e, k, v),
        pos(e, k) >= 0 ==> e[pos(e, k)].0 == k,
        put(e, k, J::Null)[pos(put(e, k, J::Null), k)].0 == k,
{
    lemma_put(e, k, J::Null);
    lemma_pos(e, k);
    assert forall|v: J| #![trigger put(e, k, v)] pos(e, k) < 0 implies put(e, k, J::Null).update(pos(put(e, k, J::Null), k), (k, v)) == put(e, k, v) by {
        assert(put(e, k, J::Null).update(e.len() as int, (k, v)) =~= put(e, k, v));
    }
}

impl Object {
@@fn object.rs | impl<'a> IndexMut<&'a str> for Object | index_mut
    @ret r
    @sig fn index_mut_str(&mut self, index: &str) -> &mut JsonValue
    @spec
        requires old(self).ok()
        ensures
            wf(*r), jv(*r) == member(J::Obj(obj_j(*old(self))), sb(index@)),
            wf(*final(r)) ==> final(self).ok() && obj_j(*final(self)) == put(obj_j(*old(self)), sb(index@), jv(*final(r))),
    @entry
        proof { lemma_obj(*self); lemma_put_twice(obj_j(*self), sb(index@)); lemma_pos(obj_j(*self), sb(index@)); }
    @before self.get_mut
        proof { lemma_written(*self); }
@@end
@@fn object.rs | impl IndexMut<String> for Object | index_mut
    @ret r
    @sig fn index_mut_string(&mut self, index: String) -> &mut JsonValue
    @rw self.index_mut($e) =>> self.index_mut_str($e)
    @spec
        requires old(self).ok()
        ensures
            wf(*r), jv(*r) == member(J::Obj(obj_j(*old(self))), sb(index@)),
            wf(*final(r)) ==> final(self).ok() && obj_j(*final(self)) == put(obj_j(*old(self)), sb(index@), jv(*final(r))),
@@end
@@fn object.rs | impl<'a> IndexMut<&'a String> for Object | index_mut
    @ret r
    @sig fn index_mut_string_ref(&mut self, index: &String) -> &mut JsonValue
    @rw self.index_mut($e) =>> self.index_mut_str($e)
    @spec
        requires old(self).ok()
        ensures
            wf(*r), jv(*r) == member(J::Obj(obj_j(*old(self))), sb(index@)),
            wf(*final(r)) ==> final(self).ok() && obj_j(*final(self)) == put(obj_j(*old(self)), sb(index@), jv(*final(r))),
@@end
}

/// The elements that writing through an index starts from.
pub open spec fn base(v: J) -> Seq<J> { if v is Arr { elems_of(v) } else { seq![J::Null] } }
pub open spec fn with_elem(a: Seq<J>, i: int, x: J) -> J { J::Arr(if i < a.len() { a.update(i, x) } else { a.push(x) }) }

/// The same for elements.
proof fn lemma_elems_written(a: Seq<JsonValue>)
    ensures
        forall|v: JsonValue, i: int, x: JsonValue| #![trigger jv(v), a.update(i, x)]
            v is Array && v->Array_0@ == a.update(i, x) && 0 <= i < a.len() ==> jv(v) == J::Arr(arr_j(a).update(i, jv(x))),
        forall|v: JsonValue, n: JsonValue, i: int, x: JsonValue| #![trigger jv(v), a.push(n).update(i, x)]
            v is Array && v->Array_0@ == a.push(n).update(i, x) && i == a.len() ==> jv(v) == J::Arr(arr_j(a).push(jv(x))),
{
    assert forall|v: JsonValue, i: int, x: JsonValue| #![trigger jv(v), a.update(i, x)]
            v is Array && v->Array_0@ == a.update(i, x) && 0 <= i < a.len() implies jv(v) == J::Arr(arr_j(a).update(i, jv(x))) by {
        lemma_jv(v);
        assert(arr_j(a.update(i, x)) =~= arr_j(a).update(i, jv(x)));
    }
    assert forall|v: JsonValue, n: JsonValue, i: int, x: JsonValue| #![trigger jv(v), a.push(n).update(i, x)]
            v is Array && v->Array_0@ == a.push(n).update(i, x) && i == a.len() implies jv(v) == J::Arr(arr_j(a).push(jv(x))) by {
        lemma_jv(v);
        assert(arr_j(a.push(n).update(i, x)) =~= arr_j(a).push(jv(x)));
    }
}

impl JsonValue {
@@fn value/mod.rs | impl IndexMut<usize> for JsonValue | index_mut
    @ret r
    @sig fn index_mut(&mut self, index: usize) -> &mut JsonValue
    @rw &mut $v_id[index] =>> vec_at_mut($v_id, index)
    @rw $v_id.last_mut() =>> vec_last_mut($v_id)
    @rw self.push($e).unwrap() =>> must(self.push($e))
    @spec
        requires wf(*old(self))
        ensures
            wf(*r), jv(*r) == (if index < base(jv(*old(self))).len() { base(jv(*old(self)))[index as int] } else { J::Null }),
            wf(*final(r)) ==> wf(*final(self)) && jv(*final(self)) == with_elem(base(jv(*old(self))), index as int, jv(*final(r))),
        decreases if *old(self) is Array { 0nat } else { 1nat }
    @entry
        proof { lemma_parts(); if jv(*self) is Arr { lemma_elems_written(self->Array_0@); } }
    @after must($e);
        proof { lemma_elems_written(self->Array_0@); }
@@end

@@fn value/mod.rs | impl<'a> IndexMut<&'a str> for JsonValue | index_mut
    @ret r
    @sig fn index_mut_str(&mut self, index: &str) -> &mut JsonValue
    @rw &mut $o_id[index] =>> $o_id.index_mut_str(index)
    @rw self.index_mut($e) =>> self.index_mut_str($e)
    @spec
        requires wf(*old(self))
        ensures
            wf(*r), jv(*r) == member(jv(*old(self)), sb(index@)),
            wf(*final(r)) ==> wf(*final(self)) && jv(*final(self)) == J::Obj(put(entries_of(jv(*old(self))), sb(index@), jv(*final(r)))),
        decreases if *old(self) is Object { 0nat } else { 1nat }
    @entry
        proof { lemma_parts(); }
@@end
@@fn value/mod.rs | impl IndexMut<String> for JsonValue | index_mut
    @ret r
    @sig fn index_mut_string(&mut self, index: String) -> &mut JsonValue
    @rw self.index_mut($e) =>> self.index_mut_str($e)
    @spec
        requires wf(*old(self))
        ensures
            wf(*r), jv(*r) == member(jv(*old(self)), sb(index@)),
            wf(*final(r)) ==> wf(*final(self)) && jv(*final(self)) == J::Obj(put(entries_of(jv(*old(self))), sb(index@), jv(*final(r)))),
@@end
@@fn value/mod.rs | impl<'a> IndexMut<&'a String> for JsonValue | index_mut
    @ret r
    @sig fn index_mut_string_ref(&mut self, index: &String) -> &mut JsonValue
    @rw self.index_mut($e) =>> self.index_mut_str($e)
    @spec
        requires wf(*old(self))
        ensures
            wf(*r), jv(*r) == member(jv(*old(self)), sb(index@)),
            wf(*final(r)) ==> wf(*final(self)) && jv(*final(self)) == J::Obj(put(entries_of(jv(*old(self))), sb(index@), jv(*final(r)))),
@@end

@@fn value/mod.rs | impl JsonValue | members_mut
    @ret r
    @sig fn members_mut(&mut self) -> SliceIterMut<JsonValue>
    @rw vec.iter_mut() =>> SliceIterMut::new(vec)
    @rw [].iter_mut() =>> SliceIterMut::none()
    @spec
        ensures
            arr_j(r.rest()) == elems_of(jv(*old(self))), r.rest().len() == r.after().len(),
            if *old(self) is Array { *final(self) is Array && (*final(self))->Array_0@ == r.after() } else { *final(self) == *old(self) },
    @entry
        proof { lemma_parts(); }
@@end

@@fn value/mod.rs | impl JsonValue | entries_mut
    @ret r
    @sig fn entries_mut(&mut self) -> IterMut
    @rw EntriesMut::empty() =>> IterMut::empty()
    @spec
        requires wf(*old(self))
        ensures
            r.ok(), r.rest() == entries_of(jv(*old(self))),
            if *old(self) is Object { *final(self) is Object && (*final(self))->Object_0.store@ == r.inner.after() } else { *final(self) == *old(self) },
    @entry
        proof { lemma_parts(); }
@@end

@@fn value/mod.rs | impl JsonValue | members
    @ret r
    @sig fn members(&self) -> SliceIter<JsonValue>
    @rw vec.iter() =>> SliceIter::new(vec)
    @rw [].iter() =>> SliceIter::new(&[])
    @spec
        ensures r.ok(), arr_j(r.rest()) == elems_of(jv(*self))
    @entry
        proof { lemma_parts(); }
@@end

@@fn value/mod.rs | impl JsonValue | entries
    @ret r
    @sig fn entries(&self) -> Iter
    @rw Entries::empty() =>> Iter::empty()
    @spec
        requires wf(*self)
        ensures r.ok(), r.rest() == entries_of(jv(*self))
    @entry
        proof { lemma_parts(); }
@@end

@@fn value/mod.rs | impl JsonValue | contains
    @ret r
    @sig fn contains<T: EqValue>(&self, item: T) -> bool
    @rw vec.iter().any(|$m_id| $e) =>> ({ let mut any = false; let mut it = SliceIter::new(vec); loop { match it.next() { Some($m_id) => { if $e { any = true; break; } } None => { break } } } any })
    @rw item == *$m_id =>> item.eq_value($m_id)
    @spec
        requires wf(*self)
        ensures r <==> exists|i: int| 0 <= i < elems_of(jv(*self)).len() && item.same(#[trigger] elems_of(jv(*self))[i])
    @entry
        proof { lemma_parts(); if let JsonValue::Array(a) = self { assert forall|i: int| 0 <= i < a@.len() implies #[trigger] arr_j(a@)[i] == jv(a@[i]) by {} } }
    @loop 1
        invariant_except_break
            !any,
            forall|i: int| 0 <= i < it.i ==> !item.same(#[trigger] arr_j(vec@)[i]),
        invariant
            it.ok(), it.s@ == vec@, it.j == vec@.len(), self is Array, wf(*self), vec@ == self->Array_0@,
            forall|i: int| 0 <= i < vec@.len() ==> wf(#[trigger] vec@[i]),
        ensures
            any <==> exists|i: int| 0 <= i < vec@.len() && item.same(#[trigger] arr_j(vec@)[i]),
        decreases it.j - it.i
    @before any = true;
        proof { let n = it.i - 1; assert(jv(vec@[n]) == arr_j(vec@)[n]); }
@@end
}

/// Stand-in for PartialEq<JsonValue>
pub trait EqValue {
    spec fn same(&self, v: J) -> bool;
    fn eq_value(&self, v: &JsonValue) -> (r: bool)
        requires wf(*v)
        ensures r == self.same(jv(*v));
}

} // verus!
