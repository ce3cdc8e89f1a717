// Equality of values: what it means, that it is an equivalence, and that the
// code decides it.
use vstd::prelude::*;
use vstd::utf8::*;
use crate::spec::*;
use crate::stdx::*;
use crate::raw::*;
use crate::tree::*;
use crate::short::*;
use crate::object::*;
use crate::number::*;
use crate::json::*;
use crate::value::*;
verus! {

@@rules
for ($k_id, $v_id) in $it { $body_blk } =>> let mut it = $it; loop { match it.next() { Some(($k_id, $v_id)) => { $body_blk } None => { break } } }
**self == *other.as_str() =>> (**self).is_eq(other.as_str())
*$a_id == *$b_id.as_str() =>> (*$a_id).is_eq($b_id.as_str())
*$a_id != $b_id =>> !(*$a_id).is_eq($b_id)
*$a_id == $b_id =>> (*$a_id).is_eq($b_id)
$a_id.as_str() == $b_id.as_str() =>> $a_id.as_str().is_eq($b_id.as_str())
$a_id == $b_id =>> $a_id.is_eq($b_id)
$a_id == *$b_id =>> $a_id.is_eq(*$b_id)
$a_id == *self =>> $a_id.is_eq(*self)
$a_id == self =>> $a_id.is_eq(self)
self.as_str().eq($b) =>> self.as_str().is_eq($b)
other.as_str().eq($b) =>> other.as_str().is_eq($b)
@@endrules

/// The same type and contents; numbers by their decimal value, objects as maps.
pub open spec fn jeq(a: J, b: J) -> bool
    decreases a
{
    match (a, b) {
        (J::Null, J::Null) => true,
        (J::Bool(x), J::Bool(y)) => x == y,
        (J::Num(x), J::Num(y)) => same_value(x.v(), y.v()),
        (J::Str(x), J::Str(y)) => x == y,
        (J::Arr(x), J::Arr(y)) => x.len() == y.len() && forall|i: int| 0 <= i < x.len() ==> jeq(#[trigger] x[i], y[i]),
        (J::Obj(x), J::Obj(y)) => x.len() == y.len() && forall|i: int| 0 <= i < x.len() ==> pos(y, (#[trigger] x[i]).0) >= 0 && jeq(x[i].1, y[pos(y, x[i].0)].1),
        _ => false,
    }
}

/// No key twice, at any depth.
pub open spec fn jwf(a: J) -> bool
    decreases a
{
    match a {
        J::Arr(x) => forall|i: int| 0 <= i < x.len() ==> jwf(#[trigger] x[i]),
        J::Obj(x) => distinct(x) && forall|i: int| 0 <= i < x.len() ==> jwf((#[trigger] x[i]).1),
        _ => true,
    }
}

/// Every value has distinct keys.
pub proof fn lemma_jwf(v: JsonValue)
    requires wf(v)
    ensures jwf(jv(v))
    decreases v
{
    lemma_jv(v);
    match v {
        JsonValue::Array(a) => {
            assert forall|i: int| 0 <= i < arr_j(a@).len() implies jwf(#[trigger] arr_j(a@)[i]) by { lemma_jwf(a@[i]); }
        }
        JsonValue::Object(o) => {
            lemma_obj(o);
            assert forall|i: int| 0 <= i < obj_j(o).len() implies jwf((#[trigger] obj_j(o)[i]).1) by { lemma_jwf(o.store@[i].value); }
        }
        _ => {}
    }
}

pub proof fn lemma_jeq_refl(a: J)
    requires jwf(a)
    ensures jeq(a, a)
    decreases a
{
    match a {
        J::Arr(x) => { assert forall|i: int| 0 <= i < x.len() implies jeq(#[trigger] x[i], x[i]) by { lemma_jeq_refl(x[i]); } }
        J::Obj(x) => {
            assert forall|i: int| 0 <= i < x.len() implies pos(x, (#[trigger] x[i]).0) >= 0 && jeq(x[i].1, x[pos(x, x[i].0)].1) by {
                lemma_pos_at(x, i);
                lemma_jeq_refl(x[i].1);
            }
        }
        _ => {}
    }
}

pub open spec fn keys(e: Seq<(Seq<u8>, J)>) -> Seq<Seq<u8>> { Seq::new(e.len(), |i: int| e[i].0) }

/// As many keys, all of them there: the same keys.
proof fn lemma_same_keys(x: Seq<(Seq<u8>, J)>, y: Seq<(Seq<u8>, J)>)
    requires
        distinct(x), distinct(y), x.len() == y.len(),
        forall|i: int| 0 <= i < x.len() ==> pos(y, (#[trigger] x[i]).0) >= 0,
    ensures
        forall|i: int| 0 <= i < y.len() ==> pos(x, (#[trigger] y[i]).0) >= 0,
{
    let kx = keys(x);
    let ky = keys(y);
    assert(kx.no_duplicates()) by {
        assert forall|i: int, j: int| 0 <= i < kx.len() && 0 <= j < kx.len() && i != j implies kx[i] != kx[j] by { assert(x[i].0 == kx[i] && x[j].0 == kx[j]); }
    }
    assert(ky.no_duplicates()) by {
        assert forall|i: int, j: int| 0 <= i < ky.len() && 0 <= j < ky.len() && i != j implies ky[i] != ky[j] by { assert(y[i].0 == ky[i] && y[j].0 == ky[j]); }
    }
    kx.unique_seq_to_set();
    ky.unique_seq_to_set();
    assert(kx.to_set().subset_of(ky.to_set())) by {
        assert forall|k: Seq<u8>| kx.to_set().contains(k) implies ky.to_set().contains(k) by {
            let i = choose|i: int| 0 <= i < kx.len() && kx[i] == k;
            assert(x[i].0 == k);
            lemma_pos(y, k);
            assert(ky[pos(y, k)] == k);
        }
    }
    vstd::set_lib::lemma_subset_equality(kx.to_set(), ky.to_set());
    assert forall|i: int| 0 <= i < y.len() implies pos(x, (#[trigger] y[i]).0) >= 0 by {
        let k = y[i].0;
        assert(ky[i] == k);
        assert(ky.to_set().contains(k));
        assert(kx.to_set().contains(k));
        let j = choose|j: int| 0 <= j < kx.len() && kx[j] == k;
        assert(x[j].0 == k);
        lemma_pos(x, k);
    }
}

pub proof fn lemma_jeq_sym(a: J, b: J)
    requires jwf(a), jwf(b), jeq(a, b)
    ensures jeq(b, a)
    decreases a
{
    match (a, b) {
        (J::Num(x), J::Num(y)) => { lemma_same_value_sym(x.v(), y.v()); }
        (J::Arr(x), J::Arr(y)) => {
            assert forall|i: int| 0 <= i < y.len() implies jeq(#[trigger] y[i], x[i]) by { assert(jeq(x[i], y[i])); lemma_jeq_sym(x[i], y[i]); }
        }
        (J::Obj(x), J::Obj(y)) => {
            lemma_same_keys(x, y);
            assert forall|i: int| 0 <= i < y.len() implies pos(x, (#[trigger] y[i]).0) >= 0 && jeq(y[i].1, x[pos(x, y[i].0)].1) by {
                let j = pos(x, y[i].0);
                lemma_pos(x, y[i].0);
                assert(x[j].0 == y[i].0);
                lemma_pos_at(y, i);
                assert(pos(y, x[j].0) == i);
                lemma_jeq_sym(x[j].1, y[i].1);
            }
        }
        _ => {}
    }
}

pub proof fn lemma_jeq_trans(a: J, b: J, c: J)
    requires jwf(a), jwf(b), jwf(c), jeq(a, b), jeq(b, c)
    ensures jeq(a, c)
    decreases a
{
    match (a, b, c) {
        (J::Num(x), J::Num(y), J::Num(z)) => { lemma_same_value_trans(x.v(), y.v(), z.v()); }
        (J::Arr(x), J::Arr(y), J::Arr(z)) => {
            assert forall|i: int| 0 <= i < x.len() implies jeq(#[trigger] x[i], z[i]) by { assert(jeq(x[i], y[i])); assert(jeq(y[i], z[i])); lemma_jeq_trans(x[i], y[i], z[i]); }
        }
        (J::Obj(x), J::Obj(y), J::Obj(z)) => {
            assert forall|i: int| 0 <= i < x.len() implies pos(z, (#[trigger] x[i]).0) >= 0 && jeq(x[i].1, z[pos(z, x[i].0)].1) by {
                let j = pos(y, x[i].0);
                lemma_pos(y, x[i].0);
                assert(y[j].0 == x[i].0);
                lemma_pos(z, y[j].0);
                lemma_jeq_trans(x[i].1, y[j].1, z[pos(z, y[j].0)].1);
            }
        }
        _ => {}
    }
}

proof fn lemma_either_way(v: JsonValue)
    requires wf(v)
    ensures
        forall|w: JsonValue| #![trigger jeq(jv(w), jv(v))] wf(w) ==> jeq(jv(w), jv(v)) == jeq(jv(v), jv(w)),
{
    lemma_jwf(v);
    assert forall|w: JsonValue| #![trigger jeq(jv(w), jv(v))] wf(w) implies jeq(jv(w), jv(v)) == jeq(jv(v), jv(w)) by {
        lemma_jwf(w);
        if jeq(jv(w), jv(v)) { lemma_jeq_sym(jv(w), jv(v)); }
        if jeq(jv(v), jv(w)) { lemma_jeq_sym(jv(v), jv(w)); }
    }
}

// ------------------------------------------------------------ a measure of two values, for the end of the recursion

pub open spec fn jsize(j: J) -> nat
    decreases j, 0nat
{
    match j {
        J::Arr(s) => 1 + arr_size(s, s.len()),
        J::Obj(s) => 1 + obj_size(s, s.len()),
        _ => 0,
    }
}
pub open spec fn arr_size(s: Seq<J>, n: nat) -> nat
    decreases s, n
{
    if n == 0 || n > s.len() { 0 } else { arr_size(s, (n - 1) as nat) + jsize(s[n - 1]) }
}
pub open spec fn obj_size(s: Seq<(Seq<u8>, J)>, n: nat) -> nat
    decreases s, n
{
    if n == 0 || n > s.len() { 0 } else { obj_size(s, (n - 1) as nat) + jsize(s[n - 1].1) }
}
proof fn lemma_arr_size(s: Seq<J>, n: nat, i: int)
    requires 0 <= i < n <= s.len()
    ensures jsize(s[i]) <= arr_size(s, n)
    decreases n
{
    if i < n - 1 { lemma_arr_size(s, (n - 1) as nat, i); }
}
proof fn lemma_obj_size(s: Seq<(Seq<u8>, J)>, n: nat, i: int)
    requires 0 <= i < n <= s.len()
    ensures jsize(s[i].1) <= obj_size(s, n)
    decreases n
{
    if i < n - 1 { lemma_obj_size(s, (n - 1) as nat, i); }
}

// ------------------------------------------------------------ the code

/// Stand-in for PartialEq: what equality means for the type.
pub trait Equal<R: ?Sized = Self> {
    spec fn can(&self, other: &R) -> bool;
    spec fn same(&self, other: &R) -> bool;
    fn is_eq(&self, other: &R) -> (r: bool)
        requires self.can(other)
        ensures r == self.same(other);
}

impl Equal for str {
    open spec fn can(&self, other: &str) -> bool { true }
    open spec fn same(&self, other: &str) -> bool { sb(self@) == sb(other@) }
    /// == of strings
    fn is_eq(&self, other: &str) -> (r: bool) { proof { lemma_str_inj(); } self == other }
}
impl Equal for String {
    open spec fn can(&self, other: &String) -> bool { true }
    open spec fn same(&self, other: &String) -> bool { sb(self@) == sb(other@) }
    fn is_eq(&self, other: &String) -> (r: bool) { self.as_str().is_eq(other.as_str()) }
}
impl Equal<str> for String {
    open spec fn can(&self, other: &str) -> bool { true }
    open spec fn same(&self, other: &str) -> bool { sb(self@) == sb(other@) }
    fn is_eq(&self, other: &str) -> (r: bool) { self.as_str().is_eq(other) }
}
impl Equal<String> for str {
    open spec fn can(&self, other: &String) -> bool { true }
    open spec fn same(&self, other: &String) -> bool { sb(self@) == sb(other@) }
    fn is_eq(&self, other: &String) -> (r: bool) { self.is_eq(other.as_str()) }
}
impl Equal for bool {
    open spec fn can(&self, other: &bool) -> bool { true }
    open spec fn same(&self, other: &bool) -> bool { *self == *other }
    fn is_eq(&self, other: &bool) -> (r: bool) { *self == *other }
}
impl Equal for Number {
    open spec fn can(&self, other: &Number) -> bool { true }
    open spec fn same(&self, other: &Number) -> bool { same_value(self.v(), other.v()) }
    fn is_eq(&self, other: &Number) -> (r: bool) { *self == *other }
}

impl Equal for Short {
    open spec fn can(&self, other: &Short) -> bool { self.ok() && other.ok() }
    open spec fn same(&self, other: &Short) -> bool { self.text() == other.text() }
@@fn short.rs | impl PartialEq for Short | eq
    @ret r
    @sig fn is_eq(&self, other: &Short) -> bool
@@end
}
impl Equal<str> for Short {
    open spec fn can(&self, other: &str) -> bool { self.ok() }
    open spec fn same(&self, other: &str) -> bool { self.text() == sb(other@) }
@@fn short.rs | impl PartialEq<str> for Short | eq
    @ret r
    @sig fn is_eq(&self, other: &str) -> bool
@@end
}
impl Equal<Short> for str {
    open spec fn can(&self, other: &Short) -> bool { other.ok() }
    open spec fn same(&self, other: &Short) -> bool { other.text() == sb(self@) }
@@fn short.rs | impl PartialEq<Short> for str | eq
    @ret r
    @sig fn is_eq(&self, other: &Short) -> bool
@@end
}
impl Equal<String> for Short {
    open spec fn can(&self, other: &String) -> bool { self.ok() }
    open spec fn same(&self, other: &String) -> bool { self.text() == sb(other@) }
@@fn short.rs | impl PartialEq<String> for Short | eq
    @ret r
    @sig fn is_eq(&self, other: &String) -> bool
@@end
}
impl Equal<Short> for String {
    open spec fn can(&self, other: &Short) -> bool { other.ok() }
    open spec fn same(&self, other: &Short) -> bool { other.text() == sb(self@) }
@@fn short.rs | impl PartialEq<Short> for String | eq
    @ret r
    @sig fn is_eq(&self, other: &Short) -> bool
@@end
}

impl Equal for Vec<JsonValue> {
    open spec fn can(&self, other: &Vec<JsonValue>) -> bool { wf_all(self@) && wf_all(other@) }
    open spec fn same(&self, other: &Vec<JsonValue>) -> bool { jeq(J::Arr(arr_j(self@)), J::Arr(arr_j(other@))) }
    /// == of vectors: as long, and equal element by element
    fn is_eq(&self, other: &Vec<JsonValue>) -> (r: bool)
        decreases jsize(J::Arr(arr_j(self@))) + jsize(J::Arr(arr_j(other@))), 0nat
    {
        if self.len() != other.len() { return false; }
        let mut i = 0;
        while i < self.len()
            invariant
                wf_all(self@), wf_all(other@), self@.len() == other@.len(), i <= self@.len(),
                forall|k: int| 0 <= k < i ==> jeq(#[trigger] arr_j(self@)[k], arr_j(other@)[k]),
            decreases self@.len() - i
        {
            proof {
                lemma_arr_size(arr_j(self@), self@.len(), i as int); lemma_arr_size(arr_j(other@), other@.len(), i as int);
            }
            if !self[i].is_eq(&other[i]) {
                proof { assert(!jeq(arr_j(self@)[i as int], arr_j(other@)[i as int])); }
                return false;
            }
            i = i + 1;
        }
        true
    }
}

impl Equal for Object {
    open spec fn can(&self, other: &Object) -> bool { self.ok() && other.ok() }
    open spec fn same(&self, other: &Object) -> bool { jeq(J::Obj(obj_j(*self)), J::Obj(obj_j(*other))) }
@@fn object.rs | impl PartialEq for Object | eq
    @ret r
    @sig fn is_eq(&self, other: &Object) -> bool
    @spec
        decreases jsize(J::Obj(obj_j(*self))) + jsize(J::Obj(obj_j(*other))), 0nat
    @loop 1
        invariant
            self.ok(), other.ok(), it.ok(), obj_j(*self).len() == obj_j(*other).len(),
            it.rest().len() <= obj_j(*self).len(),
            it.rest() =~= obj_j(*self).subrange(obj_j(*self).len() - it.rest().len(), obj_j(*self).len() as int),
            forall|i: int| 0 <= i < obj_j(*self).len() - it.rest().len() ==>
                pos(obj_j(*other), (#[trigger] obj_j(*self)[i]).0) >= 0 && jeq(obj_j(*self)[i].1, obj_j(*other)[pos(obj_j(*other), obj_j(*self)[i].0)].1),
        ensures
            it.rest().len() == 0,
        decreases it.rest().len()
    @loopstart 1
        let ghost n = obj_j(*self).len() - it.rest().len();
        proof { if it.rest().len() > 0 { assert(it.rest()[0] == obj_j(*self)[n]); } }
    @before match other.get
        proof { assert(obj_j(*self)[n] == (sb(key@), jv(*value))); lemma_pos(obj_j(*other), sb(key@)); lemma_either_way(*value);
            lemma_obj_size(obj_j(*self), obj_j(*self).len(), n as int);
            if pos(obj_j(*other), sb(key@)) >= 0 { lemma_obj_size(obj_j(*other), obj_j(*other).len(), pos(obj_j(*other), sb(key@))); } }
@@end
}

impl Equal for JsonValue {
    open spec fn can(&self, other: &JsonValue) -> bool { wf(*self) && wf(*other) }
    open spec fn same(&self, other: &JsonValue) -> bool { jeq(jv(*self), jv(*other)) }
@@fn value/mod.rs | impl PartialEq for JsonValue | eq
    @ret r
    @sig fn is_eq(&self, other: &JsonValue) -> bool
    @spec
        decreases jsize(jv(*self)) + jsize(jv(*other)), 1nat
    @rw &$v_id(ref $a_id) =>> $v_id($a_id)
    @rw &Null =>> Null
    @entry
        proof { lemma_jv(*self); lemma_jv(*other); }
@@end
}

// ------------------------------------------------------------ values against plain types

@@for T in u8 u16 u32 u64 usize i8 i16 i32 i64 isize
impl Equal<{T}> for Number {
    open spec fn can(&self, other: &{T}) -> bool { true }
    open spec fn same(&self, other: &{T}) -> bool { same_value(self.v(), int_num(*other as int)) }
    fn is_eq(&self, other: &{T}) -> (r: bool) { *self == *other }
}

impl Equal<{T}> for JsonValue {
    open spec fn can(&self, other: &{T}) -> bool { wf(*self) && true }
    open spec fn same(&self, other: &{T}) -> bool { jv(*self) is Num && same_value(jv(*self)->Num_0.v(), int_num(*other as int)) }
@@fn value/implements.rs | impl PartialEq<{T}> for JsonValue | eq
    @ret r
    @sig fn is_eq(&self, other: &{T}) -> bool
    @entry
        proof { lemma_jv(*self); }
@@end
}
impl<'a> Equal<{T}> for &'a JsonValue {
    open spec fn can(&self, other: &{T}) -> bool { wf(**self) && true }
    open spec fn same(&self, other: &{T}) -> bool { jv(**self) is Num && same_value(jv(**self)->Num_0.v(), int_num(*other as int)) }
@@fn value/implements.rs | impl<'a> PartialEq<{T}> for &'a JsonValue | eq
    @ret r
    @sig fn is_eq(&self, other: &{T}) -> bool
    @entry
        proof { lemma_jv(**self); }
@@end
}
impl Equal<JsonValue> for {T} {
    open spec fn can(&self, other: &JsonValue) -> bool { wf(*other) && true }
    open spec fn same(&self, other: &JsonValue) -> bool { jv(*other) is Num && same_value(jv(*other)->Num_0.v(), int_num(*self as int)) }
@@fn value/implements.rs | impl PartialEq<JsonValue> for {T} | eq
    @ret r
    @sig fn is_eq(&self, other: &JsonValue) -> bool
    @entry
        proof { lemma_jv(*other); }
@@end
}
@@endfor

impl Equal<Number> for JsonValue {
    open spec fn can(&self, other: &Number) -> bool { wf(*self) && true }
    open spec fn same(&self, other: &Number) -> bool { jeq(jv(*self), J::Num(*other)) }
@@fn value/implements.rs | impl PartialEq<Number> for JsonValue | eq
    @ret r
    @sig fn is_eq(&self, other: &Number) -> bool
    @entry
        proof { lemma_jv(*self); }
@@end
}
impl<'a> Equal<Number> for &'a JsonValue {
    open spec fn can(&self, other: &Number) -> bool { wf(**self) && true }
    open spec fn same(&self, other: &Number) -> bool { jeq(jv(**self), J::Num(*other)) }
@@fn value/implements.rs | impl<'a> PartialEq<Number> for &'a JsonValue | eq
    @ret r
    @sig fn is_eq(&self, other: &Number) -> bool
    @entry
        proof { lemma_jv(**self); }
@@end
}
impl Equal<JsonValue> for Number {
    open spec fn can(&self, other: &JsonValue) -> bool { wf(*other) && true }
    open spec fn same(&self, other: &JsonValue) -> bool { jeq(jv(*other), J::Num(*self)) }
@@fn value/implements.rs | impl PartialEq<JsonValue> for Number | eq
    @ret r
    @sig fn is_eq(&self, other: &JsonValue) -> bool
    @entry
        proof { lemma_jv(*other); }
@@end
}

impl Equal<bool> for JsonValue {
    open spec fn can(&self, other: &bool) -> bool { wf(*self) && true }
    open spec fn same(&self, other: &bool) -> bool { jeq(jv(*self), J::Bool(*other)) }
@@fn value/implements.rs | impl PartialEq<bool> for JsonValue | eq
    @ret r
    @sig fn is_eq(&self, other: &bool) -> bool
    @entry
        proof { lemma_jv(*self); }
@@end
}
impl<'a> Equal<bool> for &'a JsonValue {
    open spec fn can(&self, other: &bool) -> bool { wf(**self) && true }
    open spec fn same(&self, other: &bool) -> bool { jeq(jv(**self), J::Bool(*other)) }
@@fn value/implements.rs | impl<'a> PartialEq<bool> for &'a JsonValue | eq
    @ret r
    @sig fn is_eq(&self, other: &bool) -> bool
    @entry
        proof { lemma_jv(**self); }
@@end
}
impl Equal<JsonValue> for bool {
    open spec fn can(&self, other: &JsonValue) -> bool { wf(*other) && true }
    open spec fn same(&self, other: &JsonValue) -> bool { jeq(jv(*other), J::Bool(*self)) }
@@fn value/implements.rs | impl PartialEq<JsonValue> for bool | eq
    @ret r
    @sig fn is_eq(&self, other: &JsonValue) -> bool
    @entry
        proof { lemma_jv(*other); }
@@end
}

impl Equal<Object> for JsonValue {
    open spec fn can(&self, other: &Object) -> bool { wf(*self) && other.ok() }
    open spec fn same(&self, other: &Object) -> bool { jeq(jv(*self), J::Obj(obj_j(*other))) }
@@fn value/implements.rs | impl PartialEq<Object> for JsonValue | eq
    @ret r
    @sig fn is_eq(&self, other: &Object) -> bool
    @entry
        proof { lemma_jv(*self); }
@@end
}
impl<'a> Equal<Object> for &'a JsonValue {
    open spec fn can(&self, other: &Object) -> bool { wf(**self) && other.ok() }
    open spec fn same(&self, other: &Object) -> bool { jeq(jv(**self), J::Obj(obj_j(*other))) }
@@fn value/implements.rs | impl<'a> PartialEq<Object> for &'a JsonValue | eq
    @ret r
    @sig fn is_eq(&self, other: &Object) -> bool
    @entry
        proof { lemma_jv(**self); }
@@end
}
impl Equal<JsonValue> for Object {
    open spec fn can(&self, other: &JsonValue) -> bool { wf(*other) && self.ok() }
    open spec fn same(&self, other: &JsonValue) -> bool { jeq(jv(*other), J::Obj(obj_j(*self))) }
@@fn value/implements.rs | impl PartialEq<JsonValue> for Object | eq
    @ret r
    @sig fn is_eq(&self, other: &JsonValue) -> bool
    @entry
        proof { lemma_jv(*other); }
@@end
}

impl Equal<str> for JsonValue {
    open spec fn can(&self, other: &str) -> bool { wf(*self) }
    open spec fn same(&self, other: &str) -> bool { jv(*self) == J::Str(sb(other@)) }
@@fn value/implements.rs | impl PartialEq<str> for JsonValue | eq
    @ret r
    @sig fn is_eq(&self, other: &str) -> bool
@@end
}
impl<'a> Equal<&'a str> for JsonValue {
    open spec fn can(&self, other: &&'a str) -> bool { wf(*self) }
    open spec fn same(&self, other: &&'a str) -> bool { jv(*self) == J::Str(sb(other@)) }
@@fn value/implements.rs | impl<'a> PartialEq<&'a str> for JsonValue | eq
    @ret r
    @sig fn is_eq(&self, other: &&'a str) -> bool
@@end
}
impl Equal<JsonValue> for str {
    open spec fn can(&self, other: &JsonValue) -> bool { wf(*other) }
    open spec fn same(&self, other: &JsonValue) -> bool { jv(*other) == J::Str(sb(self@)) }
@@fn value/implements.rs | impl<'a> PartialEq<JsonValue> for str | eq
    @ret r
    @sig fn is_eq(&self, other: &JsonValue) -> bool
@@end
}
impl<'a> Equal<JsonValue> for &'a str {
    open spec fn can(&self, other: &JsonValue) -> bool { wf(*other) }
    open spec fn same(&self, other: &JsonValue) -> bool { jv(*other) == J::Str(sb(self@)) }
@@fn value/implements.rs | impl<'a> PartialEq<JsonValue> for &'a str | eq
    @ret r
    @sig fn is_eq(&self, other: &JsonValue) -> bool
@@end
}
impl Equal<String> for JsonValue {
    open spec fn can(&self, other: &String) -> bool { wf(*self) }
    open spec fn same(&self, other: &String) -> bool { jv(*self) == J::Str(sb(other@)) }
@@fn value/implements.rs | impl PartialEq<String> for JsonValue | eq
    @ret r
    @sig fn is_eq(&self, other: &String) -> bool
@@end
}
impl<'a> Equal<String> for &'a JsonValue {
    open spec fn can(&self, other: &String) -> bool { wf(**self) }
    open spec fn same(&self, other: &String) -> bool { jv(**self) == J::Str(sb(other@)) }
@@fn value/implements.rs | impl<'a> PartialEq<String> for &'a JsonValue | eq
    @ret r
    @sig fn is_eq(&self, other: &String) -> bool
@@end
}
impl Equal<JsonValue> for String {
    open spec fn can(&self, other: &JsonValue) -> bool { wf(*other) }
    open spec fn same(&self, other: &JsonValue) -> bool { jv(*other) == J::Str(sb(self@)) }
@@fn value/implements.rs | impl PartialEq<JsonValue> for String | eq
    @ret r
    @sig fn is_eq(&self, other: &JsonValue) -> bool
@@end
}

} // verus!
