use vstd::prelude::*;
use std::{slice, str};
use vstd::utf8::*;
use crate::spec::*;
use crate::stdx::*;
use crate::raw::*;
use crate::json::*;
use crate::tree::*;
verus! {

// A raw pointer to the bytes of a key: into the key's own buffer, or to a
// heap block that the key owns.
#[verifier::external_body]
pub struct KeyPtr { p: *mut u8 }

impl KeyPtr {
    /// points to the buffer of the key it is stored in, where that is now
    pub uninterp spec fn own(self) -> bool;
    /// points to a heap block with these bytes, owned by the key
    pub uninterp spec fn heap(self) -> Option<Seq<u8>>;
}

@@rules
self.ptr = self.buf.as_mut_ptr() =>> self.ptr = own_ptr(&mut self.buf)
ptr::copy_nonoverlapping($s.as_ptr(), $d.as_mut_ptr(), $n) =>> raw_fill($s, &mut $d, $n)
let $p_id = $h_id.as_mut_ptr(); mem::forget($h_id); =>> let $p_id = leak($h_id);
self.ptr = $h_id.as_mut_ptr(); mem::forget($h_id); =>> self.ptr = leak($h_id);
Vec::from_raw_parts($p, $n, $m) =>> unleak(&$p, $n, $m)
ptr::null_mut() =>> null_ptr()
= $e.to_vec() =>> = bytes_vec($e)
slice::from_raw_parts(self.ptr, self.len) =>> read_key(&self.ptr, &self.buf, self.len)
key == $e.key.as_bytes() =>> bytes_eq(key, $e.key.as_bytes())
$e.key.as_bytes() == key =>> bytes_eq($e.key.as_bytes(), key)
let mut $n_id = unsafe { &mut *self.node_at_index_mut($e) }; =>> let mut $n_id: usize = $e;
$n_id = unsafe { &mut *self.node_at_index_mut($e) }; =>> $n_id = $e;
let mut $n_id = unsafe { self.store.get_unchecked($e) }; =>> let ghost mut at: int = ($e) as int; let mut $n_id = &self.store[$e];
$n_id = unsafe { self.store.get_unchecked($e) }; =>> proof { at = ($e) as int; } $n_id = &self.store[$e];
let $n_id = unsafe { self.store.get_unchecked_mut($e) }; =>> let $n_id = at_mut(&mut self.store, $e);
unsafe { self.store.get_unchecked_mut($i).key.attach($k) }; =>> at_mut(&mut self.store, $i).key.attach($k);
self.store[$i].key.attach($k); =>> at_mut(&mut self.store, $i).key.attach($k);
self.store[$i].left = $v; =>> at_mut(&mut self.store, $i).left = $v;
self.store[$i].right = $v; =>> at_mut(&mut self.store, $i).right = $v;
self.store[$i].value = $v; =>> at_mut(&mut self.store, $i).value = $v;
self.store.push($x); =>> raw_push(&mut self.store, $x);
self.store.capacity() =>> vec_cap(&self.store)
$s.set_len($n); ptr::copy_nonoverlapping(&$x_id as *const Node, $s.as_mut_ptr().offset($i as isize), 1,); mem::forget($x_id); =>> raw_place(&mut $s, $n, $i, $x_id);
mem::replace($d, $v) =>> replace($d, $v)
drop($h_id); =>> let _dropped = $h_id;
mem::swap($a, $b) =>> swap($a, $b)
self.store.clone() =>> clone_nodes(&self.store)
for $n_id in $s.iter_mut() { $body_blk } =>> let mut _i: usize = 0; let _k = $s.len(); while _i < _k { let $n_id = at_mut(&mut $s, _i); $body_blk _i = _i + 1; }
for $n_id in $s.iter_mut().take($k) { $body_blk } =>> let mut _i: usize = 0; let _k = least($k, $s.len()); while _i < _k { let $n_id = at_mut(&mut $s, _i); $body_blk _i = _i + 1; }
for ($i_id, $n_id) in $s.iter_mut().enumerate() { $body_blk } =>> let mut $i_id: usize = 0; let _k = $s.len(); while $i_id < _k { let $n_id = at_mut(&mut $s, $i_id); $body_blk $i_id = $i_id + 1; }
@@endrules

@@item object.rs | const KEY_BUF_LEN | pub
@@item object.rs | struct Key | pub | pubfields
    @rw *mut u8 =>> KeyPtr
@@item object.rs | struct Node | pub | pubfields
@@item object.rs | struct Object | pub | pubfields

impl Key {
    /// The bytes the key was given.
    pub open spec fn text(self) -> Seq<u8> {
        if self.len <= KEY_BUF_LEN { self.buf@.subrange(0, self.len as int) } else { self.ptr.heap()->0 }
    }
    /// What the key owns is there, wherever its pointer points.
    pub open spec fn sound(self) -> bool {
        &&& self.len > KEY_BUF_LEN ==> self.ptr.heap() is Some && self.ptr.heap()->0.len() == self.len
        &&& valid_utf8(self.text())
    }
    /// The key can be read.
    pub open spec fn readable(self) -> bool {
        self.sound() && (self.len <= KEY_BUF_LEN ==> self.ptr.own())
    }
}

impl Node {
    pub open spec fn slot(self) -> Slot { Slot { hash: self.key.hash, text: self.key.text(), left: self.left, right: self.right } }
    pub open spec fn entry(self) -> (Seq<u8>, J) { (self.key.text(), jv(self.value)) }
}

pub open spec fn slots(s: Seq<Node>) -> Seq<Slot> { Seq::new(s.len(), |i: int| s[i].slot()) }

/// Every key can be read.
pub open spec fn readable_all(s: Seq<Node>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).key.readable() }

impl Object {
    pub open spec fn tree(self) -> bool { readable_all(self.store@) && sane(slots(self.store@)) }
}

/// Two nodes that differ at most in where their key's pointer points.
pub open spec fn alike(a: Node, b: Node) -> bool { a.slot() == b.slot() && a.value == b.value }

// ---- the raw-pointer operations on keys and nodes

/// ptr::null_mut()
#[verifier::external_body]
fn null_ptr() -> (r: KeyPtr)
    ensures !r.own(), r.heap() is None
{ unimplemented!() }

/// The address of the key's own buffer.
#[verifier::external_body]
fn own_ptr(buf: &mut [u8; KEY_BUF_LEN]) -> (r: KeyPtr)
    ensures r.own(), *final(buf) == *old(buf)
{ unimplemented!() }

/// Vec::as_mut_ptr followed by mem::forget
#[verifier::external_body]
fn leak(v: Vec<u8>) -> (r: KeyPtr)
    ensures r.heap() == Some(v@), !r.own()
{ unimplemented!() }

/// Vec::from_raw_parts; the block must be the one that was leaked.
#[verifier::external_body]
fn unleak(p: &KeyPtr, n: usize, cap: usize) -> (r: Vec<u8>)
    requires p.heap() is Some, p.heap()->0.len() == n, cap == n
    ensures r@ == p.heap()->0
{ unimplemented!() }

/// <[u8]>::to_vec
#[verifier::external_body]
fn bytes_vec(s: &[u8]) -> (r: Vec<u8>)
    ensures r@ == s@
{ unimplemented!() }

/// slice::from_raw_parts on the pointer of a key
#[verifier::external_body]
fn read_key<'a>(p: &'a KeyPtr, buf: &'a [u8; KEY_BUF_LEN], n: usize) -> (r: &'a [u8])
    requires if n <= KEY_BUF_LEN { p.own() } else { p.heap() is Some && n <= p.heap()->0.len() }
    ensures r@ == if n <= KEY_BUF_LEN { buf@.subrange(0, n as int) } else { p.heap()->0.subrange(0, n as int) }
{ unimplemented!() }

/// &mut v[i]
#[verifier::external_body]
fn at_mut<T>(v: &mut Vec<T>, i: usize) -> (r: &mut T)
    requires i < old(v)@.len()
    ensures *r == old(v)@[i as int], final(v)@ == old(v)@.update(i as int, *final(r)), vec_room(final(v)) == vec_room(old(v))
{ unimplemented!() }

/// Vec::last_mut
#[verifier::external_body]
fn last_mut<T>(v: &mut Vec<T>) -> (r: Option<&mut T>)
    ensures
        old(v)@.len() == 0 ==> r is None && *final(v) == *old(v),
        old(v)@.len() > 0 ==> r is Some && *r->0 == old(v)@.last() && final(v)@ == old(v)@.update(old(v)@.len() - 1, *final(r->0)),
{ unimplemented!() }

/// How many elements fit without a new allocation.
pub uninterp spec fn vec_room<T>(v: &Vec<T>) -> int;

/// Vec::capacity
#[verifier::external_body]
fn vec_cap<T>(v: &Vec<T>) -> (r: usize)
    ensures r == vec_room(v)
{ unimplemented!() }

/// Vec::push may move every node: pointers into their own buffers go stale.
#[verifier::external_body]
fn raw_push(v: &mut Vec<Node>, x: Node)
    ensures
        old(v)@.len() < usize::MAX,
        final(v)@.len() == old(v)@.len() + 1,
        forall|i: int| 0 <= i < old(v)@.len() ==> alike(#[trigger] final(v)@[i], old(v)@[i]) && (old(v)@[i].key.sound() ==> final(v)@[i].key.sound()) && final(v)@[i].key.len == old(v)@[i].key.len,
        alike(final(v)@[old(v)@.len() as int], x), final(v)@[old(v)@.len() as int].key.len == x.key.len,
{ unimplemented!() }

/// set_len, copy of a node into the new place, and mem::forget of the original.
#[verifier::external_body]
unsafe fn raw_place(v: &mut Vec<Node>, n: usize, i: usize, x: Node)
    requires n == old(v)@.len() + 1, i == old(v)@.len(), n <= vec_room(old(v))
    ensures
        final(v)@.len() == n,
        forall|k: int| 0 <= k < i ==> #[trigger] final(v)@[k] == old(v)@[k],
        alike(final(v)@[i as int], x), final(v)@[i as int].key.len == x.key.len,
{ unimplemented!() }

/// mem::replace
#[verifier::external_body]
fn replace<T>(d: &mut T, v: T) -> (r: T)
    ensures r == *old(d), *final(d) == v
{ unimplemented!() }

/// mem::swap; a vector that moves keeps its elements in place.
#[verifier::external_body]
fn swap<T>(a: &mut T, b: &mut T)
    ensures *final(a) == *old(b), *final(b) == *old(a)
{ unimplemented!() }

fn least(a: usize, b: usize) -> (r: usize)
    ensures r == if a <= b { a } else { b }
{ if a <= b { a } else { b } }

fn bytes_eq(a: &[u8], b: &[u8]) -> (r: bool)
    ensures r == (a@ == b@)
{
    if a.len() != b.len() { return false; }
    let mut i = 0;
    while i < a.len()
        invariant i <= a@.len(), a@.len() == b@.len(), forall|k: int| 0 <= k < i ==> a@[k] == b@[k]
        decreases a@.len() - i
    {
        if a[i] != b[i] { return false; }
        i = i + 1;
    }
    proof { assert(a@ =~= b@); }
    true
}

// which function of its bytes it is does not matter to any property; that the
// code neither overflows nor reads out of bounds, and ends, is proved below
@@fn object.rs | - | hash_key
    @ret r
    @spec
        ensures r == hash_of(key@)
    @assume a function of its bytes alone: safe code without state; no property depends on which one
@@end

@@fn object.rs | - | hash_key
    @id object::hash_key_body
    @sig fn hash_key_body(key: &[u8]) -> u64
    @loop 1
        invariant true
@@end

impl Key {
@@fn object.rs | impl Key | new
    @ret r
    @spec
        ensures r.len == len, r.hash == hash
@@end

@@fn object.rs | impl Key | attach
    @spec
        requires old(self).len == key@.len(), valid_utf8(key@)
        ensures final(self).readable(), final(self).text() == key@, final(self).hash == old(self).hash, final(self).len == old(self).len
    @after raw_fill($s, $d, $n)
        proof { assert(self.buf@.subrange(0, self.len as int) =~= key@); }
@@end

@@fn object.rs | impl Key | fix_ptr
    @spec
        requires old(self).sound()
        ensures final(self).readable(), final(self).text() == old(self).text(), final(self).hash == old(self).hash, final(self).len == old(self).len
@@end

@@fn object.rs | impl Drop for Key | drop
    @spec
        requires old(self).sound()
@@end

@@fn object.rs | impl Clone for Key | clone
    @ret r
    @spec
        requires self.readable()
        ensures r.sound(), r.text() == self.text(), r.hash == self.hash
@@end
}

impl Node {
@@fn object.rs | impl Node | new
    @ret r
    @spec
        ensures r.key.len == len, r.key.hash == hash, r.value == value, r.left == 0, r.right == 0
@@end
}

impl Object {
@@fn object.rs | impl Object | new
    @ret r
    @spec
        ensures r.ok(), obj_j(r).len() == 0, r.store@.len() == 0
@@end

@@fn object.rs | impl Object | with_capacity
    @ret r
    @spec
        ensures r.ok(), obj_j(r).len() == 0, r.store@.len() == 0
@@end

@@fn object.rs | impl Object | add_node
    @ret r
    @spec
        requires readable_all(old(self).store@), valid_utf8(key@), hash == hash_of(key@)
        ensures
            r == old(self).store@.len(), r < usize::MAX,
            final(self).store@.len() == old(self).store@.len() + 1,
            readable_all(final(self).store@),
            forall|i: int| 0 <= i < r ==> alike(#[trigger] final(self).store@[i], old(self).store@[i]),
            final(self).store@[r as int].slot() == (Slot { hash: hash, text: key@, left: 0, right: 0 }),
            final(self).store@[r as int].value == value,
    @loop 1
        invariant
            _i <= _k == index < self.store@.len(), index == old(self).store@.len(), self.store@.len() == index + 1,
            forall|i: int| 0 <= i < index ==> alike(#[trigger] self.store@[i], old(self).store@[i]) && self.store@[i].key.sound(),
            forall|i: int| 0 <= i < _i ==> (#[trigger] self.store@[i]).key.readable(),
            self.store@[index as int] == fresh,
        decreases _k - _i
    @loopbefore 1
        let ghost fresh = self.store@[index as int];
@@end
}


/// Entries and slots of a tree tell the same keys.
pub proof fn lemma_obj(o: Object)
    requires o.tree()
    ensures
        distinct(obj_j(o)),
        forall|k: Seq<u8>| #![trigger pos(obj_j(o), k)] pos(obj_j(o), k) == find(slots(o.store@), 0, k),
        o.store@.len() == 0 ==> obj_j(o) =~= Seq::empty(),
{
    let t = slots(o.store@);
    let e = obj_j(o);
    assert forall|i: int, j: int| 0 <= i < e.len() && 0 <= j < e.len() && (#[trigger] e[i]).0 == (#[trigger] e[j]).0 implies i == j by {
        assert(t[i].text == e[i].0 && t[j].text == e[j].0);
    }
    assert forall|k: Seq<u8>| #![trigger pos(e, k)] pos(e, k) == find(t, 0, k) by {
        lemma_pos(e, k);
        lemma_sane(t, k);
        if pos(e, k) >= 0 { assert(t[pos(e, k)].text == k); }
        if find(t, 0, k) >= 0 { assert(e[find(t, 0, k)].0 == k); }
    }
}

/// b is a with another value in node i
pub open spec fn written(a: Object, b: Object, i: int, v: JsonValue) -> bool {
    0 <= i < a.store@.len() && b.store@ == a.store@.update(i, Node { value: v, ..a.store@[i] })
}

/// One value replaced.
pub proof fn lemma_set(a: Object, b: Object, i: int, v: JsonValue)
    requires
        a.ok(), 0 <= i < a.store@.len(), wf(v),
        b.store@ == a.store@.update(i, Node { value: v, ..a.store@[i] })
    ensures
        b.ok(), slots(b.store@) == slots(a.store@),
        obj_j(b) == obj_j(a).update(i, (obj_j(a)[i].0, jv(v))),
{
    assert(slots(b.store@) =~= slots(a.store@));
    assert(obj_j(b) =~= obj_j(a).update(i, (obj_j(a)[i].0, jv(v))));
    assert forall|j: int| 0 <= j < b.store@.len() implies wf(#[trigger] b.store@[j].value) by { if j != i { assert(wf(a.store@[j].value)); } }
    assert forall|j: int| 0 <= j < b.store@.len() implies (#[trigger] b.store@[j]).key.readable() by { assert(a.store@[j].key.readable()); }
}

/// A node added below p.
proof fn lemma_add(a: Object, b: Object, p: int, k: Seq<u8>, v: JsonValue)
    requires
        a.ok(), wf(v), readable_all(b.store@), a.store@.len() < usize::MAX,
        0 <= p < a.store@.len(),
        reach(slots(a.store@), 0, p, k), !hit(slots(a.store@), p, k), next(slots(a.store@), p, k) == 0,
        slots(b.store@) == grown(slots(a.store@), p, k),
        forall|i: int| 0 <= i < a.store@.len() ==> (#[trigger] b.store@[i]).value == a.store@[i].value,
        b.store@[a.store@.len() as int].value == v,
    ensures
        b.ok(), obj_j(b) == put(obj_j(a), k, jv(v)), pos(obj_j(b), k) == a.store@.len(), pos(obj_j(a), k) == -1,
{
    let t = slots(a.store@);
    let u = slots(b.store@);
    let n = a.store@.len();
    assert(u.len() == n + 1);
    lemma_grown(t, p, k);
    lemma_obj(a);
    lemma_reach(t, 0, p, k);
    assert(find(t, p, k) == -1);
    assert(pos(obj_j(a), k) == -1);
    assert forall|j: int| 0 <= j < b.store@.len() implies wf(#[trigger] b.store@[j].value) by { if j < n { assert(wf(a.store@[j].value)); } }
    let e = obj_j(b);
    assert forall|i: int| 0 <= i < n + 1 implies #[trigger] e[i] == put(obj_j(a), k, jv(v))[i] by {
        assert(u[i].text == b.store@[i].key.text());
        assert(b.store@[i].value == b.store@[i].value);
        if i < n { assert(t[i].text == a.store@[i].key.text()); }
    }
    assert(e =~= put(obj_j(a), k, jv(v)));
    lemma_obj(b);
    lemma_put(obj_j(a), k, jv(v));
}

/// The first node.
proof fn lemma_first(b: Object, k: Seq<u8>, v: JsonValue)
    requires
        wf(v), readable_all(b.store@), b.store@.len() == 1,
        b.store@[0].slot() == (Slot { hash: hash_of(k), text: k, left: 0, right: 0 }), b.store@[0].value == v,
    ensures
        b.ok(), obj_j(b) == put(Seq::empty(), k, jv(v)), pos(obj_j(b), k) == 0,
{
    let t = slots(b.store@);
    assert(t[0] == b.store@[0].slot());
    assert(hit(t, 0, k));
    assert(find(t, 0, k) == 0);
    assert(sane(t));
    assert(obj_j(b) =~= put(Seq::empty(), k, jv(v)));
    lemma_obj(b);
}

impl Object {
@@fn object.rs | impl Object | insert_index
    @ret r
    @attr #[verifier::loop_isolation(false)]
    @rw node.value = $v; =>> at_mut(&mut self.store, node).value = $v;
    @rw node.$f_id =>> self.store[node].$f_id
    @vis pub
    @spec
        requires old(self).ok(), wf(value)
        ensures
            final(self).ok(),
            obj_j(*final(self)) == put(obj_j(*old(self)), sb(key@), jv(value)),
            r == pos(obj_j(*final(self)), sb(key@)), r < final(self).store@.len(),
    @entry
        let ghost k = sb(key@);
        let ghost v = value;
        let ghost t = slots(self.store@);
        proof {
            lemma_str(key@);
            lemma_obj(*self);
            if self.store@.len() > 0 { assert(t[0] == self.store@[0].slot()); }
        }
    @loop 1
        invariant
            *self == *old(self), self.ok(), wf(v), v == value, key@ == k, valid_utf8(k), hash == hash_of(k), t == slots(self.store@),
            node == parent, parent < self.store@.len(), reach(t, 0, parent as int, k),
        decreases self.store@.len() - parent
    @loopstart 1
        proof {
            let ghost p = parent as int;
            assert(t[p] == self.store@[p].slot());
            assert(self.store@[p].key.readable());
            lemma_reach(t, 0, p, k);
            lemma_obj(*self);
            lemma_put(obj_j(*self), k, jv(v));
        }
    @before#1 return parent;
        proof { lemma_set(*old(self), *self, parent as int, v); }
    @before#1 return index;
        proof { assert(slots(self.store@) =~= grown(t, parent as int, k)); lemma_add(*old(self), *self, parent as int, k, v); }
    @before#2 return index;
        proof { assert(slots(self.store@) =~= grown(t, parent as int, k)); lemma_add(*old(self), *self, parent as int, k, v); }
    @before return 0;
        proof { lemma_first(*self, k, v); assert(obj_j(*old(self)) =~= Seq::empty()); }
@@end

@@fn object.rs | impl Object | insert
    @spec
        requires old(self).ok(), wf(value)
        ensures final(self).ok(), obj_j(*final(self)) == put(obj_j(*old(self)), sb(key@), jv(value))
@@end

@@fn object.rs | impl Object | override_at
    @vis pub
    @spec
        requires old(self).ok(), wf(value), index < old(self).store@.len()
        ensures final(self).ok(), obj_j(*final(self)) == obj_j(*old(self)).update(index as int, (obj_j(*old(self))[index as int].0, jv(value)))
    @after at_mut($s, $i).value = $v;
        proof { lemma_set(*old(self), *self, index as int, value); }
@@end

@@fn object.rs | impl Object | get
    @ret r
    @attr #[verifier::loop_isolation(false)]
    @spec
        requires self.ok()
        ensures
            pos(obj_j(*self), sb(key@)) < 0 ==> r is None,
            pos(obj_j(*self), sb(key@)) >= 0 ==> r is Some && jv(*r->0) == obj_j(*self)[pos(obj_j(*self), sb(key@))].1 && wf(*r->0)
                && *r->0 == self.store@[pos(obj_j(*self), sb(key@))].value,
    @entry
        let ghost k = sb(key@);
        let ghost t = slots(self.store@);
        proof {
            lemma_obj(*self);
            assert(pos(obj_j(*self), k) == find(t, 0, k));
            if self.store@.len() > 0 { assert(t[0] == self.store@[0].slot()); }
        }
    @loop 1
        invariant
            self.ok(), key@ == k, hash == hash_of(k), t == slots(self.store@), pos(obj_j(*self), k) == find(t, 0, k),
            0 <= at < self.store@.len(), *node == self.store@[at], reach(t, 0, at, k),
        decreases self.store@.len() - at
    @loopstart 1
        proof {
            assert(t[at] == self.store@[at].slot());
            assert(self.store@[at].key.readable());
            assert(wf(self.store@[at].value));
            lemma_reach(t, 0, at, k);
        }
@@end

@@fn object.rs | impl Object | get_mut
    @ret r
    @attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
    @spec
        requires old(self).ok()
        ensures
            pos(obj_j(*old(self)), sb(key@)) < 0 ==> r is None && *final(self) == *old(self),
            pos(obj_j(*old(self)), sb(key@)) >= 0 ==> ({
                let i = pos(obj_j(*old(self)), sb(key@));
                &&& r is Some && wf(*r->0) && jv(*r->0) == obj_j(*old(self))[i].1 && *r->0 == old(self).store@[i].value
                &&& written(*old(self), *final(self), i, *final(r->0))
            }),
    @entry
        let ghost k = sb(key@);
        let ghost t = slots(self.store@);
        proof {
            lemma_obj(*self);
            assert(pos(obj_j(*self), k) == find(t, 0, k));
            if self.store@.len() > 0 { assert(t[0] == self.store@[0].slot()); }
        }
    @loop 1
        invariant
            self.ok(), *self == *old(self), key@ == k, hash == hash_of(k), t == slots(self.store@), pos(obj_j(*self), k) == find(t, 0, k),
            0 <= at < self.store@.len(), *node == self.store@[at], reach(t, 0, at, k), index == at,
        ensures
            pos(obj_j(*self), k) == index, index < self.store@.len(), wf(self.store@[index as int].value),
        decreases self.store@.len() - at
    @loopstart 1
        proof {
            assert(t[at] == self.store@[at].slot());
            assert(self.store@[at].key.readable());
            assert(wf(self.store@[at].value));
            lemma_reach(t, 0, at, k);
        }
@@end

@@fn object.rs | impl Object | remove
    @ret r
    @attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
    @spec
        requires old(self).ok()
        ensures
            final(self).ok(),
            obj_j(*final(self)) == without(obj_j(*old(self)), sb(key@)),
            pos(obj_j(*old(self)), sb(key@)) < 0 ==> r is None,
            pos(obj_j(*old(self)), sb(key@)) >= 0 ==> r is Some && wf(r->0) && jv(r->0) == obj_j(*old(self))[pos(obj_j(*old(self)), sb(key@))].1,
    @entry
        let ghost k = sb(key@);
        let ghost t = slots(self.store@);
        let ghost es = obj_j(*self);
        proof {
            lemma_obj(*self);
            assert(pos(es, k) == find(t, 0, k));
            if self.store@.len() > 0 { assert(t[0] == self.store@[0].slot()); }
        }
    @loop 1
        invariant
            self.ok(), *self == *old(self), key@ == k, hash == hash_of(k), t == slots(self.store@), es == obj_j(*self), pos(es, k) == find(t, 0, k),
            0 <= at < self.store@.len(), *node == self.store@[at], reach(t, 0, at, k), index == at,
        ensures
            pos(es, k) == index, index < self.store@.len(),
        decreases self.store@.len() - at
    @loopstart 1
        proof {
            assert(t[at] == self.store@[at].slot());
            assert(self.store@[at].key.readable());
            assert(wf(self.store@[at].value));
            lemma_reach(t, 0, at, k);
        }
    @loop 2
        invariant
            old(self).ok(), es == obj_j(*old(self)), distinct(es), pos(es, k) == index, index < es.len(),
            i <= _k == es.len(), self.store@.len() == es.len(),
            new_object.ok(),
            obj_j(new_object) == if i <= index { es.subrange(0, i as int) } else { es.remove(index as int).subrange(0, i - 1) },
            i <= index ==> removed is None,
            i > index ==> removed is Some && wf(removed->0) && jv(removed->0) == es[index as int].1,
            forall|j: int| 0 <= j < es.len() ==> (#[trigger] self.store@[j]).key == old(self).store@[j].key,
            forall|j: int| i <= j < es.len() ==> (#[trigger] self.store@[j]).value == old(self).store@[j].value,
        decreases es.len() - i
    @loopstart 2
        let ghost before = obj_j(new_object);
        proof {
            assert(self.store@[i as int].key == old(self).store@[i as int].key);
            assert(self.store@[i as int].value == old(self).store@[i as int].value);
            assert(old(self).store@[i as int].key.readable());
            assert(wf(old(self).store@[i as int].value));
            lemma_pos(before, es[i as int].0);
            assert(es[i as int] == (old(self).store@[i as int].key.text(), jv(old(self).store@[i as int].value)));
            if i != index {
                let b = pos(before, es[i as int].0);
                if b >= 0 {
                    assert(before[b].0 == es[i as int].0);
                    assert(before[b] == if b < index { es[b] } else { es[b + 1] });
                    assert(false);
                }
            }
            if i < index { assert(before.push(es[i as int]) =~= es.subrange(0, i + 1)); }
            else if i == index { assert(before =~= es.remove(index as int).subrange(0, i as int)); }
            else { assert(before.push(es[i as int]) =~= es.remove(index as int).subrange(0, i as int)); }
        }
    @loopafter 2
        proof { assert(es.remove(index as int).subrange(0, es.len() - 1) =~= es.remove(index as int)); }
@@end

@@fn object.rs | impl Object | len
    @ret r
    @spec
        ensures r == obj_j(*self).len()
@@end

@@fn object.rs | impl Object | is_empty
    @ret r
    @rw self.store.is_empty() =>> (self.store.len() == 0)
    @spec
        ensures r == (obj_j(*self).len() == 0)
@@end

@@fn object.rs | impl Object | clear
    @spec
        ensures final(self).ok(), obj_j(*final(self)).len() == 0
@@end

@@fn object.rs | impl Clone for Object | clone
    @ret r
    @spec
        requires self.ok()
        ensures r.ok(), obj_j(r) == obj_j(*self)
        decreases *self
    @loop 1
        invariant
            self.ok(), _i <= _k == store@.len(), store@.len() == self.store@.len(),
            forall|j: int| 0 <= j < store@.len() ==> (#[trigger] store@[j]).key.sound() && store@[j].slot() == self.store@[j].slot() && jv(store@[j].value) == jv(self.store@[j].value) && wf(store@[j].value),
            forall|j: int| 0 <= j < _i ==> (#[trigger] store@[j]).key.readable(),
        decreases _k - _i
    @loopafter 1
        proof {
            assert(slots(store@) =~= slots(self.store@));
            let o = Object { store: store };
            assert(obj_j(o) =~= obj_j(*self)) by {
                assert forall|j: int| 0 <= j < store@.len() implies obj_j(o)[j] == obj_j(*self)[j] by { assert(store@[j].slot() == self.store@[j].slot()); }
            }
        }
@@end
}

/// Vec::clone: clones the elements, in order.
fn clone_nodes(s: &Vec<Node>) -> (r: Vec<Node>)
    requires forall|j: int| 0 <= j < s@.len() ==> (#[trigger] s@[j]).key.readable() && wf(s@[j].value)
    ensures
        r@.len() == s@.len(),
        forall|j: int| 0 <= j < r@.len() ==> (#[trigger] r@[j]).key.sound() && r@[j].slot() == s@[j].slot() && jv(r@[j].value) == jv(s@[j].value) && wf(r@[j].value),
    decreases *s
{
    let mut r: Vec<Node> = Vec::new();
    let mut i: usize = 0;
    while i < s.len()
        invariant
            i <= s@.len(), r@.len() == i,
            forall|j: int| 0 <= j < s@.len() ==> (#[trigger] s@[j]).key.readable() && wf(s@[j].value),
            forall|j: int| 0 <= j < i ==> (#[trigger] r@[j]).key.sound() && r@[j].slot() == s@[j].slot() && jv(r@[j].value) == jv(s@[j].value) && wf(r@[j].value),
        decreases s@.len() - i
    {
        let n = s[i].clone();
        r.push(n);
        i = i + 1;
    }
    r
}

/// The same for the elements of an array.
fn clone_values(s: &Vec<JsonValue>) -> (r: Vec<JsonValue>)
    requires wf_all(s@)
    ensures arr_j(r@) == arr_j(s@), wf_all(r@)
    decreases *s
{
    let mut r: Vec<JsonValue> = Vec::new();
    let mut i: usize = 0;
    while i < s.len()
        invariant
            i <= s@.len(), r@.len() == i, wf_all(s@),
            forall|j: int| 0 <= j < i ==> wf(#[trigger] r@[j]) && jv(r@[j]) == jv(s@[j]),
        decreases s@.len() - i
    {
        let n = s[i].clone();
        r.push(n);
        i = i + 1;
    }
    proof { assert(arr_j(r@) =~= arr_j(s@)); }
    r
}

impl Node {
@@fn object.rs | impl Clone for Node | clone
    @ret r
    @spec
        requires self.key.readable(), wf(self.value)
        ensures r.key.sound(), r.slot() == self.slot(), jv(r.value) == jv(self.value), wf(r.value)
        decreases *self
@@end
}

impl JsonValue {
@@fn value/mod.rs | impl Clone for JsonValue | clone
    @ret r
    @rw JsonValue::Array($x.clone()) =>> JsonValue::Array(clone_values($x))
    @spec
        requires wf(*self)
        ensures wf(r), jv(r) == jv(*self)
        decreases *self
    @entry
        proof {
            assert forall|v: JsonValue| (v is Array ==> #[trigger] jv(v) == J::Arr(arr_j(v->Array_0@))) && (v is Object ==> jv(v) == J::Obj(obj_j(v->Object_0))) by { lemma_jv(v); }
        }
@@end
}

@@item object.rs | struct Iter | pub | pubfields
    @rw slice::Iter<'a, Node> =>> SliceIter<'a, Node>

impl<'a> Iter<'a> {
    pub open spec fn ok(self) -> bool {
        self.inner.ok() && forall|i: int| 0 <= i < self.inner.rest().len() ==> (#[trigger] self.inner.rest()[i]).key.readable() && wf(self.inner.rest()[i].value)
    }
    /// The entries still to come.
    pub open spec fn rest(self) -> Seq<(Seq<u8>, J)> { nodes_j(self.inner.rest()) }
}

/// The entries of a run of nodes.
pub open spec fn nodes_j(s: Seq<Node>) -> Seq<(Seq<u8>, J)> { Seq::new(s.len(), |i: int| (s[i].key.text(), jv(s[i].value))) }

impl Object {
@@fn object.rs | impl Object | iter
    @rw self.store.iter() =>> SliceIter::new(&self.store)
    @ret r
    @vis pub
    @spec
        requires self.ok()
        ensures r.ok(), r.rest() == obj_j(*self)
    @entry
        proof { assert(nodes_j(self.store@) =~= obj_j(*self)); }
@@end
}

impl<'a> Iter<'a> {
@@fn object.rs | impl<'a> Iterator for Iter<'a> | next
    @ret r
    @vis pub
    @rw $x.map(|$n_id| $e) =>> match $x { Some($n_id) => Some($e), None => None }
    @sig fn next(&mut self) -> Option<(&'a str, &'a JsonValue)>
    @spec
        requires old(self).ok()
        ensures
            final(self).ok(),
            old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest(),
            old(self).rest().len() > 0 ==> r is Some && (sb((r->0).0@), jv(*(r->0).1)) == old(self).rest()[0] && wf(*(r->0).1)
                && final(self).rest() =~= old(self).rest().subrange(1, old(self).rest().len() as int),
@@end
}

impl<'a> Iter<'a> {
@@fn object.rs | impl<'a> Iter<'a> | empty
    @ret r
    @rw [].iter() =>> SliceIter::new(&[])
    @spec
        ensures r.ok(), r.rest() == Seq::<(Seq<u8>, J)>::empty()
    @entry
        proof { assert(nodes_j(Seq::empty()) =~= Seq::<(Seq<u8>, J)>::empty()); }
@@end
@@fn object.rs | impl<'a> DoubleEndedIterator for Iter<'a> | next_back
    @ret r
    @vis pub
    @rw $x.map(|$n_id| $e) =>> match $x { Some($n_id) => Some($e), None => None }
    @sig fn next_back(&mut self) -> Option<(&'a str, &'a JsonValue)>
    @spec
        requires old(self).ok()
        ensures
            final(self).ok(),
            old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest(),
            old(self).rest().len() > 0 ==> r is Some && (sb((r->0).0@), jv(*(r->0).1)) == old(self).rest().last() && wf(*(r->0).1)
                && final(self).rest() =~= old(self).rest().drop_last(),
@@end
@@fn object.rs | impl<'a> ExactSizeIterator for Iter<'a> | len
    @ret r
    @vis pub
    @spec
        requires self.ok()
        ensures r == self.rest().len()
@@end
}

/// slice::IterMut: hands out the elements, each for writing, from either end.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct SliceIterMut<'a, T: 'a> { p: slice::IterMut<'a, T> }

impl<'a, T> SliceIterMut<'a, T> {
    /// What is still to come, as it is now.
    pub uninterp spec fn rest(self) -> Seq<T>;
    /// What the same elements will be when everything handed out has been given back.
    #[verifier::prophetic]
    pub uninterp spec fn after(self) -> Seq<T>;

    #[verifier::external_body]
    pub fn new(v: &'a mut Vec<T>) -> (r: SliceIterMut<'a, T>)
        ensures r.rest() == old(v)@, r.after() == final(v)@, r.after().len() == r.rest().len()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn none() -> (r: SliceIterMut<'a, T>)
        ensures r.rest().len() == 0, r.after().len() == 0
    { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a mut T>)
        requires old(self).rest().len() == old(self).after().len()
        ensures
            old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest() && final(self).after() == old(self).after(),
            old(self).rest().len() > 0 ==> r is Some && *r->0 == old(self).rest()[0] && *final(r->0) == old(self).after()[0]
                && final(self).rest() == old(self).rest().skip(1) && final(self).after() == old(self).after().skip(1),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn next_back(&mut self) -> (r: Option<&'a mut T>)
        requires old(self).rest().len() == old(self).after().len()
        ensures
            old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest() && final(self).after() == old(self).after(),
            old(self).rest().len() > 0 ==> r is Some && *r->0 == old(self).rest().last() && *final(r->0) == old(self).after().last()
                && final(self).rest() == old(self).rest().drop_last() && final(self).after() == old(self).after().drop_last(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures r == self.rest().len()
    { unimplemented!() }
}

@@item object.rs | struct IterMut | pub | pubfields
    @rw slice::IterMut<'a, Node> =>> SliceIterMut<'a, Node>

/// A node that was handed out for writing: its key is read, only its value can be written.
pub open spec fn handed(key: &str, before: Node, after: Node, value: JsonValue) -> bool {
    sb(key@) == before.key.text() && after == (Node { value: value, ..before })
}

impl<'a> IterMut<'a> {
    #[verifier::prophetic]
    pub open spec fn ok(self) -> bool {
        self.inner.rest().len() == self.inner.after().len()
            && forall|i: int| 0 <= i < self.inner.rest().len() ==> (#[trigger] self.inner.rest()[i]).key.readable() && wf(self.inner.rest()[i].value)
    }
    /// The entries still to come.
    pub open spec fn rest(self) -> Seq<(Seq<u8>, J)> { nodes_j(self.inner.rest()) }

@@fn object.rs | impl<'a> IterMut<'a> | empty
    @ret r
    @rw [].iter_mut() =>> SliceIterMut::none()
    @spec
        ensures r.ok(), r.rest().len() == 0
@@end
@@fn object.rs | impl<'a> Iterator for IterMut<'a> | next
    @ret r
    @vis pub
    @rw $x.map(|$n_id| $e) =>> match $x { Some($n_id) => Some($e), None => None }
    @sig fn next(&mut self) -> Option<(&'a str, &'a mut JsonValue)>
    @spec
        requires old(self).ok()
        ensures
            final(self).ok(),
            old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest(),
            old(self).rest().len() > 0 ==> r is Some && (sb((r->0).0@), jv(*(r->0).1)) == old(self).rest()[0] && wf(*(r->0).1)
                && handed((r->0).0, old(self).inner.rest()[0], old(self).inner.after()[0], *final((r->0).1))
                && final(self).inner.rest() == old(self).inner.rest().skip(1) && final(self).inner.after() == old(self).inner.after().skip(1),
@@end
@@fn object.rs | impl<'a> DoubleEndedIterator for IterMut<'a> | next_back
    @ret r
    @vis pub
    @rw $x.map(|$n_id| $e) =>> match $x { Some($n_id) => Some($e), None => None }
    @sig fn next_back(&mut self) -> Option<(&'a str, &'a mut JsonValue)>
    @spec
        requires old(self).ok()
        ensures
            final(self).ok(),
            old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest(),
            old(self).rest().len() > 0 ==> r is Some && (sb((r->0).0@), jv(*(r->0).1)) == old(self).rest().last() && wf(*(r->0).1)
                && handed((r->0).0, old(self).inner.rest().last(), old(self).inner.after().last(), *final((r->0).1))
                && final(self).inner.rest() == old(self).inner.rest().drop_last() && final(self).inner.after() == old(self).inner.after().drop_last(),
@@end
@@fn object.rs | impl<'a> ExactSizeIterator for IterMut<'a> | len
    @ret r
    @vis pub
    @spec
        requires self.ok()
        ensures r == self.rest().len()
@@end
}

impl Object {
@@fn object.rs | impl Object | iter_mut
    @rw self.store.iter_mut() =>> SliceIterMut::new(&mut self.store)
    @ret r
    @vis pub
    @spec
        requires old(self).ok()
        ensures r.ok(), r.rest() == obj_j(*old(self)), r.inner.rest() == old(self).store@, r.inner.after() == final(self).store@
    @entry
        proof { assert(nodes_j(self.store@) =~= obj_j(*self)); }
@@end
}

/// An iterator of pairs; what it yields, keys as text and values converted.
#[verifier::external_body]
pub struct Pairs { p: u8 }

impl Pairs {
    pub uninterp spec fn left(self) -> Seq<(Seq<u8>, J)>;

    #[verifier::external_body]
    pub fn hint(&self) -> (r: usize)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(String, JsonValue)>)
        ensures
            old(self).left().len() == 0 ==> r is None,
            old(self).left().len() > 0 ==> r is Some && (sb((r->0).0@), jv((r->0).1)) == old(self).left()[0] && wf((r->0).1)
                && final(self).left() == old(self).left().skip(1),
    { unimplemented!() }
}

/// One insertion after the other.
pub open spec fn put_all(e: Seq<(Seq<u8>, J)>, s: Seq<(Seq<u8>, J)>) -> Seq<(Seq<u8>, J)>
    decreases s.len()
{
    if s.len() == 0 { e } else { put_all(put(e, s[0].0, s[0].1), s.skip(1)) }
}

impl Object {
@@fn object.rs | impl<K: AsRef<str>, V: Into<JsonValue>> FromIterator<(K, V)> for Object | from_iter
    @ret r
    @vis pub
    @sig fn from_iter(iter: Pairs) -> Object
    @rw $i.into_iter() =>> $i
    @rw $i.size_hint().0 =>> $i.hint()
    @rw $k.as_ref() =>> $k.as_str()
    @rw value.into() =>> value
    @rw for ($k_id, $v_id) in $i_id { $body_blk } =>> let mut _it = $i_id; let mut _n = _it.next(); while _n.is_some() { let ($k_id, $v_id) = _n.unwrap(); $body_blk _n = _it.next(); }
    @spec
        ensures r.ok(), obj_j(r) == put_all(Seq::empty(), iter.left())
    @loop 1
        invariant
            object.ok(),
            match _n {
                Some(n) => wf(n.1) && put_all(Seq::empty(), iter.left()) == put_all(put(obj_j(object), sb(n.0@), jv(n.1)), _it.left()),
                None => put_all(Seq::empty(), iter.left()) == obj_j(object),
            },
        decreases (if _n is Some { 1 + _it.left().len() as int } else { 0 })
    @loopbefore 1
        proof { assert(obj_j(object) =~= Seq::empty()); }
@@end

@@fn object.rs | impl Object | override_last
    @rw self.store.last_mut() =>> last_mut(&mut self.store)
    @spec
        requires old(self).ok(), wf(value)
        ensures
            final(self).ok(),
            obj_j(*old(self)).len() == 0 ==> obj_j(*final(self)) == obj_j(*old(self)),
            obj_j(*old(self)).len() > 0 ==> obj_j(*final(self)) == obj_j(*old(self)).update(obj_j(*old(self)).len() - 1, (obj_j(*old(self)).last().0, jv(value))),
    @after node.value = value;
        proof { lemma_set(*old(self), *self, self.store@.len() - 1, value); }
@@end
}

impl Key {
@@fn object.rs | impl Key | as_bytes
    @ret r
    @vis pub
    @spec
        requires self.readable()
        ensures r@ == self.text()
    @entry
        proof { if self.len > KEY_BUF_LEN { assert(self.ptr.heap()->0.subrange(0, self.len as int) =~= self.ptr.heap()->0); } }
@@end

@@fn object.rs | impl Key | as_str
    @ret r
    @vis pub
    @spec
        requires self.readable()
        ensures sb(r@) == self.text()
@@end
}

} // verus!
