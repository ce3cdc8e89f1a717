// The search tree of an object, and the ordered map that it stands for.
use vstd::prelude::*;
use crate::spec::*;
use crate::json::*;
verus! {

// ------------------------------------------------------------ ordered maps

/// Where the key is among the entries, -1 when it is absent.
pub open spec fn pos(e: Seq<(Seq<u8>, J)>, k: Seq<u8>) -> int
    decreases e.len()
{
    if e.len() == 0 { -1 }
    else if pos(e.drop_last(), k) >= 0 { pos(e.drop_last(), k) }
    else if e.last().0 == k { e.len() - 1 }
    else { -1 }
}

/// Insertion: the value of a present key is replaced in place, a new key goes to the end.
pub open spec fn put(e: Seq<(Seq<u8>, J)>, k: Seq<u8>, v: J) -> Seq<(Seq<u8>, J)> {
    if pos(e, k) >= 0 { e.update(pos(e, k), (k, v)) } else { e.push((k, v)) }
}

/// Removal keeps the order of the rest.
pub open spec fn without(e: Seq<(Seq<u8>, J)>, k: Seq<u8>) -> Seq<(Seq<u8>, J)> {
    if pos(e, k) >= 0 { e.remove(pos(e, k)) } else { e }
}

pub open spec fn distinct(e: Seq<(Seq<u8>, J)>) -> bool {
    forall|i: int, j: int| 0 <= i < e.len() && 0 <= j < e.len() && (#[trigger] e[i]).0 == (#[trigger] e[j]).0 ==> i == j
}

pub proof fn lemma_pos(e: Seq<(Seq<u8>, J)>, k: Seq<u8>)
    ensures
        -1 <= pos(e, k) < e.len(),
        pos(e, k) >= 0 ==> e[pos(e, k)].0 == k && forall|i: int| 0 <= i < pos(e, k) ==> (#[trigger] e[i]).0 != k,
        pos(e, k) < 0 ==> forall|i: int| 0 <= i < e.len() ==> (#[trigger] e[i]).0 != k,
    decreases e.len()
{
    if e.len() > 0 {
        let d = e.drop_last();
        lemma_pos(d, k);
        if pos(d, k) >= 0 {
            assert(e[pos(d, k)] == d[pos(d, k)]);
            assert forall|i: int| 0 <= i < pos(d, k) implies (#[trigger] e[i]).0 != k by { assert(e[i] == d[i]); }
        } else {
            assert forall|i: int| 0 <= i < d.len() implies (#[trigger] e[i]).0 != k by { assert(e[i] == d[i]); }
        }
    }
}

/// The place of a key that is there.
pub proof fn lemma_pos_at(e: Seq<(Seq<u8>, J)>, i: int)
    requires distinct(e), 0 <= i < e.len()
    ensures pos(e, e[i].0) == i
{
    lemma_pos(e, e[i].0);
}

/// Insertion keeps the keys distinct; a map is what its keys and values are.
pub proof fn lemma_put(e: Seq<(Seq<u8>, J)>, k: Seq<u8>, v: J)
    requires distinct(e)
    ensures
        distinct(put(e, k, v)),
        pos(put(e, k, v), k) == if pos(e, k) >= 0 { pos(e, k) } else { e.len() as int },
        put(e, k, v)[pos(put(e, k, v), k)] == (k, v),
{
    lemma_pos(e, k);
    let p = if pos(e, k) >= 0 { pos(e, k) } else { e.len() as int };
    let n = put(e, k, v);
    assert(n[p] == (k, v));
    lemma_pos(n, k);
    assert(n[pos(n, k)].0 == k);
}

// ------------------------------------------------------------ the tree

/// The hash of a key: some function of its bytes.
pub uninterp spec fn hash_of(k: Seq<u8>) -> u64;

/// What the search looks at in a node.
pub ghost struct Slot { pub hash: u64, pub text: Seq<u8>, pub left: usize, pub right: usize }

/// Where the search for a key goes from node i: to itself, to a child or nowhere (0).
pub open spec fn hit(t: Seq<Slot>, i: int, k: Seq<u8>) -> bool { hash_of(k) == t[i].hash && k == t[i].text }
pub open spec fn next(t: Seq<Slot>, i: int, k: Seq<u8>) -> int { if hash_of(k) < t[i].hash { t[i].left as int } else { t[i].right as int } }

/// The node that the search finds from i on.
pub open spec fn find(t: Seq<Slot>, i: int, k: Seq<u8>) -> int
    decreases t.len() - i
{
    if !(0 <= i < t.len()) { -1 }
    else if hit(t, i, k) { i }
    else if i < next(t, i, k) < t.len() { find(t, next(t, i, k), k) }
    else { -1 }
}

/// The search that starts at i comes by p.
pub open spec fn reach(t: Seq<Slot>, i: int, p: int, k: Seq<u8>) -> bool
    decreases t.len() - i
{
    if i == p { true }
    else if !(0 <= i < t.len()) { false }
    else if hit(t, i, k) { false }
    else if i < next(t, i, k) < t.len() { reach(t, next(t, i, k), p, k) }
    else { false }
}

pub open spec fn link(i: int, c: usize, n: nat) -> bool { c == 0 || i < c < n }

/// Links lead forward, and the search finds every key there is.
pub open spec fn sane(t: Seq<Slot>) -> bool {
    &&& forall|i: int| 0 <= i < t.len() ==> link(i, (#[trigger] t[i]).left, t.len()) && link(i, t[i].right, t.len()) && t[i].hash == hash_of(t[i].text)
    &&& forall|i: int| 0 <= i < t.len() ==> find(t, 0, (#[trigger] t[i]).text) == i
}

pub proof fn lemma_reach(t: Seq<Slot>, i: int, p: int, k: Seq<u8>)
    requires reach(t, i, p, k), 0 <= p < t.len()
    ensures
        find(t, i, k) == find(t, p, k),
        !hit(t, p, k) && p < next(t, p, k) < t.len() ==> reach(t, i, next(t, p, k), k),
    decreases t.len() - i
{
    if i != p { lemma_reach(t, next(t, i, k), p, k); }
    else { reveal_with_fuel(reach, 2); }
}

pub proof fn lemma_find(t: Seq<Slot>, i: int, k: Seq<u8>)
    ensures
        find(t, i, k) == -1 || i <= find(t, i, k) < t.len() && hit(t, find(t, i, k), k)
    decreases t.len() - i
{
    if 0 <= i < t.len() && !hit(t, i, k) && i < next(t, i, k) < t.len() { lemma_find(t, next(t, i, k), k); }
}

/// No two nodes have the same key; the search is `pos`.
pub proof fn lemma_sane(t: Seq<Slot>, k: Seq<u8>)
    requires sane(t)
    ensures
        forall|i: int| 0 <= i < t.len() && (#[trigger] t[i]).text == k ==> find(t, 0, k) == i,
        find(t, 0, k) == -1 || 0 <= find(t, 0, k) < t.len() && t[find(t, 0, k)].text == k,
{
    lemma_find(t, 0, k);
}

/// A new node n below p, on the side where the search for k ends.
pub open spec fn grown(t: Seq<Slot>, p: int, k: Seq<u8>) -> Seq<Slot> {
    let n = t.len() as usize;
    let q = if hash_of(k) < t[p].hash { Slot { left: n, ..t[p] } } else { Slot { right: n, ..t[p] } };
    t.update(p, q).push(Slot { hash: hash_of(k), text: k, left: 0, right: 0 })
}

proof fn lemma_grown_find(t: Seq<Slot>, p: int, k: Seq<u8>, i: int, x: Seq<u8>)
    requires 0 <= p < t.len(), t.len() < usize::MAX, next(t, p, k) == 0, 0 <= i < t.len(), find(t, i, x) >= 0
    ensures find(grown(t, p, k), i, x) == find(t, i, x)
    decreases t.len() - i
{
    let u = grown(t, p, k);
    if hit(t, i, x) {
        assert(hit(u, i, x));
    } else {
        assert(next(t, i, x) > i);
        lemma_find(t, next(t, i, x), x);
        assert(next(u, i, x) == next(t, i, x));
        lemma_grown_find(t, p, k, next(t, i, x), x);
    }
}

proof fn lemma_grown_reach(t: Seq<Slot>, p: int, k: Seq<u8>, i: int)
    requires 0 <= p < t.len(), t.len() < usize::MAX, next(t, p, k) == 0, !hit(t, p, k), 0 <= i < t.len(), reach(t, i, p, k)
    ensures find(grown(t, p, k), i, k) == t.len()
    decreases t.len() - i
{
    let u = grown(t, p, k);
    let n = t.len() as int;
    if i == p {
        assert(!hit(u, p, k));
        assert(next(u, p, k) == n);
        assert(hit(u, n, k));
        assert(find(u, n, k) == n);
    } else {
        assert(next(u, i, k) == next(t, i, k));
        assert(next(t, i, k) < t.len());
        lemma_grown_reach(t, p, k, next(t, i, k));
    }
}

/// Insertion of a new key keeps the tree.
pub proof fn lemma_grown(t: Seq<Slot>, p: int, k: Seq<u8>)
    requires sane(t), 0 <= p < t.len(), t.len() < usize::MAX, next(t, p, k) == 0, !hit(t, p, k), reach(t, 0, p, k)
    ensures sane(grown(t, p, k))
{
    let u = grown(t, p, k);
    lemma_grown_reach(t, p, k, 0);
    assert forall|i: int| 0 <= i < u.len() implies find(u, 0, (#[trigger] u[i]).text) == i by {
        if i < t.len() {
            assert(u[i].text == t[i].text);
            lemma_grown_find(t, p, k, 0, t[i].text);
        }
    }
}

} // verus!
