// Stand-in for std::io with the contract of `Write` that JSON output relies on.
use vstd::prelude::*;
verus! {

pub struct Error { pub code: u8 }
pub type Result<T> = core::result::Result<T, Error>;

/// a is an initial part of b
pub open spec fn prefix(a: Seq<u8>, b: Seq<u8>) -> bool {
    a.len() <= b.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] == b[i]
}

pub trait Write {
    /// What the stream has received.
    spec fn out(&self) -> Seq<u8>;
    /// It cannot fail.
    spec fn sure(&self) -> bool;

    /// On success all of it was received, otherwise some initial part of it.
    fn write_all(&mut self, buf: &[u8]) -> (r: Result<()>)
        ensures
            r is Ok ==> final(self).out() == old(self).out() + buf@,
            r is Err ==> emitted_part(old(self).out(), final(self).out(), buf@) && !old(self).sure(),
            final(self).sure() == old(self).sure(),
    ;
}

/// `new` is `old` followed by some initial part of `text`.
pub open spec fn emitted_part(old: Seq<u8>, new: Seq<u8>, text: Seq<u8>) -> bool {
    prefix(old, new) && prefix(new, old + text)
}

/// Contract of every function that writes `text`.
pub open spec fn wrote<T>(r: Result<T>, old: Seq<u8>, new: Seq<u8>, text: Seq<u8>) -> bool {
    &&& r is Ok ==> new =~= old + text
    &&& r is Err ==> emitted_part(old, new, text)
}

/// A write that stops on the way is still on the way to the whole text.
pub proof fn lemma_track(o: Seq<u8>, whole: Seq<u8>)
    ensures
        forall|cur: Seq<u8>, new: Seq<u8>, t: Seq<u8>| #![trigger emitted_part(cur, new, t)]
            emitted_part(cur, new, t) && emitted_part(o, cur + t, whole) && prefix(o, cur) ==> emitted_part(o, new, whole),
        forall|a: Seq<u8>, b: Seq<u8>| #![trigger prefix(a, a + b)] prefix(a, a + b),
        forall|a: Seq<u8>| #![trigger prefix(a, a)] prefix(a, a),
        forall|a: Seq<u8>| #![trigger o + a] prefix(o, o + a) && (prefix(a, whole) ==> emitted_part(o, o + a, whole)),
        emitted_part(o, o + whole, whole),
{
}

/// (o + b) + c is o + (b + c)
pub proof fn lemma_base(o: Seq<u8>)
    ensures forall|b: Seq<u8>, c: Seq<u8>| #![trigger (o + b) + c] (o + b) + c == o + (b + c)
{
    assert forall|b: Seq<u8>, c: Seq<u8>| #![trigger (o + b) + c] (o + b) + c == o + (b + c) by { assert((o + b) + c =~= o + (b + c)); }
}

/// a + b is the beginning of a + (b + c), in all the shapes this takes.
pub proof fn lemma_part(o: Seq<u8>, a: Seq<u8>, b: Seq<u8>)
    ensures emitted_part(o, o + a, a + b)
{
}

/// Concatenation of texts, in the form the solver works with.
pub proof fn lemma_concat()
    ensures
        forall|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>| #![trigger (a + b) + c] (a + b) + c == a + (b + c),
        forall|a: Seq<u8>, b: Seq<u8>| #![trigger a + b] b.len() == 0 ==> a + b == a,
        forall|a: Seq<u8>, b: Seq<u8>| #![trigger a + b] a.len() == 0 ==> a + b == b,
{
    assert forall|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>| #![trigger (a + b) + c] (a + b) + c == a + (b + c) by {
        assert((a + b) + c =~= a + (b + c));
    }
    assert forall|a: Seq<u8>, b: Seq<u8>| #![trigger a + b] b.len() == 0 implies a + b == a by { assert(a + b =~= a); }
    assert forall|a: Seq<u8>, b: Seq<u8>| #![trigger a + b] a.len() == 0 implies a + b == b by { assert(a + b =~= b); }
}

} // verus!
