// The raw-pointer operations of the code, as operations on the memory they
// may touch; the bounds are preconditions. All are trusted.
use vstd::prelude::*;
use vstd::utf8::*;
verus! {

pub assume_specification [core::str::from_utf8_unchecked] (v: &[u8]) -> (r: &str)
    requires valid_utf8(v@)
    ensures encode_utf8(r@) == v@;

pub assume_specification [String::from_utf8_unchecked] (v: Vec<u8>) -> (r: String)
    requires valid_utf8(v@)
    ensures encode_utf8(r@) == v@;

/// slice::from_raw_parts on a pointer to the start of `a`
#[verifier::external_body]
pub fn raw_part(a: &[u8], n: usize) -> (r: &[u8])
    requires n <= a@.len()
    ensures r@ == a@.subrange(0, n as int)
{ unimplemented!() }

/// ptr::copy_nonoverlapping into an array
#[verifier::external_body]
pub fn raw_fill<const N: usize>(s: &[u8], d: &mut [u8; N], n: usize)
    requires n <= s@.len(), n <= N
    ensures
        final(d)@.len() == N,
        forall|i: int| 0 <= i < N ==> #[trigger] final(d)@[i] == if i < n { s@[i] } else { old(d)@[i] }
{ unimplemented!() }

/// Vec::reserve panics when the length would not fit.
#[verifier::external_body]
pub fn raw_reserve(v: &mut Vec<u8>, n: usize)
    ensures final(v)@ == old(v)@, old(v)@.len() + n <= isize::MAX
{ unimplemented!() }

/// Vec::set_len: what is beyond the old length is arbitrary.
#[verifier::external_body]
pub unsafe fn raw_set_len(v: &mut Vec<u8>, n: usize)
    ensures final(v)@.len() == n, forall|i: int| 0 <= i < n && i < old(v)@.len() ==> #[trigger] final(v)@[i] == old(v)@[i]
{ unimplemented!() }

/// ptr::copy_nonoverlapping into a vector
#[verifier::external_body]
pub fn raw_append(s: &[u8], d: &mut Vec<u8>, at: isize, n: usize)
    requires n <= s@.len(), 0 <= at, at + n <= old(d)@.len()
    ensures
        final(d)@.len() == old(d)@.len(),
        forall|i: int| 0 <= i < old(d)@.len() ==> #[trigger] final(d)@[i] == if at <= i < at + n { s@[i - at] } else { old(d)@[i] }
{ unimplemented!() }

/// The length of a string in bytes.
#[verifier::external_body]
pub fn str_len(s: &str) -> (r: usize)
    ensures r == encode_utf8(s@).len()
{ unimplemented!() }

/// The bytes of a string, as read through its pointer.
pub fn str_raw(s: &str) -> (r: &[u8])
    ensures r@ == encode_utf8(s@)
{ s.as_bytes() }

/// Stand-in for the standard iterator over a slice.
pub struct SliceIter<'a, T> { pub s: &'a [T], pub i: usize, pub j: usize }

impl<'a, T> SliceIter<'a, T> {
    pub open spec fn ok(self) -> bool { self.i <= self.j <= self.s@.len() }
    /// What is still to come.
    pub open spec fn rest(self) -> Seq<T> { self.s@.subrange(self.i as int, self.j as int) }

    pub fn new(s: &'a [T]) -> (r: SliceIter<'a, T>)
        ensures r.ok(), r.rest() == s@, r.s == s, r.i == 0, r.j == s@.len()
    {
        proof { assert(s@.subrange(0, s@.len() as int) =~= s@); }
        SliceIter { s: s, i: 0, j: s.len() }
    }
    pub fn next(&mut self) -> (r: Option<&'a T>)
        requires old(self).ok()
        ensures
            final(self).ok(), final(self).s == old(self).s, final(self).j == old(self).j,
            old(self).rest().len() == 0 ==> r is None && final(self).i == old(self).i && final(self).rest() == old(self).rest(),
            old(self).rest().len() > 0 ==> r is Some && *r->0 == old(self).rest()[0] && final(self).i == old(self).i + 1
                && final(self).rest() == old(self).rest().subrange(1, old(self).rest().len() as int),
    {
        let ghost o = *self;
        if self.i < self.j {
            let k = self.i; self.i = k + 1;
            proof { assert(self.rest() =~= o.rest().subrange(1, o.rest().len() as int)); }
            Some(&self.s[k])
        } else { None }
    }
    pub fn next_back(&mut self) -> (r: Option<&'a T>)
        requires old(self).ok()
        ensures
            final(self).ok(), final(self).s == old(self).s, final(self).i == old(self).i,
            old(self).rest().len() == 0 ==> r is None && final(self).j == old(self).j && final(self).rest() == old(self).rest(),
            old(self).rest().len() > 0 ==> r is Some && *r->0 == old(self).rest().last() && final(self).j == old(self).j - 1
                && final(self).rest() == old(self).rest().drop_last(),
    {
        let ghost o = *self;
        if self.i < self.j {
            self.j = self.j - 1;
            proof { assert(self.rest() =~= o.rest().drop_last()); }
            Some(&self.s[self.j])
        } else { None }
    }
    pub fn len(&self) -> (r: usize)
        requires self.ok()
        ensures r == self.rest().len()
    { self.j - self.i }
}

/// str::bytes().enumerate().skip(n)
pub struct ByteEnum<'a> { pub s: &'a [u8], pub i: usize }

impl<'a> ByteEnum<'a> {
    pub fn new(s: &'a str, n: usize) -> (r: ByteEnum<'a>)
        ensures r.s@ == encode_utf8(s@), r.i == if n <= r.s@.len() { n as int } else { r.s@.len() as int }
    {
        let b = s.as_bytes();
        ByteEnum { s: b, i: if n <= b.len() { n } else { b.len() } }
    }
    pub fn next(&mut self) -> (r: Option<(usize, u8)>)
        requires old(self).i <= old(self).s@.len()
        ensures
            final(self).s == old(self).s,
            old(self).i < old(self).s@.len() ==> final(self).i == old(self).i + 1 && r == Some((old(self).i, old(self).s@[old(self).i as int])),
            old(self).i == old(self).s@.len() ==> final(self).i == old(self).i && r is None,
    {
        if self.i < self.s.len() { let k = self.i; self.i = k + 1; Some((k, self.s[k])) } else { None }
    }
}

/// Facts about the bytes of a string.
pub proof fn lemma_str(s: Seq<char>)
    ensures valid_utf8(encode_utf8(s)), decode_utf8(encode_utf8(s)) == s
{
    encode_utf8_valid_utf8(s);
    encode_utf8_decode_utf8(s);
}

/// Strings are equal when their bytes are.
pub proof fn lemma_str_inj()
    ensures forall|a: Seq<char>, b: Seq<char>| #![trigger encode_utf8(a), encode_utf8(b)] encode_utf8(a) == encode_utf8(b) ==> a == b
{
    assert forall|a: Seq<char>, b: Seq<char>| #![trigger encode_utf8(a), encode_utf8(b)] encode_utf8(a) == encode_utf8(b) implies a == b by {
        lemma_str(a);
        lemma_str(b);
    }
}

} // verus!
