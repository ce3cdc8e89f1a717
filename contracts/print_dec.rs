use vstd::prelude::*;
use crate::spec::*;
use crate::text::*;
use crate::wr as io;
use crate::wr::*;
verus! {

// The scratch buffer that the code fills through a raw pointer, with the
// accesses it makes; every access has its bounds as a precondition.
pub struct Scratch { b: Vec<Option<u8>> }

impl View for Scratch {
    type V = Seq<Option<u8>>;
    closed spec fn view(&self) -> Seq<Option<u8>> { self.b@ }
}

impl Scratch {
    #[verifier::external_body]
    fn uninit(n: usize) -> (r: Scratch)
        ensures r@ == Seq::new(n as nat, |i: int| None::<u8>)
    { unimplemented!() }

    fn as_scratch(&mut self) -> (r: &mut Scratch)
        ensures *r == *old(self), *final(r) == *final(self)
    { self }
}

#[verifier::external_body]
fn raw_copy(src: &[u8], from: isize, dst: &mut Scratch, at: isize, n: usize)
    requires 0 <= from, from + n <= src@.len(), 0 <= at, at + n <= old(dst)@.len()
    ensures
        final(dst)@.len() == old(dst)@.len(),
        forall|i: int| 0 <= i < old(dst)@.len() ==> #[trigger] final(dst)@[i] ==
            if at <= i < at + n { Some(src@[from + (i - at)]) } else { old(dst)@[i] }
{ unimplemented!() }

#[verifier::external_body]
fn raw_poke(dst: &mut Scratch, at: isize, v: u8)
    requires 0 <= at < old(dst)@.len()
    ensures final(dst)@ == old(dst)@.update(at as int, Some(v))
{ unimplemented!() }

#[verifier::external_body]
fn raw_slice(src: &Scratch, at: isize, n: usize) -> (r: &[u8])
    requires 0 <= at, at + n <= src@.len(), forall|i: int| at <= i < at + n ==> #[trigger] src@[i] is Some
    ensures r@ == Seq::new(n as nat, |i: int| src@[at + i]->0)
{ unimplemented!() }

#[verifier::external_body]
fn raw_peek(src: &Scratch, at: isize) -> (r: u8)
    requires 0 <= at < src@.len(), src@[at as int] is Some
    ensures r == src@[at as int]->0
{ unimplemented!() }

/// The bytes from i to j are written.
pub open spec fn filled(b: Seq<Option<u8>>, i: int, j: int) -> bool {
    0 <= i <= j <= b.len() && forall|k: int| i <= k < j ==> #[trigger] b[k] is Some
}

/// The bytes from i to j.
pub open spec fn seg(b: Seq<Option<u8>>, i: int, j: int) -> Seq<u8> {
    Seq::new((j - i) as nat, |k: int| b[i + k]->0)
}

// The same with the effect on the written part.
fn copy_bytes(src: &[u8], from: isize, dst: &mut Scratch, at: isize, n: usize)
    requires 0 <= from, from + n <= src@.len(), 0 <= at, at + n <= old(dst)@.len()
    ensures
        final(dst)@.len() == old(dst)@.len(),
        filled(final(dst)@, at as int, at + n),
        seg(final(dst)@, at as int, at + n) == src@.subrange(from as int, from + n),
        // what follows stays
        forall|j: int| #![trigger tail(final(dst)@, j)] #![trigger full(final(dst)@, j)] at + n <= j && full(old(dst)@, j) ==>
            full(final(dst)@, j) && tail(final(dst)@, j) == tail(old(dst)@, j),
        // what was written in front stays
        full(old(dst)@, at + n) ==> full(final(dst)@, at as int)
            && tail(final(dst)@, at as int) == src@.subrange(from as int, from + n) + tail(old(dst)@, at + n),
        full(old(dst)@, at + n) ==> forall|j: int| #![trigger tail(final(dst)@, j)] #![trigger full(final(dst)@, j)] j < at && filled(old(dst)@, j, at as int) ==>
            full(final(dst)@, j) && tail(final(dst)@, j) == seg(old(dst)@, j, at as int) + tail(final(dst)@, at as int),
{
    raw_copy(src, from, dst, at, n);
    proof {
        assert(seg(dst@, at as int, at + n) =~= src@.subrange(from as int, from + n));
        assert forall|j: int| at + n <= j && full(old(dst)@, j) implies full(dst@, j) && #[trigger] tail(dst@, j) == tail(old(dst)@, j) by {
            assert(tail(dst@, j) =~= tail(old(dst)@, j));
        }
        if full(old(dst)@, at + n) {
            assert(tail(dst@, at as int) =~= src@.subrange(from as int, from + n) + tail(old(dst)@, at + n));
            assert forall|j: int| j < at && filled(old(dst)@, j, at as int) implies
                full(dst@, j) && #[trigger] tail(dst@, j) == seg(old(dst)@, j, at as int) + tail(dst@, at as int) by {
                assert(tail(dst@, j) =~= seg(old(dst)@, j, at as int) + tail(dst@, at as int));
            }
        }
    }
}

fn poke(dst: &mut Scratch, at: isize, v: u8)
    requires 0 <= at < old(dst)@.len()
    ensures
        final(dst)@.len() == old(dst)@.len(),
        full(old(dst)@, at + 1) ==> full(final(dst)@, at as int) && tail(final(dst)@, at as int) == seq![v] + tail(old(dst)@, at + 1),
        forall|j: int| #![trigger tail(final(dst)@, j)] #![trigger full(final(dst)@, j)] j <= at && full(old(dst)@, j) ==>
            full(final(dst)@, j) && tail(final(dst)@, j) == tail(old(dst)@, j).update(at - j, v),
{
    raw_poke(dst, at, v);
    proof {
        if full(old(dst)@, at + 1) {
            assert(tail(dst@, at as int) =~= seq![v] + tail(old(dst)@, at + 1));
        }
        assert forall|j: int| #![trigger tail(dst@, j)] j <= at && full(old(dst)@, j) implies
            full(dst@, j) && tail(dst@, j) == tail(old(dst)@, j).update(at - j, v) by {
            assert(tail(dst@, j) =~= tail(old(dst)@, j).update(at - j, v));
        }
    }
}

fn peek(src: &Scratch, at: isize) -> (r: u8)
    requires 0 <= at < src@.len(), full(src@, at as int)
    ensures r == tail(src@, at as int)[0]
{ raw_peek(src, at) }

fn bytes_of(src: &Scratch, at: isize, n: usize) -> (r: &[u8])
    requires 0 <= at, at + n <= src@.len(), full(src@, at as int)
    ensures r@ == tail(src@, at as int).subrange(0, n as int), at + n == src@.len() ==> r@ == tail(src@, at as int)
{
    let r = raw_slice(src, at, n);
    proof {
        assert(r@ =~= tail(src@, at as int).subrange(0, n as int));
        if at + n == src@.len() { assert(r@ =~= tail(src@, at as int)); }
    }
    r
}

/// The two digits of a number below 100.
pub open spec fn two(d: int) -> Seq<u8> { seq![(48 + d / 10) as u8, (48 + d % 10) as u8] }

/// Everything from i on is written.
pub open spec fn full(b: Seq<Option<u8>>, i: int) -> bool {
    0 <= i <= b.len() && forall|k: int| i <= k < b.len() ==> #[trigger] b[k] is Some
}

/// The bytes from i on.
pub open spec fn tail(b: Seq<Option<u8>>, i: int) -> Seq<u8> {
    Seq::new((b.len() - i) as nat, |k: int| b[i + k]->0)
}

pub open spec fn lut_ok(s: Seq<u8>) -> bool {
    s.len() == 200 && forall|i: int| 0 <= i < 200 ==> #[trigger] s[i] == if i % 2 == 0 { 48 + i / 2 / 10 } else { 48 + i / 2 % 10 }
}

@@rules
ptr::copy_nonoverlapping($l.offset($a), $b.offset($c), $n) =>> copy_bytes($l, $a, $b, $c, $n)
*$b_id.offset($x) = $v; =>> { let v_ = $v; poke($b_id, $x, v_); }
*$b_id.offset($x) =>> peek($b_id, $x)
slice::from_raw_parts($b_id.offset($x), $n) =>> bytes_of($b_id, $x, $n)
mem::MaybeUninit::<[u8; $n]>::uninit() =>> Scratch::uninit($n)
$b_id.as_mut_ptr() as *mut u8 =>> $b_id.as_scratch()
DEC_DIGITS_LUT.as_ptr() =>> DEC_DIGITS_LUT
sig: *mut u8 =>> &mut Scratch
sig: *const u8 =>> &[u8]
for _ in =>> for _k in
@@endrules

@@item util/print_dec.rs | const DEC_DIGITS_LUT | | ensures lut_ok(DEC_DIGITS_LUT@)
@@item util/print_dec.rs | const ZEROFILL | | ensures ZEROFILL@ =~= zeros(20)
    @rw [b'0'; 20] =>> [b'0', b'0', b'0', b'0', b'0', b'0', b'0', b'0', b'0', b'0', b'0', b'0', b'0', b'0', b'0', b'0', b'0', b'0', b'0', b'0']

proof fn lemma_bits()
    ensures
        forall|x: isize| #![trigger x << 1i32] 0 <= x < 1000 ==> x << 1i32 == 2 * x,
        forall|x: u64| #![trigger x << 1i32] x < 1000 ==> x << 1i32 == 2 * x,
        forall|x: u16| #![trigger x >> 2i32] x >> 2i32 == x / 4,
        forall|x: u16| #![trigger x & 3] x & 3 == x % 4,
        forall|x: u16| #![trigger x & 2] x < 4 ==> ((x & 2) == 2 <==> x >= 2),
        forall|x: u16| #![trigger x & 1] x & 1 == x % 2,
{
    assert forall|x: isize| #![trigger x << 1i32] 0 <= x < 1000 implies x << 1i32 == 2 * x by { assert(0 <= x < 1000 ==> x << 1i32 == 2 * x) by (bit_vector); }
    assert forall|x: u64| #![trigger x << 1i32] x < 1000 implies x << 1i32 == 2 * x by { assert(x < 1000 ==> x << 1i32 == 2 * x) by (bit_vector); }
    assert forall|x: u16| #![trigger x >> 2i32] x >> 2i32 == x / 4 by { assert(x >> 2i32 == x / 4) by (bit_vector); }
    assert forall|x: u16| #![trigger x & 3] x & 3 == x % 4 by { assert(x & 3 == x % 4) by (bit_vector); }
    assert forall|x: u16| #![trigger x & 2] x < 4 implies ((x & 2) == 2 <==> x >= 2) by { assert(x < 4 ==> ((x & 2) == 2 <==> x >= 2)) by (bit_vector); }
    assert forall|x: u16| #![trigger x & 1] x & 1 == x % 2 by { assert(x & 1 == x % 2) by (bit_vector); }
}

proof fn lemma_lut(s: Seq<u8>)
    requires lut_ok(s)
    ensures s.len() == 200, forall|a: int, b: int| #![trigger s.subrange(a, b)] 0 <= a < 200 && a % 2 == 0 && b == a + 2 ==> s.subrange(a, b) == two(a / 2)
{
    assert forall|a: int, b: int| #![trigger s.subrange(a, b)] 0 <= a < 200 && a % 2 == 0 && b == a + 2 implies s.subrange(a, b) == two(a / 2) by {
        assert(s.subrange(a, b) =~= two(a / 2));
    }
}

proof fn lemma_full_facts()
    ensures
        forall|b: Seq<Option<u8>>, i: int| #![trigger full(b, i)] full(b, i) ==> 0 <= i <= b.len(),
        forall|b: Seq<Option<u8>>, i: int| #![trigger full(b, i)] i == b.len() ==> full(b, i),
        forall|b: Seq<Option<u8>>, i: int| #![trigger tail(b, i)] i == b.len() ==> tail(b, i) == Seq::<u8>::empty(),
        forall|b: Seq<Option<u8>>, i: int| #![trigger tail(b, i)] i <= b.len() ==> tail(b, i).len() == b.len() - i,
{
    assert forall|b: Seq<Option<u8>>, i: int| #![trigger tail(b, i)] i == b.len() implies tail(b, i) == Seq::<u8>::empty() by {
        assert(tail(b, i) =~= Seq::<u8>::empty());
    }
}

proof fn lemma_lut_facts()
    ensures forall|s: Seq<u8>, a: int, b: int| #![trigger lut_ok(s), s.subrange(a, b)] lut_ok(s) && 0 <= a < 200 && a % 2 == 0 && b == a + 2 ==> s.subrange(a, b) == two(a / 2),
        forall|s: Seq<u8>| #![trigger lut_ok(s)] lut_ok(s) ==> s.len() == 200,
{
    assert forall|s: Seq<u8>, a: int, b: int| #![trigger lut_ok(s), s.subrange(a, b)] lut_ok(s) && 0 <= a < 200 && a % 2 == 0 && b == a + 2 implies s.subrange(a, b) == two(a / 2) by {
        lemma_lut(s);
    }
}

proof fn lemma_pow10_ten()
    ensures forall|a: nat| #![trigger pow10(a)] a >= 1 ==> pow10(a) >= 10
{
    assert forall|a: nat| #![trigger pow10(a)] a >= 1 implies pow10(a) >= 10 by { lemma_pow10_mono(1, a); lemma_pow10_20(1); }
}

proof fn lemma_pad2(n: nat)
    ensures pad(n, 2) == two(n as int % 100)
{
    reveal_with_fuel(pad, 3);
    assert(n / 10 % 10 == n % 100 / 10);
    assert(n % 10 == n % 100 % 10);
    assert(pad(n, 2) =~= two(n as int % 100));
}

proof fn lemma_four(n: int)
    requires n >= 0
    ensures
        n % 10000 / 100 == n / 100 % 100,
        n % 10000 % 100 == n % 100,
        0 <= n % 10000 / 100 < 100,
        0 <= n % 10000 % 100 < 100,
{
    let q = n / 10000;
    let r = n % 10000;
    assert(n == 10000 * q + r);
    assert(n / 100 == 100 * q + r / 100);
    assert(n % 100 == r % 100);
}

proof fn lemma_pad4(n: nat)
    ensures
        pad(n, 4) == two(n as int % 10000 / 100) + two(n as int % 10000 % 100),
        0 <= n as int % 10000 / 100 < 100,
        0 <= n as int % 10000 % 100 < 100,
{
    lemma_pad2(n);
    lemma_pad2(n / 100);
    lemma_pad_cat(n, 2, 2);
    lemma_pow10_20(2);
    lemma_four(n as int);
}

/// Digit groups as the code splits them.
proof fn lemma_groups(n: nat)
    ensures
        n >= 10000 ==> dig(n) == dig(n / 10000) + (two(n as int % 10000 / 100) + two(n as int % 10000 % 100)),
        n >= 100 ==> dig(n) == dig(n / 100) + two(n as int % 100),
        n >= 10 ==> dig(n) == dig(n / 10) + seq![(48 + n % 10) as u8],
        10 <= n < 100 ==> dig(n) == two(n as int),
        n < 10 ==> dig(n) == seq![(48 + n) as u8],
        dig(n).len() >= 1,
{
    lemma_pow10_20(2); lemma_pow10_20(4);
    lemma_pad2(n);
    lemma_pad4(n);
    if n >= 10000 { lemma_dig_cat(n, 4); }
    if n >= 100 { lemma_dig_cat(n, 2); }
    if 10 <= n < 100 {
        reveal_with_fuel(dig, 3);
        assert(dig(n) =~= two(n as int));
    }
    if n >= 10 { assert(dig(n) =~= dig(n / 10) + seq![(48 + n % 10) as u8]); }
    lemma_dig(n);
}

@@fn util/print_dec.rs | - | write_num
    @spec
        requires
            lut_ok(lut_ptr@),
            full(old(buf_ptr)@, *old(curr) as int),
            old(buf_ptr)@.len() <= 1000,
            *old(curr) >= 1,
            // room for the digits
            (*old(n) as nat) < pow10(*old(curr) as nat),
        ensures
            0 <= *final(curr) < *old(curr),
            final(buf_ptr)@.len() == old(buf_ptr)@.len(),
            full(final(buf_ptr)@, *final(curr) as int),
            tail(final(buf_ptr)@, *final(curr) as int) =~= dig(*old(n) as nat) + tail(old(buf_ptr)@, *old(curr) as int),
    @entry
        proof {
            lemma_bits();
            lemma_lut(lut_ptr@);
            lemma_dig_len(*n as nat, *curr as nat);
        }
    @loop 1
        invariant
            lut_ok(lut_ptr@),
            buf_ptr@.len() == old(buf_ptr)@.len(),
            buf_ptr@.len() <= 1000,
            dig(*old(n) as nat).len() <= *old(curr),
            *curr - dig(*n as nat).len() == *old(curr) - dig(*old(n) as nat).len(),
            full(buf_ptr@, *curr as int),
            dig(*n as nat) + tail(buf_ptr@, *curr as int) =~= dig(*old(n) as nat) + tail(old(buf_ptr)@, *old(curr) as int),
        decreases *n
    @loopstart 1
        proof { lemma_groups(*n as nat); lemma_bits(); lemma_lut(lut_ptr@); }
    @loopafter 1
        proof { lemma_groups(*n as nat); lemma_groups(*n as nat / 100); }
@@end


@@fn util/print_dec.rs | - | safe_abs
    @ret r
    @spec
        ensures r as int == if x >= 0 { x as int } else { -(x as int) }
@@end

proof fn lemma_cut(n: nat, k: nat)
    requires n < pow10(20)
    ensures
        pad(n, k).len() == k,
        cut(n, k) <= n,
        k == 0 ==> pad(n, k) =~= Seq::empty() && cut(n, k) == n,
        forall|c: nat| #![trigger pow10(c)] c + k >= 20 ==> cut(n, k) < pow10(c),
{
    lemma_pow10_pos(k);
    lemma_pow10_20(0);
    if k == 0 { assert(pow10(k) == 1); assert(n / 1 == n); assert(pad(n, k) =~= Seq::empty()); }
    let q = n / pow10(k);
    let p = pow10(k) as int;
    lemma_pad(n, k);
    assert(n as int / p <= n) by (nonlinear_arith) requires p >= 1, n >= 0;
    assert forall|c: nat| #![trigger pow10(c)] c + k >= 20 implies cut(n, k) < pow10(c) by {
        lemma_pow10_add(c, k);
        lemma_pow10_mono(20, c + k);
        let t = pow10(c) as int;
        assert(n as int / p < t) by (nonlinear_arith) requires n < t * p, p >= 1, n >= 0;
    }
}

proof fn lemma_cut1(n: nat, k: nat)
    requires n < pow10(20)
    ensures
        pad(n, k + 1) == seq![(48 + cut(n, k) % 10) as u8] + pad(n, k),
        cut(n, k) / 10 == cut(n, k + 1),
{
    let q = n / pow10(k);
    lemma_pow10_pos(k);
    lemma_pow10_20(1);
    lemma_pad_cat(n, 1, k);
    lemma_pow10_add(k, 1);
    vstd::arithmetic::div_mod::lemma_div_denominator(n as int, pow10(k) as int, 10);
    assert(1 + k == k + 1);
    assert(pad(q, 1) =~= seq![(48 + q % 10) as u8]) by { reveal_with_fuel(pad, 2); }
}

proof fn lemma_cut2(n: nat, k: nat)
    requires n < pow10(20)
    ensures
        pad(n, k + 2) == two(cut(n, k) as int % 100) + pad(n, k),
        cut(n, k) / 100 == cut(n, k + 2),
{
    let q = n / pow10(k);
    lemma_pow10_pos(k);
    lemma_pow10_20(2);
    lemma_pad_cat(n, 2, k);
    lemma_pow10_add(k, 2);
    vstd::arithmetic::div_mod::lemma_div_denominator(n as int, pow10(k) as int, 100);
    assert(2 + k == k + 2);
    lemma_pad2(q);
}

proof fn lemma_cut4(n: nat, k: nat)
    requires n < pow10(20)
    ensures
        pad(n, k + 4) == two(cut(n, k) as int % 10000 / 100) + (two(cut(n, k) as int % 10000 % 100) + pad(n, k)),
        cut(n, k) / 10000 == cut(n, k + 4),
{
    let q = n / pow10(k);
    lemma_pow10_pos(k);
    lemma_pow10_20(4);
    lemma_pad_cat(n, 4, k);
    lemma_pow10_add(k, 4);
    vstd::arithmetic::div_mod::lemma_div_denominator(n as int, pow10(k) as int, 10000);
    assert(4 + k == k + 4);
    lemma_pad4(q);
    assert(pad(n, k + 4) =~= two(q as int % 10000 / 100) + (two(q as int % 10000 % 100) + pad(n, k)));
}

@@fn util/print_dec.rs | - | write
    @vis pub
    @ret r
    @attr #[verifier::rlimit(160)] #[verifier::spinoff_prover]
    @split exponent == 0
    @split exponent < 0 && exponent > -18
    @split exponent < 0 && n < 10
    @split exponent < 0 && positive
    @split exponent < 0
    @spec
        ensures io::wrote(r, old(wr).out(), final(wr).out(), num_text(positive, n as nat, exponent as int)), final(wr).sure() == old(wr).sure(), r is Err ==> !old(wr).sure()
        decreases (if exponent == 0 { 0int } else { 1int }), {rank}int
    @entry
        hide(dig); hide(pad); hide(pow10); hide(lut_ok); hide(full); hide(tail); hide(seg); hide(filled); hide(cut);
        let ghost n0 = n as nat;
        let ghost s = dig(n0);
        proof {
            lemma_pow10_20(20); lemma_pow10_20(0);
            lemma_bits();
            lemma_lut_facts();
            lemma_full_facts();
            lemma_pow10_ten();
            /*C36*/ io::lemma_concat(); /*E*/
            lemma_dig(n0);
            lemma_dig_len(n0, 20);
            lemma_cut(n0, 0);
        }
    @loop 1
        invariant
            n0 < pow10(20),
            lut_ok(lut_ptr@),
            e < 18,
            buf_ptr@.len() == 30,
            curr == 30 - 4 * _k,
            full(buf_ptr@, curr as int),
            tail(buf_ptr@, curr as int) == pad(n0, (30 - curr) as nat),
            n == cut(n0, (30 - curr) as nat),
    @loopstart 1
        proof { lemma_cut4(n0, (30 - curr) as nat); lemma_bits(); lemma_lut_facts(); lemma_groups(n as nat); }
    @loopafter 1
        proof {
            let k = (30 - curr) as nat;
            lemma_cut2(n0, k); lemma_cut1(n0, k); lemma_cut1(n0, k + 2);
            lemma_cut(n0, (-exponent) as nat);
        }
    @before#1 write_num(&mut n, &mut curr, buf_ptr, lut_ptr);
        /*C23456*/ proof { assert(false); } /*E*/
    @before let mut e = safe_abs(exponent);
        /*C16*/ proof { assert(false); } /*E*/
    @before let mut exponent_positive = false;
        /*C2*/ proof { assert(false); } /*E*/
    @loopbefore 2
        /*C3*/ proof { assert(false); } /*E*/
    @loopbefore 1
        /*C345*/ proof { assert(false); } /*E*/
    @before#4 write_num(&mut n, &mut curr, buf_ptr, lut_ptr);
        /*C12345*/ proof { assert(false); } /*E*/
    @before#2 write_num(&mut n, &mut curr, buf_ptr, lut_ptr);
        /*C2*/ proof {
            assert(tail(buf_ptr@, curr as int) =~= seq![46u8] + pad(n0, (-exponent) as nat));
            assert(n == cut(n0, (-exponent) as nat));
            assert(n < pow10(curr as nat));
        } /*E*/
    @before#3 write_num(&mut n, &mut curr, buf_ptr, lut_ptr);
        /*C45*/ proof {
            lemma_groups(n as nat);
            assert(dig(n as nat) =~= s.subrange(0, 1));
            assert(tail(buf_ptr@, curr as int) =~= seq![46u8] + s.subrange(1, s.len() as int));
        } /*E*/
    @after#3 write_num(&mut n, &mut curr, buf_ptr, lut_ptr);
        /*C45*/ proof { assert(tail(buf_ptr@, curr as int) =~= dotted(s)); } /*E*/
    @after#4 write_num(&mut n, &mut curr, buf_ptr, lut_ptr);
        /*C6*/ proof { assert(tail(buf_ptr@, curr as int) =~= s); } /*E*/
    @before write(wr, true, e, 0)
        /*C6*/ proof {
            let sg = if positive { Seq::<u8>::empty() } else { seq![45u8] };
            assert(num_text(true, e as nat, 0) == dig(e as nat));
            assert(num_text(positive, n0, exponent as int) == sg + (dotted(s) + (seq![101u8] + dig(e as nat))));
            assert(wr.out() == old(wr).out() + (sg + (dotted(s) + seq![101u8])));
        } /*E*/
    @before if e == 0 {
        /*C345*/ proof {
            let sg = if positive { Seq::<u8>::empty() } else { seq![45u8] };
            let top = exponent + s.len() - 1;
            assert(exponent_positive == (top > 0));
            assert(e == if top > 0 { top } else { -top });
            assert(num_text(positive, n0, exponent as int) == sg + (dotted(s) + exp_text(top)));
            assert(wr.out() == old(wr).out() + (sg + dotted(s)));
        } /*E*/
    @before write(wr, true, e as u64, 0)
        /*C345*/ proof {
            let sg = if positive { Seq::<u8>::empty() } else { seq![45u8] };
            let mk = if exponent_positive { seq![101u8, 43u8] } else { seq![101u8, 45u8] };
            assert(num_text(true, e as nat, 0) == dig(e as nat));
            assert(exp_text(exponent + s.len() - 1) == mk + dig(e as nat));
            assert(wr.out() == old(wr).out() + (sg + (dotted(s) + mk)));
        } /*E*/
    @before wr.write_all(b"e")
        /*C6*/ proof { assert(tail(buf_ptr@, curr as int) =~= dotted(s)); } /*E*/
    @loop 2
        invariant
            lut_ok(lut_ptr@),
            buf_ptr@.len() == 30,
            full(buf_ptr@, curr as int),
            10 <= n,
            s.len() <= 20,
            curr - dig(n as nat).len() == 30 - s.len(),
            dig(n as nat) + tail(buf_ptr@, curr as int) =~= s,
        decreases n
    @loopstart 2
        proof { lemma_full_facts(); lemma_bits(); lemma_lut_facts(); lemma_groups(n as nat); }
    @loopafter 2
        proof { lemma_groups(n as nat); lemma_groups(n as nat / 100); }
@@end

} // verus!
