// Decimal text: digits, number literals and the exact text of a printed number.
use vstd::prelude::*;
use crate::spec::*;
verus! {

/// The last k decimal digits of n, with leading zeros.
pub open spec fn pad(n: nat, k: nat) -> Seq<u8>
    decreases k
{
    if k == 0 { Seq::empty() } else { pad(n / 10, (k - 1) as nat).push((48 + n % 10) as u8) }
}

/// The shortest decimal text of n.
pub open spec fn dig(n: nat) -> Seq<u8>
    decreases n
{
    if n < 10 { seq![(48 + n) as u8] } else { dig(n / 10).push((48 + n % 10) as u8) }
}

/// The number that a text of digits denotes.
pub open spec fn dval(s: Seq<u8>) -> nat
    decreases s.len()
{
    if s.len() == 0 { 0 } else { 10 * dval(s.drop_last()) + (s.last() - 48) as nat }
}

pub open spec fn digits(s: Seq<u8>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> 48 <= #[trigger] s[i] <= 57
}

/// n without its last k digits.
pub open spec fn cut(n: nat, k: nat) -> nat { n / pow10(k) }

pub proof fn lemma_pad(n: nat, k: nat)
    ensures
        pad(n, k).len() == k,
        digits(pad(n, k)),
        dval(pad(n, k)) == n % pow10(k),
    decreases k
{
    lemma_pow10_pos(k);
    if k > 0 {
        let j = (k - 1) as nat;
        lemma_pad(n / 10, j);
        lemma_pow10_pos(j);
        let s = pad(n, k);
        assert(s.drop_last() =~= pad(n / 10, j));
        let p = pow10(j) as int;
        vstd::arithmetic::div_mod::lemma_breakdown(n as int, 10, p);
    } else {
        assert(n % 1 == 0);
    }
}

pub proof fn lemma_pad_cat(n: nat, a: nat, b: nat)
    ensures pad(n, a + b) == pad(n / pow10(b), a) + pad(n, b)
    decreases b
{
    if b > 0 {
        let c = (b - 1) as nat;
        lemma_pad_cat(n / 10, a, c);
        lemma_pow10_pos(c);
        vstd::arithmetic::div_mod::lemma_div_denominator(n as int, 10, pow10(c) as int);
        assert((a + b - 1) as nat == a + c);
        assert(pad(n, a + b) =~= pad(n / pow10(b), a) + pad(n, b));
    } else {
        assert(n / 1 == n);
        assert(pad(n, a + b) =~= pad(n / pow10(b), a) + pad(n, b));
    }
}

pub proof fn lemma_dig_cat(n: nat, k: nat)
    requires n >= pow10(k)
    ensures dig(n) == dig(n / pow10(k)) + pad(n, k)
    decreases k
{
    if k > 0 {
        let j = (k - 1) as nat;
        lemma_pow10_pos(j);
        let p = pow10(j) as int;
        assert(n / 10 >= pow10(j)) by (nonlinear_arith) requires n >= 10 * p, p == pow10(j);
        lemma_dig_cat(n / 10, j);
        vstd::arithmetic::div_mod::lemma_div_denominator(n as int, 10, p);
        assert(dig(n) =~= dig(n / pow10(k)) + pad(n, k));
    } else {
        assert(n / 1 == n);
        assert(dig(n) =~= dig(n) + pad(n, 0));
    }
}

pub proof fn lemma_dig(n: nat)
    ensures
        dig(n).len() >= 1,
        digits(dig(n)),
        dval(dig(n)) == n,
        n > 0 ==> dig(n)[0] != 48,
        n == 0 ==> dig(n) == seq![48u8],
        n > 0 ==> pow10((dig(n).len() - 1) as nat) <= n,
        n < pow10(dig(n).len()),
    decreases n
{
    reveal_with_fuel(pow10, 3);
    if n >= 10 {
        lemma_dig(n / 10);
        let s = dig(n);
        assert(s.drop_last() =~= dig(n / 10));
        let l = dig(n / 10).len();
        assert(pow10(l) == 10 * pow10((l - 1) as nat));
        assert(pow10(l + 1) == 10 * pow10(l));
    } else {
        let s = dig(n);
        assert(s.drop_last() =~= Seq::empty());
        assert(dval(s) == n) by { reveal_with_fuel(dval, 2); }
    }
}

pub proof fn lemma_dig_len(n: nat, k: nat)
    requires n < pow10(k), k >= 1
    ensures dig(n).len() <= k
{
    lemma_dig(n);
    if dig(n).len() > k {
        if n > 0 { lemma_pow10_mono(k, (dig(n).len() - 1) as nat); } else { }
    }
}

pub proof fn lemma_dval_cat(a: Seq<u8>, b: Seq<u8>)
    requires digits(a), digits(b)
    ensures dval(a + b) == dval(a) * pow10(b.len()) + dval(b)
    decreases b.len()
{
    if b.len() > 0 {
        let c = b.drop_last();
        lemma_dval_cat(a, c);
        assert((a + b).drop_last() =~= a + c);
        assert((a + b).last() == b.last());
        let x = dval(a) as int;
        let p = pow10(c.len()) as int;
        assert(x * (10 * p) == 10 * (x * p)) by (nonlinear_arith);
    } else {
        assert(a + b =~= a);
        assert(dval(a) * 1 == dval(a)) by (nonlinear_arith);
    }
}

pub proof fn lemma_dval_zeros(s: Seq<u8>)
    requires forall|i: int| 0 <= i < s.len() ==> s[i] == 48
    ensures dval(s) == 0
    decreases s.len()
{
    if s.len() > 0 { lemma_dval_zeros(s.drop_last()); }
}

// ------------------------------------------------------------ number literals of JSON

pub struct NumLit {
    pub neg: bool,
    pub int: Seq<u8>,
    /// digits after the dot, if there is one
    pub frac: Option<Seq<u8>>,
    /// marker (e or E, and sign if any) and digits of the exponent
    pub exp: Option<(Seq<u8>, Seq<u8>)>,
}

pub open spec fn exp_marker(s: Seq<u8>) -> bool {
    &&& 1 <= s.len() <= 2
    &&& s[0] == 101 || s[0] == 69
    &&& s.len() == 2 ==> s[1] == 43 || s[1] == 45
}

/// The JSON grammar of numbers.
pub open spec fn lit_ok(l: NumLit) -> bool {
    &&& l.int.len() >= 1 && digits(l.int) && (l.int[0] == 48 ==> l.int.len() == 1)
    &&& l.frac is Some ==> l.frac->0.len() >= 1 && digits(l.frac->0)
    &&& l.exp is Some ==> exp_marker((l.exp->0).0) && (l.exp->0).1.len() >= 1 && digits((l.exp->0).1)
}

pub open spec fn frac_digits(l: NumLit) -> Seq<u8> { if l.frac is Some { l.frac->0 } else { Seq::empty() } }

pub open spec fn lit_text(l: NumLit) -> Seq<u8> {
    (if l.neg { seq![45u8] } else { Seq::empty() })
    + l.int
    + (if l.frac is Some { seq![46u8] + l.frac->0 } else { Seq::empty() })
    + (if l.exp is Some { (l.exp->0).0 + (l.exp->0).1 } else { Seq::empty() })
}

/// The exponent as written.
pub open spec fn lit_exp(l: NumLit) -> int {
    match l.exp {
        None => 0,
        Some((m, d)) => if m.len() == 2 && m[1] == 45 { -(dval(d) as int) } else { dval(d) as int },
    }
}

/// The exact value of the literal.
pub open spec fn lit_value(l: NumLit) -> NumV {
    NumV { nan: false, pos: !l.neg, m: dval(l.int + frac_digits(l)), e: lit_exp(l) - frac_digits(l).len() }
}

// ------------------------------------------------------------ the text of a printed number

pub open spec fn zeros(k: nat) -> Seq<u8> { Seq::new(k, |i: int| 48u8) }

/// d0.d1d2... of the digits s
pub open spec fn dotted(s: Seq<u8>) -> Seq<u8> {
    if s.len() == 1 { s } else { s.subrange(0, 1) + seq![46u8] + s.subrange(1, s.len() as int) }
}

pub open spec fn exp_text(x: int) -> Seq<u8> {
    if x == 0 { Seq::empty() }
    else if x < 0 { seq![101u8, 45u8] + dig((-x) as nat) }
    else { seq![101u8, 43u8] + dig(x as nat) }
}

pub open spec fn mag_text(m: nat, e: int) -> Seq<u8> {
    let s = dig(m);
    if m == 0 { seq![48u8] }
    else if e == 0 { s }
    else if -18 < e < 0 { dig(cut(m, (-e) as nat)) + seq![46u8] + pad(m, (-e) as nat) }
    else if e < 0 { dotted(s) + exp_text(e + s.len() - 1) }
    else if s.len() + e <= 20 { s + zeros(e as nat) }
    else { dotted(s) + seq![101u8] + dig((e + s.len() - 1) as nat) }
}

pub open spec fn num_text(pos: bool, m: nat, e: int) -> Seq<u8> {
    (if pos { Seq::empty() } else { seq![45u8] }) + mag_text(m, e)
}

/// The literal behind `num_text`.
pub open spec fn num_lit(pos: bool, m: nat, e: int) -> NumLit {
    let s = dig(m);
    let one = s.len() == 1;
    let top = e + s.len() - 1;
    let head = if one { s } else { s.subrange(0, 1) };
    let tail = if one { None } else { Some(s.subrange(1, s.len() as int)) };
    if m == 0 { NumLit { neg: !pos, int: seq![48u8], frac: None, exp: None } }
    else if e == 0 { NumLit { neg: !pos, int: s, frac: None, exp: None } }
    else if -18 < e < 0 {
        NumLit { neg: !pos, int: dig(cut(m, (-e) as nat)), frac: Some(pad(m, (-e) as nat)), exp: None }
    }
    else if e < 0 {
        NumLit { neg: !pos, int: head, frac: tail,
            exp: if top == 0 { None } else if top < 0 { Some((seq![101u8, 45u8], dig((-top) as nat))) } else { Some((seq![101u8, 43u8], dig(top as nat))) } }
    }
    else if s.len() + e <= 20 { NumLit { neg: !pos, int: s + zeros(e as nat), frac: None, exp: None } }
    else { NumLit { neg: !pos, int: head, frac: tail, exp: Some((seq![101u8], dig(top as nat))) } }
}

/// C07: the text of a number is a JSON number literal that denotes exactly that number, sign included.
#[verifier::rlimit(60)]
#[verifier::spinoff_prover]
pub proof fn lemma_num_text(pos: bool, m: nat, e: int)
    ensures
        lit_ok(num_lit(pos, m, e)),
        lit_text(num_lit(pos, m, e)) == num_text(pos, m, e),
        same_value(lit_value(num_lit(pos, m, e)), NumV { nan: false, pos: pos, m: m, e: e }),
        lit_value(num_lit(pos, m, e)).pos == pos,
{
    let l = num_lit(pos, m, e);
    let v = NumV { nan: false, pos: pos, m: m, e: e };
    let s = dig(m);
    lemma_dig(m);
    assert(lit_text(l) =~= num_text(pos, m, e));
    if m == 0 {
        assert(dval(seq![48u8]) == 0) by { lemma_dval_zeros(seq![48u8]); }
        assert(l.int + frac_digits(l) =~= seq![48u8]);
    } else if e == 0 {
        assert(l.int + frac_digits(l) =~= s);
        lemma_mag_refl(lit_value(l), v);
    } else if -18 < e < 0 {
        let k = (-e) as nat;
        let q = cut(m, k);
        lemma_dig(q);
        lemma_pad(m, k);
        lemma_dval_cat(dig(q), pad(m, k));
        lemma_pow10_pos(k);
        let p = pow10(k) as int;
        assert(q * p + m as int % p == m) by { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(m as int, p); assert(p * q == q * p) by (nonlinear_arith); }
        lemma_mag_refl(lit_value(l), v);
    } else if e > 0 && s.len() + e <= 20 {
        let z = zeros(e as nat);
        lemma_dval_zeros(z);
        lemma_dval_cat(s, z);
        assert(l.int + frac_digits(l) =~= s + z);
        lemma_same_magnitude_at(lit_value(l), v, 0);
        let p = pow10(e as nat) as int;
        lemma_pow10_pos(e as nat);
        assert((m * p) * 1 == m * p && (m * p == 0 <==> m == 0)) by (nonlinear_arith) requires p >= 1;
        assert((e - 0) as nat == e as nat);
    } else {
        assert(l.int + frac_digits(l) =~= s);
        let top = e + s.len() - 1;
        if top != 0 { lemma_dig(if top < 0 { (-top) as nat } else { top as nat }); }
        lemma_mag_refl(lit_value(l), v);
    }
}

proof fn lemma_mag_refl(a: NumV, b: NumV)
    requires a.m == b.m, a.e == b.e
    ensures same_magnitude(a, b)
{}

} // verus!
