// The text of a value reads back as an equal value.
use vstd::prelude::*;
use vstd::utf8::*;
use crate::spec::*;
use crate::text::*;
use crate::number::*;
use crate::json::*;
use crate::tree::*;
use crate::gram::*;
use crate::reader::*;
use crate::jtext::*;
use crate::numback::*;
use crate::strback::*;
use crate::equal::*;
use crate::codegen::*;
use crate::dump::*;
use crate::parser::*;
verus! {

/// Without NaN, no key twice, and at most n containers that are not empty inside each other.
pub open spec fn good(j: J, n: int) -> bool
    decreases j
{
    match j {
        J::Num(x) => !x.nan(),
        J::Arr(a) => a.len() == 0 || n > 0 && forall|i: int| 0 <= i < a.len() ==> good(#[trigger] a[i], n - 1),
        J::Obj(o) => o.len() == 0 || n > 0 && distinct(o) && forall|i: int| 0 <= i < o.len() ==> good((#[trigger] o[i]).1, n - 1),
        _ => true,
    }
}

/// The same value: numbers of equal value and sign, the same strings, the same keys in the same order.
pub open spec fn back(a: J, b: J) -> bool
    decreases a
{
    match (a, b) {
        (J::Null, J::Null) => true,
        (J::Bool(x), J::Bool(y)) => x == y,
        (J::Num(x), J::Num(y)) => same_value(x.v(), y.v()) && !y.nan() && x.v().pos == y.v().pos,
        (J::Str(x), J::Str(y)) => x == y,
        (J::Arr(x), J::Arr(y)) => x.len() == y.len() && forall|i: int| 0 <= i < x.len() ==> back(#[trigger] x[i], y[i]),
        (J::Obj(x), J::Obj(y)) => x.len() == y.len() && forall|i: int| 0 <= i < x.len() ==> (#[trigger] x[i]).0 == y[i].0 && back(x[i].1, y[i].1),
        _ => false,
    }
}

/// A value can end here.
pub open spec fn stop(s: Seq<u8>, i: int) -> bool { i >= s.len() || s[i] == 44 || s[i] == 93 || s[i] == 125 || s[i] == 10 }

proof fn lemma_skip_to(s: Seq<u8>, i: int, t: Seq<u8>)
    requires has(s, i, t), forall|k: int| 0 <= k < t.len() ==> ws(#[trigger] t[k]), i + t.len() < s.len(), !ws(s[i + t.len()])
    ensures skip(s, i) == i + t.len(), tok(s, i) == Got::Yes(s[i + t.len()], i + t.len() + 1)
    decreases t.len()
{
    lemma_has_at(s, i, t);
    if t.len() > 0 {
        let h = t.take(1);
        let r = t.skip(1);
        assert(h + r =~= t);
        lemma_has_cat(s, i, h, r);
        assert forall|k: int| 0 <= k < r.len() implies ws(#[trigger] r[k]) by { assert(r[k] == t[k + 1]); }
        lemma_skip_to(s, i + 1, r);
        assert(ws(t[0]));
    }
}

proof fn lemma_nl(s: Seq<u8>, i: int, l: St)
    requires has(s, i, nl(l)), i + nl(l).len() < s.len(), !ws(s[i + nl(l).len()])
    ensures skip(s, i) == i + nl(l).len(), tok(s, i) == Got::Yes(s[i + nl(l).len()], i + nl(l).len() + 1)
{
    lemma_skip_to(s, i, nl(l));
}

/// No whitespace here.
proof fn lemma_here(s: Seq<u8>, i: int)
    requires 0 <= i < s.len(), !ws(s[i])
    ensures skip(s, i) == i, tok(s, i) == Got::Yes(s[i], i + 1)
{}

// One step of the reader each.
proof fn lemma_inside_step(s: Seq<u8>, q: int, d: int, f: Frame, v: J, e: int)
    requires 0 <= q < s.len(), value_from(s, s[q], q + 1, d) == Got::Yes(v, e)
    ensures inside(s, s[q], q + 1, d, f) == after(s, e, d, f, v)
{
    crate::reader::lemma_value(s, s[q], q + 1, d);
}
proof fn lemma_next_item(s: Seq<u8>, e: int, d: int, b: Seq<J>, v: J, q: int)
    requires 0 <= e < q < s.len(), s[e] == 44, tok(s, e + 1) == Got::Yes(s[q], q + 1)
    ensures after(s, e, d, Frame::Arr(b), v) == inside(s, s[q], q + 1, d, Frame::Arr(b.push(v)))
{
    lemma_here(s, e);
}
proof fn lemma_last_item(s: Seq<u8>, e: int, d: int, b: Seq<J>, v: J, q: int)
    requires 0 <= e <= q < s.len(), tok(s, e) == Got::Yes(93u8, q + 1)
    ensures after(s, e, d, Frame::Arr(b), v) == Got::Yes(J::Arr(b.push(v)), q + 1)
{}
proof fn lemma_next_member(s: Seq<u8>, e: int, d: int, b: Seq<(Seq<u8>, J)>, key: Seq<u8>, v: J, q: int)
    requires 0 <= e < q < s.len(), s[e] == 44, s[q] == 34, tok(s, e + 1) == Got::Yes(s[q], q + 1)
    ensures after(s, e, d, Frame::Obj(b, key), v) == entry_at(s, q + 1, d, put(b, key, v))
{
    lemma_here(s, e);
}
proof fn lemma_last_member(s: Seq<u8>, e: int, d: int, b: Seq<(Seq<u8>, J)>, key: Seq<u8>, v: J, q: int)
    requires 0 <= e <= q < s.len(), tok(s, e) == Got::Yes(125u8, q + 1)
    ensures after(s, e, d, Frame::Obj(b, key), v) == Got::Yes(J::Obj(put(b, key, v)), q + 1)
{}
proof fn lemma_entry_step(s: Seq<u8>, i: int, d: int, b: Seq<(Seq<u8>, J)>, key: Seq<u8>, q: int)
    requires 0 <= i < q < s.len(), key_at(s, i) == Got::Yes((key, s[q]), q + 1)
    ensures entry_at(s, i, d, b) == inside(s, s[q], q + 1, d, Frame::Obj(b, key))
{}
proof fn lemma_first_item(s: Seq<u8>, i: int, d: int, q: int)
    requires 0 <= i < q < s.len(), s[i] == 91, tok(s, i + 1) == Got::Yes(s[q], q + 1), s[q] != 93, d < 512
    ensures value_from(s, s[i], i + 1, d) == inside(s, s[q], q + 1, d + 1, Frame::Arr(Seq::empty()))
{}
proof fn lemma_first_member(s: Seq<u8>, i: int, d: int, q: int)
    requires 0 <= i < q < s.len(), s[i] == 123, tok(s, i + 1) == Got::Yes(s[q], q + 1), s[q] == 34, d < 512
    ensures value_from(s, s[i], i + 1, d) == entry_at(s, q + 1, d + 1, Seq::empty())
{}
proof fn lemma_nothing(s: Seq<u8>, i: int, d: int)
    requires 0 <= i, i + 1 < s.len()
    ensures
        s[i] == 91 && s[i + 1] == 93 ==> value_from(s, s[i], i + 1, d) == Got::Yes(J::Arr(Seq::empty()), i + 2),
        s[i] == 123 && s[i + 1] == 125 ==> value_from(s, s[i], i + 1, d) == Got::Yes(J::Obj(Seq::empty()), i + 2),
{
    if !ws(s[i + 1]) { lemma_here(s, i + 1); }
}
proof fn lemma_only_leaf(s: Seq<u8>, i: int, d: int)
    requires 0 <= i < s.len(), s[i] != 91, s[i] != 123
    ensures value_from(s, s[i], i + 1, d) == leaf(s, s[i], i + 1)
{}
proof fn lemma_text_leaf(j: J, l: St)
    requires !(j is Arr), !(j is Obj)
    ensures json_text(j, l) == (match j { J::Null => null_text(), J::Bool(b) => if b { true_text() } else { false_text() }, J::Num(n) => number_text(n), J::Str(s) => str_text(s), _ => Seq::empty() })
{}
proof fn lemma_text_arr(a: Seq<J>, l: St)
    ensures
        a.len() == 0 ==> json_text(J::Arr(a), l) == seq![91u8, 93u8],
        a.len() > 0 ==> json_text(J::Arr(a), l) == seq![91u8] + (items_text(a, a.len() as int, deeper(l)) + (nl(l) + seq![93u8])),
        items_text(a, 0, l).len() == 0,
{}
proof fn lemma_text_obj(o: Seq<(Seq<u8>, J)>, l: St)
    ensures
        o.len() == 0 ==> json_text(J::Obj(o), l) == seq![123u8, 125u8],
        o.len() > 0 ==> json_text(J::Obj(o), l) == seq![123u8] + (members_text(o, o.len() as int, deeper(l)) + (nl(l) + seq![125u8])),
        members_text(o, 0, l).len() == 0,
{}

/// The first n elements come first.
proof fn lemma_items_at(s: Seq<u8>, p: int, a: Seq<J>, k: int, n: int, l: St)
    requires has(s, p, items_text(a, n, l)), 0 <= k <= n <= a.len()
    ensures has(s, p, items_text(a, k, l))
    decreases n - k
{
    if k < n {
        lemma_has_cat(s, p, items_text(a, n - 1, l), (if n > 1 { seq![44u8] } else { Seq::empty() }) + (nl(l) + json_text(a[n - 1], l)));
        lemma_items_at(s, p, a, k, n - 1, l);
    }
}
proof fn lemma_members_at(s: Seq<u8>, p: int, o: Seq<(Seq<u8>, J)>, k: int, n: int, l: St)
    requires has(s, p, members_text(o, n, l)), 0 <= k <= n <= o.len()
    ensures has(s, p, members_text(o, k, l))
    decreases n - k
{
    if k < n {
        lemma_has_cat(s, p, members_text(o, n - 1, l), (if n > 1 { seq![44u8] } else { Seq::empty() }) + (nl(l) + (str_text(o[n - 1].0) + (colon(l) + json_text(o[n - 1].1, l)))));
        lemma_members_at(s, p, o, k, n - 1, l);
    }
}

pub open spec fn comma(k: int) -> Seq<u8> { if k > 0 { seq![44u8] } else { Seq::empty() } }
/// Where the text of element k begins; p is where the elements begin.
pub open spec fn item_at(p: int, a: Seq<J>, k: int, l: St) -> int { p + items_text(a, k, l).len() + comma(k).len() + nl(l).len() }
pub open spec fn member_at(p: int, o: Seq<(Seq<u8>, J)>, k: int, l: St) -> int { p + members_text(o, k, l).len() + comma(k).len() + nl(l).len() }

/// Element k and what is around it.
proof fn lemma_item(s: Seq<u8>, p: int, a: Seq<J>, k: int, l: St, lo: St)
    requires
        has(s, p, items_text(a, a.len() as int, l)), 0 <= k < a.len(),
        has(s, p + items_text(a, a.len() as int, l).len(), nl(lo) + seq![93u8]),
    ensures
        has(s, item_at(p, a, k, l), json_text(a[k], l)),
        has(s, p + items_text(a, k, l).len(), comma(k)),
        has(s, p + items_text(a, k, l).len() + comma(k).len(), nl(l)),
        p + items_text(a, k + 1, l).len() == item_at(p, a, k, l) + json_text(a[k], l).len(),
        stop(s, item_at(p, a, k, l) + json_text(a[k], l).len()),
{
    let n = a.len() as int;
    let t = comma(k) + (nl(l) + json_text(a[k], l));
    lemma_items_at(s, p, a, k + 1, n, l);
    assert(items_text(a, k + 1, l) == items_text(a, k, l) + t);
    lemma_has_cat(s, p, items_text(a, k, l), t);
    lemma_has_cat(s, p + items_text(a, k, l).len(), comma(k), nl(l) + json_text(a[k], l));
    lemma_has_cat(s, p + items_text(a, k, l).len() + comma(k).len(), nl(l), json_text(a[k], l));
    let e = item_at(p, a, k, l) + json_text(a[k], l).len();
    if k + 1 < n {
        let t2 = seq![44u8] + (nl(l) + json_text(a[k + 1], l));
        lemma_items_at(s, p, a, k + 2, n, l);
        assert(items_text(a, k + 2, l) == items_text(a, k + 1, l) + t2);
        lemma_has_cat(s, p, items_text(a, k + 1, l), t2);
        lemma_has_at(s, e, t2);
        assert(t2[0] == 44);
    } else {
        lemma_has_at(s, e, nl(lo) + seq![93u8]);
        if lo.pretty { assert((nl(lo) + seq![93u8])[0] == 10); }
    }
}
proof fn lemma_member_parts(s: Seq<u8>, p: int, o: Seq<(Seq<u8>, J)>, k: int, l: St, lo: St)
    requires
        has(s, p, members_text(o, o.len() as int, l)), 0 <= k < o.len(),
        has(s, p + members_text(o, o.len() as int, l).len(), nl(lo) + seq![125u8]),
    ensures
        has(s, member_at(p, o, k, l), str_text(o[k].0)),
        has(s, member_at(p, o, k, l) + str_text(o[k].0).len(), colon(l)),
        has(s, member_at(p, o, k, l) + str_text(o[k].0).len() + colon(l).len(), json_text(o[k].1, l)),
        has(s, p + members_text(o, k, l).len(), comma(k)),
        has(s, p + members_text(o, k, l).len() + comma(k).len(), nl(l)),
        p + members_text(o, k + 1, l).len() == member_at(p, o, k, l) + str_text(o[k].0).len() + colon(l).len() + json_text(o[k].1, l).len(),
        stop(s, member_at(p, o, k, l) + str_text(o[k].0).len() + colon(l).len() + json_text(o[k].1, l).len()),
{
    let n = o.len() as int;
    let v = json_text(o[k].1, l);
    let m = str_text(o[k].0) + (colon(l) + v);
    let t = comma(k) + (nl(l) + m);
    lemma_members_at(s, p, o, k + 1, n, l);
    assert(members_text(o, k + 1, l) == members_text(o, k, l) + t);
    lemma_has_cat(s, p, members_text(o, k, l), t);
    lemma_has_cat(s, p + members_text(o, k, l).len(), comma(k), nl(l) + m);
    lemma_has_cat(s, p + members_text(o, k, l).len() + comma(k).len(), nl(l), m);
    let q = member_at(p, o, k, l);
    lemma_has_cat(s, q, str_text(o[k].0), colon(l) + v);
    lemma_has_cat(s, q + str_text(o[k].0).len(), colon(l), v);
    let e = q + str_text(o[k].0).len() + colon(l).len() + v.len();
    if k + 1 < n {
        let t2 = seq![44u8] + (nl(l) + (str_text(o[k + 1].0) + (colon(l) + json_text(o[k + 1].1, l))));
        lemma_members_at(s, p, o, k + 2, n, l);
        assert(members_text(o, k + 2, l) == members_text(o, k + 1, l) + t2);
        lemma_has_cat(s, p, members_text(o, k + 1, l), t2);
        lemma_has_at(s, e, t2);
        assert(t2[0] == 44);
    } else {
        lemma_has_at(s, e, nl(lo) + seq![125u8]);
        if lo.pretty { assert((nl(lo) + seq![125u8])[0] == 10); }
    }
}

/// The text of a leaf reads back.
proof fn lemma_leaf_back(s: Seq<u8>, i: int, j: J, l: St) -> (r: J)
    requires
        has(s, i, json_text(j, l)), stop(s, i + json_text(j, l).len()), !(j is Arr), !(j is Obj), good(j, 0),
    ensures
        leaf(s, s[i], i + 1) == Got::Yes(r, i + json_text(j, l).len()), back(j, r),
        i < s.len(), !ws(s[i]), s[i] != 93, s[i] != 125, s[i] != 91, s[i] != 123,
{
    let t = json_text(j, l);
    lemma_has_at(s, i, t);
    match j {
        J::Null => { assert(s[i + 1] == t[1] && s[i + 2] == t[2] && s[i + 3] == t[3]); J::Null }
        J::Bool(b) => {
            assert(s[i + 1] == t[1] && s[i + 2] == t[2] && s[i + 3] == t[3]);
            if !b { assert(s[i + 4] == t[4]); }
            J::Bool(b)
        }
        J::Num(n) => { let r = lemma_number_back(s, i, n); J::Num(r) }
        J::Str(b) => { lemma_quoted(s, i, b); J::Str(b) }
        _ => J::Null,
    }
}

/// A string in quotes.
proof fn lemma_quoted(s: Seq<u8>, i: int, b: Seq<u8>)
    requires has(s, i, str_text(b))
    ensures s[i] == 34, i < s.len(), str_at(s, i + 1, Seq::empty()) == Got::Yes(b, i + str_text(b).len())
{
    lemma_has_at(s, i, str_text(b));
    lemma_has_cat(s, i, seq![34u8], esc(b) + seq![34u8]);
    lemma_str_back(s, i + 1, b, Seq::empty());
    assert(Seq::<u8>::empty() + b =~= b);
}

/// The text of a value reads back, wherever it stands.
proof fn lemma_value_back(s: Seq<u8>, i: int, j: J, l: St, d: int) -> (r: J)
    requires
        has(s, i, json_text(j, l)), stop(s, i + json_text(j, l).len()), good(j, 512 - d), 0 <= d <= 512,
    ensures
        value_from(s, s[i], i + 1, d) == Got::Yes(r, i + json_text(j, l).len()), back(j, r),
        i < s.len(), !ws(s[i]), s[i] != 93, s[i] != 125,
    decreases j, 0int, 0int
{
    hide(json_text); hide(items_text); hide(members_text); hide(after); hide(skip); hide(inside); hide(entry_at); hide(value_from); hide(leaf); hide(stop); hide(str_text);
    let t = json_text(j, l);
    lemma_has_at(s, i, t);
    let m = deeper(l);
    match j {
        J::Arr(a) => {
            lemma_text_arr(a, l);
            lemma_text_arr(a, m);
            if a.len() == 0 {
                assert(s[i + 1] == t[1]);
                lemma_nothing(s, i, d);
                J::Arr(Seq::empty())
            } else {
                let n = a.len() as int;
                let w = items_text(a, n, m);
                let c = nl(l) + seq![93u8];
                lemma_has_cat(s, i, seq![91u8], w + c);
                lemma_has_cat(s, i + 1, w, c);
                let r = lemma_items_back(s, i + 1, a, m, l, d + 1, 0, Seq::empty());
                lemma_item(s, i + 1, a, 0, m, l);
                let q = item_at(i + 1, a, 0, m);
                lemma_nl(s, i + 1, m);
                lemma_first_item(s, i, d, q);
                r
            }
        }
        J::Obj(o) => {
            lemma_text_obj(o, l);
            lemma_text_obj(o, m);
            if o.len() == 0 {
                assert(s[i + 1] == t[1]);
                lemma_nothing(s, i, d);
                J::Obj(Seq::empty())
            } else {
                let n = o.len() as int;
                let w = members_text(o, n, m);
                let c = nl(l) + seq![125u8];
                lemma_has_cat(s, i, seq![123u8], w + c);
                lemma_has_cat(s, i + 1, w, c);
                let r = lemma_members_back(s, i + 1, o, m, l, d + 1, 0, Seq::empty());
                lemma_member_parts(s, i + 1, o, 0, m, l);
                let q = member_at(i + 1, o, 0, m);
                lemma_quoted(s, q, o[0].0);
                lemma_nl(s, i + 1, m);
                lemma_first_member(s, i, d, q);
                r
            }
        }
        _ => { let r = lemma_leaf_back(s, i, j, l); lemma_only_leaf(s, i, d); r }
    }
}

/// From element k on, when the elements before it have been read as b.
proof fn lemma_items_back(s: Seq<u8>, p: int, a: Seq<J>, l: St, lo: St, d: int, k: int, b: Seq<J>) -> (r: J)
    requires
        has(s, p, items_text(a, a.len() as int, l)), 0 <= k < a.len(), 1 <= d <= 512,
        has(s, p + items_text(a, a.len() as int, l).len(), nl(lo) + seq![93u8]),
        forall|x: int| 0 <= x < a.len() ==> good(#[trigger] a[x], 512 - d),
        b.len() == k, forall|x: int| 0 <= x < k ==> back(#[trigger] a[x], b[x]),
    ensures
        inside(s, s[item_at(p, a, k, l)], item_at(p, a, k, l) + 1, d, Frame::Arr(b)) == Got::Yes(r, p + items_text(a, a.len() as int, l).len() + nl(lo).len() + 1),
        back(J::Arr(a), r),
        item_at(p, a, k, l) < s.len(), !ws(s[item_at(p, a, k, l)]), s[item_at(p, a, k, l)] != 93,
    decreases a, a.len() - k, 1int
{
    hide(json_text); hide(items_text); hide(after); hide(skip); hide(inside); hide(value_from); hide(good); hide(stop); hide(nl);
    let n = a.len() as int;
    let q = item_at(p, a, k, l);
    lemma_item(s, p, a, k, l, lo);
    let v = lemma_value_back(s, q, a[k], l, d);
    let e = q + json_text(a[k], l).len();
    lemma_inside_step(s, q, d, Frame::Arr(b), v, e);
    let b2 = b.push(v);
    assert forall|x: int| 0 <= x < k + 1 implies back(#[trigger] a[x], b2[x]) by { if x < k { assert(b2[x] == b[x]); } }
    if k + 1 < n {
        let r = lemma_items_back(s, p, a, l, lo, d, k + 1, b2);
        lemma_item(s, p, a, k + 1, l, lo);
        lemma_has_at(s, e, comma(k + 1));
        lemma_nl(s, e + 1, l);
        lemma_next_item(s, e, d, b, v, item_at(p, a, k + 1, l));
        r
    } else {
        let c = nl(lo);
        lemma_has_cat(s, e, c, seq![93u8]);
        lemma_has_at(s, e + c.len(), seq![93u8]);
        lemma_nl(s, e, lo);
        lemma_last_item(s, e, d, b, v, e + c.len());
        J::Arr(b2)
    }
}

/// From the key of member k on, when the members before it have been read as b.
proof fn lemma_members_back(s: Seq<u8>, p: int, o: Seq<(Seq<u8>, J)>, l: St, lo: St, d: int, k: int, b: Seq<(Seq<u8>, J)>) -> (r: J)
    requires
        has(s, p, members_text(o, o.len() as int, l)), 0 <= k < o.len(), 1 <= d <= 512, distinct(o),
        has(s, p + members_text(o, o.len() as int, l).len(), nl(lo) + seq![125u8]),
        forall|x: int| 0 <= x < o.len() ==> good((#[trigger] o[x]).1, 512 - d),
        b.len() == k, forall|x: int| 0 <= x < k ==> (#[trigger] o[x]).0 == b[x].0 && back(o[x].1, b[x].1),
    ensures
        entry_at(s, member_at(p, o, k, l) + 1, d, b) == Got::Yes(r, p + members_text(o, o.len() as int, l).len() + nl(lo).len() + 1),
        back(J::Obj(o), r),
    decreases o, o.len() - k, 1int
{
    hide(json_text); hide(members_text); hide(after); hide(skip); hide(inside); hide(value_from); hide(entry_at); hide(str_at); hide(str_text); hide(pos); hide(good); hide(stop); hide(nl); hide(esc);
    let n = o.len() as int;
    let q = member_at(p, o, k, l);
    let key = o[k].0;
    lemma_member_parts(s, p, o, k, l, lo);
    lemma_quoted(s, q, key);
    let q1 = q + str_text(key).len();
    let q2 = q1 + colon(l).len();
    let v = lemma_value_back(s, q2, o[k].1, l, d);
    let e = q2 + json_text(o[k].1, l).len();
    lemma_colon(s, q1, l);
    lemma_str_long(key);
    assert(key_at(s, q + 1) == Got::Yes((key, s[q2]), q2 + 1));
    lemma_entry_step(s, q + 1, d, b, key, q2);
    lemma_inside_step(s, q2, d, Frame::Obj(b, key), v, e);
    // a new key goes to the end
    lemma_pos(b, key);
    if pos(b, key) >= 0 { let x = pos(b, key); assert(o[x].0 == b[x].0); }
    let b2 = b.push((key, v));
    assert(put(b, key, v) == b2);
    assert forall|x: int| 0 <= x < k + 1 implies (#[trigger] o[x]).0 == b2[x].0 && back(o[x].1, b2[x].1) by { if x < k { assert(b2[x] == b[x]); } }
    if k + 1 < n {
        let r = lemma_members_back(s, p, o, l, lo, d, k + 1, b2);
        lemma_member_parts(s, p, o, k + 1, l, lo);
        lemma_quoted(s, member_at(p, o, k + 1, l), o[k + 1].0);
        lemma_has_at(s, e, comma(k + 1));
        lemma_nl(s, e + 1, l);
        lemma_next_member(s, e, d, b, key, v, member_at(p, o, k + 1, l));
        r
    } else {
        let c = nl(lo);
        lemma_has_cat(s, e, c, seq![125u8]);
        lemma_has_at(s, e + c.len(), seq![125u8]);
        lemma_nl(s, e, lo);
        lemma_last_member(s, e, d, b, key, v, e + c.len());
        J::Obj(b2)
    }
}

proof fn lemma_str_long(b: Seq<u8>) ensures str_text(b).len() >= 2 {}

/// The colon after a key, and the blank after it.
proof fn lemma_colon(s: Seq<u8>, i: int, l: St)
    requires has(s, i, colon(l)), i + colon(l).len() < s.len(), !ws(s[i + colon(l).len()])
    ensures mark(s, i, 58) == Got::Yes((), i + 1), tok(s, i + 1) == Got::Yes(s[i + colon(l).len()], i + colon(l).len() + 1)
{
    lemma_has_at(s, i, colon(l));
    lemma_here(s, i);
    if l.pretty {
        assert(s[i + 1] == colon(l)[1]);
        lemma_here(s, i + 2);
        assert(skip(s, i + 1) == skip(s, i + 2));
    } else {
        lemma_here(s, i + 1);
    }
}

/// The text of a value, alone in its document.
pub proof fn lemma_document_back(j: J, l: St)
    requires good(j, 512)
    ensures document(json_text(j, l)) matches Got::Yes(r, e) && back(j, r)
{
    let s = json_text(j, l);
    assert(s.subrange(0, s.len() as int) =~= s);
    let r = lemma_value_back(s, 0, j, l, 0);
    lemma_here(s, 0);
}

/// Values that read back are equal.
pub proof fn lemma_back_eq(a: J, b: J)
    requires jwf(a), back(a, b)
    ensures jeq(a, b)
    decreases a
{
    match (a, b) {
        (J::Arr(x), J::Arr(y)) => { assert forall|i: int| 0 <= i < x.len() implies jeq(#[trigger] x[i], y[i]) by { lemma_back_eq(x[i], y[i]); } }
        (J::Obj(x), J::Obj(y)) => {
            assert(distinct(y)) by {
                assert forall|i: int, j: int| 0 <= i < y.len() && 0 <= j < y.len() && (#[trigger] y[i]).0 == (#[trigger] y[j]).0 implies i == j by { assert(x[i].0 == y[i].0 && x[j].0 == y[j].0); }
            }
            assert forall|i: int| 0 <= i < x.len() implies pos(y, (#[trigger] x[i]).0) >= 0 && jeq(x[i].1, y[pos(y, x[i].0)].1) by {
                lemma_pos_at(y, i);
                lemma_back_eq(x[i].1, y[i].1);
            }
        }
        _ => {}
    }
}

/// Such a value is not nested too deeply for the indentation counter.
proof fn lemma_good_shallow(j: J, n: int)
    requires good(j, n), n >= 0
    ensures forall|m: int| m > n ==> #[trigger] shallow(j, m)
    decreases j
{
    assert forall|m: int| m > n implies #[trigger] shallow(j, m) by {
        match j {
            J::Arr(a) => { assert forall|i: int| 0 <= i < a.len() implies shallow(#[trigger] a[i], m - 1) by { lemma_good_shallow(a[i], n - 1); } }
            J::Obj(o) => { assert forall|i: int| 0 <= i < o.len() implies shallow((#[trigger] o[i]).1, m - 1) by { lemma_good_shallow(o[i].1, n - 1); } }
            _ => {}
        }
    }
}

// ------------------------------------------------------------ the code together

/// C06: dump and parse.
fn dump_then_parse(v: &JsonValue) -> (w: Result<JsonValue, crate::value::Error>)
    requires wf(*v), good(jv(*v), 512)
    ensures w is Ok && wf(w->Ok_0) && back(jv(*v), jv(w->Ok_0)) && jeq(jv(*v), jv(w->Ok_0))
{
    proof { lemma_document_back(jv(*v), compact()); lemma_jwf(*v); }
    let t = v.dump();
    let w = parse(t.as_str());
    proof { lemma_back_eq(jv(*v), jv(w->Ok_0)); }
    w
}

/// C06: pretty and parse, for any indentation.
fn pretty_then_parse(v: &JsonValue, spaces: u16) -> (w: Result<JsonValue, crate::value::Error>)
    requires wf(*v), good(jv(*v), 512)
    ensures w is Ok && wf(w->Ok_0) && back(jv(*v), jv(w->Ok_0)) && jeq(jv(*v), jv(w->Ok_0))
{
    proof { lemma_document_back(jv(*v), pretty_st(spaces)); lemma_good_shallow(jv(*v), 512); lemma_jwf(*v); }
    let t = v.pretty(spaces);
    let w = parse(t.as_str());
    proof { lemma_back_eq(jv(*v), jv(w->Ok_0)); }
    w
}

} // verus!
