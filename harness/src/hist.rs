//! Operation histories: objects against a list of entries, values against a model.
use crate::cx::{check, Cx, Out};
use crate::gen;
use crate::props::desc;
use crate::refjson::{build, same, short, Num, RV};
use crate::rng::Rng;
use json::object::Object;
use json::JsonValue;

type Model = Vec<(String, RV)>;

fn keys(id: u64, r: &mut Rng) -> Vec<String> {
    let n = gen::word_below(r, 100).unwrap_or(2 + r.below(8));
    let mut k: Vec<String> = Vec::new();
    if id % 3 == 0 {
        let suffix = "y".repeat(*r.pick(&[0usize, 0, 0, 11, 12, 13, 30, 70]));
        let c = gen::colliding(r);
        k.push(format!("{}{}", c[0], suffix));
        k.push(format!("{}{}", c[1], suffix));
        if r.chance(1, 4) {
            for x in gen::colliding(r) {
                if !k.contains(&x) {
                    k.push(x);
                }
            }
        }
    }
    if id % 211 == 17 {
        // wide
        let n = if id == 17 { 76000 } else { gen::big(r).min(1200) };
        for i in 0..n {
            k.push(format!("k{}", i));
        }
        return k;
    }
    if id % 3 == 1 {
        // many distinct short keys: deep and wide trees
        for i in 0..r.below(40) {
            k.push(format!("k{}", i));
        }
    }
    for _ in 0..n {
        let x = gen::key(r);
        if !k.contains(&x) {
            k.push(x);
        }
    }
    k
}

fn leaf(r: &mut Rng) -> RV {
    match r.below(6) {
        0 => RV::Str(gen::string(r)),
        1 => RV::Arr(vec![RV::Num(Num::parts(false, r.below(100) as u64, 0))]),
        2 => RV::Obj(vec![(gen::key(r), RV::Null)]),
        3 => RV::Null,
        _ => RV::Num(Num::parts(false, r.u64() >> 32, 0)),
    }
}

fn find(m: &Model, k: &str) -> Option<usize> {
    m.iter().position(|(x, _)| x == k)
}

/// Everything observable about the object agrees with the list.
fn agree(o: &Object, m: &Model, probes: &[String]) -> Out {
    check(o.len() == m.len() && o.is_empty() == m.is_empty(), || format!("len {} and is_empty {} for {} entries", o.len(), o.is_empty(), m.len()))?;
    let it = o.iter();
    check(it.len() == m.len(), || format!("iterator length {} for {} entries", it.len(), m.len()))?;
    let mut n = 0;
    for ((k, v), (mk, mv)) in o.iter().zip(m) {
        check(k.as_bytes() == mk.as_bytes(), || format!("entry {} has key {:?}, expected {:?}", n, String::from_utf8_lossy(k.as_bytes()), mk))?;
        same(v, mv).map_err(|e| format!("entry {} ({:?}): {}", n, mk, e))?;
        n += 1;
    }
    check(o.iter().count() == m.len(), || format!("iteration yields {} of {} entries", o.iter().count(), m.len()))?;
    let back: Vec<&str> = o.iter().rev().map(|x| x.0).collect();
    let want: Vec<&str> = m.iter().rev().map(|x| x.0.as_str()).collect();
    check(back == want, || format!("backwards iteration yields {:?}, expected {:?}", back, want))?;
    let few = probes.len() > 60;
    for (i, k) in probes.iter().enumerate() {
        // of many keys, only some
        if few && i % (probes.len() / 40) != m.len() % 3 {
            continue;
        }
        match (o.get(k), find(m, k)) {
            (Some(v), Some(i)) => same(v, &m[i].1).map_err(|e| format!("get({:?}): {}", k, e))?,
            (None, None) => {}
            (a, b) => return Err(format!("get({:?}) finds {}, expected {}", k, a.is_some(), b.is_some())),
        }
        let v = &o[k.as_str()];
        match find(m, k) {
            Some(i) => same(v, &m[i].1).map_err(|e| format!("index {:?}: {}", k, e))?,
            None => check(v.is_null(), || format!("index {:?} of an absent key is {}", k, short(&v.dump())))?,
        }
    }
    Ok(())
}

fn start(r: &mut Rng, log: &mut String, ks: &[String]) -> (Object, Model) {
    if ks.len() >= 60 && r.chance(1, 3) {
        // collected or parsed, with repetitions
        let mut m: Model = vec![];
        let mut src: Vec<(String, u64)> = vec![];
        let mut used = vec![];
        for (i, k) in ks.iter().enumerate() {
            if r.chance(9, 10) {
                used.push((i, m.len()));
                src.push((k.clone(), i as u64));
                m.push((k.clone(), RV::Num(Num::parts(false, i as u64, 0))));
            }
            if !used.is_empty() && r.chance(1, 10) {
                let (j, at) = *r.pick(&used);
                src.push((ks[j].clone(), 7000000 + i as u64));
                m[at].1 = RV::Num(Num::parts(false, 7000000 + i as u64, 0));
            }
        }
        return match r.below(3) {
            0 => {
                log.push_str(&format!("parse({} of k0..k{} with repetitions)", src.len(), ks.len()));
                let t: Vec<String> = src.iter().map(|(k, v)| format!("{}:{}", JsonValue::String(k.clone()).dump(), v)).collect();
                match json::parse(&format!("{{{}}}", t.join(","))) {
                    Ok(JsonValue::Object(o)) => (o, m),
                    _ => (Object::new(), m),
                }
            }
            1 => {
                log.push_str(&format!("with_capacity({}), {} of k0..k{} with repetitions", ks.len() / 2, src.len(), ks.len()));
                let mut o = Object::with_capacity(ks.len() / 2);
                for (k, v) in src {
                    o.insert(&k, v.into());
                }
                (o, m)
            }
            _ => {
                log.push_str(&format!("collect({} of k0..k{} with repetitions)", src.len(), ks.len()));
                (src.into_iter().collect(), m)
            }
        };
    }
    if ks.len() >= 60 {
        // all of them but one
        let skip = r.below(ks.len());
        let mut o = Object::new();
        let mut m: Model = vec![];
        for (i, k) in ks.iter().enumerate() {
            if i != skip {
                let v = RV::Num(Num::parts(false, i as u64, 0));
                o.insert(k, build(&v, 0));
                m.push((k.clone(), v));
            }
        }
        log.push_str(&format!("k0..k{} without k{}", ks.len(), skip));
        return (o, m);
    }
    match r.below(6) {
        0 => {
            let n = if r.chance(1, 3) { r.below(64) } else { r.below(6) };
            log.push_str(&format!("with_capacity({})", n));
            (Object::with_capacity(n), vec![])
        }
        1 => {
            // collected, with repetitions
            let mut m: Model = vec![];
            let mut src: Vec<(String, JsonValue)> = vec![];
            for _ in 0..if r.chance(1, 3) { r.below(90) } else { r.below(6) } {
                let k = r.pick(ks).clone();
                let v = leaf(r);
                src.push((k.clone(), build(&v, r.u64())));
                match find(&m, &k) {
                    Some(i) => m[i].1 = v,
                    None => m.push((k, v)),
                }
            }
            log.push_str(&format!("collect({:?})", src.iter().map(|x| &x.0).collect::<Vec<_>>()));
            (src.into_iter().collect(), m)
        }
        2 => {
            // parsed, with repetitions
            let mut m: Model = vec![];
            let mut t = String::from("{");
            for i in 0..r.below(6) {
                let k = r.pick(ks).clone();
                let v = leaf(r);
                if i > 0 {
                    t.push(',');
                }
                t.push_str(&JsonValue::String(k.clone()).dump());
                t.push(':');
                t.push_str(&build(&v, 0).dump());
                match find(&m, &k) {
                    Some(i) => m[i].1 = v,
                    None => m.push((k, v)),
                }
            }
            t.push('}');
            log.push_str(&format!("parse({})", t));
            match json::parse(&t) {
                Ok(JsonValue::Object(o)) => (o, m),
                _ => (Object::new(), vec![]),
            }
        }
        _ => {
            log.push_str("new");
            (Object::new(), vec![])
        }
    }
}

/// One step on an object and its model.
fn step(o: &mut Object, m: &mut Model, ks: &[String], prev: &mut String, r: &mut Rng, log: &mut String) -> Out {
    // any key, one at an end, or the one before
    let k = match r.below(8) {
        0 if !m.is_empty() => m[m.len() - 1].0.clone(),
        1 if !m.is_empty() => m[0].0.clone(),
        2 => prev.clone(),
        _ => r.pick(ks).clone(),
    };
    *prev = k.clone();
    let at = find(m, &k);
    match r.below(16) {
        0..=5 => {
            let v = leaf(r);
            log.push_str(&format!(", insert({:?}, {})", k, desc(&v)));
            o.insert(&k, build(&v, r.u64()));
            match at {
                Some(i) => m[i].1 = v,
                None => m.push((k, v)),
            }
        }
        6 | 7 => {
            log.push_str(&format!(", remove({:?})", k));
            match (o.remove(&k), at) {
                (Some(v), Some(i)) => {
                    let (_, w) = m.remove(i);
                    same(&v, &w).map_err(|e| format!("remove returned {}", e))?;
                }
                (None, None) => {}
                (a, b) => return Err(format!("remove({:?}) returned {}, expected {}", k, a.is_some(), b.is_some())),
            }
        }
        8 | 9 => {
            let v = leaf(r);
            log.push_str(&format!(", get_mut({:?}) = {}", k, desc(&v)));
            match (o.get_mut(&k), at) {
                (Some(p), Some(i)) => {
                    same(p, &m[i].1).map_err(|e| format!("get_mut: {}", e))?;
                    *p = build(&v, r.u64());
                    m[i].1 = v;
                }
                (None, None) => {}
                (a, b) => return Err(format!("get_mut({:?}) finds {}, expected {}", k, a.is_some(), b.is_some())),
            }
        }
        10 | 11 => {
            let v = leaf(r);
            let write = r.chance(2, 3);
            log.push_str(&format!(", [{:?}] = {}", k, if write { desc(&v) } else { "(only borrowed)".into() }));
            let p = &mut o[k.as_str()];
            if write {
                *p = build(&v, r.u64());
            }
            match at {
                Some(i) => if write { m[i].1 = v },
                None => m.push((k, if write { v } else { RV::Null })),
            }
        }
        12 => {
            if r.chance(1, 4) {
                log.push_str(", clear()");
                o.clear();
                m.clear();
            }
        }
        13 => {
            log.push_str(", iter_mut: replace all");
            check(o.iter_mut().len() == m.len(), || format!("iter_mut length {}", o.iter_mut().len()))?;
            let rev = r.chance(1, 2);
            let n = m.len();
            let mut seen = 0;
            if rev {
                for (i, (k, p)) in o.iter_mut().rev().enumerate() {
                    let i = n.wrapping_sub(1 + i);
                    check(i < n && k == m[i].0, || format!("iter_mut backwards: entry {} has key {:?}", i, k))?;
                    same(p, &m[i].1).map_err(|e| format!("iter_mut backwards: {}", e))?;
                    let v = leaf(r);
                    *p = build(&v, r.u64());
                    m[i].1 = v;
                    seen += 1;
                }
            } else {
                for (i, (k, p)) in o.iter_mut().enumerate() {
                    check(i < n && k == m[i].0, || format!("iter_mut: entry {} has key {:?}", i, k))?;
                    same(p, &m[i].1).map_err(|e| format!("iter_mut: {}", e))?;
                    let v = leaf(r);
                    *p = build(&v, r.u64());
                    m[i].1 = v;
                    seen += 1;
                }
            }
            check(seen == n, || format!("iter_mut visits {} of {} entries", seen, n))?;
        }
        14 => {
            // both ends at once: each entry once
            log.push_str(", iterate from both ends");
            let mut it = o.iter();
            let (mut a, mut b) = (0, m.len());
            loop {
                let front = r.chance(1, 2);
                let x = if front { it.next() } else { it.next_back() };
                match x {
                    None => {
                        check(a == b, || format!("iteration from both ends stops with {} entries left", b - a))?;
                        break;
                    }
                    Some((k, _)) => {
                        check(a < b, || "iteration from both ends yields too many entries".into())?;
                        let i = if front { a } else { b - 1 };
                        check(k == m[i].0, || format!("iteration from both ends: key {:?}, expected {:?}", k, m[i].0))?;
                        if front { a += 1 } else { b -= 1 }
                    }
                }
            }
        }
        _ => {
            #[allow(deprecated)]
            if r.chance(1, 3) {
                log.push_str(", override_last(7)");
                o.override_last(7.into());
                if let Some(l) = m.last_mut() {
                    l.1 = RV::Num(Num::parts(false, 7, 0));
                }
            }
        }
    }
    Ok(())
}

pub fn c11(id: u64, r: &mut Rng, cx: &mut Cx) -> Out {
    let ks = keys(id, r);
    let mut log = String::new();
    let mut prev = ks[0].clone();
    let (mut o, mut m) = start(r, &mut log, &ks);
    let n = r.below(if id % 7 == 0 { 60 } else { 14 });
    let mut res = agree(&o, &m, &ks);
    let mut steps = 0;
    while res.is_ok() && steps < n {
        steps += 1;
        // leave the last operation in the record if it panics
        cx.desc.clear();
        res = step(&mut o, &mut m, &ks, &mut prev, r, &mut log);
        if res.is_ok() {
            res = agree(&o, &m, &ks);
        }
        if res.is_ok() && r.chance(1, 12) {
            log.push_str(", moved");
            let b = Box::new(o);
            let mut v = vec![*b];
            v.reserve(50);
            o = v.pop().unwrap();
            res = agree(&o, &m, &ks);
        }
    }
    cx.input(log, n >= 3);
    res
}

pub fn c12(id: u64, r: &mut Rng, cx: &mut Cx) -> Out {
    let ks = keys(id, r);
    let mut log = String::new();
    let mut prev = ks[0].clone();
    let mut live: Vec<(Object, Model)> = vec![];
    let n = 3 + r.below(if id % 7 == 0 { 60 } else { 16 });
    let mut res = Ok(());
    live.push(start(r, &mut log, &ks));
    for _ in 0..n {
        if live.is_empty() {
            live.push(start(r, &mut log, &ks));
        }
        let i = r.below(live.len());
        log.push_str(&format!("; #{}", i));
        match r.below(10) {
            0 | 1 => {
                log.push_str(" clone");
                let (o, m) = &live[i];
                let c = (o.clone(), m.clone());
                live.push(c);
            }
            2 => {
                log.push_str(" drop");
                live.swap_remove(i);
            }
            3 => {
                // an object stored in another one, cloned together, the original dropped
                log.push_str(" nest, clone, drop the original");
                let (o, m) = live.swap_remove(i);
                let mut outer = Object::new();
                outer.insert("inner", JsonValue::Object(o));
                outer.insert(&"z".repeat(31 + r.below(4)), JsonValue::Null);
                let v = JsonValue::Object(outer);
                let mut w = v.clone();
                drop(v);
                match w["inner"].take() {
                    JsonValue::Object(o) => live.push((o, m)),
                    _ => res = Err("the inner object was lost".into()),
                }
            }
            4 => {
                log.push_str(" clone_from");
                let j = r.below(live.len());
                if i != j {
                    let m = live[i].1.clone();
                    let (a, b) = if i < j {
                        let (x, y) = live.split_at_mut(j);
                        (&x[i].0, &mut y[0].0)
                    } else {
                        let (x, y) = live.split_at_mut(i);
                        (&y[0].0, &mut x[j].0)
                    };
                    b.clone_from(a);
                    live[j].1 = m;
                }
            }
            _ => {
                let (o, m) = &mut live[i];
                res = step(o, m, &ks, &mut prev, r, &mut log);
            }
        }
        for (k, (o, m)) in live.iter().enumerate() {
            if res.is_ok() {
                res = agree(o, m, &ks).map_err(|e| format!("object #{}: {}", k, e));
            }
        }
        if res.is_err() {
            break;
        }
    }
    cx.input(log, true);
    res
}

// ------------------------------------------------------------------ values

fn as_model(v: &mut RV) -> Option<&mut Model> {
    match v {
        RV::Obj(m) => Some(m),
        _ => None,
    }
}

fn observe(v: &JsonValue, m: &RV, ks: &[String]) -> Out {
    same(v, m)?;
    let flags = (v.is_null(), v.is_boolean(), v.is_number(), v.is_string(), v.is_array(), v.is_object());
    let want = (
        matches!(m, RV::Null),
        matches!(m, RV::Bool(_)),
        matches!(m, RV::Num(_)),
        matches!(m, RV::Str(_)),
        matches!(m, RV::Arr(_)),
        matches!(m, RV::Obj(_)),
    );
    check(flags == want, || format!("type tests (null, boolean, number, string, array, object): {:?}, expected {:?}", flags, want))?;
    let empty = match m {
        RV::Null => true,
        RV::Bool(b) => !b,
        RV::Num(n) => n.nan || n.m == 0,
        RV::Str(s) => s.is_empty(),
        RV::Arr(a) => a.is_empty(),
        RV::Obj(a) => a.is_empty(),
    };
    check(v.is_empty() == empty, || format!("is_empty is {}", v.is_empty()))?;
    let len = match m {
        RV::Arr(a) => a.len(),
        RV::Obj(a) => a.len(),
        _ => 0,
    };
    check(v.len() == len, || format!("len is {}, expected {}", v.len(), len))?;
    check(v.as_str() == match m { RV::Str(s) => Some(s.as_str()), _ => None }, || format!("as_str is {:?}", v.as_str()))?;
    check(v.as_bool() == match m { RV::Bool(b) => Some(*b), _ => None }, || format!("as_bool is {:?}", v.as_bool()))?;
    match (v.as_number(), m) {
        (Some(n), RV::Num(x)) => crate::refjson::same_num(&n, x)?,
        (None, RV::Num(_)) => return Err("as_number is None".into()),
        (Some(n), _) => return Err(format!("as_number is {:?}", n)),
        _ => {}
    }
    if !matches!(m, RV::Num(_)) {
        check(v.as_u64().is_none() && v.as_i64().is_none() && v.as_f64().is_none() && v.as_f32().is_none() && v.as_u8().is_none() && v.as_i32().is_none() && v.as_usize().is_none() && v.as_isize().is_none(), || "a numeric accessor answers".into())?;
    }
    let arr: &[RV] = match m { RV::Arr(a) => a, _ => &[] };
    check(v.members().len() == arr.len(), || format!("members: {}", v.members().len()))?;
    for (i, x) in arr.iter().enumerate() {
        same(&v[i], x).map_err(|e| format!("[{}]: {}", i, e))?;
    }
    for i in [arr.len(), arr.len() + 1, usize::MAX] {
        check(v[i].is_null(), || format!("[{}] is {}", i, short(&v[i].dump())))?;
    }
    let obj: &[(String, RV)] = match m { RV::Obj(a) => a, _ => &[] };
    check(v.entries().count() == obj.len(), || format!("entries: {}", v.entries().count()))?;
    for k in ks {
        let e = obj.iter().find(|x| x.0 == *k);
        check(v.has_key(k) == e.is_some(), || format!("has_key({:?}) is {}", k, v.has_key(k)))?;
        match e {
            Some((_, x)) => same(&v[k.as_str()], x).map_err(|e| format!("[{:?}]: {}", k, e))?,
            None => check(v[k.as_str()].is_null() && v[k].is_null() && v[k.clone()].is_null(), || format!("[{:?}] is not null", k))?,
        }
    }
    Ok(())
}

pub fn c17(id: u64, r: &mut Rng, cx: &mut Cx) -> Out {
    #[cfg(feature = "macros")]
    {
        if id == 0 {
            cx.input("the macros array! and object!".into(), true);
            return crate::mac::macros();
        }
    }
    let ks: Vec<String> = keys(id + 1, r).into_iter().take(6).collect();
    let mut m = match id % 12 {
        0 => RV::Null,
        1 => RV::Bool(true),
        2 => RV::Str("x".repeat(r.below(40))),
        3 => RV::Num(Num::nan()),
        4 => RV::Num(Num::parts(true, 0, 5)),
        5 => RV::Arr(vec![]),
        6 => RV::Obj(vec![]),
        7 => RV::Obj(ks.iter().take(3).map(|k| (k.clone(), RV::Null)).collect()),
        8 => RV::Arr(vec![RV::Null, RV::Bool(true), RV::Str("s".into()), RV::Arr(vec![])]),
        9 => {
            // long arrays of different elements
            let n = if r.chance(1, 20) { gen::big(r).min(1100) } else { *r.pick(&[3usize, 9, 17, 20, 33, 65, 70]) + r.below(4) };
            RV::Arr((0..n).map(|i| RV::Num(Num::parts(i % 3 == 0, i as u64, 0))).collect())
        }
        _ => gen::value(r, 2, true),
    };
    let mut v = build(&m, r.u64());
    let mut log = desc(&m);
    let n = 1 + r.below(if id % 5 == 0 { 40 } else { 8 });
    let mut res = observe(&v, &m, &ks);
    for _ in 0..n {
        if res.is_err() {
            break;
        }
        res = vstep(&mut v, &mut m, &ks, r, &mut log);
        if res.is_ok() {
            res = observe(&v, &m, &ks);
        }
    }
    cx.input(log, n >= 3);
    res
}

fn vstep(v: &mut JsonValue, m: &mut RV, ks: &[String], r: &mut Rng, log: &mut String) -> Out {
    let x = leaf(r);
    let jx = build(&x, r.u64());
    let k = r.pick(ks).clone();
    let len = match m { RV::Arr(a) => a.len(), _ => 0 };
    let i = match r.below(7) { 0 => len, 1 => r.below(len + 2), 2 => usize::MAX, 3 => len.saturating_sub(1), 4 => len.saturating_sub(2), _ => r.below(len + 1) };
    let eq = |got: &JsonValue, want: &RV, what: &str| same(got, want).map_err(|e| format!("{} returned {}", what, e));
    match r.below(17) {
        0 => {
            log.push_str(", take");
            let t = v.take();
            eq(&t, m, "take")?;
            if r.chance(1, 2) {
                *v = t;
                log.push_str(" and put back");
            } else {
                *m = RV::Null;
            }
        }
        1 => {
            log.push_str(", take_string");
            let t = v.take_string();
            match m {
                RV::Str(s) => {
                    check(t.as_deref() == Some(s), || format!("take_string returned {:?}", t))?;
                    *m = RV::Null;
                }
                _ => check(t.is_none(), || format!("take_string returned {:?}", t))?,
            }
        }
        2 | 3 => {
            log.push_str(&format!(", push({})", desc(&x)));
            let res = v.push(jx);
            match m {
                RV::Arr(a) => {
                    check(res.is_ok(), || format!("push returned {:?}", res))?;
                    a.push(x);
                }
                _ => check(res == Err(json::Error::WrongType("Array".into())), || format!("push returned {:?}", res))?,
            }
        }
        4 => {
            log.push_str(", pop");
            let t = v.pop();
            let w = match m { RV::Arr(a) => a.pop().unwrap_or(RV::Null), _ => RV::Null };
            eq(&t, &w, "pop")?;
        }
        5 | 6 => {
            log.push_str(&format!(", insert({:?}, {})", k, desc(&x)));
            let res = v.insert(&k, jx);
            match as_model(m) {
                Some(o) => {
                    check(res.is_ok(), || format!("insert returned {:?}", res))?;
                    match find(o, &k) {
                        Some(i) => o[i].1 = x,
                        None => o.push((k, x)),
                    }
                }
                None => check(res == Err(json::Error::WrongType("Object".into())), || format!("insert returned {:?}", res))?,
            }
        }
        7 => {
            log.push_str(&format!(", remove({:?})", k));
            let t = v.remove(&k);
            let w = match as_model(m) {
                Some(o) => match find(o, &k) { Some(i) => o.remove(i).1, None => RV::Null },
                None => RV::Null,
            };
            eq(&t, &w, "remove")?;
        }
        8 => {
            log.push_str(&format!(", array_remove({})", i));
            let t = v.array_remove(i);
            let w = match m { RV::Arr(a) if i < a.len() => a.remove(i), _ => RV::Null };
            eq(&t, &w, "array_remove")?;
        }
        9 => {
            if r.chance(1, 3) {
                log.push_str(", clear");
                v.clear();
                *m = match m {
                    RV::Arr(_) => RV::Arr(vec![]),
                    RV::Obj(_) => RV::Obj(vec![]),
                    RV::Str(_) => RV::Str(String::new()),
                    _ => RV::Null,
                };
            }
        }
        10 | 11 => {
            let write = r.chance(2, 3);
            if write {
                log.push_str(&format!(", [{}] = {}", i, desc(&x)));
                v[i] = jx;
            } else {
                log.push_str(&format!(", &mut [{}]", i));
                let _ = &mut v[i];
            }
            if !matches!(m, RV::Arr(_)) {
                *m = RV::Arr(vec![RV::Null]);
                // the index is resolved again in the new array
                if let RV::Arr(a) = m {
                    if i >= 1 {
                        a.push(RV::Null);
                    }
                    let n = a.len();
                    if write {
                        a[if i < n { i } else { n - 1 }] = x;
                    }
                }
            } else if let RV::Arr(a) = m {
                if i >= a.len() {
                    a.push(RV::Null);
                }
                let n = a.len();
                if write {
                    a[if i < n { i } else { n - 1 }] = x;
                }
            }
        }
        12 | 13 => {
            let write = r.chance(2, 3);
            let how = r.below(3);
            log.push_str(&format!(", [{:?}] = {}", k, if write { desc(&x) } else { "(only borrowed)".into() }));
            {
                let p = match how { 0 => &mut v[k.as_str()], 1 => &mut v[&k], _ => &mut v[k.clone()] };
                if write {
                    *p = jx;
                }
            }
            if !matches!(m, RV::Obj(_)) {
                *m = RV::Obj(vec![]);
            }
            let o = as_model(m).unwrap();
            match find(o, &k) {
                Some(i) => if write { o[i].1 = x },
                None => o.push((k, if write { x } else { RV::Null })),
            }
        }
        14 => {
            log.push_str(&format!(", contains({})", desc(&x)));
            let want = match m { RV::Arr(a) => build(&RV::Arr(a.clone()), 2).members().any(|y| *y == jx), _ => false };
            check(v.contains(jx) == want, || format!("contains returned {}", !want))?;
        }
        15 => {
            log.push_str(", members_mut / entries_mut: replace by null");
            let n = v.members_mut().map(|p| *p = JsonValue::Null).count() + v.entries_mut().map(|(_, p)| *p = JsonValue::Null).count();
            match m {
                RV::Arr(a) => {
                    check(n == a.len(), || format!("members_mut visits {}", n))?;
                    a.iter_mut().for_each(|p| *p = RV::Null);
                }
                RV::Obj(a) => {
                    check(n == a.len(), || format!("entries_mut visits {}", n))?;
                    a.iter_mut().for_each(|p| p.1 = RV::Null);
                }
                _ => check(n == 0, || format!("members_mut and entries_mut visit {}", n))?,
            }
        }
        _ => {
            if r.chance(1, 3) {
                log.push_str(&format!(", = {}", desc(&x)));
                *v = jx;
                *m = x;
            }
        }
    }
    Ok(())
}
