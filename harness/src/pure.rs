//! Operations without a device: SequenceMap, SignalSet, keys, cursors, sizes, prefixes.

use crate::{key_json, SIGNALS};
use mortal::sequence::Entry;
use mortal::util::{ctrl, is_ctrl, prefixes, unctrl_lower, unctrl_upper};
use mortal::*;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn run(v: &Value) -> Vec<String> {
    let n = v["n"].clone();
    let r = catch_unwind(AssertUnwindSafe(|| match v["what"].as_str().unwrap() {
        "seqmap" => seqmap(v),
        "sigset" => sigset(),
        "sighist" => sighist(v),
        "helpers" => helpers(),
        "prefixes" => vec![json!({"op": "prefixes", "t": v["t"], "ret":
            prefixes(&s(&v["t"])).map(|p| p.chars().map(|c| c as u32).collect::<Vec<_>>()).collect::<Vec<_>>()})],
        w => panic!("what {}", w)
    }));
    let evs = r.unwrap_or_else(|_| vec![json!({"op": "died", "r": "panic", "in": v})]);
    std::iter::once(json!({"op": "scn"})).chain(evs).map(|mut e| { e.as_object_mut().unwrap().insert("n".into(), n.clone()); e.to_string() }).collect()
}

fn s(v: &Value) -> String { v.as_array().unwrap().iter().map(|c| char::from_u32(c.as_u64().unwrap() as u32).unwrap()).collect() }
fn cps(x: &str) -> Value { json!(x.chars().map(|c| c as u32).collect::<Vec<_>>()) }

type M = SequenceMap<String, i64>;
fn opt(x: Option<i64>) -> Value { match x { Some(v) => json!([v]), None => json!([]) } }
fn list(m: &M) -> Value { json!(m.sequences().iter().map(|(k, v)| json!([cps(k), v])).collect::<Vec<_>>()) }
fn pairs(v: &Value) -> Vec<(String, i64)> { v.as_array().unwrap().iter().map(|p| (s(&p[0]), p[1].as_i64().unwrap())).collect() }

fn seqmap(v: &Value) -> Vec<Value> {
    let mut m: M = SequenceMap::new();
    let mut out = Vec::new();
    for o in v["ops"].as_array().unwrap() {
        let op = o["op"].as_str().unwrap();
        let k = o.get("k").map_or(String::new(), |k| s(k));
        let x = o.get("v").and_then(|x| x.as_i64()).unwrap_or(0);
        let mm = &mut m;
        let r = catch_unwind(AssertUnwindSafe(move || -> Value { match op {
            "new" => { *mm = SequenceMap::new(); json!([]) }
            "cap" => { *mm = SequenceMap::with_capacity(x as usize); json!([]) }
            "default" => { *mm = SequenceMap::default(); json!([]) }
            "ins" => opt(mm.insert(k, x)),
            "rem" => match mm.remove(&k) { Some((k, v)) => json!([cps(&k), v]), None => json!([]) },
            "get" => opt(mm.get(&k).copied()),
            "getmut" => match mm.get_mut(&k) { Some(p) => { let old = *p; *p = x; json!([old]) } None => json!([]) },
            "find" => { let r = mm.find(&k); let c = r.cloned();
                let q = |r: FindResult<i64>| match r { FindResult::NotFound => json!(["none"]), FindResult::Incomplete => json!(["inc"]),
                    FindResult::Undecided(v) => json!(["und", v]), FindResult::Found(v) => json!(["found", v]) };
                q(c) }
            "seqsmut" => { for (_, v) in mm.sequences_mut() { *v += x; } json!([]) }
            "vec" => { *mm = SequenceMap::from(pairs(&o["p"])); json!([]) }
            "iter" => { *mm = pairs(&o["p"]).into_iter().collect(); json!([]) }
            "clone" => { let c = mm.clone(); *mm = c; json!([]) }
            "ekey" => cps(mm.entry(k).key()),
            "ekind" => match mm.entry(k) { Entry::Occupied(e) => json!(["occ", cps(e.key()), e.get()]), Entry::Vacant(e) => json!(["vac", cps(e.key())]) },
            "eins" => { let r = mm.entry(k).or_insert(x); json!([*r]) }
            "einsw" => { let mut called = false; let r = *mm.entry(k).or_insert_with(|| { called = true; x }); json!([r, called]) }
            "einsmut" => { let r = mm.entry(k).or_insert(x); *r += 100; json!([*r]) }
            "emod" => { let r = *mm.entry(k).and_modify(|p| *p += 1).or_insert(x); json!([r]) }
            "emod0" => { let mut c = 0; mm.entry(k).and_modify(|p| { c += 1; *p = x; }); json!([c]) }
            "oins" => match mm.entry(k) { Entry::Occupied(mut e) => json!([e.insert(x)]), _ => json!([]) },
            "ogetmut" => match mm.entry(k) { Entry::Occupied(mut e) => { *e.get_mut() += 7; json!([*e.get()]) } _ => json!([]) },
            "ointo" => match mm.entry(k) { Entry::Occupied(e) => { let p = e.into_mut(); *p += 9; json!([*p]) } _ => json!([]) },
            "orem" => match mm.entry(k) { Entry::Occupied(e) => json!([e.remove()]), _ => json!([]) },
            "oreme" => match mm.entry(k) { Entry::Occupied(e) => { let (k, v) = e.remove_entry(); json!([cps(&k), v]) } _ => json!([]) },
            "vins" => match mm.entry(k) { Entry::Vacant(e) => { let p = e.insert(x); *p += 1000; json!([*p]) } _ => json!([]) },
            "vkey" => match mm.entry(k) { Entry::Vacant(e) => json!([cps(&e.into_key())]), _ => json!([]) },
            w => panic!("seqmap op {}", w)
        } }));
        let mut e = o.as_object().unwrap().clone();
        match r {
            Ok(x) => { e.insert("ret".into(), x); e.insert("r".into(), json!("ok")); }
            Err(_) => { e.insert("ret".into(), json!([])); e.insert("r".into(), json!("panic")); }
        }
        e.insert("seq".into(), list(&m));
        out.push(Value::Object(e));
    }
    out
}

fn mk(mask: u32) -> SignalSet { let mut x = SignalSet::new(); for k in 0..6 { if mask >> k & 1 == 1 { x.insert(SIGNALS[k]); } } x }
/// Members of a set; -1-mask if the set is not equal to a set built from those members.
fn mem(x: SignalSet) -> i64 {
    let mut m = 0; for k in 0..6 { if x.contains(SIGNALS[k]) { m |= 1 << k; } }
    if x == mk(m) && !(x != mk(m)) { m as i64 } else { -1 - m as i64 }
}
fn names(x: &SignalSet) -> Value { json!(format!("{:?}", x)) }

fn sigset() -> Vec<Value> {
    let mut out = Vec::new();
    let b = |x: bool| x as i64;
    out.push(json!({"op": "sig0", "new": mem(SignalSet::new()), "all": mem(SignalSet::all()), "default": mem(SignalSet::default()),
        "from": (0..6).map(|k| mem(SignalSet::from(SIGNALS[k]))).collect::<Vec<_>>(),
        "nots": (0..6).map(|k| mem(!SIGNALS[k])).collect::<Vec<_>>(),
        "or": (0..6).map(|k| (0..6).map(|j| mem(SIGNALS[k] | SIGNALS[j])).collect::<Vec<_>>()).collect::<Vec<_>>()}));
    for a in 0..64u32 {
        let x = mk(a);
        let ins = |k: usize| { let mut y = x; y.insert(SIGNALS[k]); mem(y) };
        let rem = |k: usize| { let mut y = x; y.remove(SIGNALS[k]); mem(y) };
        let set = |k: usize, t: bool| { let mut y = x; y.set(SIGNALS[k], t); mem(y) };
        let it: Vec<Signal> = (0..6).filter(|k| a >> k & 1 == 1).map(|k| SIGNALS[k]).collect();
        let mut rev = it.clone(); rev.reverse(); rev.extend(it.iter().copied());
        out.push(json!({"op": "sig1", "a": a, "mem": mem(x), "ins": (0..6).map(ins).collect::<Vec<_>>(), "rem": (0..6).map(rem).collect::<Vec<_>>(),
            "sett": (0..6).map(|k| set(k, true)).collect::<Vec<_>>(), "setf": (0..6).map(|k| set(k, false)).collect::<Vec<_>>(),
            "has": (0..6).map(|k| b(x.contains(SIGNALS[k]))).collect::<Vec<_>>(), "empty": b(x.is_empty()), "inv": mem(x.inverse()), "not": mem(!x),
            "iter": mem(it.iter().copied().collect()), "iterrev": mem(rev.into_iter().collect()), "dbg": names(&x), "dbginv": names(&x.inverse())}));
        let bin: [(&str, fn(SignalSet, SignalSet) -> i64); 17] = [
            ("union", |x, y| mem(x.union(y))), ("or", |x, y| mem(x | y)), ("orassign", |mut x, y| { x |= y; mem(x) }),
            ("inter", |x, y| mem(x.intersection(y))), ("and", |x, y| mem(x & y)), ("andassign", |mut x, y| { x &= y; mem(x) }),
            ("diff", |x, y| mem(x.difference(y))), ("sub", |x, y| mem(x - y)), ("subassign", |mut x, y| { x -= y; mem(x) }),
            ("symdiff", |x, y| mem(x.symmetric_difference(y))), ("xor", |x, y| mem(x ^ y)), ("xorassign", |mut x, y| { x ^= y; mem(x) }),
            ("containsall", |x, y| x.contains_all(y) as i64), ("intersects", |x, y| x.intersects(y) as i64),
            ("eq", |x, y| (x == y) as i64), ("ne", |x, y| (x != y) as i64),
            ("extend", |mut x, y| { x.extend((0..6).filter(|&k| y.contains(SIGNALS[k])).map(|k| SIGNALS[k])); mem(x) })];
        for (name, f) in bin {
            out.push(json!({"op": "sig2", "f": name, "a": a, "ret": (0..64u32).map(|y| f(x, mk(y))).collect::<Vec<_>>()}));
        }
    }
    out
}

/// A history of in-place operations on one set.
fn sighist(v: &Value) -> Vec<Value> {
    let mut out = Vec::new();
    let mut x = SignalSet::new();
    for o in v["ops"].as_array().unwrap() {
        let y = mk(o["m"].as_u64().unwrap_or(0) as u32);
        let k = o["k"].as_u64().unwrap_or(0) as usize;
        match o["op"].as_str().unwrap() {
            "ins" => x.insert(SIGNALS[k]), "rem" => x.remove(SIGNALS[k]),
            "or" => x |= y, "and" => x &= y, "sub" => x -= y, "xor" => x ^= y, "not" => x = !x, "inv" => x = x.inverse(),
            "union" => x = x.union(y), "inter" => x = x.intersection(y), "diff" => x = x.difference(y), "symdiff" => x = x.symmetric_difference(y),
            "all" => x = SignalSet::all(), "new" => x = SignalSet::new(), "orn" => x |= !y, "xorn" => x ^= !y, "subn" => x -= !y,
            w => panic!("sighist {}", w)
        }
        let mut e = o.as_object().unwrap().clone();
        e.insert("ret".into(), json!(mem(x)));
        e.insert("empty".into(), json!(x.is_empty()));
        e.insert("dbg".into(), names(&x));
        out.push(Value::Object(e));
    }
    out
}

fn runs<F: Fn(char) -> bool>(f: F) -> Value {
    let mut v: Vec<(u32, u32)> = Vec::new();
    let mut n = 0u32;
    for c in 0..=0x10ffffu32 {
        if let Some(ch) = char::from_u32(c) {
            n += 1;
            if f(ch) {
                // the surrogate gap does not break a run
                match v.last_mut() { Some(l) if l.1 + 1 == c || (l.1 == 0xd7ff && c == 0xe000) => l.1 = c, _ => v.push((c, c)) }
            }
        }
    }
    json!({"n": n, "runs": v.into_iter().map(|(a, b)| json!([a, b])).collect::<Vec<_>>()})
}

fn dig(x: usize) -> Value { json!([x / 1_000_000_000_000, x / 1_000_000 % 1_000_000, x % 1_000_000]) }

fn helpers() -> Vec<Value> {
    let mut out = Vec::new();
    out.push(json!({"op": "keyself", "ret": runs(|c| Key::from(c) == Key::Char(c))}));
    for c in (0..=0x10ffffu32).filter_map(char::from_u32).filter(|&c| Key::from(c) != Key::Char(c)) {
        out.push(json!({"op": "key", "c": c as u32, "ret": key_json(Key::from(c)), "into": key_json(c.into())}));
    }
    out.push(json!({"op": "isctrl", "ret": runs(is_ctrl)}));
    for k in 0..4usize {
        out.push(json!({"op": "width", "w": k, "ret": runs(|c| mortal::util::char_width(c).unwrap_or(0) == k)}));
    }
    out.push(json!({"op": "comb", "ret": runs(mortal::util::is_combining_mark)}));
    for c in (0..=0xffu32).filter_map(char::from_u32) {
        let r = catch_unwind(|| (ctrl(c), unctrl_upper(c), unctrl_lower(c), is_ctrl(c)));
        out.push(match r { Ok((a, b, d, e)) => json!({"op": "ctrl", "c": c as u32, "ctrl": a as u32, "up": b as u32, "low": d as u32, "is": e}),
            Err(_) => json!({"op": "ctrl", "c": c as u32, "ctrl": -1, "up": -1, "low": -1, "is": false}) });
    }
    let cur = |c: Option<Cursor>| match c { None => json!([]), Some(c) => json!([c.line, c.column]) };
    for l in 0..7usize { for c in 0..7usize {
        let sz = Size{lines: l, columns: c};
        let last = if l > 0 && c > 0 { cur(Some(Cursor::last(sz))) } else { json!([]) };
        out.push(json!({"op": "size", "l": l, "c": c, "area": sz.area(), "carea": sz.checked_area().map_or(json!([]), |a| json!([a])),
            "first": cur(Some(Cursor::first())), "last": last}));
        for pl in 0..l { for pc in 0..c {
            let p = Cursor{line: pl, column: pc};
            let q: Cursor = (pl, pc).into();
            out.push(json!({"op": "cur", "l": l, "c": c, "pl": pl, "pc": pc, "next": cur(p.next(sz)), "prev": cur(p.previous(sz)), "from": cur(Some(q))}));
        } }
        let mut oob = Vec::new();
        let vals = [0usize, 1, 2, 3, 4, 5, 6, 7, 8, usize::MAX];
        for pl in vals { for pc in vals { oob.push(json!([pl.min(1000), pc.min(1000), Cursor{line: pl, column: pc}.is_out_of_bounds(sz)])); } }
        out.push(json!({"op": "oob", "l": l, "c": c, "ret": oob}));
    } }
    // areas of large sizes: m1*2^e1 by m2*2^e2
    for &(m1, m2) in &[(1usize, 1usize), (3, 1), (3, 5), (1, 0), (0, 1), (7, 9)] { for e1 in (0..62).step_by(3) { for e2 in 0..62 {
        if e1 > 60 || e2 > 60 { continue; }
        let sz = Size{lines: m1 << e1, columns: m2 << e2};
        let r = match sz.checked_area() { None => json!([]), Some(0) => json!([0, 0]), Some(a) => json!([a >> a.trailing_zeros(), a.trailing_zeros()]) };
        let p = catch_unwind(|| sz.area());
        let pa = match p { Err(_) => json!(["panic"]), Ok(0) => json!([0, 0]), Ok(a) => json!([a >> a.trailing_zeros(), a.trailing_zeros()]) };
        out.push(json!({"op": "area", "m1": m1, "e1": e1, "m2": m2, "e2": e2, "ret": r, "area": pa}));
    } } }
    // cursors within huge sizes
    for &(l, c) in &[(usize::MAX, usize::MAX), (1, usize::MAX), (usize::MAX, 1), (1usize << 40, 3)] {
        let sz = Size{lines: l, columns: c};
        let last = Cursor::last(sz);
        let ok = last.next(sz).is_none() && last.line == l - 1 && last.column == c - 1 && !last.is_out_of_bounds(sz)
            && last.previous(sz).map_or(l == 1 && c == 1, |p| p.next(sz) == Some(last));
        out.push(json!({"op": "hugecur", "l": dig(l), "c": dig(c), "ok": ok}));
    }
    out
}
