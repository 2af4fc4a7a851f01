//! C07 key paths into values, C08 key paths into types, C23 key paths as sequences of keys.

use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

use mirror_mirror::key_path::{field, get, variant as variant_path, GetPath, GetTypePath, Key, KeyPath, NamedOrNumbered};
use mirror_mirror::type_info::{Type, TypeAtPath};
use mirror_mirror::{key_path as kp, Reflect, Value};

use super::convert::small;
use crate::gen::*;
use crate::model::*;
use crate::observe::*;
use crate::run::*;
use crate::tape::Src;
use crate::walk::*;
use crate::zoo::*;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C07",
            rule: "a case counts when the path has at least one key and the value has at least two parts",
            subs: vec![
                sub("native", 200000, at_native),
                sub("write", 120000, write_native),
                sub("every_part", 40000, every_part),
                sub("dynamic", 120000, at_dynamic),
                sub("huge", 40, super::huge::addressed),
            ],
        },
        Prop {
            id: "C08",
            rule: "a case counts when the path has at least one key",
            subs: vec![sub("model", 160000, type_at_model), sub("composition", 80000, type_composition), sub("value_and_type", 120000, value_and_type)],
        },
        Prop {
            id: "C23",
            rule: "a case counts when the history built a path of at least two keys",
            subs: vec![
                sub("history", 160000, history),
                sub("iterators", 120000, iterators),
                sub("display", 120000, display),
                sub("equality", 80000, equality),
                sub("macro", 40000, macro_paths),
            ],
        },
    ]
}

/// `get_at` with the type of the model, and with another.
fn get_at_agrees(what: &str, v: &V, r: &dyn Reflect, p: &KeyPath) -> Res {
    macro_rules! go {
        ($(($sc:ident $t:ident))*) => { match v {
            $(V::S(Sc::$sc(x)) => {
                same(&format!("{what}: get_at::<{}>", stringify!($t)), Some(x), r.get_at::<$t>(p))?;
            })*
            V::S(Sc::Str(x)) => {
                same(&format!("{what}: get_at::<String>"), Some(x), r.get_at::<String>(p))?;
                check!(r.get_at::<char>(p).is_none(), "{what}: get_at::<char>");
            }
            V::S(Sc::F32(x)) => {
                same(&format!("{what}: get_at::<f32>"), Some(*x), r.get_at::<f32>(p).map(|f| f.to_bits()))?;
                check!(r.get_at::<f64>(p).is_none(), "{what}: get_at::<f64>");
            }
            V::S(Sc::F64(x)) => {
                same(&format!("{what}: get_at::<f64>"), Some(*x), r.get_at::<f64>(p).map(|f| f.to_bits()))?;
            }
            _ => check!(r.get_at::<u8>(p).is_none(), "{what}: get_at::<u8> of {v:?}"),
        } };
    }
    for_scalars!(go);
    Ok(())
}

fn at_native(cx: &mut Cx) -> Res {
    let (e, v) = gen_entry_val(&mut cx.src);
    let path = gen_path(&mut cx.src, Some(e.ty), &v);
    cx.input((e, &v, &path));
    cx.trivial_if(path.is_empty() || small(&v));
    let p = key_path(&path);
    let mut r = (e.make)(&v);
    let Some(want) = at(Some(e.ty), &v, &path) else {
        cx.trivial();
        return Ok(());
    };
    leads_to(cx, &v, &want, &*r, &p)?;
    // mutable access leads to the same place
    let m = r.at_mut(&p);
    check!(m.is_some() == want.is_some(), "at leads to {:?}, at_mut to {}", want.as_ref().map(|w| &w.0), m.is_some());
    if let (Some(m), Some((addr, t))) = (m, &want) {
        shows("at_mut", &see(*t, v.sub(addr)), &observe(m))?;
    }
    holds(e, "after looking", &v, &*r)?;
    // in two steps
    let i = cx.src.below(path.len() + 1);
    let (a, b) = (key_path(&path[..i]), key_path(&path[i..]));
    let two = r.at(&a).and_then(|x| x.at(&b)).map(observe);
    check!(two == r.at(&p).map(observe), "path in two steps leads to {two:?}");
    Ok(())
}

fn leads_to(cx: &mut Cx, v: &V, want: &Option<(Vec<usize>, Option<Ty>)>, r: &dyn Reflect, p: &KeyPath) -> Res {
    match (want, r.at(p)) {
        (None, None) => {
            cx.label("nothing");
            check!(r.get_at::<u8>(p).is_none(), "get_at finds something");
            Ok(())
        }
        (None, Some(x)) => Err(format!("leads to {:?} instead of nothing", observe(x))),
        (Some((addr, _)), None) => Err(format!("leads to nothing instead of {:?}", v.sub(addr))),
        (Some((addr, t)), Some(x)) => {
            cx.label("something");
            shows("at", &see(*t, v.sub(addr)), &observe(x))?;
            get_at_agrees("get_at", v.sub(addr), r, p)?;
            if let Some(e2) = static_ty(*t).and_then(entry_of) {
                holds(e2, "type at the path", v.sub(addr), x)?;
            }
            Ok(())
        }
    }
}

fn write_native(cx: &mut Cx) -> Res {
    let (e, mut v) = gen_entry_val(&mut cx.src);
    cx.input((e, &v));
    let mut r = (e.make)(&v);
    let mut wrote = false;
    for _ in 0..cx.src.range(1, 4) {
        let path = gen_path(&mut cx.src, Some(e.ty), &v);
        cx.input(&path);
        let p = key_path(&path);
        let Some(want) = at(Some(e.ty), &v, &path) else { continue };
        match (want, r.at_mut(&p)) {
            (None, None) => {}
            (None, Some(x)) => return Err(format!("{p}: leads to {:?} instead of nothing", observe(x))),
            (Some((addr, _)), None) => return Err(format!("{p}: leads to nothing instead of {:?}", v.sub(&addr))),
            (Some((addr, t)), Some(x)) => {
                let new = if let V::S(s) = v.sub(&addr) {
                    // by a typed reference
                    let new = gen_sc(&mut cx.src, s.kind());
                    drop(x);
                    check!(write_at(&mut *r, &p, &new), "get_at_mut finds nothing");
                    Some(V::S(new))
                } else {
                    overwrite(&mut cx.src, t, v.sub(&addr), x)?
                };
                if let Some(new) = new {
                    wrote = true;
                    *v.sub_mut(&addr) = new;
                }
            }
        }
        holds(e, &format!("after a write at {p}"), &v, &*r)?;
    }
    cx.trivial_if(!wrote);
    Ok(())
}

fn write_at(r: &mut dyn Reflect, p: &KeyPath, s: &Sc) -> bool {
    macro_rules! go {
        ($(($sc:ident $t:ident))*) => { match s {
            $(Sc::$sc(x) => r.get_at_mut::<$t>(p).map(|y| *y = *x).is_some(),)*
            Sc::F32(b) => r.get_at_mut::<f32>(p).map(|y| *y = f32::from_bits(*b)).is_some(),
            Sc::F64(b) => r.get_at_mut::<f64>(p).map(|y| *y = f64::from_bits(*b)).is_some(),
            Sc::Str(x) => r.get_at_mut::<String>(p).map(|y| *y = x.clone()).is_some(),
        } };
    }
    for_scalars!(go)
}

/// The path to an address; with `variants`, every enum on the way names its variant.
fn path_to(src: &mut Src, ty: Option<Ty>, v: &V, addr: &[usize], variants: bool) -> Vec<K> {
    let mut out = vec![];
    let (mut ty, mut v) = (ty, v);
    for a in addr {
        let ks = kids(ty, v);
        let pos = ks.iter().position(|k| k.addr == *a).unwrap();
        let k = ks[pos];
        match v {
            V::Struct(_) => out.push(K::Named(k.name.to_string())),
            V::TStruct(_) | V::Tuple(_) => out.push(K::Num(pos)),
            V::Enum(n, kind, _) => {
                if variants || src.chance(1, 3) {
                    out.push(K::Var(n.clone()));
                }
                out.push(if *kind == VK::Struct { K::Named(k.name.to_string()) } else { K::Num(pos) });
            }
            V::List(_) | V::Array(_) => out.push(K::Get(index_key(src, pos))),
            V::Map(kvs) => out.push(K::Get(valued(&see(key_ty(ty), &kvs[*a].0)))),
            _ => unreachable!(),
        }
        (ty, v) = (k.ty, k.v);
    }
    out
}

/// Can the map keys on the way be written as values without loss?
fn lossy_keys(ty: Option<Ty>, v: &V, addr: &[usize]) -> bool {
    let (mut ty, mut v) = (ty, v);
    for a in addr {
        if let V::Map(kvs) = v {
            if kvs[*a].0.any(&|k| matches!(k, V::Dur(..) | V::Opq(_))) || key_ty(ty).map_or(false, |t| !super::convert::lossless(t)) {
                return true;
            }
        }
        let k = kids(ty, v).into_iter().find(|k| k.addr == *a).unwrap();
        (ty, v) = (k.ty, k.v);
    }
    false
}

/// Every part of a value has a path, and no two parts share one.
fn every_part(cx: &mut Cx) -> Res {
    let (e, v) = gen_entry_val(&mut cx.src);
    cx.input((e, &v));
    let parts = reached(Some(e.ty), &v);
    cx.trivial_if(parts.len() < 3);
    let r = (e.make)(&v);
    // some of the parts of a long value
    let every = if parts.len() > 5000 { parts.len() / 10 } else { parts.len() / 400 + 1 };
    let from = cx.src.below(every);
    for (addr, t) in parts.iter().skip(from).step_by(every).chain(parts.last()) {
        if lossy_keys(Some(e.ty), &v, addr) {
            continue;
        }
        let variants = cx.src.chance(1, 2);
        let path = path_to(&mut cx.src, Some(e.ty), &v, addr, variants);
        let p = key_path(&path);
        match r.at(&p) {
            Some(x) => shows(&format!("at {p}"), &see(*t, v.sub(addr)), &observe(x))?,
            None => return Err(format!("{p}: leads to nothing instead of {:?}", v.sub(addr))),
        }
    }
    // a write to one part is seen through the path of every part
    let (addr, t) = cx.src.pick(&parts).clone();
    if lossy_keys(Some(e.ty), &v, &addr) {
        return Ok(());
    }
    let path = path_to(&mut cx.src, Some(e.ty), &v, &addr, false);
    let p = key_path(&path);
    let mut r = r;
    let Some(x) = r.at_mut(&p) else { return Err(format!("{p}: at_mut leads to nothing")) };
    let Some(new) = overwrite(&mut cx.src, t, v.sub(&addr), x)? else { return Ok(()) };
    let mut w = v.clone();
    *w.sub_mut(&addr) = new;
    holds(e, &format!("after a write at {p}"), &w, &*r)
}

fn at_dynamic(cx: &mut Cx) -> Res {
    let fuel = cx.src.range(1, 4);
    let v = gen_dyn(&mut cx.src, fuel);
    let path = gen_path(&mut cx.src, None, &v);
    cx.input((&v, &path));
    cx.trivial_if(path.is_empty() || small(&v));
    let p = key_path(&path);
    let mut value = to_value(&v);
    let Some(want) = at(None, &v, &path) else {
        cx.trivial();
        return Ok(());
    };
    leads_to(cx, &v, &want, &value, &p)?;
    let m = value.at_mut(&p);
    check!(m.is_some() == want.is_some(), "at and at_mut disagree");
    if let (Some(m), Some((addr, _))) = (m, &want) {
        shows("at_mut", v.sub(addr), &observe(m))?;
        let mut w = v.clone();
        if let Some(new) = overwrite(&mut cx.src, None, v.sub(addr), m)? {
            *w.sub_mut(addr) = new;
            cx.label("written");
        }
        shows("after a write", &w, &observe(&value))?;
    }
    Ok(())
}

fn type_at_model(cx: &mut Cx) -> Res {
    let e = pick_entry(&mut cx.src);
    let path = gen_type_path(&mut cx.src, e.ty);
    cx.input((e, &path));
    cx.trivial_if(path.is_empty());
    let p = key_path(&path);
    let want = type_at(e.ty, &path);
    cx.label(if want.is_some() { "something" } else { "nothing" });
    let d = (e.descriptor)();
    let what = format!("type at {p}");
    check_at(d.type_at(&p), want, &what)?;
    check_at(d.get_type().type_at(&p), want, &what)?;
    check_at(from_kind(d.get_type(), &p), want, &what)
}

fn from_kind<'a>(t: Type<'a>, p: &KeyPath) -> Option<TypeAtPath<'a>> {
    match t {
        Type::Struct(t) => t.type_at(p),
        Type::TupleStruct(t) => t.type_at(p),
        Type::Tuple(t) => t.type_at(p),
        Type::Enum(t) => t.type_at(p),
        Type::List(t) => t.type_at(p),
        Type::Map(t) => t.type_at(p),
        Type::Scalar(t) => t.type_at(p),
        t => t.type_at(p),
    }
}

/// A path in two parts leads to the same type as the whole.
fn type_composition(cx: &mut Cx) -> Res {
    let e = pick_entry(&mut cx.src);
    let path = gen_type_path(&mut cx.src, e.ty);
    cx.input((e, &path));
    cx.trivial_if(path.is_empty());
    let d = (e.descriptor)();
    let whole = d.type_at(&key_path(&path));
    for i in 0..=path.len() {
        let (a, b) = (key_path(&path[..i]), key_path(&path[i..]));
        let first = d.type_at(&a);
        check_at(first, type_at(e.ty, &path[..i]), &format!("type at {a}"))?;
        let two = first.and_then(|t| t.type_at(&b));
        check!(two == whole, "{a} then {b} leads elsewhere than both at once");
        if let Some(v) = first.and_then(|t| t.as_variant()) {
            check!(v.type_at(&b) == whole, "{a} then {b} from the variant leads elsewhere than both at once");
        }
    }
    Ok(())
}

/// What a path leads to in a value has the type the path leads to in the value's type.
fn value_and_type(cx: &mut Cx) -> Res {
    let (e, v) = gen_entry_val(&mut cx.src);
    let r = (e.make)(&v);
    let d = r.type_descriptor();
    if cx.src.chance(1, 2) {
        let parts = reached(Some(e.ty), &v);
        // parts of dynamic values have no place in the type
        let parts: Vec<_> = parts.into_iter().filter(|(a, t)| t.is_some() && !lossy_keys(Some(e.ty), &v, a)).collect();
        let (addr, t) = cx.src.pick(&parts).clone();
        let path = path_to(&mut cx.src, Some(e.ty), &v, &addr, true);
        let p = key_path(&path);
        cx.input((e, &v, &path));
        cx.trivial_if(path.is_empty());
        return agree(&format!("{p}"), t.unwrap(), r.at(&p), d.type_at(&p));
    }
    // a random path, with the variants filled in
    let path = gen_path(&mut cx.src, Some(e.ty), &v);
    let Some(Some((_, Some(t)))) = at(Some(e.ty), &v, &path) else {
        cx.trivial();
        return Ok(());
    };
    let mut full: Vec<K> = vec![];
    for (i, k) in path.iter().enumerate() {
        if matches!(k, K::Named(_) | K::Num(_)) && !matches!(full.last(), Some(K::Var(_))) {
            let (addr, _) = at(Some(e.ty), &v, &path[..i]).unwrap().unwrap();
            if let V::Enum(n, _, _) = v.sub(&addr) {
                full.push(K::Var(n.clone()));
            }
        }
        full.push(k.clone());
    }
    cx.input((e, &v, &full));
    cx.trivial_if(full.is_empty());
    let p = key_path(&full);
    if matches!(t.k, TK::Dyn(_)) && matches!(full.last(), Some(K::Var(_))) {
        // the variant of a dynamic enum has no place in the type
        cx.trivial();
        return Ok(());
    }
    if let Some(K::Var(n)) = full.last() {
        let n = n.clone();
        let tp = d.type_at(&p);
        let Some(var) = tp.and_then(|t| t.as_variant()) else { return Err(format!("{p}: no variant in the type")) };
        same("variant", n.as_str(), var.name())?;
        let Some(x) = r.at(&p) else { return Err(format!("{p}: nothing in the value")) };
        same("variant of the value", Some(n.as_str()), x.as_enum().map(|e| e.variant_name()))?;
        return same("type of the variant", t.name, var.type_name());
    }
    agree(&format!("{p}"), t, r.at(&p), d.type_at(&p))
}

fn agree(p: &str, t: Ty, x: Option<&dyn Reflect>, tp: Option<TypeAtPath<'_>>) -> Res {
    let Some(x) = x else { return Err(format!("{p}: nothing in the value")) };
    check_at(tp, Some(TAt::Ty(t)), p)?;
    if !matches!(t.k, TK::Dyn(_)) {
        same("type of the part", t.name, x.type_descriptor().type_name())?;
        check_type(x.type_descriptor().get_type(), t)?;
    }
    Ok(())
}

pub fn gen_key_any(src: &mut Src) -> K {
    match src.below(4) {
        0 => K::Named(field_name(src).to_string()),
        1 => K::Num(src.below(4)),
        2 => K::Get(gen_dyn_key(src, 2)),
        _ => K::Var(variant_name(src).to_string()),
    }
}

pub fn is_key(k: &Key, m: &K) -> bool {
    match (k, m) {
        (Key::Field(NamedOrNumbered::Named(a)), K::Named(b)) => a == b,
        (Key::Field(NamedOrNumbered::Numbered(a)), K::Num(b)) => a == b,
        (Key::Get(a), K::Get(b)) => matches(b, &observe(a)),
        (Key::Variant(a), K::Var(b)) => a == b,
        _ => false,
    }
}

fn are_keys<'a>(what: &str, ks: impl Iterator<Item = &'a Key>, m: &[K]) -> Res {
    let ks: Vec<_> = ks.collect();
    check!(ks.len() == m.len() && ks.iter().zip(m).all(|(k, m)| is_key(k, m)), "{what}: expected {m:?}, got {ks:?}");
    Ok(())
}

fn history(cx: &mut Cx) -> Res {
    let mut m: Vec<K> = vec![];
    let mut p = KeyPath::default();
    let mut top = 0;
    for _ in 0..cx.src.range(1, 12) {
        let k = gen_key_any(&mut cx.src);
        let op = cx.src.below(9);
        match op {
            0..=2 => {
                let how = cx.src.below(3);
                match (&k, how) {
                    (K::Named(n), 0) => p.push_field(n.as_str()),
                    (K::Named(n), 1) => p.push_field(n.clone()),
                    (K::Named(n), _) => p.push_field(n),
                    (K::Num(n), _) => p.push_field(*n),
                    (K::Get(V::S(Sc::Str(s))), 0) => p.push_get(s.as_str()),
                    (K::Get(V::S(Sc::I32(s))), 0) => p.push_get(*s),
                    (K::Get(V::S(Sc::Usize(s))), 0) => p.push_get(*s),
                    (K::Get(v), _) => p.push_get(to_value(v)),
                    (K::Var(n), 0) => p.push_variant(n.as_str()),
                    (K::Var(n), _) => p.push_variant(n.clone()),
                }
                m.push(k);
            }
            3 => {
                p = match &k {
                    K::Named(n) => p.field(n.as_str()),
                    K::Num(n) => p.field(*n),
                    K::Get(v) => p.get(to_value(v)),
                    K::Var(n) => p.variant(n.as_str()),
                };
                m.push(k);
            }
            4 => {
                p.push(match &k {
                    K::Named(n) => Key::named_field(n.as_str()),
                    K::Num(n) => Key::numbered_field(*n),
                    K::Get(v) => Key::get(to_value(v)),
                    K::Var(n) => Key::variant(n.as_str()),
                });
                m.push(k);
            }
            5 => {
                p.pop();
                m.pop();
            }
            6 => {
                let n = if cx.src.chance(1, 60) { cx.src.range(10, 300) } else { cx.src.below(4) };
                let more: Vec<K> = (0..n).map(|_| gen_key_any(&mut cx.src)).collect();
                p.extend(more.iter().map(key));
                m.extend(more);
            }
            7 => {
                // a path of one key, then the rest
                let mut q = match &k {
                    K::Named(n) => field(n.as_str()),
                    K::Num(n) => field(*n),
                    K::Get(v) => get(to_value(v)),
                    K::Var(n) => variant_path(n.as_str()),
                };
                are_keys("one key", q.iter(), &[k.clone()])?;
                check!(KeyPath::from(key(&k)) == q, "From<Key>");
                q.extend(p.clone());
                p = q;
                m.insert(0, k);
            }
            _ => {
                let mut q: KeyPath = p.clone().into_iter().collect();
                check!(q == p, "collected from its keys");
                q.pop();
                are_keys("after a pop of a copy", p.iter(), &m)?;
            }
        }
        top = top.max(m.len());
        same("len", m.len(), p.len())?;
        same("is_empty", m.is_empty(), p.is_empty())?;
        are_keys("iter", p.iter(), &m)?;
    }
    cx.input(&m);
    cx.trivial_if(top < 2);
    are_keys("&path", (&p).into_iter(), &m)?;
    check!(p == key_path(&m), "differs from a path built at once");
    let crumbs: Vec<&[Key]> = p.breadcrumbs().collect();
    same("number of breadcrumbs", m.len(), crumbs.len())?;
    for (i, c) in crumbs.iter().enumerate() {
        are_keys("breadcrumb", c.iter(), &m[..i + 1])?;
    }
    // breadcrumbs lead along the path
    let mut q = p.clone();
    while !q.is_empty() {
        are_keys("popped", q.iter(), &m[..q.len()])?;
        q.pop();
    }
    q.pop();
    check!(q.is_empty() && q == KeyPath::default(), "pop of an empty path");
    Ok(())
}

fn iterators(cx: &mut Cx) -> Res {
    let n = if cx.src.chance(1, 60) { cx.src.below(300) } else { cx.src.below(6) };
    let m: Vec<K> = (0..n).map(|_| gen_key_any(&mut cx.src)).collect();
    let p = key_path(&m);
    cx.input(&m);
    cx.trivial_if(n < 2);
    let ends: Vec<bool> = (0..n + 2).map(|_| cx.src.chance(1, 2)).collect();
    cx.input(&ends);
    let (mut a, mut b) = (p.iter(), p.clone().into_iter());
    let (mut lo, mut hi) = (0, n);
    for back in ends {
        same("iter().len()", hi - lo, a.len())?;
        same("into_iter().len()", hi - lo, b.len())?;
        same("size hint of iter()", (hi - lo, Some(hi - lo)), a.size_hint())?;
        same("size hint of into_iter()", (hi - lo, Some(hi - lo)), b.size_hint())?;
        let want = if lo == hi {
            None
        } else if back {
            hi -= 1;
            Some(&m[hi])
        } else {
            lo += 1;
            Some(&m[lo - 1])
        };
        let (x, y) = if back { (a.next_back(), b.next_back()) } else { (a.next(), b.next()) };
        match (want, x, y) {
            (None, None, None) => {}
            (Some(k), Some(x), Some(y)) => check!(is_key(x, k) && is_key(&y, k), "expected {k:?}, got {x:?} and {y:?}"),
            _ => return Err("iterator ends at the wrong place".into()),
        }
    }
    same("iter().take(2).len()", n.min(2), p.iter().take(2).len())?;
    check!(p.iter().rev().map(|k| k.clone()).collect::<Vec<_>>() == p.clone().into_iter().rev().collect::<Vec<_>>(), "reversed");
    Ok(())
}

fn display(cx: &mut Cx) -> Res {
    let n = if cx.src.chance(1, 60) { cx.src.below(300) } else { cx.src.below(6) };
    let m: Vec<K> = (0..n).map(|_| gen_key_any(&mut cx.src)).collect();
    cx.input(&m);
    cx.trivial_if(n < 1);
    let mut want = String::new();
    for k in &m {
        let one = match k {
            K::Named(n) => format!(".{n}"),
            K::Num(n) => format!(".{n}"),
            K::Var(n) => format!("::{n}"),
            K::Get(V::S(s)) => format!("[{:?}]", ScDbg(s)),
            K::Get(v) => format!("[{:?}]", to_value(v).as_reflect()),
        };
        same("display of a key", one.clone(), key(k).to_string())?;
        want.push_str(&one);
    }
    same("display", want, key_path(&m).to_string())
}

struct ScDbg<'a>(&'a Sc);

impl std::fmt::Debug for ScDbg<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        macro_rules! go {
            ($(($v:ident $t:ident))*) => { match self.0 {
                $(Sc::$v(x) => x.fmt(f),)*
                Sc::F32(b) => f32::from_bits(*b).fmt(f),
                Sc::F64(b) => f64::from_bits(*b).fmt(f),
                Sc::Str(s) => s.fmt(f),
            } };
        }
        for_scalars!(go)
    }
}

fn key_eq(a: &K, b: &K) -> bool {
    match (a, b) {
        (K::Get(a), K::Get(b)) => veq(a, b),
        (a, b) => a == b,
    }
}

fn hash_of<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn equality(cx: &mut Cx) -> Res {
    let n = cx.src.below(4);
    let a: Vec<K> = (0..n).map(|_| gen_key_any(&mut cx.src)).collect();
    let mut b = a.clone();
    for _ in 0..cx.src.below(3) {
        let k = gen_key_any(&mut cx.src);
        match cx.src.below(4) {
            0 if !b.is_empty() => {
                let i = cx.src.below(b.len());
                b[i] = k;
            }
            1 => b.push(k),
            2 => {
                b.pop();
            }
            _ if !b.is_empty() => {
                // a name where there was a number, and so on
                let i = cx.src.below(b.len());
                b[i] = match &b[i] {
                    K::Num(n) => K::Named(n.to_string()),
                    K::Named(n) => K::Var(n.clone()),
                    K::Var(n) => K::Get(V::of_str(n)),
                    K::Get(_) => K::Num(0),
                };
            }
            _ => {}
        }
    }
    cx.input((&a, &b));
    cx.trivial_if(a.is_empty() && b.is_empty());
    let (p, q) = (key_path(&a), key_path(&b));
    let want = a.len() == b.len() && a.iter().zip(&b).all(|(x, y)| key_eq(x, y));
    cx.label(if want { "equal" } else { "different" });
    same("equality", want, p == q)?;
    same("equality, other way round", want, q == p)?;
    if want {
        same("hash", hash_of(&p), hash_of(&q))?;
    }
    for (x, y) in a.iter().zip(&b) {
        same("equality of keys", key_eq(x, y), key(x) == key(y))?;
    }
    check!(p.clone() == p, "clone");
    Ok(())
}

fn macro_paths(cx: &mut Cx) -> Res {
    let v = gen_dyn_key(&mut cx.src, 2);
    let i = cx.src.below(100);
    let s = gen_string(&mut cx.src);
    cx.input((&v, i, &s));
    let x: Value = to_value(&v);
    let sv = V::of_str(&s);
    let iv = V::S(Sc::Usize(i));
    let n = |s: &str| K::Named(s.to_string());
    let var = |s: &str| K::Var(s.to_string());
    let g = |v: &V| K::Get(v.clone());
    are_keys("empty", kp!().iter(), &[])?;
    are_keys("one field", kp!(.a).iter(), &[n("a")])?;
    are_keys("one number", kp!(.7).iter(), &[K::Num(7)])?;
    are_keys("one key", kp!([x.clone()]).iter(), &[g(&v)])?;
    are_keys("one variant", kp!(::Some).iter(), &[var("Some")])?;
    are_keys("all", kp!(.foo.0[i]::Variant.bar[s.as_str()][x.clone()]).iter(), &[n("foo"), K::Num(0), g(&iv), var("Variant"), n("bar"), g(&sv), g(&v)])?;
    are_keys("variants", kp!(::A::B.c.d[x]::E.1).iter(), &[var("A"), var("B"), n("c"), n("d"), g(&v), var("E"), K::Num(1)])?;
    are_keys("named by a literal", kp!(."quoted name".x).iter(), &[n("quoted name"), n("x")])?;
    are_keys("expressions", kp!([i + 1][s.clone() + "x"]).iter(), &[g(&V::S(Sc::Usize(i + 1))), g(&V::S(Sc::Str(format!("{s}x"))))])
}
