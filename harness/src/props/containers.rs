//! C16 histories of lists and arrays, C17 histories of maps, C18 histories of dynamic values under
//! construction.

use mirror_mirror::enum_::EnumValue;
use mirror_mirror::struct_::StructValue;
use mirror_mirror::tuple::TupleValue;
use mirror_mirror::tuple_struct::TupleStructValue;
use mirror_mirror::{List, Map, Reflect, ReflectMut, Value};

use crate::gen::*;
use crate::model::*;
use crate::observe::*;
use crate::run::*;
use crate::tape::Src;
use crate::walk::*;
use crate::zoo::*;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C16",
            rule: "a history counts when it has at least two operations that change the list or array",
            subs: vec![sub("native", 60000, list_native), sub("dynamic", 40000, list_dynamic), sub("long", 1500, list_long), sub("huge", 40, super::huge::list)],
        },
        Prop {
            id: "C17",
            rule: "a history counts when it has at least two operations that change the map",
            subs: vec![sub("native", 60000, map_native), sub("dynamic", 40000, map_dynamic), sub("long", 1500, map_long), sub("huge", 40, super::huge::maps)],
        },
        Prop {
            id: "C18",
            rule: "a history counts when it sets at least two fields",
            subs: vec![
                sub("struct", 60000, build_struct),
                sub("tuples", 50000, build_tuples),
                sub("enum", 60000, build_enum),
                sub("misuse", 12000, misuse),
            ],
        },
    ]
}

/// A value with a container of the kind somewhere inside, and where it is.
fn with_inside(src: &mut Src, is: fn(&V) -> bool) -> (&'static Entry, V, Vec<usize>, Option<Ty>) {
    for _ in 0..6 {
        let (e, v) = gen_entry_val(src);
        let at: Vec<_> = reached(Some(e.ty), &v).into_iter().filter(|(a, _)| is(v.sub(a))).collect();
        if !at.is_empty() {
            let (a, t) = src.pick(&at).clone();
            return (e, v, a, t);
        }
    }
    let e = loop_pick(src, |e| {
        matches!((&e.ty.k, is(&V::List(vec![]))), (TK::List(_) | TK::Arr(..), true) | (TK::Map(..), false)) && inhabited(e.ty)
    });
    (e, gen_val(src, e.ty, 3), vec![], Some(e.ty))
}

/// Something to put into a place of type `ty` (`None`: any value fits), with the outcome.
struct Item {
    real: Box<dyn Reflect>,
    out: R,
}

fn item(src: &mut Src, ty: Option<Ty>) -> Item {
    let Some(ty) = static_ty(ty) else {
        if src.chance(1, 3) {
            let e = loop_pick(src, |e| inhabited(e.ty) && !matches!(e.ty.k, TK::Opq));
            let v = gen_val(src, e.ty, 2);
            return Item { real: (e.make)(&v), out: R::Some(valued(&view(e.ty, &v))) };
        }
        let v = gen_dyn(src, 2);
        return Item { real: Box::new(to_value(&v)), out: R::Some(v) };
    };
    if !inhabited(ty) {
        let v = gen_dyn(src, 2);
        return Item { real: Box::new(to_value(&v)), out: from(ty, &v, false) };
    }
    match entry_of(ty) {
        Some(e) => {
            let s = gen_source(src, e, 2);
            Item { real: s.real, out: from(ty, &s.view, s.native) }
        }
        None => {
            let v = valued(&view(ty, &gen_val(src, ty, 2)));
            let v = if src.chance(1, 4) { near_miss(src, &v) } else { v };
            Item { real: Box::new(to_value(&v)), out: from(ty, &v, false) }
        }
    }
}

/// What came out of a container.
fn got(what: &str, ty: Option<Ty>, want: Option<&V>, got: Option<&dyn Reflect>) -> Res {
    match (want, got) {
        (None, None) => Ok(()),
        (Some(v), Some(r)) => {
            shows(what, &see(ty, v), &observe(r))?;
            match static_ty(ty).and_then(entry_of) {
                Some(e) => holds(e, what, v, r),
                None => coherent(ty, v, r),
            }
        }
        (w, g) => Err(format!("{what}: expected {w:?}, got {:?}", g.map(observe))),
    }
}

fn elem(ty: Option<Ty>) -> Option<Ty> {
    match static_ty(ty).map(|t| &t.k) {
        Some(TK::List(t) | TK::Arr(t, _) | TK::Map(_, t)) => Some(t()),
        _ => None,
    }
}

fn index(src: &mut Src, n: usize) -> usize {
    match src.below(8) {
        0 => 0,
        1 => n.saturating_sub(1),
        2 => n,
        3 => *src.pick(&[n + 1, 255, 256, usize::MAX, usize::MAX / 2, 1 << 32]),
        _ => src.below(n + 1),
    }
}

/// Mutable access to a list, by one of the ways.
fn as_list_mut<'a>(src: &mut Src, r: &'a mut dyn Reflect) -> Option<&'a mut dyn List> {
    match src.below(3) {
        0 => r.as_list_mut(),
        1 => match r.reflect_mut() {
            ReflectMut::List(l) => Some(l),
            _ => None,
        },
        _ => r.as_reflect_mut().reflect_mut().into_list_mut(),
    }
}

fn as_map_mut<'a>(src: &mut Src, r: &'a mut dyn Reflect) -> Option<&'a mut dyn Map> {
    match src.below(3) {
        0 => r.as_map_mut(),
        1 => match r.reflect_mut() {
            ReflectMut::Map(l) => Some(l),
            _ => None,
        },
        _ => r.as_reflect_mut().reflect_mut().into_map_mut(),
    }
}

trait Into_<'a> {
    fn into_list_mut(self) -> Option<&'a mut dyn List>;
    fn into_map_mut(self) -> Option<&'a mut dyn Map>;
}

impl<'a> Into_<'a> for ReflectMut<'a> {
    fn into_list_mut(self) -> Option<&'a mut dyn List> {
        self.as_list_mut()
    }
    fn into_map_mut(self) -> Option<&'a mut dyn Map> {
        self.as_map_mut()
    }
}

/// One operation on the list or array `v` behind `r`; how it went, and whether it may have changed
/// anything.
fn list_op(src: &mut Src, ty: Option<Ty>, v: &mut V, r: &mut dyn Reflect, log: &mut Vec<String>) -> Result<bool, String> {
    let et = elem(ty);
    let is_list = matches!(v, V::List(_));
    let whole = v.clone();
    let (V::List(xs) | V::Array(xs)) = &mut *v else { unreachable!() };
    let n = xs.len();
    let op = src.below(if is_list { 10 } else { 5 });
    match op {
        0 => {
            // overwrite an element
            let i = index(src, n);
            log.push(format!("get_mut({i})"));
            let c = if is_list { r.as_list_mut().ok_or("no list")?.get_mut(i) } else { r.as_array_mut().ok_or("no array")?.get_mut(i) };
            match (c, xs.get_mut(i)) {
                (None, None) => Ok(false),
                (Some(c), Some(x)) => {
                    shows("get_mut", &see(et, x), &observe(c))?;
                    let new = overwrite(src, et, x, c)?;
                    if let Some(new) = new {
                        *x = new;
                        return Ok(true);
                    }
                    Ok(false)
                }
                (c, x) => Err(format!("get_mut({i}): expected {x:?}, got {:?}", c.map(|c| observe(c)))),
            }
        }
        1 => {
            log.push("rewrite through iter_mut()".into());
            rewrite_all(src, ty, v, r)?;
            Ok(n > 0)
        }
        2 => {
            let i = index(src, n);
            log.push(format!("get({i})"));
            let c = if is_list { r.as_list().ok_or("no list")?.get(i) } else { r.as_array().ok_or("no array")?.get(i) };
            got(&format!("get({i})"), et, xs.get(i), c)?;
            Ok(false)
        }
        3 => {
            // a patch with a list shorter or longer than this one
            let k = src.below(n + 3);
            let mut items = vec![];
            for i in 0..k {
                let mut s = match (static_ty(et), xs.get(i)) {
                    (Some(t), _) if inhabited(t) => valued(&view(t, &gen_val(src, t, 2))),
                    (None, Some(x)) if src.chance(1, 2) => near_miss(src, x),
                    _ => gen_dyn(src, 2),
                };
                if src.chance(1, 4) {
                    s = near_miss(src, &s);
                }
                items.push(s);
            }
            let p = V::List(items);
            log.push(format!("patch({p:?})"));
            let mut w = whole.clone();
            let ok = match static_ty(ty) {
                Some(t) => patch(t, &mut w, &p, false),
                None => patch_dyn(&mut w, &p),
            };
            if !ok {
                return Ok(false);
            }
            r.patch(&to_value(&p));
            *v = w;
            Ok(true)
        }
        4 => {
            log.push("iter()".into());
            let items = if is_list { drain_exact("iter()", r.as_list().ok_or("no list")?.iter(), n)? } else { drain_exact("iter()", r.as_array().ok_or("no array")?.iter(), n)? };
            for (x, c) in xs.iter().zip(items) {
                got("iter()", et, Some(x), Some(c))?;
            }
            Ok(false)
        }
        5 => {
            log.push("pop()".into());
            let want = xs.pop();
            let l = as_list_mut(src, r).ok_or("no list")?;
            let out = l.pop();
            got("pop()", et, want.as_ref(), out.as_deref())?;
            Ok(want.is_some())
        }
        6 => {
            let i = index(src, n);
            log.push(format!("try_remove({i})"));
            let want = if i < n { Some(xs.remove(i)) } else { None };
            let l = as_list_mut(src, r).ok_or("no list")?;
            let out = l.try_remove(i);
            got(&format!("try_remove({i})"), et, want.as_ref(), out.as_deref())?;
            Ok(want.is_some())
        }
        _ => {
            let it = item(src, et);
            log.push(format!("push({:?} as {:?})", observe(&*it.real), it.out));
            let l = as_list_mut(src, r).ok_or("no list")?;
            match it.out {
                R::Some(x) => {
                    l.push(&*it.real);
                    xs.push(x);
                    Ok(true)
                }
                R::None => {
                    l.push(&*it.real);
                    Ok(false)
                }
                R::Unspec => Ok(false),
            }
        }
    }
}

/// One operation on the map `v` behind `r`.
fn map_op(src: &mut Src, ty: Option<Ty>, v: &mut V, r: &mut dyn Reflect, log: &mut Vec<String>) -> Result<bool, String> {
    let (kt, et) = (key_ty(ty), elem(ty));
    let V::Map(kvs) = &mut *v else { unreachable!() };
    let n = kvs.len();
    // a key: often one that is there
    let key = |src: &mut Src, kvs: &[(V, V)]| -> Item {
        if n > 0 && src.chance(1, 2) {
            let k = &src.pick(kvs).0;
            let (t, native) = (static_ty(kt), src.chance(1, 2));
            match t {
                Some(t) => match entry_of(t) {
                    Some(e) if native => Item { real: (e.make)(k), out: from(t, &view(t, k), true) },
                    _ => {
                        let s = valued(&view(t, k));
                        Item { real: Box::new(to_value(&s)), out: from(t, &s, false) }
                    }
                },
                None => Item { real: Box::new(to_value(k)), out: R::Some(k.clone()) },
            }
        } else {
            item(src, kt)
        }
    };
    match src.below(9) {
        0 => {
            log.push("iter()".into());
            let m = r.as_map().ok_or("no map")?;
            let mut it = m.iter();
            let mut keys = vec![];
            while let Some((k, x)) = it.next() {
                let o = observe(k);
                let Some(i) = kvs.iter().position(|(k, _)| matches(&see(kt, k), &o)) else { return Err(format!("iter(): unknown key {o:?}")) };
                got("iter()", et, Some(&kvs[i].1), Some(x))?;
                keys.push(o);
                check!(keys.len() <= n, "iter(): more than {n} entries");
            }
            drop(it);
            same("entries of iter()", n, keys.len())?;
            let mut again = vec![];
            let m = as_map_mut(src, r).ok_or("no map")?;
            for (k, _) in m.iter_mut() {
                again.push(observe(k));
            }
            check!(keys == again, "iter() and iter_mut() show keys in different orders: {keys:?} {again:?}");
            Ok(false)
        }
        1 => {
            log.push("rewrite through iter_mut()".into());
            rewrite_all(src, ty, v, r)?;
            Ok(n > 0)
        }
        2 | 3 => {
            let k = key(src, kvs);
            let mutable = src.chance(1, 2);
            log.push(format!("get{}({:?})", if mutable { "_mut" } else { "" }, observe(&*k.real)));
            let want = match k.out {
                R::Some(k) => map_find(kvs, &k),
                R::None => None,
                R::Unspec => return Ok(false),
            };
            if !mutable {
                got("get", et, want.map(|i| &kvs[i].1), r.as_map().ok_or("no map")?.get(&*k.real))?;
                return Ok(false);
            }
            let c = as_map_mut(src, r).ok_or("no map")?.get_mut(&*k.real);
            match (c, want) {
                (None, None) => Ok(false),
                (Some(c), Some(i)) => {
                    let x = &mut kvs[i].1;
                    shows("get_mut", &see(et, x), &observe(c))?;
                    let new = overwrite(src, et, x, c)?;
                    if let Some(new) = new {
                        *x = new;
                        return Ok(true);
                    }
                    Ok(false)
                }
                (c, x) => Err(format!("get_mut: expected {x:?}, got {:?}", c.map(|c| observe(c)))),
            }
        }
        4 | 5 => {
            let k = key(src, kvs);
            log.push(format!("remove({:?})", observe(&*k.real)));
            let at = match k.out {
                R::Some(k) => map_find(kvs, &k),
                R::None => None,
                R::Unspec => return Ok(false),
            };
            let want = at.map(|i| kvs.remove(i).1);
            let m = as_map_mut(src, r).ok_or("no map")?;
            let out = m.remove(&*k.real);
            got("remove", et, want.as_ref(), out.as_deref())?;
            Ok(want.is_some())
        }
        _ => {
            let k = key(src, kvs);
            let x = item(src, et);
            log.push(format!("insert({:?} as {:?}, {:?} as {:?})", observe(&*k.real), k.out, observe(&*x.real), x.out));
            let m = as_map_mut(src, r);
            let m = m.ok_or("no map")?;
            match (k.out, x.out) {
                (R::None, _) | (R::Some(_), R::None) => {
                    let out = m.insert(&*k.real, &*x.real);
                    got("insert of what does not fit", et, None, out.as_deref())?;
                    Ok(false)
                }
                (R::Some(kv), R::Some(xv)) => match map_find(kvs, &kv) {
                    Some(i) if !matches(&kvs[i].0, &kv) || !matches(&kv, &kvs[i].0) => Ok(false),
                    Some(i) => {
                        let old = std::mem::replace(&mut kvs[i].1, xv);
                        let out = m.insert(&*k.real, &*x.real);
                        got("insert", et, Some(&old), out.as_deref())?;
                        Ok(true)
                    }
                    None => {
                        kvs.push((kv, xv));
                        let out = m.insert(&*k.real, &*x.real);
                        got("insert", et, None, out.as_deref())?;
                        Ok(true)
                    }
                },
                _ => Ok(false),
            }
        }
    }
}

type Op = fn(&mut Src, Option<Ty>, &mut V, &mut dyn Reflect, &mut Vec<String>) -> Result<bool, String>;

fn native_history(cx: &mut Cx, is: fn(&V) -> bool, op: Op) -> Res {
    let (e, mut v, at, ty) = with_inside(&mut cx.src, is);
    let steps = 2 + cx.src.below(9);
    let start = v.clone();
    let mut r = (e.make)(&v);
    let mut log = vec![];
    let mut changes = 0;
    let mut run = || -> Res {
        for _ in 0..steps {
            let before = v.clone();
            let (part, _) = nav_mut(&mut cx.src, Some(e.ty), &before, &mut *r, &at)?;
            changes += op(&mut cx.src, ty, v.sub_mut(&at), part, &mut log)? as usize;
            holds(e, "the value", &v, &*r)?;
            let (part, _) = nav_mut(&mut cx.src, Some(e.ty), &v, &mut *r, &at)?;
            lens(v.sub(&at), part)?;
        }
        coherent(Some(e.ty), &v, &*r)
    };
    let out = run();
    cx.input((e, &start, &at, &log));
    cx.trivial_if(changes < 2);
    out
}

fn lens(v: &V, r: &dyn Reflect) -> Res {
    let n = v.children().len();
    match v {
        V::List(_) => {
            let l = r.as_list().ok_or("no list")?;
            same("len", n, l.len())?;
            same("is_empty", n == 0, l.is_empty())
        }
        V::Array(_) => {
            let l = r.as_array().ok_or("no array")?;
            same("len", n, l.len())?;
            same("is_empty", n == 0, l.is_empty())
        }
        _ => {
            let l = r.as_map().ok_or("no map")?;
            same("len", n, l.len())?;
            same("is_empty", n == 0, l.is_empty())
        }
    }
}

fn dynamic_history(cx: &mut Cx, start: V, op: Op, steps: usize) -> Res {
    let mut v = start.clone();
    let mut value = to_value(&v);
    let mut log = vec![];
    let mut changes = 0;
    let mut run = || -> Res {
        for _ in 0..steps {
            changes += op(&mut cx.src, None, &mut v, &mut value, &mut log)? as usize;
            shows("the value", &v, &observe(&value))?;
            lens(&v, &value)?;
            check!(value == to_value(&v), "differs from the value with the same contents: {value:?}");
        }
        coherent(None, &v, &value)
    };
    let out = run();
    cx.input((&start, &log));
    cx.trivial_if(changes < 2);
    out
}

fn is_seq(v: &V) -> bool {
    matches!(v, V::List(_) | V::Array(_))
}

fn is_map(v: &V) -> bool {
    matches!(v, V::Map(_))
}

fn list_native(cx: &mut Cx) -> Res {
    native_history(cx, is_seq, list_op)
}

fn list_dynamic(cx: &mut Cx) -> Res {
    let n = cx.src.below(4);
    let start = V::List((0..n).map(|_| gen_dyn(&mut cx.src, 2)).collect());
    let steps = 2 + cx.src.below(9);
    dynamic_history(cx, start, list_op, steps)
}

fn map_native(cx: &mut Cx) -> Res {
    native_history(cx, is_map, map_op)
}

fn dyn_map(src: &mut Src, n: usize) -> V {
    let mut kvs: Vec<(V, V)> = vec![];
    for _ in 0..n {
        let k = gen_dyn_key(src, 2);
        let v = gen_dyn(src, 2);
        if map_find(&kvs, &k).is_none() {
            kvs.push((k, v));
        }
    }
    V::Map(kvs)
}

fn map_dynamic(cx: &mut Cx) -> Res {
    let n = cx.src.below(4);
    let start = dyn_map(&mut cx.src, n);
    let steps = 2 + cx.src.below(9);
    dynamic_history(cx, start, map_op, steps)
}

/// Many elements: past the sizes at which containers grow.
fn list_long(cx: &mut Cx) -> Res {
    let n = cx.src.range(30, 300);
    let mut v: Vec<V> = vec![];
    let mut native: Vec<u64> = vec![];
    let mut value = Value::List(vec![]);
    let mut changes = 0;
    cx.input((n, cx.src.tape().len()));
    for k in 0..n {
        let x = k as u64;
        match cx.src.below(6) {
            0 => {
                let i = index(&mut cx.src, v.len());
                let want = if i < v.len() { Some(v.remove(i)) } else { None };
                got("try_remove", None, want.as_ref(), List::try_remove(&mut native, i).as_deref())?;
                got("try_remove", None, want.as_ref(), value.as_list_mut().ok_or("no list")?.try_remove(i).as_deref())?;
            }
            1 => {
                let want = v.pop();
                got("pop", None, want.as_ref(), List::pop(&mut native).as_deref())?;
                got("pop", None, want.as_ref(), value.as_list_mut().ok_or("no list")?.pop().as_deref())?;
            }
            _ => {
                changes += 1;
                v.push(V::S(Sc::U64(x)));
                List::push(&mut native, &x);
                List::push(&mut native, &(x as u32));
                value.as_list_mut().ok_or("no list")?.push(&x);
            }
        }
        same("length", (v.len(), v.len()), (native.len(), value.as_list().ok_or("no list")?.len()))?;
    }
    cx.trivial_if(changes < 2);
    shows("native", &V::List(v.clone()), &observe(&native))?;
    shows("dynamic", &V::List(v.clone()), &observe(&value))
}

fn map_long(cx: &mut Cx) -> Res {
    let n = cx.src.range(30, 300);
    let mut v: Vec<(V, V)> = vec![];
    let mut native: std::collections::BTreeMap<i16, u64> = Default::default();
    let mut value = Value::Map(Default::default());
    let mut changes = 0;
    for k in 0..n {
        let key = cx.src.below(80) as i16 - 40;
        let kv = V::S(Sc::I16(key));
        let at = map_find(&v, &kv);
        let m = value.as_map_mut().ok_or("no map")?;
        if cx.src.chance(1, 3) {
            let want = at.map(|i| v.remove(i).1);
            got("remove", None, want.as_ref(), Map::remove(&mut native, &key).as_deref())?;
            got("remove", None, want.as_ref(), m.remove(&key).as_deref())?;
        } else {
            changes += 1;
            let x = k as u64;
            let want = match at {
                Some(i) => Some(std::mem::replace(&mut v[i].1, V::S(Sc::U64(x)))),
                None => {
                    v.push((kv, V::S(Sc::U64(x))));
                    None
                }
            };
            got("insert", None, want.as_ref(), Map::insert(&mut native, &key, &x).as_deref())?;
            got("insert", None, want.as_ref(), m.insert(&key, &x).as_deref())?;
            got("insert", None, None, Map::insert(&mut native, &(key as i32), &x).as_deref())?;
            got("insert", None, None, Map::insert(&mut native, &key, &(x as u32)).as_deref())?;
        }
    }
    cx.input((n, &v));
    cx.trivial_if(changes < 2);
    let want = V::Map(v.clone());
    shows("native", &want, &observe(&native))?;
    shows("dynamic", &want, &observe(&value))?;
    // in the order of the keys
    let sorted: Vec<i16> = native.keys().copied().collect();
    let shown = |r: &dyn Reflect| -> Vec<i16> { r.as_map().map(|m| m.iter().filter_map(|(k, _)| k.downcast_ref::<i16>().copied()).collect()).unwrap_or_default() };
    same("order of the keys", sorted.clone(), shown(&native))?;
    same("order of the keys of the value", sorted, shown(&value))
}

// ---- building dynamic values ----

/// A field value: the model and the real one (sometimes a native value, converted on the way in).
fn field(src: &mut Src) -> (V, Value) {
    let fuel = src.below(3);
    let v = gen_dyn(src, fuel);
    let x = to_value(&v);
    (v, x)
}

fn put(fs: &mut Vec<(String, V)>, n: &str, v: V) {
    match fs.iter_mut().find(|f| f.0 == n) {
        Some(f) => f.1 = v,
        None => fs.push((n.to_string(), v)),
    }
}

fn struct_is(what: &str, fs: &[(String, V)], s: &StructValue) -> Res {
    let v = V::Struct(fs.to_vec());
    coherent(None, &v, s).map_err(|e| format!("{what}: {e}"))?;
    let same_order: Vec<&String> = fs.iter().map(|f| &f.0).collect();
    check!(*s == to_struct_value(fs), "{what}: differs from a struct built with {same_order:?}: {s:?}");
    let value = Value::from(s.clone());
    coherent(None, &v, &value).map_err(|e| format!("{what}, as a value: {e}"))
}

fn build_struct(cx: &mut Cx) -> Res {
    let mut fs: Vec<(String, V)> = vec![];
    let mut s = match cx.src.below(3) {
        0 => StructValue::new(),
        1 => StructValue::with_capacity(cx.src.below(20)),
        _ => {
            let n = cx.src.below(6);
            let items: Vec<(&str, (V, Value))> = (0..n).map(|_| (field_name(&mut cx.src), field(&mut cx.src))).collect();
            for (n, (v, _)) in &items {
                put(&mut fs, n, v.clone());
            }
            items.into_iter().map(|(n, (_, x))| (n, x)).collect()
        }
    };
    let mut log = vec![format!("{fs:?}")];
    let steps = cx.src.range(1, 8);
    let mut sets = fs.len();
    let mut run = || -> Res {
        for _ in 0..steps {
            let name = field_name(&mut cx.src);
            match cx.src.below(6) {
                0 => {
                    // write through the reflected field
                    log.push(format!("field_mut({name:?})"));
                    let c = mirror_mirror::Struct::field_mut(&mut s, name);
                    match (fs.iter_mut().find(|f| f.0 == name), c) {
                        (None, None) => {}
                        (Some(f), Some(c)) => {
                            shows("field_mut", &f.1, &observe(c))?;
                            if let Some(new) = overwrite(&mut cx.src, None, &f.1, c)? {
                                f.1 = new;
                            }
                        }
                        (f, c) => return Err(format!("field_mut({name:?}): expected {f:?}, got {:?}", c.map(|c| observe(c)))),
                    }
                }
                1 => {
                    let (v, x) = field(&mut cx.src);
                    log.push(format!("with_field({name:?}, {v:?})"));
                    s = std::mem::take(&mut s).with_field(name, x);
                    put(&mut fs, name, v);
                    sets += 1;
                }
                2 => {
                    // patching never adds fields
                    let p = gen_dyn_kind(&mut cx.src, DK::Struct, 2);
                    log.push(format!("patch({p:?})"));
                    let mut w = V::Struct(fs.clone());
                    if patch_dyn(&mut w, &p) {
                        s.patch(&to_value(&p));
                        let V::Struct(w) = w else { unreachable!() };
                        fs = w;
                    }
                }
                _ => {
                    let (v, x) = field(&mut cx.src);
                    log.push(format!("set_field({name:?}, {v:?})"));
                    if cx.src.chance(1, 2) {
                        s.set_field(name, x);
                    } else {
                        s.set_field(name.to_string(), x);
                    }
                    put(&mut fs, name, v);
                    sets += 1;
                }
            }
            struct_is("after each step", &fs, &s)?;
        }
        Ok(())
    };
    let out = run();
    cx.input(&log);
    cx.trivial_if(sets < 2);
    out
}

fn build_tuples(cx: &mut Cx) -> Res {
    let n = cx.src.below(5);
    let start: Vec<(V, Value)> = (0..n).map(|_| field(&mut cx.src)).collect();
    let mut xs: Vec<V> = vec![];
    let (mut t, mut ts) = match cx.src.below(3) {
        0 => (TupleValue::new(), TupleStructValue::new()),
        1 => {
            let n = cx.src.below(20);
            (TupleValue::with_capacity(n), TupleStructValue::with_capacity(n))
        }
        _ => {
            xs.extend(start.iter().map(|f| f.0.clone()));
            (start.iter().map(|f| f.1.clone()).collect(), start.iter().map(|f| f.1.clone()).collect())
        }
    };
    let more: Vec<(V, Value, bool)> = (0..cx.src.below(6))
        .map(|_| {
            let (v, x) = field(&mut cx.src);
            (v, x, cx.src.chance(1, 2))
        })
        .collect();
    for (v, x, with) in more {
        if with {
            t = t.with_field(x.clone());
            ts = ts.with_field(x);
        } else {
            t.push_field(x.clone());
            ts.push_field(x);
        }
        xs.push(v);
    }
    cx.input(&xs);
    cx.trivial_if(xs.len() < 2);
    coherent(None, &V::Tuple(xs.clone()), &t).map_err(|e| format!("tuple: {e}"))?;
    coherent(None, &V::TStruct(xs.clone()), &ts).map_err(|e| format!("tuple struct: {e}"))?;
    // write one field, and all
    if !xs.is_empty() {
        let i = cx.src.below(xs.len());
        let mut tx = xs.clone();
        for (what, r) in [("tuple", &mut t as &mut dyn Reflect), ("tuple struct", &mut ts as &mut dyn Reflect)] {
            let mut v = if what == "tuple" { V::Tuple(tx.clone()) } else { V::TStruct(tx.clone()) };
            let before = v.clone();
            let c = step_mut(&mut cx.src, None, &before, r, i)?;
            if let Some(new) = overwrite(&mut cx.src, None, before.sub(&[i]), c)? {
                *v.sub_mut(&[i]) = new;
            }
            shows(what, &v, &observe(r))?;
            rewrite_all(&mut cx.src, None, &mut v, r)?;
            coherent(None, &v, r).map_err(|e| format!("{what}, rewritten: {e}"))?;
            tx = xs.clone();
        }
    }
    let (tv, tsv) = (Value::from(t.clone()), Value::from(ts.clone()));
    check!(tv == t.to_value() && tsv == ts.to_value(), "the value and the conversion differ");
    check!(tv != tsv, "a tuple equals a tuple struct");
    Ok(())
}

fn build_enum(cx: &mut Cx) -> Res {
    let name = variant_name(&mut cx.src);
    let k = cx.src.below(20);
    let mut fs: Vec<(String, V)> = vec![];
    let mut log = vec![];
    let steps = cx.src.below(6);
    let kind;
    let mut e = match cx.src.below(5) {
        0 => {
            kind = VK::Unit;
            EnumValue::new_unit_variant(name)
        }
        c @ (1 | 2) => {
            kind = VK::Struct;
            let mut b = if c == 1 { EnumValue::new_struct_variant(name) } else { EnumValue::new_struct_variant_with_capacity(name.to_string(), k) };
            for _ in 0..steps {
                let n = field_name(&mut cx.src);
                let (v, x) = field(&mut cx.src);
                log.push(format!("{n:?} = {v:?}"));
                put(&mut fs, n, v);
                if cx.src.chance(1, 2) {
                    b.set_struct_field(n, x);
                } else {
                    b = b.with_struct_field(n, x);
                }
            }
            b.finish()
        }
        c => {
            kind = VK::Tuple;
            let mut b = if c == 3 { EnumValue::new_tuple_variant(name) } else { EnumValue::new_tuple_variant_with_capacity(name.to_string(), k) };
            for _ in 0..steps {
                let (v, x) = field(&mut cx.src);
                log.push(format!("{v:?}"));
                fs.push((String::new(), v));
                if cx.src.chance(1, 2) {
                    b.push_tuple_field(x);
                } else {
                    b = b.with_tuple_field(x);
                }
            }
            b.finish()
        }
    };
    let mut v = V::Enum(name.to_string(), kind, fs);
    let more = cx.src.below(5);
    let mut run = || -> Res {
        coherent(None, &v, &e)?;
        for _ in 0..more {
            let V::Enum(_, _, fs) = &mut v else { unreachable!() };
            match (cx.src.below(5), kind) {
                (0, _) => {
                    let other = gen_dyn_kind(&mut cx.src, DK::Enum, 2);
                    log.push(format!("patch({other:?})"));
                    let mut w = v.clone();
                    if patch_dyn(&mut w, &other) {
                        let V::Enum(_, k, _) = &w else { unreachable!() };
                        let stop = *k != kind;
                        e.patch(&to_value(&other));
                        v = w;
                        if stop {
                            break;
                        }
                    }
                }
                (1 | 2, VK::Struct) => {
                    let n = field_name(&mut cx.src);
                    let (x, y) = field(&mut cx.src);
                    log.push(format!("{n:?} = {x:?}"));
                    put(fs, n, x);
                    if cx.src.chance(1, 2) {
                        e.set_struct_field(n, y);
                    } else {
                        e = e.clone().with_struct_field(n, y);
                    }
                }
                (1 | 2, VK::Tuple) => {
                    let (x, y) = field(&mut cx.src);
                    log.push(format!("{x:?}"));
                    fs.push((String::new(), x));
                    if cx.src.chance(1, 2) {
                        e.push_tuple_field(y);
                    } else {
                        e = e.clone().with_tuple_field(y);
                    }
                }
                (3, _) if !fs.is_empty() => {
                    let i = cx.src.below(fs.len());
                    log.push(format!("write {i}"));
                    let before = v.clone();
                    let c = step_mut(&mut cx.src, None, &before, &mut e, i)?;
                    if let Some(new) = overwrite(&mut cx.src, None, before.sub(&[i]), c)? {
                        *v.sub_mut(&[i]) = new;
                    }
                }
                _ => {
                    log.push("rewrite".into());
                    rewrite_all(&mut cx.src, None, &mut v, &mut e)?;
                }
            }
            shows("after a step", &v, &observe(&e))?;
        }
        coherent(None, &v, &e)?;
        check!(e == to_enum_value(&v), "differs from the enum built in one go: {e:?}");
        let value = Value::from(e.clone());
        coherent(None, &v, &value)?;
        same("variants_len", 1, mirror_mirror::Enum::variants_len(&e))
    };
    let out = run();
    cx.input((name, kind, &log));
    cx.trivial_if(log.len() < 2);
    out
}

/// Fields of the wrong kind are refused loudly, and leave the value alone.
fn misuse(cx: &mut Cx) -> Res {
    let v = gen_dyn_kind(&mut cx.src, DK::Enum, 2);
    let n = field_name(&mut cx.src);
    let (x, y) = field(&mut cx.src);
    cx.input((&v, n, &x));
    let V::Enum(_, kind, fs) = &v else { unreachable!() };
    cx.trivial_if(fs.is_empty());
    let e = to_enum_value(&v);
    if *kind != VK::Struct {
        let (mut f, y) = (e.clone(), y.clone());
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f.set_struct_field(n, y)));
        let _ = last_panic();
        check!(r.is_err(), "named field accepted: {f:?}");
        shows("after a refused field", &v, &observe(&f))?;
    }
    if *kind != VK::Tuple {
        let mut f = e.clone();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f.push_tuple_field(y)));
        let _ = last_panic();
        check!(r.is_err(), "field without a name accepted: {f:?}");
        shows("after a refused field", &v, &observe(&f))?;
    }
    Ok(())
}
