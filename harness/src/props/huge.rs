//! Lists, maps and strings longer than fits 16 bits: a few cases of each property that depends on
//! lengths and indices. The oracle is the `Vec`, `BTreeMap` or `String` itself.

use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};

use mirror_mirror::key_path::{GetPath, KeyPath};
use mirror_mirror::{key_path as kp, Array, FromReflect, List, Map, Reflect, Value};

use crate::run::*;
use crate::tape::Src;
use crate::walk::same;

const TIP: usize = 1 << 16;

fn len(src: &mut Src) -> usize {
    match src.below(6) {
        0 => 4097,
        1 => TIP - 1,
        2 => TIP,
        3 => TIP + 1,
        4 => TIP + src.below(300),
        _ => 10_000 + src.below(60_000),
    }
}

fn place(src: &mut Src, n: usize) -> usize {
    let i = match src.below(6) {
        0 => 0,
        1 => n - 1,
        2 => TIP - 1,
        3 => TIP,
        _ => src.below(n),
    };
    i.min(n - 1)
}

fn xs(src: &mut Src) -> Vec<u32> {
    let (n, by) = (len(src), src.range(0, 4) as u32);
    (0..n as u32).map(|i| i * by + 1).collect()
}

fn dynamic(xs: &[u32]) -> Value {
    Value::List(xs.iter().map(|x| Value::u32(*x)).collect())
}

fn map(src: &mut Src) -> BTreeMap<u32, u8> {
    let n = len(src) as u32;
    (0..n).map(|i| (i, (i % 251) as u8)).collect()
}

fn text(src: &mut Src) -> String {
    let n = len(src);
    let c = *src.pick(&["a", "é", "ab"]);
    c.repeat(n)
}

fn native(r: &dyn Reflect) -> Option<Vec<u32>> {
    r.as_list()?.iter().map(|x| x.downcast_ref::<u32>().copied()).collect()
}

fn is(what: &str, want: &[u32], r: &dyn Reflect) -> Res {
    let l = r.as_list().ok_or("no list")?;
    same(&format!("{what}: length"), want.len(), l.len())?;
    check!(native(r).as_deref() == Some(want), "{what}: other elements");
    Ok(())
}

fn note(cx: &mut Cx, n: usize) {
    cx.input(("length", n));
    cx.trivial_if(n < TIP);
}

pub fn round_trip(cx: &mut Cx) -> Res {
    let v = xs(&mut cx.src);
    note(cx, v.len());
    let x = v.to_value();
    is("to_value", &v, &x)?;
    check!(Vec::<u32>::from_reflect(&x).as_ref() == Some(&v), "from_reflect differs");
    check!(Vec::<u32>::from_reflect(&v).as_ref() == Some(&v), "from_reflect of a native one differs");
    let m = map(&mut cx.src);
    let x = m.to_value();
    same("entries", m.len(), x.as_map().ok_or("no map")?.len())?;
    check!(BTreeMap::<u32, u8>::from_reflect(&x).as_ref() == Some(&m), "from_reflect of a map differs");
    let s = text(&mut cx.src);
    check!(String::from_reflect(&s.to_value()).as_ref() == Some(&s), "from_reflect of a string differs");
    Ok(())
}

pub fn patched(cx: &mut Cx) -> Res {
    let v = xs(&mut cx.src);
    let k = 1 + place(&mut cx.src, v.len() + 20);
    note(cx, v.len().min(k));
    let p: Vec<u32> = (0..k as u32).map(|i| i ^ 0x5555).collect();
    let mut want = v.clone();
    for (w, x) in want.as_mut_slice().iter_mut().zip(&p) {
        *w = *x;
    }
    let mut a = v.clone();
    a.patch(&p);
    is("native patched by native", &want, &a)?;
    let mut a = v.clone();
    a.patch(&dynamic(&p));
    is("native patched by a value", &want, &a)?;
    let mut a = dynamic(&v);
    a.patch(&p);
    is("value patched by native", &want, &a)
}

pub fn addressed(cx: &mut Cx) -> Res {
    let v = xs(&mut cx.src);
    note(cx, v.len());
    let (mut a, mut x) = (v.clone(), dynamic(&v));
    for _ in 0..20 {
        let i = place(&mut cx.src, v.len());
        let p: KeyPath = kp!([i]);
        same("native at", Some(&a[i]), a.get_at::<u32>(&p))?;
        same("value at", Some(&a[i]), x.get_at::<u32>(&p))?;
        let new = cx.src.draw(1 << 32) as u32;
        *x.get_at_mut::<u32>(&p).ok_or("get_at_mut")? = new;
        *GetPath::get_at_mut::<u32>(&mut a, &p).ok_or("get_at_mut")? = new;
        check!(a[i] == new, "written elsewhere");
    }
    let n = v.len();
    for i in [n, n + TIP, n | 1 << 32, usize::MAX] {
        let p: KeyPath = kp!([i]);
        check!(a.at(&p).is_none() && x.at(&p).is_none(), "something at {i} of {n}");
    }
    is("value", &a, &x)
}

fn hash(x: &Value) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

/// Two lists that differ in at most one place, or in length.
fn two(src: &mut Src) -> (Vec<u32>, Vec<u32>) {
    let a = xs(src);
    let mut b = a.clone();
    match src.below(4) {
        0 => {}
        1 => b.truncate(place(src, a.len())),
        _ => {
            let i = place(src, a.len());
            b[i] ^= 1 << src.below(32);
        }
    }
    if src.chance(1, 2) { (a, b) } else { (b, a) }
}

pub fn equality(cx: &mut Cx) -> Res {
    let (a, b) = two(&mut cx.src);
    note(cx, a.len());
    let (x, y) = (dynamic(&a), dynamic(&b));
    same("native", a == b, a.as_reflect() == b.as_reflect())?;
    same("native and value", a == b, a.as_reflect() == y.as_reflect())?;
    same("value and native", a == b, x.as_reflect() == b.as_reflect())?;
    same("values", a == b, x.as_reflect() == y.as_reflect())?;
    let (m, mut n) = (a, b);
    n.resize(m.len(), 7);
    let (m, n): (BTreeMap<usize, u32>, BTreeMap<usize, u32>) = (m.into_iter().enumerate().collect(), n.into_iter().enumerate().collect());
    same("maps", m == n, m.as_reflect() == n.as_reflect())?;
    same("a map and a value", m == n, m.as_reflect() == n.to_value().as_reflect())
}

pub fn order(cx: &mut Cx) -> Res {
    let (a, b) = two(&mut cx.src);
    note(cx, a.len());
    let (x, y) = (dynamic(&a), dynamic(&b));
    let c = a.cmp(&b);
    same("==", a == b, x == y)?;
    check!((x.cmp(&y) == Ordering::Equal) == (c == Ordering::Equal), "cmp is {:?}", x.cmp(&y));
    check!(x.cmp(&y) == y.cmp(&x).reverse() && x.partial_cmp(&y) == Some(x.cmp(&y)), "cmp is one-sided");
    check!(a != b || hash(&x) == hash(&y), "equal values hash differently");
    Ok(())
}

pub fn written(cx: &mut Cx) -> Res {
    let v = xs(&mut cx.src);
    note(cx, v.len());
    super::values::formats("list", &dynamic(&v), &|y| is("list", &v, y))?;
    let m = map(&mut cx.src);
    super::values::formats("map", &m.to_value(), &|y| {
        check!(BTreeMap::<u32, u8>::from_reflect(y).as_ref() == Some(&m), "differs");
        Ok(())
    })?;
    let s = text(&mut cx.src);
    super::values::formats("string", &Value::from(s.clone()), &|y| {
        check!(y.as_reflect().downcast_ref::<String>() == Some(&s), "differs");
        Ok(())
    })
}

pub fn list(cx: &mut Cx) -> Res {
    let mut v = xs(&mut cx.src);
    note(cx, v.len());
    let (mut a, mut x) = (v.clone(), dynamic(&v));
    for _ in 0..20 {
        let l = x.as_list_mut().ok_or("no list")?;
        same("length", (v.len(), v.len()), (Array::len(&a), l.len()))?;
        match cx.src.below(4) {
            0 => {
                let i = place(&mut cx.src, v.len());
                let want = Some(v.remove(i));
                same("native try_remove", want, List::try_remove(&mut a, i).and_then(|x| x.downcast_ref::<u32>().copied()))?;
                same("value try_remove", want, l.try_remove(i).and_then(|x| x.downcast_ref::<u32>().copied()))?;
            }
            1 => {
                let want = v.pop();
                same("native pop", want, List::pop(&mut a).and_then(|x| x.downcast_ref::<u32>().copied()))?;
                same("value pop", want, l.pop().and_then(|x| x.downcast_ref::<u32>().copied()))?;
            }
            2 => {
                let i = place(&mut cx.src, v.len());
                same("native get", Some(&v[i]), Array::get(&a, i).and_then(|x| x.downcast_ref()))?;
                same("value get", Some(&v[i]), l.get(i).and_then(|x| x.downcast_ref()))?;
                check!(l.get(v.len()).is_none() && l.get(i + (1 << 32)).is_none(), "an element past the end");
            }
            _ => {
                let new = cx.src.draw(1 << 32) as u32;
                v.push(new);
                List::push(&mut a, &new);
                l.push(&new);
            }
        }
    }
    is("native", &v, &a)?;
    is("value", &v, &x)
}

pub fn maps(cx: &mut Cx) -> Res {
    let mut m = map(&mut cx.src);
    note(cx, m.len());
    let (mut a, mut x) = (m.clone(), m.to_value());
    let n = m.len();
    for _ in 0..20 {
        let k = place(&mut cx.src, n + 5) as u32;
        let y = x.as_map_mut().ok_or("no map")?;
        same("entries", (m.len(), m.len()), (Map::len(&a), y.len()))?;
        match cx.src.below(3) {
            0 => {
                let want = m.remove(&k);
                same("native remove", want, Map::remove(&mut a, &k).and_then(|x| x.downcast_ref::<u8>().copied()))?;
                same("value remove", want, y.remove(&k).and_then(|x| x.downcast_ref::<u8>().copied()))?;
            }
            1 => {
                same("native get", m.get(&k), Map::get(&a, &k).and_then(|x| x.downcast_ref()))?;
                same("value get", m.get(&k), y.get(&k).and_then(|x| x.downcast_ref()))?;
            }
            _ => {
                let new = cx.src.below(256) as u8;
                let want = m.insert(k, new);
                same("native insert", want, Map::insert(&mut a, &k, &new).and_then(|x| x.downcast_ref::<u8>().copied()))?;
                same("value insert", want, y.insert(&k, &new).and_then(|x| x.downcast_ref::<u8>().copied()))?;
            }
        }
    }
    check!(a == m, "native differs");
    check!(BTreeMap::<u32, u8>::from_reflect(&x).as_ref() == Some(&m), "value differs");
    Ok(())
}
