//! C12 reflected equality, C13 equality, order and hash of dynamic values, C14 serialization,
//! C19 visiting.

use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::hash::{Hash, Hasher};

use mirror_mirror::key_path::{GetTypePath, Key, KeyPath};
use mirror_mirror::try_visit::{try_visit, TryVisit};
use mirror_mirror::type_info::{OpaqueType, TypeDescriptor};
use mirror_mirror::{reflect_eq as real_eq, Reflect, Value};
#[cfg(feature = "std")]
use speedy::{Readable, Writable};

use super::convert::small;
use super::paths::gen_key_any;
use super::types::check_descriptor;
use crate::gen::*;
use crate::model::*;
use crate::observe::*;
use crate::run::*;
use crate::walk::*;
use crate::zoo::*;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C12",
            rule: "a case counts when the two values differ in at most a few parts and one of them has at least two",
            subs: vec![
                sub("native", 240000, eq_native),
                sub("dynamic", 200000, eq_dynamic),
                sub("value_of", 120000, eq_value_of),
                sub("unrelated", 60000, eq_unrelated),
                sub("huge", 40, super::huge::equality),
            ],
        },
        Prop {
            id: "C13",
            rule: "a case counts when not all values compared are scalars",
            subs: vec![
                sub("pairs", 240000, value_pairs),
                sub("triples", 160000, value_triples),
                sub("scalars", 160000, scalar_order),
                sub("sets", 20000, value_sets),
                sub("huge", 40, super::huge::order),
            ],
        },
        Prop {
            id: "C14",
            rule: "a case counts when what is written is not a zero scalar, an empty path or a scalar's description",
            subs: vec![
                sub("values", 120000, value_formats),
                sub("native_values", 60000, native_formats),
                sub("paths", 80000, path_formats),
                sub("types", 12000, type_formats),
                sub("own_types", 1000, super::own::written),
                sub("json", 60000, json),
                sub("huge", 40, super::huge::written),
            ],
        },
        Prop {
            id: "C19",
            rule: "a case counts when at least two visits happen",
            subs: vec![sub("native", 160000, visit_native), sub("error", 100000, visit_error), sub("dynamic", 80000, visit_dynamic)],
        },
    ]
}

fn opaque(v: &V) -> bool {
    v.any(&|v| matches!(v, V::Opq(_)))
}

/// Map keys that are not found under the value that shows them.
fn odd_keys(v: &V) -> bool {
    v.any(&|v| matches!(v, V::Map(kvs) if kvs.iter().any(|(k, _)| k.any(&|k| matches!(k, V::NZ(_) | V::Dur(..) | V::Opq(_))))))
}

fn eq_is(what: &str, a: &V, b: &V, ra: &dyn Reflect, rb: &dyn Reflect) -> Res {
    let got = real_eq(ra, rb);
    let (a, b) = (seen(a), seen(b));
    if opaque(&a) || opaque(&b) {
        let blind = |v: &V| v.map_all(&|v| matches!(v, V::Opq(_)).then(|| V::S(Sc::U8(0))));
        if opaque(&a) && opaque(&b) && reflect_eq(&blind(&a), &blind(&b)) {
            same(&format!("{what}: only opaque parts could differ"), None, got)?;
        } else {
            check!(got != Some(true), "{what}: equal in spite of opaque parts");
        }
    } else {
        same(&format!("{what}: {a:?} and {b:?}"), Some(reflect_eq(&a, &b)), got)?;
    }
    same(&format!("{what}: =="), got.unwrap_or(false), *ra == *rb)
}

fn eq_both(a: &V, b: &V, ra: &dyn Reflect, rb: &dyn Reflect) -> Res {
    eq_is("one way", a, b, ra, rb)?;
    eq_is("other way", b, a, rb, ra)?;
    eq_is("first with itself", a, a, ra, ra)?;
    eq_is("second with itself", b, b, rb, rb)
}

/// Another value of the type, the same in most parts.
fn alter(cx: &mut Cx, ty: Ty, v: &V) -> V {
    let mut w = v.clone();
    for _ in 0..cx.src.below(3) {
        let at: Vec<_> = reached(Some(ty), &w).into_iter().filter(|(_, t)| static_ty(*t).is_some()).collect();
        if at.is_empty() {
            break;
        }
        let (addr, t) = cx.src.pick(&at).clone();
        let new = gen_val(&mut cx.src, t.unwrap(), 2);
        *w.sub_mut(&addr) = new;
    }
    w
}

fn eq_native(cx: &mut Cx) -> Res {
    let (e, v) = gen_entry_val(&mut cx.src);
    let w = if cx.src.chance(1, 8) { gen_val(&mut cx.src, e.ty, 2) } else { alter(cx, e.ty, &v) };
    cx.input((e, &v, &w));
    cx.trivial_if(small(&v) && small(&w));
    cx.label(if v == w { "identical" } else { "altered" });
    let (ra, rb) = ((e.make)(&v), (e.make)(&w));
    let (a, b) = (view(e.ty, &v), view(e.ty, &w));
    eq_both(&a, &b, &*ra, &*rb)?;
    if odd_keys(&a) || odd_keys(&b) {
        return Ok(());
    }
    // a value against the dynamic value of the other
    if !opaque(&a) && !opaque(&b) {
        let (va, vb) = (ra.to_value(), rb.to_value());
        eq_is("native and value", &a, &valued(&b), &*ra, &vb)?;
        eq_is("value and native", &valued(&a), &b, &va, &*rb)?;
        eq_is("values", &valued(&a), &valued(&b), &va, &vb)?;
    }
    Ok(())
}

fn eq_dynamic(cx: &mut Cx) -> Res {
    let fuel = cx.src.range(1, 4);
    let v = gen_dyn(&mut cx.src, fuel);
    let w = match cx.src.below(4) {
        0 => v.clone(),
        1 => sort_fields(&v),
        _ => near_miss(&mut cx.src, &v),
    };
    // keys with fields in another order are other keys
    let dup = |v: &V| v.any(&|v| matches!(v, V::Map(kvs) if kvs.iter().enumerate().any(|(i, (k, _))| map_find(kvs, k) != Some(i))));
    cx.input((&v, &w));
    cx.trivial_if(small(&v) && small(&w));
    if dup(&w) {
        cx.trivial();
        return Ok(());
    }
    cx.label(if reflect_eq(&v, &w) { "equal" } else { "different" });
    eq_both(&v, &w, &to_value(&v), &to_value(&w))
}

/// A value equals its dynamic value (unless it has a NaN or opaque parts).
fn eq_value_of(cx: &mut Cx) -> Res {
    let (e, v) = gen_entry_val(&mut cx.src);
    cx.input((e, &v));
    cx.trivial_if(small(&v));
    let a = view(e.ty, &v);
    let r = (e.make)(&v);
    let value = r.to_value();
    if opaque(&a) {
        check!(real_eq(&*r, &value) != Some(true) && real_eq(&value, &*r) != Some(true), "equal in spite of opaque parts");
        return Ok(());
    }
    if odd_keys(&a) {
        return Ok(());
    }
    let nan = seen(&a).any(&|v| match v {
        V::S(Sc::F32(b)) => f32::from_bits(*b).is_nan(),
        V::S(Sc::F64(b)) => f64::from_bits(*b).is_nan(),
        _ => false,
    });
    // a NaN in a key is found all the same
    if !nan {
        same("with its value", Some(true), real_eq(&*r, &value))?;
        same("its value with it", Some(true), real_eq(&value, &*r))?;
        same("with a copy", Some(true), real_eq(&*r, &*r.clone_reflect()))?;
    }
    eq_is("with its value", &a, &valued(&a), &*r, &value)
}

fn eq_unrelated(cx: &mut Cx) -> Res {
    let (e, v) = gen_entry_val(&mut cx.src);
    let (f, w) = gen_entry_val(&mut cx.src);
    cx.input((e, &v, f, &w));
    cx.trivial_if(small(&v) && small(&w));
    let (a, b) = (view(e.ty, &v), view(f.ty, &w));
    if odd_keys(&a) || odd_keys(&b) {
        cx.trivial();
        return Ok(());
    }
    let (ra, rb) = ((e.make)(&v), (f.make)(&w));
    // maps of different types are compared by what their keys convert to
    let maps = |v: &V| v.any(&|v| matches!(v, V::Map(_)));
    if e.ty.id != f.ty.id && maps(&a) && maps(&b) {
        cx.trivial();
        return Ok(());
    }
    eq_both(&a, &b, &*ra, &*rb)
}

fn hash_of<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn compare(a: &V, b: &V, x: &Value, y: &Value) -> Res {
    let want = veq(a, b);
    same(&format!("equality of {x:?} and {y:?}"), want, x == y)?;
    same("inequality", !want, x != y)?;
    let c = x.cmp(y);
    same(&format!("order of {x:?} and {y:?}"), want, c == Ordering::Equal)?;
    same("order, other way round", c.reverse(), y.cmp(x))?;
    same("partial order", Some(c), x.partial_cmp(y))?;
    same("<", c == Ordering::Less, x < y)?;
    same(">=", c != Ordering::Less, x >= y)?;
    if want {
        same("hash", hash_of(x), hash_of(y))?;
    }
    Ok(())
}

fn related(cx: &mut Cx, v: &V) -> V {
    match cx.src.below(6) {
        0 => v.clone(),
        1 => gen_dyn(&mut cx.src, 2),
        2 => flip_floats(v),
        _ => near_miss(&mut cx.src, v),
    }
}

/// The same value with other bits: zeros of the other sign, other NaNs.
fn flip_floats(v: &V) -> V {
    v.map_all(&|v| match v {
        V::S(Sc::F32(b)) => {
            let f = f32::from_bits(*b);
            Some(V::S(Sc::F32(if f == 0.0 {
                (-f).to_bits()
            } else if f.is_nan() {
                b ^ 0x8000_0001
            } else {
                *b
            })))
        }
        V::S(Sc::F64(b)) => {
            let f = f64::from_bits(*b);
            Some(V::S(Sc::F64(if f == 0.0 {
                (-f).to_bits()
            } else if f.is_nan() && *b & 0xff > 1 {
                b ^ 1
            } else {
                *b
            })))
        }
        V::Map(kvs) => Some(V::Map(kvs.iter().map(|(k, v)| (k.clone(), flip_floats(v))).collect())),
        _ => None,
    })
}

fn distinct_keys(v: &V) -> bool {
    !v.any(&|v| matches!(v, V::Map(kvs) if kvs.iter().enumerate().any(|(i, (k, _))| map_find(kvs, k) != Some(i))))
}

fn value_pairs(cx: &mut Cx) -> Res {
    let fuel = cx.src.range(0, 3);
    let a = gen_dyn(&mut cx.src, fuel);
    let b = related(cx, &a);
    cx.input((&a, &b));
    cx.trivial_if(matches!((&a, &b), (V::S(_), V::S(_))) || !distinct_keys(&b));
    if !distinct_keys(&b) {
        return Ok(());
    }
    cx.label(if veq(&a, &b) { "equal" } else { "different" });
    let (x, y) = (to_value(&a), to_value(&b));
    compare(&a, &b, &x, &y)?;
    compare(&a, &a, &x, &x.clone())?;
    compare(&b, &b, &y.clone(), &y)?;
    // the kinds of values on their own
    macro_rules! own {
        ($t:ty) => {{
            let (p, q) = (<$t as Model>::from_v(&a), <$t as Model>::from_v(&b));
            same(concat!("equality of ", stringify!($t)), x == y, p == q)?;
            same(concat!("order of ", stringify!($t)), x.cmp(&y), p.cmp(&q))?;
            if x == y {
                same(concat!("hash of ", stringify!($t)), hash_of(&p), hash_of(&q))?;
            }
        }};
    }
    match (&a, &b) {
        (V::Struct(_), V::Struct(_)) => own!(mirror_mirror::struct_::StructValue),
        (V::Enum(..), V::Enum(..)) => own!(mirror_mirror::enum_::EnumValue),
        (V::Tuple(_), V::Tuple(_)) => own!(mirror_mirror::tuple::TupleValue),
        (V::TStruct(_), V::TStruct(_)) => own!(mirror_mirror::tuple_struct::TupleStructValue),
        _ => {}
    }
    Ok(())
}

fn value_triples(cx: &mut Cx) -> Res {
    let fuel = cx.src.range(0, 3);
    let a = gen_dyn(&mut cx.src, fuel);
    let b = related(cx, &a);
    let c = if cx.src.chance(1, 2) { related(cx, &b) } else { related(cx, &a) };
    cx.input((&a, &b, &c));
    cx.trivial_if(matches!((&a, &b, &c), (V::S(_), V::S(_), V::S(_))));
    let mut v = [to_value(&a), to_value(&b), to_value(&c)];
    for i in 0..3 {
        for j in 0..3 {
            for k in 0..3 {
                check!(!(v[i] <= v[j] && v[j] <= v[k]) || v[i] <= v[k], "not transitive: {:?} {:?} {:?}", v[i], v[j], v[k]);
                check!(!(v[i] == v[j] && v[j] == v[k]) || v[i] == v[k], "equality not transitive: {:?} {:?} {:?}", v[i], v[j], v[k]);
                check!(!(v[i] == v[j]) || v[i].cmp(&v[k]) == v[j].cmp(&v[k]), "equal values in different order: {:?} {:?} {:?}", v[i], v[j], v[k]);
            }
        }
    }
    v.sort();
    check!(v[0] <= v[1] && v[1] <= v[2], "sorting");
    Ok(())
}

fn float_order(a: f64, b: f64) -> Ordering {
    match (a.is_nan(), b.is_nan()) {
        (true, true) => Ordering::Equal,
        (true, false) => Ordering::Greater,
        (false, true) => Ordering::Less,
        _ => a.partial_cmp(&b).unwrap(),
    }
}

/// Scalars of one kind are in the order of their type, NaN last; lists of them as lists are.
fn scalar_order(cx: &mut Cx) -> Res {
    let k = *cx.src.pick(ALL_SK);
    let n = cx.src.range(1, 3);
    let xs: Vec<Sc> = (0..n).map(|_| gen_sc(&mut cx.src, k)).collect();
    let mut ys: Vec<Sc> = xs.clone();
    let i = cx.src.below(n);
    ys[i] = gen_sc(&mut cx.src, k);
    cx.input((&xs, &ys));
    cx.trivial_if(xs == ys);
    for (a, b) in xs.iter().zip(&ys) {
        let want = match (a, b) {
            (Sc::F32(a), Sc::F32(b)) => float_order(f32::from_bits(*a) as f64, f32::from_bits(*b) as f64),
            (Sc::F64(a), Sc::F64(b)) => float_order(f64::from_bits(*a), f64::from_bits(*b)),
            (a, b) => a.cmp(b),
        };
        same(&format!("order of {a:?} and {b:?}"), want, a.to_value().cmp(&b.to_value()))?;
        compare(&V::S(a.clone()), &V::S(b.clone()), &a.to_value(), &b.to_value())?;
    }
    // as one scalar of each kind, never equal
    let k2 = *cx.src.pick(ALL_SK);
    if k2 != k {
        check!(xs[0].to_value() != Sc::zero(k2).to_value(), "scalars of two kinds are equal");
        check!(Sc::zero(k).to_value() != Sc::zero(k2).to_value(), "zeros of two kinds are equal");
    }
    Ok(())
}

/// Sets and maps of values hold one of each.
fn value_sets(cx: &mut Cx) -> Res {
    let fuel = cx.src.range(0, 2);
    let mut pool = vec![gen_dyn_key(&mut cx.src, fuel)];
    for _ in 0..cx.src.range(1, 9) {
        let i = cx.src.below(pool.len());
        let v = pool[i].clone();
        let w = related(cx, &v);
        if distinct_keys(&w) {
            pool.push(w);
        }
    }
    cx.input(&pool);
    cx.trivial_if(pool.len() < 2);
    let mut distinct: Vec<&V> = vec![];
    for v in &pool {
        if distinct.iter().all(|w| !veq(v, w)) {
            distinct.push(v);
        }
    }
    let tree: BTreeSet<Value> = pool.iter().map(to_value).collect();
    let hashed: HashSet<Value> = pool.iter().map(to_value).collect();
    same("size of the tree set", distinct.len(), tree.len())?;
    same("size of the hash set", distinct.len(), hashed.len())?;
    let mut map: BTreeMap<Value, usize> = BTreeMap::new();
    for (i, v) in pool.iter().enumerate() {
        map.insert(to_value(v), i);
        same("found again", Some(&i), map.get(&to_value(v)))?;
    }
    for v in &pool {
        check!(tree.contains(&to_value(v)) && hashed.contains(&to_value(v)), "{v:?} is not in the set");
    }
    let mut sorted: Vec<Value> = pool.iter().map(to_value).collect();
    sorted.sort();
    for w in sorted.windows(2) {
        check!(w[0] <= w[1], "sorting");
    }
    sorted.dedup();
    check!(sorted == tree.into_iter().collect::<Vec<_>>(), "a sorted list and a set differ");
    Ok(())
}

/// What goes through speedy, in builds that have it.
#[cfg(feature = "std")]
trait Speedy: Writable<speedy::LittleEndian> + for<'a> Readable<'a, speedy::LittleEndian> + Writable<speedy::BigEndian> + for<'a> Readable<'a, speedy::BigEndian> {}
#[cfg(feature = "std")]
impl<T> Speedy for T where T: Writable<speedy::LittleEndian> + for<'a> Readable<'a, speedy::LittleEndian> + Writable<speedy::BigEndian> + for<'a> Readable<'a, speedy::BigEndian> {}
#[cfg(not(feature = "std"))]
trait Speedy {}
#[cfg(not(feature = "std"))]
impl<T> Speedy for T {}

pub fn formats<T>(what: &str, x: &T, eq: &dyn Fn(&T) -> Res) -> Res
where
    T: serde::Serialize + serde::de::DeserializeOwned + Speedy,
{
    let bytes = bincode::serialize(x).map_err(|e| format!("{what}: bincode can't write: {e}"))?;
    let y: T = bincode::deserialize(&bytes).map_err(|e| format!("{what}: bincode can't read: {e}"))?;
    eq(&y).map_err(|e| format!("{what} through bincode: {e}"))?;
    check!(bincode::serialize(&y).ok() == Some(bytes), "{what}: bincode writes it differently after reading");
    formats_speedy(what, x, eq)
}

#[cfg(not(feature = "std"))]
fn formats_speedy<T: Speedy>(_: &str, _: &T, _: &dyn Fn(&T) -> Res) -> Res {
    Ok(())
}

#[cfg(feature = "std")]
fn formats_speedy<T: Speedy>(what: &str, x: &T, eq: &dyn Fn(&T) -> Res) -> Res {
    let bytes = x.write_to_vec_with_ctx(speedy::LittleEndian::default()).map_err(|e| format!("{what}: speedy can't write: {e}"))?;
    let y = T::read_from_buffer_with_ctx(speedy::LittleEndian::default(), &bytes).map_err(|e| format!("{what}: speedy can't read: {e}"))?;
    eq(&y).map_err(|e| format!("{what} through speedy: {e}"))?;
    let bytes = x.write_to_vec_with_ctx(speedy::BigEndian::default()).map_err(|e| format!("{what}: speedy can't write: {e}"))?;
    let y = T::read_from_buffer_with_ctx(speedy::BigEndian::default(), &bytes).map_err(|e| format!("{what}: speedy can't read: {e}"))?;
    eq(&y).map_err(|e| format!("{what} through big-endian speedy: {e}"))
}

fn value_formats(cx: &mut Cx) -> Res {
    let fuel = cx.src.range(0, 4);
    let v = gen_dyn(&mut cx.src, fuel);
    cx.input(&v);
    cx.trivial_if(small(&v));
    let x = to_value(&v);
    formats("value", &x, &|y| {
        shows("value", &v, &observe(y))?;
        check!(x == *y, "differs: {y:?}");
        coherent(None, &v, y)
    })?;
    macro_rules! own {
        ($t:ty) => {{
            let p = <$t as Model>::from_v(&v);
            formats(stringify!($t), &p, &|q| {
                shows("value", &v, &observe(q))?;
                same("equality", &p, q)
            })?;
        }};
    }
    match &v {
        V::Struct(_) => own!(mirror_mirror::struct_::StructValue),
        V::Enum(..) => own!(mirror_mirror::enum_::EnumValue),
        V::Tuple(_) => own!(mirror_mirror::tuple::TupleValue),
        V::TStruct(_) => own!(mirror_mirror::tuple_struct::TupleStructValue),
        _ => {}
    }
    Ok(())
}

/// A native value, written as a value and read back, converts to the native value again.
fn native_formats(cx: &mut Cx) -> Res {
    let (e, v) = gen_entry_val(&mut cx.src);
    cx.input((e, &v));
    cx.trivial_if(small(&v));
    let vw = valued(&view(e.ty, &v));
    let x = (e.make)(&v).to_value();
    let want = from(e.ty, &vw, false);
    formats(e.label, &x, &|y| {
        shows("value", &vw, &observe(y))?;
        super::convert::is(&want, &(e.from_reflect)(y), "converted back")
    })
}

fn path_formats(cx: &mut Cx) -> Res {
    let n = cx.src.below(6);
    let m: Vec<K> = (0..n).map(|_| gen_key_any(&mut cx.src)).collect();
    cx.input(&m);
    cx.trivial_if(n == 0);
    let p = key_path(&m);
    formats("key path", &p, &|q: &KeyPath| {
        check!(p == *q, "differs: {q}");
        same("display", p.to_string(), q.to_string())?;
        check!(q.iter().zip(&m).all(|(k, m)| super::paths::is_key(k, m)), "differs: {q:?}");
        Ok(())
    })?;
    for k in p {
        formats("key", &k, &|q: &Key| same("key", &k, q))?;
    }
    Ok(())
}

fn type_formats(cx: &mut Cx) -> Res {
    let e = pick_entry(&mut cx.src);
    cx.input(e);
    cx.trivial_if(matches!(e.ty.k, TK::Sc(_)));
    let d = (e.descriptor)().into_owned();
    let path = gen_type_path(&mut cx.src, e.ty);
    cx.input(&path);
    let p = key_path(&path);
    let agrees = |q: &TypeDescriptor| -> Res {
        check!(d == *q, "the descriptors differ");
        check_descriptor(q, e.ty)?;
        check_at(q.type_at(&p), type_at(e.ty, &path), "type at a path")?;
        same("default value", d.default_value(), q.default_value())
    };
    formats("type descriptor", &d, &agrees)?;
    let text = serde_json::to_string(&d).map_err(|e| format!("JSON can't write the descriptor: {e}"))?;
    let q: TypeDescriptor = serde_json::from_str(&text).map_err(|e| format!("JSON can't read the descriptor: {e}"))?;
    agrees(&q).map_err(|e| format!("descriptor through JSON: {e}"))
}

/// JSON holds everything but maps with keys other than text and floats that are no numbers.
fn json(cx: &mut Cx) -> Res {
    let fuel = cx.src.range(0, 4);
    let v = gen_dyn(&mut cx.src, fuel).map_all(&|v| match v {
        V::Map(kvs) => Some(V::List(kvs.iter().enumerate().map(|(i, _)| V::S(Sc::Usize(i))).collect())),
        V::S(Sc::F32(b)) => Some(V::S(Sc::F32(((*b % 4096) as f32 / 8.0).to_bits()))),
        V::S(Sc::F64(b)) => Some(V::S(Sc::F64(((*b % 4096) as f64 / 8.0).to_bits()))),
        _ => None,
    });
    cx.input(&v);
    cx.trivial_if(small(&v));
    if v.depth() > 20 {
        // the JSON reader has a limit
        cx.trivial();
        return Ok(());
    }
    let x = to_value(&v);
    let text = serde_json::to_string(&x).map_err(|e| format!("can't write: {e}"))?;
    let y: Value = serde_json::from_str(&text).map_err(|e| format!("can't read {text}: {e}"))?;
    shows("value", &v, &observe(&y))?;
    check!(x == y, "differs: {y:?}");
    // as a tree
    let tree = serde_json::to_value(&x).map_err(|e| format!("can't write: {e}"));
    if let Ok(tree) = tree {
        if let Ok(y) = serde_json::from_value::<Value>(tree) {
            shows("value through a tree", &v, &observe(&y))?;
        }
    }
    let path = vec![K::Get(v.clone()), K::Named("x".into()), K::Num(3), K::Var("A".into())];
    let p = key_path(&path);
    let text = serde_json::to_string(&p).map_err(|e| format!("can't write: {e}"))?;
    let q: KeyPath = serde_json::from_str(&text).map_err(|e| format!("can't read {text}: {e}"))?;
    check!(p == q, "path differs: {q}");
    Ok(())
}

#[derive(Clone, PartialEq, Debug)]
enum Ev {
    Sc(Sc),
    Opq(String, V),
}

struct Rec {
    evs: Vec<Ev>,
    fail_at: usize,
}

impl Rec {
    fn add(&mut self, e: Ev) -> Result<(), usize> {
        let n = self.evs.len();
        self.evs.push(e);
        if n == self.fail_at {
            Err(n)
        } else {
            Ok(())
        }
    }
}

macro_rules! visits {
    ($($f:ident $sc:ident $t:ty, $x:ident => $e:expr;)*) => { $(
        fn $f(&mut self, $x: $t) -> Result<(), usize> { self.add(Ev::Sc(Sc::$sc($e))) }
    )* };
}

impl TryVisit for Rec {
    type Error = usize;
    visits! {
        try_visit_usize Usize usize, x => x;
        try_visit_u8 U8 u8, x => x;
        try_visit_u16 U16 u16, x => x;
        try_visit_u32 U32 u32, x => x;
        try_visit_u64 U64 u64, x => x;
        try_visit_u128 U128 u128, x => x;
        try_visit_i8 I8 i8, x => x;
        try_visit_i16 I16 i16, x => x;
        try_visit_i32 I32 i32, x => x;
        try_visit_i64 I64 i64, x => x;
        try_visit_i128 I128 i128, x => x;
        try_visit_bool Bool bool, x => x;
        try_visit_char Char char, x => x;
        try_visit_f32 F32 f32, x => x.to_bits();
        try_visit_f64 F64 f64, x => x.to_bits();
        try_visit_string Str &String, x => x.clone();
    }
    fn try_visit_opaque(&mut self, value: &dyn Reflect, ty: OpaqueType<'_>) -> Result<(), usize> {
        self.add(Ev::Opq(ty.type_name().to_string(), observe(value)))
    }
}

/// Visits nothing in particular.
struct Nothing;

impl TryVisit for Nothing {
    type Error = ();
}

/// What visiting `v` (a value, or a view, of type `ty`, maps in order) shows.
fn events(ty: Ty, v: &V, whole: bool, out: &mut Vec<Ev>) {
    match (&ty.k, v) {
        (TK::Sc(_), V::S(s)) => out.push(Ev::Sc(s.clone())),
        (TK::Nz(_) | TK::Dur | TK::Opq | TK::Dyn(_), v) => out.push(Ev::Opq(ty.name.to_string(), seen(v))),
        (TK::Map(kt, vt), V::Map(kvs)) => {
            for (k, v) in kvs {
                events(kt(), k, whole, out);
                events(vt(), v, whole, out);
            }
        }
        (_, v) if whole => {
            for k in kids(Some(ty), v) {
                events(k.ty.unwrap(), k.v, whole, out);
            }
        }
        // a view: in the order of the type
        (TK::Struct(fds), V::Struct(fs)) => {
            for d in fds.iter().filter(|d| !d.skip) {
                let f = fs.iter().find(|f| f.0 == d.name).unwrap();
                events((d.ty)(), &f.1, whole, out);
            }
        }
        (TK::Enum(vds), V::Enum(n, k, fs)) => {
            let vd = vds.iter().find(|d| d.name == n).unwrap();
            for (i, d) in vd.fields.iter().filter(|d| !d.skip).enumerate() {
                let f = if *k == VK::Struct { fs.iter().find(|f| f.0 == d.name).unwrap() } else { &fs[i] };
                events((d.ty)(), &f.1, whole, out);
            }
        }
        (TK::TStruct(fds), V::TStruct(fs)) => {
            for (d, f) in fds.iter().filter(|d| !d.skip).zip(fs) {
                events((d.ty)(), f, whole, out);
            }
        }
        (TK::Tuple(ts), V::Tuple(fs)) => {
            for (t, f) in ts.iter().zip(fs) {
                events(t(), f, whole, out);
            }
        }
        (TK::List(t), V::List(xs)) | (TK::Arr(t, _), V::Array(xs)) => {
            for x in xs {
                events(t(), x, whole, out);
            }
        }
        _ => panic!("bad model"),
    }
}

fn same_events(want: &[Ev], got: &[Ev]) -> Res {
    let eq = |a: &Ev, b: &Ev| match (a, b) {
        (Ev::Opq(n, v), Ev::Opq(m, w)) => n == m && matches(v, w),
        (a, b) => a == b,
    };
    check!(want.len() == got.len() && want.iter().zip(got).all(|(a, b)| eq(a, b)), "visits: expected {want:?}, got {got:?}");
    Ok(())
}

/// The value with its maps in their own order.
fn in_order(e: &Entry, v: &V) -> (V, Box<dyn Reflect>) {
    let r = (e.make)(v);
    ((e.down)(&*r).unwrap(), r)
}

fn visit_native(cx: &mut Cx) -> Res {
    let (e, v) = gen_entry_val(&mut cx.src);
    cx.input((e, &v));
    let (v, r) = in_order(e, &v);
    let mut want = vec![];
    events(e.ty, &v, true, &mut want);
    cx.trivial_if(want.len() < 2);
    let d = (e.descriptor)();
    let mut rec = Rec { evs: vec![], fail_at: usize::MAX };
    same("result", Ok(()), try_visit(&mut rec, &*r, d.get_type()))?;
    same_events(&want, &rec.evs)?;
    same("result of a visitor that does nothing", Ok(()), try_visit(&mut Nothing, &*r, d.get_type()))?;
    holds(e, "after a visit", &v, &*r)?;
    // a part, by the type of the part
    let parts: Vec<_> = reached(Some(e.ty), &v).into_iter().filter(|(_, t)| t.is_some()).collect();
    let (addr, t) = cx.src.pick(&parts).clone();
    let t = t.unwrap();
    let mut r = r;
    let (part, _) = nav_mut(&mut cx.src, Some(e.ty), &v, &mut *r, &addr)?;
    let mut want = vec![];
    events(t, v.sub(&addr), true, &mut want);
    let mut rec = Rec { evs: vec![], fail_at: usize::MAX };
    match entry_of(t) {
        Some(e2) => {
            let d2 = (e2.descriptor)();
            same("result", Ok(()), try_visit(&mut rec, part, d2.get_type()))?;
            same_events(&want, &rec.evs)
        }
        None => Ok(()),
    }
}

fn visit_error(cx: &mut Cx) -> Res {
    let (e, v) = gen_entry_val(&mut cx.src);
    let (v, r) = in_order(e, &v);
    let mut want = vec![];
    events(e.ty, &v, true, &mut want);
    let k = cx.src.below(want.len() + 1);
    cx.input((e, &v, k));
    cx.trivial_if(want.len() < 2);
    let d = (e.descriptor)();
    let mut rec = Rec { evs: vec![], fail_at: k };
    let got = try_visit(&mut rec, &*r, d.get_type());
    if k < want.len() {
        cx.label("stopped");
        same("result", Err(k), got)?;
        same_events(&want[..k + 1], &rec.evs)
    } else {
        same("result", Ok(()), got)?;
        same_events(&want, &rec.evs)
    }
}

/// A dynamic value visited by the type it stands for: in the order of the type.
fn visit_dynamic(cx: &mut Cx) -> Res {
    let (e, v) = gen_entry_val(&mut cx.src);
    let mut vw = valued(&view(e.ty, &v));
    if view(e.ty, &v).any(&|v| matches!(v, V::Array(_))) {
        // arrays become lists, which are no arrays
        cx.trivial();
        return Ok(());
    }
    // fields in any order
    let mut spots = addresses(&vw);
    spots.sort_by_key(|a| std::cmp::Reverse(a.len()));
    for a in spots {
        let s = vw.sub_mut(&a);
        if let V::Struct(fs) | V::Enum(_, VK::Struct, fs) = s {
            cx.src.shuffle(fs);
        }
    }
    cx.input((e, &vw));
    let value = to_value(&vw);
    let mut want = vec![];
    events(e.ty, &observe(&value), false, &mut want);
    cx.trivial_if(want.len() < 2);
    let d = (e.descriptor)();
    let mut rec = Rec { evs: vec![], fail_at: usize::MAX };
    same("result", Ok(()), try_visit(&mut rec, &value, d.get_type()))?;
    same_events(&want, &rec.evs)
}
