//! C03 coherent reads, C04 writes and their frame, C25 typed field access.

use std::time::Duration;

use mirror_mirror::{GetField, GetFieldMut, Reflect, ReflectMut, ReflectRef, Value};

use super::convert::small;
use crate::gen_zoo::{EKinds, Pair};
use crate::gen::*;
use crate::model::*;
use crate::observe::*;
use crate::run::*;
use crate::tape::Src;
use crate::walk::*;
use crate::zoo::*;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C03",
            rule: "a case counts when the value read has at least two parts",
            subs: vec![sub("native", 196000, read_native), sub("dynamic", 84000, read_dynamic)],
        },
        Prop {
            id: "C04",
            rule: "a case counts when at least one write changed the value",
            subs: vec![
                sub("native", 252000, write_native),
                sub("dynamic", 84000, write_dynamic),
                sub("rewrite", 112000, rewrite),
                sub("no_access", 84000, no_access),
            ],
        },
        Prop {
            id: "C25",
            rule: "a case counts when the value has a field to get",
            subs: vec![sub("native", 168000, typed_native), sub("value", 168000, typed_value)],
        },
    ]
}

fn read_native(cx: &mut Cx) -> Res {
    let (e, v) = gen_entry_val(&mut cx.src);
    cx.input((e, &v));
    cx.trivial_if(small(&v));
    cx.label(kind_of(&v));
    let mut r = (e.make)(&v);
    coherent(Some(e.ty), &v, &*r)?;
    let (addr, t) = a_part(cx, Some(e.ty), &v);
    let (part, _) = nav_mut(&mut cx.src, Some(e.ty), &v, &mut *r, &addr)?;
    coherent_mut(t, v.sub(&addr), part)?;
    holds(e, "after reading", &v, &*r)
}

fn read_dynamic(cx: &mut Cx) -> Res {
    let fuel = cx.src.range(1, 4);
    let v = gen_dyn(&mut cx.src, fuel);
    cx.input(&v);
    cx.trivial_if(small(&v));
    cx.label(kind_of(&v));
    let mut r = to_value(&v);
    coherent(None, &v, &r)?;
    let (addr, t) = a_part(cx, None, &v);
    let (part, _) = nav_mut(&mut cx.src, None, &v, &mut r, &addr)?;
    coherent_mut(t, v.sub(&addr), part)?;
    shows("after reading", &v, &observe(&r))
}

/// The value or a part of it.
fn a_part(cx: &mut Cx, ty: Option<Ty>, v: &V) -> (Vec<usize>, Option<Ty>) {
    if cx.src.chance(1, 2) {
        return (vec![], ty);
    }
    let at = reached(ty, v);
    cx.src.pick(&at).clone()
}

fn writes(cx: &mut Cx, ty: Option<Ty>, v: &mut V, r: &mut dyn Reflect, after: &dyn Fn(&V, &dyn Reflect) -> Res) -> Res {
    let n = cx.src.range(1, 4);
    let mut changed = false;
    for _ in 0..n {
        let at = reached(ty, v);
        let i = cx.src.below(at.len());
        let (addr, t) = at[i].clone();
        let (target, tt) = nav_mut(&mut cx.src, ty, v, r, &addr)?;
        same("type reached", t.map(|t| t.name), tt.map(|t| t.name))?;
        let sub = v.sub(&addr).clone();
        shows("reached", &see(t, &sub), &observe(target))?;
        if let Some(new) = overwrite(&mut cx.src, t, &sub, target)? {
            cx.input((&addr, &new));
            changed |= new != sub;
            *v.sub_mut(&addr) = new;
        }
        after(v, r)?;
    }
    cx.trivial_if(!changed);
    Ok(())
}

fn write_native(cx: &mut Cx) -> Res {
    let (e, mut v) = gen_entry_val(&mut cx.src);
    cx.input((e, &v));
    let mut r = (e.make)(&v);
    let ty = Some(e.ty);
    writes(cx, ty, &mut v, &mut *r, &|v, r| holds(e, "after a write", v, r))?;
    coherent(ty, &v, &*r)
}

fn write_dynamic(cx: &mut Cx) -> Res {
    let fuel = cx.src.range(1, 4);
    let mut v = gen_dyn(&mut cx.src, fuel);
    cx.input(&v);
    let mut r = to_value(&v);
    writes(cx, None, &mut v, &mut r, &|v, r| shows("after a write", v, &observe(r)))?;
    coherent(None, &v, &r)
}

fn rewrite(cx: &mut Cx) -> Res {
    let (e, v) = gen_entry_val(&mut cx.src);
    cx.input((e, &v));
    let mut r = (e.make)(&v);
    let mut w = v.clone();
    rewrite_all(&mut cx.src, Some(e.ty), &mut w, &mut *r)?;
    cx.trivial_if(w == v);
    holds(e, "after rewriting all scalars", &w, &*r)
}

/// A key no generated map has: no map has opaque keys, and a map of dynamic keys, where this
/// becomes its number, is never given this one.
const NOWHERE: Opaque = Opaque(3_141_592_653);

/// Mutable access to what does not exist gives nothing and changes nothing.
fn no_access(cx: &mut Cx) -> Res {
    let (e, v) = gen_entry_val(&mut cx.src);
    cx.input((e, &v));
    let mut r = (e.make)(&v);
    let at = reached(Some(e.ty), &v);
    let i = cx.src.below(at.len());
    let (addr, t) = at[i].clone();
    cx.input(&addr);
    let (target, _) = nav_mut(&mut cx.src, Some(e.ty), &v, &mut *r, &addr)?;
    let sub = v.sub(&addr);
    let ks = kids(t, sub);
    let n = ks.len();
    cx.trivial_if(matches!(sub, V::S(_) | V::NZ(_) | V::Dur(..) | V::Opq(_)));
    let far = *cx.src.pick(&[n, n + 1, n + 3, usize::MAX]);
    let mut name = *cx.src.pick(&["", "nope", "0", "hidden", "A", "selff", "x"]);
    if ks.iter().any(|k| k.name == name) {
        name = "no such field";
    }
    let some = match target.reflect_mut() {
        ReflectMut::Struct(s) => s.field_at_mut(far).is_some() || s.field_mut(name).is_some(),
        ReflectMut::TupleStruct(s) => s.field_at_mut(far).is_some(),
        ReflectMut::Tuple(s) => s.field_at_mut(far).is_some(),
        ReflectMut::Enum(s) => s.field_at_mut(far).is_some() || s.field_mut(name).is_some(),
        ReflectMut::Array(s) => s.get_mut(far).is_some(),
        ReflectMut::List(s) => s.get_mut(far).is_some() || s.try_remove(far).is_some(),
        ReflectMut::Map(s) => s.get_mut(&NOWHERE).is_some() || s.remove(&NOWHERE).is_some(),
        _ => false,
    };
    check!(!some, "access to field {far} of {n} or {name:?}");
    holds(e, "after failed accesses", &v, &*r)
}

/// `get_field` with the right type, and with a wrong one.
macro_rules! typed {
    ($s:expr, $kid:expr, $x:expr, $key:expr) => {{
        let (kid, what) = ($kid, $s);
        macro_rules! go {
            ($sc:ident $t:ident $get:expr, $wrong:ty) => {{
                match $x.get_field::<$t>($key) {
                    Some(g) => check!(Sc::$sc($get(g)) == *match kid { V::S(s) => s, _ => unreachable!() }, "{what}: got {g:?}, not {kid:?}"),
                    None => return Err(format!("{what}: no field of type {} for {kid:?}", stringify!($t))),
                }
                check!($x.get_field::<$wrong>($key).is_none(), "{what}: got a {} for {kid:?}", stringify!($wrong));
            }};
        }
        match kid {
            V::S(Sc::I32(_)) => go!(I32 i32 |g: &i32| *g, u8),
            V::S(Sc::U8(_)) => go!(U8 u8 |g: &u8| *g, i32),
            V::S(Sc::U32(_)) => go!(U32 u32 |g: &u32| *g, f32),
            V::S(Sc::I64(_)) => go!(I64 i64 |g: &i64| *g, u64),
            V::S(Sc::Bool(_)) => go!(Bool bool |g: &bool| *g, u8),
            V::S(Sc::Char(_)) => go!(Char char |g: &char| *g, u32),
            V::S(Sc::Str(_)) => go!(Str String |g: &String| g.clone(), char),
            V::S(Sc::F32(_)) => go!(F32 f32 |g: &f32| g.to_bits(), f64),
            V::S(Sc::F64(_)) => go!(F64 f64 |g: &f64| g.to_bits(), f32),
            _ => {
                check!($x.get_field::<std::collections::BTreeMap<u128, u128>>($key).is_none(), "{what}: got a map for {kid:?}");
            }
        }
    }};
}

/// Write a new scalar through `get_field_mut`; whether there is a type to do it with.
macro_rules! typed_mut {
    ($src:expr, $s:expr, $kid:expr, $x:expr, $key:expr) => {{
        let (kid, what) = ($kid, $s);
        macro_rules! go {
            ($sc:ident $t:ident $new:expr, $set:expr) => {{
                let Sc::$sc(n) = gen_sc($src, SK::$sc) else { unreachable!() };
                match $x.get_field_mut::<$t>($key) {
                    Some(g) => *g = $set(&n),
                    None => return Err(format!("{what}: no mutable field of type {} for {kid:?}", stringify!($t))),
                }
                Some(V::S(Sc::$sc(n)))
            }};
        }
        match kid {
            V::S(Sc::I32(_)) => go!(I32 i32 0, |n: &i32| *n),
            V::S(Sc::U8(_)) => go!(U8 u8 0, |n: &u8| *n),
            V::S(Sc::U32(_)) => go!(U32 u32 0, |n: &u32| *n),
            V::S(Sc::Bool(_)) => go!(Bool bool 0, |n: &bool| *n),
            V::S(Sc::Str(_)) => go!(Str String 0, |n: &String| n.clone()),
            V::S(Sc::F64(_)) => go!(F64 f64 0, |n: &u64| f64::from_bits(*n)),
            _ => {
                check!($x.get_field_mut::<std::collections::BTreeMap<u128, u128>>($key).is_none(), "{what}: got a map for {kid:?}");
                None
            }
        }
    }};
}

/// Nothing of any type is at a place that doesn't exist.
macro_rules! absent {
    ($what:expr, $x:expr, $key:expr) => {
        absent!($what, $x, $key, i32 u8 u32 i64 bool char String f32 f64 Value Duration Pair EKinds)
    };
    ($what:expr, $x:expr, $key:expr, $($t:ident)*) => {{
        $(
            check!($x.get_field::<$t>($key).is_none(), "{}: got a {}", $what, stringify!($t));
            check!($x.get_field_mut::<$t>($key).is_none(), "{}: got a mutable {}", $what, stringify!($t));
        )*
    }};
}

fn typed_native(cx: &mut Cx) -> Res {
    let (e, v) = gen_entry_val(&mut cx.src);
    cx.input((e, &v));
    let mut r = (e.make)(&v);
    let ty = Some(e.ty);
    let ks: Vec<(String, V, usize)> = kids(ty, &v).iter().map(|k| (k.name.to_string(), k.v.clone(), k.addr)).collect();
    cx.trivial_if(ks.is_empty());
    let n = ks.len();
    for (i, (name, kid, _)) in ks.iter().enumerate() {
        let name = name.as_str();
        // dynamic parts are shown as what they hold
        match r.reflect_ref() {
            ReflectRef::Struct(s) => typed!("struct field", kid, s, name),
            ReflectRef::TupleStruct(s) => typed!("tuple struct field", kid, s, i),
            ReflectRef::Tuple(s) => typed!("tuple field", kid, s, i),
            ReflectRef::Enum(s) => {
                typed!("variant field", kid, s, i);
                if !name.is_empty() {
                    typed!("variant field", kid, s, name);
                }
            }
            ReflectRef::List(s) => typed!("list element", kid, s, i),
            ReflectRef::Array(s) => typed!("array element", kid, s, i),
            _ => {}
        }
    }
    if let (V::Map(kvs), Some(m)) = (&v, r.as_map()) {
        for (k, kid) in kvs {
            let key = to_value(&valued(&see(key_ty(ty), k)));
            if !matches!(key_ty(ty).map(|t| &t.k), Some(TK::Dyn(_))) && !k.any(&|k| matches!(k, V::Dur(..))) {
                typed!("map value", kid, m, key.clone());
                if let V::S(Sc::Str(k)) = k {
                    typed!("map value by &str key", kid, m, k.as_str());
                }
            }
        }
    }
    let far = *cx.src.pick(&[n, n, n + 1, usize::MAX]);
    match r.reflect_mut() {
        ReflectMut::Struct(mut s) => absent!("no such field", s, "no such"),
        ReflectMut::TupleStruct(mut s) => absent!("field after the last", s, far),
        ReflectMut::Tuple(mut s) => absent!("field after the last", s, far),
        ReflectMut::Enum(mut s) => {
            absent!("field after the last", s, far);
            absent!("no such field", s, "no such");
        }
        ReflectMut::List(mut s) => absent!("element after the last", s, far),
        ReflectMut::Array(mut s) => absent!("element after the last", s, far),
        ReflectMut::Map(mut s) => absent!("no such key", s, NOWHERE),
        _ => {}
    }
    if n == 0 {
        return Ok(());
    }
    let i = cx.src.below(n);
    let (name, kid, addr) = &ks[i];
    let map_key = match &v {
        V::Map(kvs) => {
            let key = &kvs[i].0;
            if matches!(key_ty(ty).map(|t| &t.k), Some(TK::Dyn(_))) || key.any(&|k| matches!(k, V::Dur(..))) {
                return Ok(());
            }
            Some((key, to_value(&valued(&see(key_ty(ty), key)))))
        }
        _ => None,
    };
    let src: &mut Src = &mut cx.src;
    let by_name = src.chance(1, 2);
    let new = match r.reflect_mut() {
        ReflectMut::Struct(s) => typed_mut!(src, "struct field", kid, s, name.as_str()),
        ReflectMut::TupleStruct(s) => typed_mut!(src, "tuple struct field", kid, s, i),
        ReflectMut::Tuple(s) => typed_mut!(src, "tuple field", kid, s, i),
        ReflectMut::Enum(s) if by_name && !name.is_empty() => typed_mut!(src, "variant field", kid, s, name.as_str()),
        ReflectMut::Enum(s) => typed_mut!(src, "variant field", kid, s, i),
        ReflectMut::List(s) => typed_mut!(src, "list element", kid, s, i),
        ReflectMut::Array(s) => typed_mut!(src, "array element", kid, s, i),
        ReflectMut::Map(s) => match map_key {
            Some((V::S(Sc::Str(k)), _)) if by_name => typed_mut!(src, "map value by &str key", kid, s, k.as_str()),
            Some((_, key)) => typed_mut!(src, "map value", kid, s, key.clone()),
            None => None,
        },
        _ => None,
    };
    let mut w = v.clone();
    if let Some(new) = new {
        *w.sub_mut(&[*addr]) = new;
    }
    holds(e, "after a typed write", &w, &*r)
}

fn typed_value(cx: &mut Cx) -> Res {
    let v = loop {
        let v = gen_dyn(&mut cx.src, 3);
        if !matches!(v, V::S(_)) || cx.src.chance(1, 4) {
            break v;
        }
        // a scalar has no fields; the second choice is a struct
        break gen_dyn_kind(&mut cx.src, DK::Struct, 3);
    };
    cx.input(&v);
    let mut value: Value = to_value(&v);
    let ks: Vec<(String, V, usize)> = kids(None, &v).iter().map(|k| (k.name.to_string(), k.v.clone(), k.addr)).collect();
    cx.trivial_if(ks.is_empty());
    // a map may have any number as a key, but never this one
    let nowhere = if matches!(v, V::Map(_)) { 3_141_592_653 } else { usize::MAX };
    for (i, (name, kid, _)) in ks.iter().enumerate() {
        let x = &value;
        match &v {
            V::Struct(_) => {
                typed!("field by &str", kid, x, name.as_str());
                typed!("field by String", kid, x, name.clone());
                check!(x.get_field::<i32>(i).is_none(), "field of a struct by number");
            }
            V::Enum(_, VK::Struct, _) => {
                typed!("field by &str", kid, x, name.as_str());
                typed!("field by String", kid, x, name.clone());
                typed!("field by number", kid, x, i);
            }
            V::Enum(..) | V::TStruct(_) | V::Tuple(_) | V::List(_) => {
                typed!("field by number", kid, x, i);
                check!(x.get_field::<i32>("a").is_none(), "field by name");
            }
            V::Map(kvs) => {
                typed!("by key", kid, x, to_value(&kvs[i].0));
                match &kvs[i].0 {
                    V::S(Sc::Str(s)) => {
                        typed!("by String key", kid, x, s.clone());
                        typed!("by &str key", kid, x, s.as_str());
                    }
                    V::S(Sc::Usize(n)) => typed!("by usize key", kid, x, *n),
                    V::S(Sc::I32(n)) => typed!("by i32 key", kid, x, *n),
                    V::S(Sc::Bool(n)) => typed!("by bool key", kid, x, *n),
                    _ => {}
                }
            }
            _ => {}
        }
    }
    let n = ks.len();
    let far = if matches!(v, V::Map(_)) { nowhere } else { *cx.src.pick(&[n, n, n + 1, nowhere]) };
    {
        let mut x = &mut value;
        absent!("number after the last", x, far);
        absent!("no such field", x, "no such");
        absent!("no such field", x, "no such".to_string());
    }
    if ks.is_empty() {
        return Ok(());
    }
    let i = cx.src.below(ks.len());
    let (name, kid, addr) = &ks[i];
    let how = cx.src.below(3);
    let src = &mut cx.src;
    let x = &mut value;
    let new = match &v {
        V::Struct(_) if how == 0 => typed_mut!(src, "field by &str", kid, x, name.as_str()),
        V::Struct(_) => typed_mut!(src, "field by String", kid, x, name.clone()),
        V::Enum(_, VK::Struct, _) if how == 0 => typed_mut!(src, "field by &str", kid, x, name.as_str()),
        V::Enum(_, VK::Struct, _) if how == 1 => typed_mut!(src, "field by String", kid, x, name.clone()),
        V::Map(kvs) => match &kvs[i].0 {
            V::S(Sc::Str(s)) if how == 0 => typed_mut!(src, "by &str key", kid, x, s.as_str()),
            V::S(Sc::Str(s)) if how == 1 => typed_mut!(src, "by String key", kid, x, s.clone()),
            k => typed_mut!(src, "by key", kid, x, to_value(k)),
        },
        _ => typed_mut!(src, "field by number", kid, x, i),
    };
    let mut w = v.clone();
    if let Some(new) = new {
        *w.sub_mut(&[*addr]) = new;
    }
    shows("after a typed write", &w, &observe(&value))?;
    // reading through a mutable reference
    let kid = w.sub_mut(&[*addr]).clone();
    let x = &mut value;
    match &v {
        V::Struct(_) => typed!("field by &str through &mut", &kid, x, name.as_str()),
        V::Map(kvs) => typed!("by key through &mut", &kid, x, to_value(&kvs[i].0)),
        _ => typed!("field by number through &mut", &kid, x, i),
    }
    let got = (&mut value).get_field::<i32>(nowhere);
    check!(got.is_none(), "field {nowhere}");
    Ok(())
}
