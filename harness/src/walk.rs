//! Walking reflected values and types next to their models.

use std::any::TypeId;
use std::collections::HashSet;
use std::fmt::Debug;

use mirror_mirror::enum_::{VariantField, VariantFieldMut};
use mirror_mirror::key_path::GetTypePath;
use mirror_mirror::type_info::{self, GetMeta, ScalarType, Type, Variant};
use mirror_mirror::{Reflect, ReflectMut, ReflectRef, Value};

use crate::gen::*;
use crate::model::*;
use crate::observe::*;
use crate::run::Res;
use crate::tape::Src;
use crate::zoo::{entry_of, Entry};

#[macro_export]
macro_rules! check {
    ($c:expr, $($arg:tt)*) => { if !$c { return Err(format!($($arg)*)); } };
}

pub fn same<T: PartialEq + Debug>(what: &str, expected: T, actual: T) -> Res {
    check!(expected == actual, "{what}: expected {expected:?}, got {actual:?}");
    Ok(())
}

/// `actual` (as observed) is what the model says.
pub fn shows(what: &str, expected: &V, actual: &V) -> Res {
    check!(matches(expected, actual), "{what}: expected {expected:?}, got {actual:?}");
    Ok(())
}

/// What reflection shows of a value.
pub fn see(ty: Option<Ty>, v: &V) -> V {
    match ty {
        Some(ty) => seen(&view(ty, v)),
        None => seen(v),
    }
}

/// Dynamic values have no type of their own.
pub fn static_ty(ty: Option<Ty>) -> Option<Ty> {
    ty.filter(|t| !matches!(t.k, TK::Dyn(_)))
}

/// A reflected child.
#[derive(Clone, Copy)]
pub struct Kid<'a> {
    pub name: &'a str,
    pub v: &'a V,
    pub ty: Option<Ty>,
    /// position among all children of the model
    pub addr: usize,
}

pub fn kids(ty: Option<Ty>, v: &V) -> Vec<Kid<'_>> {
    let ty = static_ty(ty);
    let with = |fds: &'static [FD], fs: Vec<&'_ V>| -> Vec<(usize, &'static str, Option<Ty>)> {
        assert_eq!(fds.len(), fs.len());
        fds.iter().enumerate().filter(|(_, d)| !d.skip).map(|(i, d)| (i, d.name, Some((d.ty)()))).collect()
    };
    let picked: Vec<(usize, &str, Option<Ty>)> = match (ty.map(|t| &t.k), v) {
        (Some(TK::Struct(fds) | TK::TStruct(fds)), v) => with(fds, v.children()),
        (Some(TK::Enum(vds)), V::Enum(n, _, _)) => {
            let vd = vds.iter().find(|d| d.name == n).unwrap();
            if vd.skip {
                vec![]
            } else {
                with(&vd.fields, v.children())
            }
        }
        (Some(TK::Tuple(ts)), _) => ts.iter().enumerate().map(|(i, t)| (i, "", Some(t()))).collect(),
        (Some(TK::List(t) | TK::Arr(t, _) | TK::Map(_, t)), v) => (0..v.children().len()).map(|i| (i, "", Some(t()))).collect(),
        (_, V::Struct(fs) | V::Enum(_, _, fs)) => fs.iter().enumerate().map(|(i, (n, _))| (i, n.as_str(), None)).collect(),
        (_, v) => (0..v.children().len()).map(|i| (i, "", None)).collect(),
    };
    let cs = v.children();
    picked.into_iter().map(|(addr, name, ty)| Kid { name, v: cs[addr], ty, addr }).collect()
}

/// Addresses of everything reflection reaches, with the types.
pub fn reached(ty: Option<Ty>, v: &V) -> Vec<(Vec<usize>, Option<Ty>)> {
    fn go(ty: Option<Ty>, v: &V, at: &mut Vec<usize>, out: &mut Vec<(Vec<usize>, Option<Ty>)>) {
        out.push((at.clone(), ty));
        for k in kids(ty, v) {
            at.push(k.addr);
            go(k.ty, k.v, at, out);
            at.pop();
        }
    }
    let mut out = vec![];
    go(ty, v, &mut vec![], &mut out);
    out
}

pub fn key_ty(ty: Option<Ty>) -> Option<Ty> {
    match static_ty(ty).map(|t| &t.k) {
        Some(TK::Map(kt, _)) => Some(kt()),
        _ => None,
    }
}

pub fn kind_of(v: &V) -> &'static str {
    match v {
        V::S(_) | V::NZ(_) | V::Dur(..) => "scalar",
        V::Opq(_) => "opaque",
        V::Struct(_) => "struct",
        V::TStruct(_) => "tuple struct",
        V::Tuple(_) => "tuple",
        V::Enum(..) => "enum",
        V::List(_) => "list",
        V::Array(_) => "array",
        V::Map(_) => "map",
        V::Any => "?",
    }
}

pub fn ref_kind(r: &ReflectRef<'_>) -> &'static str {
    match r {
        ReflectRef::Struct(_) => "struct",
        ReflectRef::TupleStruct(_) => "tuple struct",
        ReflectRef::Tuple(_) => "tuple",
        ReflectRef::Enum(_) => "enum",
        ReflectRef::List(_) => "list",
        ReflectRef::Array(_) => "array",
        ReflectRef::Map(_) => "map",
        ReflectRef::Scalar(_) => "scalar",
        ReflectRef::Opaque(_) => "opaque",
    }
}

pub fn mut_kind(r: &ReflectMut<'_>) -> &'static str {
    match r {
        ReflectMut::Struct(_) => "struct",
        ReflectMut::TupleStruct(_) => "tuple struct",
        ReflectMut::Tuple(_) => "tuple",
        ReflectMut::Enum(_) => "enum",
        ReflectMut::List(_) => "list",
        ReflectMut::Array(_) => "array",
        ReflectMut::Map(_) => "map",
        ReflectMut::Scalar(_) => "scalar",
        ReflectMut::Opaque(_) => "opaque",
    }
}

/// Kinds the `as_*` methods accept.
pub fn as_kinds(r: &dyn Reflect) -> Vec<&'static str> {
    let mut out = vec![];
    let mut add = |b: bool, n| {
        if b {
            out.push(n)
        }
    };
    add(r.as_struct().is_some(), "struct");
    add(r.as_tuple_struct().is_some(), "tuple struct");
    add(r.as_tuple().is_some(), "tuple");
    add(r.as_enum().is_some(), "enum");
    add(r.as_list().is_some(), "list");
    add(r.as_array().is_some(), "array");
    add(r.as_map().is_some(), "map");
    add(r.as_scalar().is_some(), "scalar");
    out
}

/// Drains an iterator with an exact length, checking the length at every step.
pub fn drain_exact<I: ExactSizeIterator>(what: &str, mut it: I, n: usize) -> Result<Vec<I::Item>, String> {
    let mut out = vec![];
    loop {
        let left = n.saturating_sub(out.len());
        check!(it.len() == left, "{what}: length {} with {left} items left", it.len());
        check!(it.size_hint() == (left, Some(left)), "{what}: size hint {:?} with {left} items left", it.size_hint());
        match it.next() {
            Some(x) => out.push(x),
            None => break,
        }
        check!(out.len() <= n, "{what}: more than {n} items");
    }
    check!(out.len() == n, "{what}: {} items instead of {n}", out.len());
    check!(it.next().is_none(), "{what}: item after the end");
    Ok(out)
}

const NO_NAMES: &[&str] = &["", "nope", "0", "A", "a.b", "hidden"];

/// Every way of reading `r` agrees with the model.
pub fn coherent(ty: Option<Ty>, v: &V, r: &dyn Reflect) -> Res {
    let ks = kids(ty, v);
    let n = ks.len();
    let expected = see(ty, v);
    same("kind", kind_of(v), ref_kind(&r.reflect_ref()))?;
    let as_k = as_kinds(r);
    if kind_of(v) == "opaque" {
        same("as_*", vec![], as_k)?;
    } else {
        same("as_*", vec![kind_of(v)], as_k)?;
    }
    shows("observed", &expected, &observe(r))?;
    shows("through as_reflect", &expected, &observe(r.as_reflect()))?;
    shows("through reflect_ref", &expected, &observe(r.reflect_ref().as_reflect()))?;
    let child = |what: &str, k: &Kid<'_>, c: Option<&dyn Reflect>| -> Res {
        match c {
            Some(c) => shows(what, &see(k.ty, k.v), &observe(c)),
            None => Err(format!("{what}: nothing")),
        }
    };
    let skipped: Vec<&str> = match (static_ty(ty).map(|t| &t.k), v) {
        (Some(TK::Struct(fds)), _) => fds.iter().filter(|d| d.skip).map(|d| d.name).collect(),
        (Some(TK::Enum(vds)), V::Enum(n, _, _)) => {
            vds.iter().filter(|d| d.name == n).flat_map(|d| d.fields.iter().filter(|d| d.skip).map(|d| d.name)).collect()
        }
        _ => vec![],
    };
    let far = [n, n + 1, n + 7, usize::MAX];
    match v {
        V::Struct(_) => {
            let s = r.as_struct().unwrap();
            same("fields_len", n, s.fields_len())?;
            for (i, k) in ks.iter().enumerate() {
                child(&format!("field({:?})", k.name), k, s.field(k.name))?;
                child(&format!("field_at({i})"), k, s.field_at(i))?;
                same(&format!("name_at({i})"), Some(k.name), s.name_at(i))?;
            }
            for ((name, c), k) in drain_exact("fields()", s.fields(), n)?.into_iter().zip(&ks) {
                same("name in fields()", k.name, name)?;
                child("fields()", k, Some(c))?;
            }
            for i in far {
                check!(s.field_at(i).is_none() && s.name_at(i).is_none(), "field {i} of {n}");
            }
            for m in NO_NAMES.iter().chain(&skipped) {
                if ks.iter().all(|k| k.name != *m) {
                    check!(s.field(m).is_none(), "field({m:?}) exists");
                }
            }
            for (i, k) in ks.iter().enumerate() {
                coherent(k.ty, k.v, s.field_at(i).unwrap()).map_err(|e| format!(".{} {e}", k.name))?;
            }
        }
        V::TStruct(_) => {
            let s = r.as_tuple_struct().unwrap();
            same("fields_len", n, s.fields_len())?;
            for (i, k) in ks.iter().enumerate() {
                child(&format!("field_at({i})"), k, s.field_at(i))?;
            }
            for (c, k) in drain_exact("fields()", s.fields(), n)?.into_iter().zip(&ks) {
                child("fields()", k, Some(c))?;
            }
            for i in far {
                check!(s.field_at(i).is_none(), "field {i} of {n}");
            }
            for (i, k) in ks.iter().enumerate() {
                coherent(k.ty, k.v, s.field_at(i).unwrap()).map_err(|e| format!(".{i} {e}"))?;
            }
        }
        V::Tuple(_) => {
            let s = r.as_tuple().unwrap();
            same("fields_len", n, s.fields_len())?;
            for (i, k) in ks.iter().enumerate() {
                child(&format!("field_at({i})"), k, s.field_at(i))?;
            }
            for (c, k) in drain_exact("fields()", s.fields(), n)?.into_iter().zip(&ks) {
                child("fields()", k, Some(c))?;
            }
            for i in far {
                check!(s.field_at(i).is_none(), "field {i} of {n}");
            }
            for (i, k) in ks.iter().enumerate() {
                coherent(k.ty, k.v, s.field_at(i).unwrap()).map_err(|e| format!(".{i} {e}"))?;
            }
        }
        V::Enum(name, kind, _) => {
            let e = r.as_enum().unwrap();
            same("variant_name", name.as_str(), e.variant_name())?;
            same("variant_kind", *kind, vkind(e.variant_kind()))?;
            same("fields_len", n, e.fields_len())?;
            if let Some(TK::Enum(vds)) = static_ty(ty).map(|t| &t.k) {
                same("variants_len", vds.iter().filter(|d| !d.skip).count(), e.variants_len())?;
            }
            for (i, k) in ks.iter().enumerate() {
                child(&format!("field_at({i})"), k, e.field_at(i))?;
                if *kind == VK::Struct {
                    child(&format!("field({:?})", k.name), k, e.field(k.name))?;
                    same(&format!("name_at({i})"), Some(k.name), e.name_at(i))?;
                }
            }
            let mut it = e.fields();
            for k in &ks {
                match it.next() {
                    Some(VariantField::Struct(m, c)) if *kind == VK::Struct => {
                        same("name in fields()", k.name, m)?;
                        child("fields()", k, Some(c))?;
                    }
                    Some(VariantField::Tuple(c)) if *kind == VK::Tuple => child("fields()", k, Some(c))?,
                    Some(_) => return Err("fields(): field of the wrong kind".into()),
                    None => return Err("fields() ends early".into()),
                }
            }
            check!(it.next().is_none(), "fields() does not end");
            for i in far {
                check!(e.field_at(i).is_none() && e.name_at(i).is_none(), "field {i} of {n}");
            }
            for m in NO_NAMES.iter().chain(&skipped) {
                if *kind != VK::Struct || ks.iter().all(|k| k.name != *m) {
                    check!(e.field(m).is_none(), "field({m:?}) exists");
                }
            }
            for (i, k) in ks.iter().enumerate() {
                coherent(k.ty, k.v, e.field_at(i).unwrap()).map_err(|e| format!("::{name}.{i} {e}"))?;
            }
        }
        V::List(_) | V::Array(_) => {
            let items: Vec<&dyn Reflect> = if let Some(l) = r.as_list() {
                same("len", n, l.len())?;
                same("is_empty", n == 0, l.is_empty())?;
                for i in far {
                    check!(l.get(i).is_none(), "get({i}) of {n}");
                }
                for (i, k) in ks.iter().enumerate() {
                    child(&format!("get({i})"), k, l.get(i))?;
                }
                drain_exact("iter()", l.iter(), n)?
            } else {
                let a = r.as_array().unwrap();
                same("len", n, a.len())?;
                same("is_empty", n == 0, a.is_empty())?;
                for i in far {
                    check!(a.get(i).is_none(), "get({i}) of {n}");
                }
                for (i, k) in ks.iter().enumerate() {
                    child(&format!("get({i})"), k, a.get(i))?;
                }
                drain_exact("iter()", a.iter(), n)?
            };
            for (i, (k, c)) in ks.iter().zip(items).enumerate() {
                coherent(k.ty, k.v, c).map_err(|e| format!("[{i}] {e}"))?;
            }
        }
        V::Map(kvs) => {
            let m = r.as_map().unwrap();
            same("len", n, m.len())?;
            same("is_empty", n == 0, m.is_empty())?;
            let items: Vec<_> = m.iter().collect();
            same("number of items of iter()", n, items.len())?;
            let kt = key_ty(ty);
            for ((key, _), kid) in kvs.iter().zip(&ks) {
                let shown = see(kt, key);
                let hit: Vec<_> = items.iter().filter(|(k, _)| matches(&shown, &observe(*k))).collect();
                check!(hit.len() == 1, "iter(): {} items with key {shown:?}", hit.len());
                child("iter()", kid, Some(hit[0].1))?;
                child("get(key)", kid, m.get(hit[0].0))?;
                coherent(kt, key, hit[0].0).map_err(|e| format!("key {e}"))?;
                coherent(kid.ty, kid.v, hit[0].1).map_err(|e| format!("[{shown:?}] {e}"))?;
            }
        }
        V::S(_) | V::NZ(_) | V::Dur(..) => {
            let Some(s) = r.as_scalar() else { return Err("no scalar".into()) };
            same("scalar", &expected, &V::S(Sc::of_ref(s)))?;
            if let V::S(s) = v {
                check!(downcast_is(r, s), "downcast to the scalar type fails");
            }
        }
        V::Opq(_) | V::Any => {}
    }
    Ok(())
}

/// Every way of getting parts mutably leads to the same parts as the model has.
pub fn coherent_mut(ty: Option<Ty>, v: &V, r: &mut dyn Reflect) -> Res {
    let ks = kids(ty, v);
    let n = ks.len();
    let kind = kind_of(v);
    // (non-zero numbers are scalars that can't be written)
    if !matches!(v, V::NZ(_) | V::Dur(..)) {
        same("kind of reflect_mut", kind, mut_kind(&r.reflect_mut()))?;
    }
    shows("through as_reflect_mut", &see(ty, v), &observe(r.as_reflect_mut()))?;
    let child = |what: &str, k: &Kid<'_>, c: Option<&mut dyn Reflect>| -> Res {
        match c {
            Some(c) => shows(what, &see(k.ty, k.v), &observe(c)),
            None => Err(format!("{what}: nothing")),
        }
    };
    let skipped: Vec<&str> = match (static_ty(ty).map(|t| &t.k), v) {
        (Some(TK::Struct(fds)), _) => fds.iter().filter(|d| d.skip).map(|d| d.name).collect(),
        (Some(TK::Enum(vds)), V::Enum(n, _, _)) => {
            vds.iter().filter(|d| d.name == n).flat_map(|d| d.fields.iter().filter(|d| d.skip).map(|d| d.name)).collect()
        }
        _ => vec![],
    };
    let far = [n, n + 1, n + 7, usize::MAX];
    macro_rules! at {
        ($s:expr, $f:ident) => {{
            for (i, k) in ks.iter().enumerate() {
                child(&format!("{}({i})", stringify!($f)), k, $s.$f(i))?;
            }
            for i in far {
                check!($s.$f(i).is_none(), "{}({i}) of {n}", stringify!($f));
            }
        }};
    }
    macro_rules! all {
        ($it:expr) => {{
            let mut it = $it;
            for k in &ks {
                child("mutable iterator", k, it.next())?;
            }
            check!(it.next().is_none(), "the mutable iterator does not end");
        }};
    }
    macro_rules! named {
        ($s:expr, $has:expr) => {{
            for k in &ks {
                if $has {
                    child(&format!("field_mut({:?})", k.name), k, $s.field_mut(k.name))?;
                }
            }
            for m in NO_NAMES.iter().chain(&skipped) {
                if !$has || ks.iter().all(|k| k.name != *m) {
                    check!($s.field_mut(m).is_none(), "field_mut({m:?}) exists");
                }
            }
        }};
    }
    match r.reflect_mut() {
        ReflectMut::Struct(s) => {
            named!(s, true);
            at!(s, field_at_mut);
            let mut it = s.fields_mut();
            for k in &ks {
                let Some((name, c)) = it.next() else { return Err("fields_mut() ends early".into()) };
                same("name in fields_mut()", k.name, name)?;
                child("fields_mut()", k, Some(c))?;
            }
            check!(it.next().is_none(), "fields_mut() does not end");
        }
        ReflectMut::TupleStruct(s) => {
            at!(s, field_at_mut);
            all!(s.fields_mut());
        }
        ReflectMut::Tuple(s) => {
            at!(s, field_at_mut);
            all!(s.fields_mut());
        }
        ReflectMut::Enum(s) => {
            let V::Enum(_, vk, _) = v else { unreachable!() };
            named!(s, *vk == VK::Struct);
            at!(s, field_at_mut);
            let mut it = s.fields_mut();
            for k in &ks {
                match it.next() {
                    Some(VariantFieldMut::Struct(m, c)) if *vk == VK::Struct => {
                        same("name in fields_mut()", k.name, m)?;
                        child("fields_mut()", k, Some(c))?;
                    }
                    Some(VariantFieldMut::Tuple(c)) if *vk == VK::Tuple => child("fields_mut()", k, Some(c))?,
                    Some(_) => return Err("fields_mut(): field of the wrong kind".into()),
                    None => return Err("fields_mut() ends early".into()),
                }
            }
            check!(it.next().is_none(), "fields_mut() does not end");
        }
        ReflectMut::List(s) => {
            at!(s, get_mut);
            all!(s.iter_mut());
        }
        ReflectMut::Array(s) => {
            at!(s, get_mut);
            all!(s.iter_mut());
        }
        ReflectMut::Map(m) => {
            let V::Map(kvs) = v else { unreachable!() };
            let kt = key_ty(ty);
            let mut seen = 0;
            for (k, c) in m.iter_mut() {
                let o = observe(k);
                let Some(i) = kvs.iter().position(|(k, _)| matches(&see(kt, k), &o)) else { return Err(format!("iter_mut(): unknown key {o:?}")) };
                child("iter_mut()", &ks[i], Some(c))?;
                seen += 1;
            }
            same("items of iter_mut()", n, seen)?;
            let keys: Vec<Value> = m.iter().map(|(k, _)| k.to_value()).collect();
            for key in &keys {
                let o = observe(key);
                if let Some(i) = kvs.iter().position(|(k, _)| matches(&see(kt, k), &o)) {
                    child("get_mut(key)", &ks[i], m.get_mut(key))?;
                }
            }
        }
        ReflectMut::Scalar(s) => {
            if let V::S(_) = v {
                same("scalar", &see(ty, v), &V::S(Sc::of_mut(&s)))?;
            }
        }
        ReflectMut::Opaque(_) => {}
    }
    Ok(())
}

pub fn downcast_is(r: &dyn Reflect, s: &Sc) -> bool {
    macro_rules! go {
        ($(($v:ident $t:ident))*) => { match s {
            $(Sc::$v(x) => r.downcast_ref::<$t>() == Some(x),)*
            Sc::F32(b) => r.downcast_ref::<f32>().map(|f| f.to_bits()) == Some(*b),
            Sc::F64(b) => r.downcast_ref::<f64>().map(|f| f.to_bits()) == Some(*b),
            Sc::Str(x) => r.downcast_ref::<String>() == Some(x),
        } };
    }
    for_scalars!(go)
}

pub fn downcast_write(r: &mut dyn Reflect, s: &Sc) -> bool {
    fn set<T: Reflect + Clone>(r: &mut dyn Reflect, x: T) -> bool {
        match r.downcast_mut::<T>() {
            Some(p) => {
                *p = x;
                true
            }
            None => false,
        }
    }
    macro_rules! go {
        ($(($v:ident $t:ident))*) => { match s {
            $(Sc::$v(x) => set::<$t>(r, *x),)*
            Sc::F32(b) => set(r, f32::from_bits(*b)),
            Sc::F64(b) => set(r, f64::from_bits(*b)),
            Sc::Str(x) => set(r, x.clone()),
        } };
    }
    for_scalars!(go)
}

/// A boxed native scalar.
pub fn native_scalar(s: &Sc) -> Box<dyn Reflect> {
    macro_rules! go {
        ($(($v:ident $t:ident))*) => { match s {
            $(Sc::$v(x) => Box::new(*x) as Box<dyn Reflect>,)*
            Sc::F32(b) => Box::new(f32::from_bits(*b)),
            Sc::F64(b) => Box::new(f64::from_bits(*b)),
            Sc::Str(x) => Box::new(x.clone()),
        } };
    }
    for_scalars!(go)
}

/// One step down by one of the mutable ways, picked at random.
pub fn step_mut<'a>(src: &mut Src, ty: Option<Ty>, v: &V, r: &'a mut dyn Reflect, addr: usize) -> Result<&'a mut dyn Reflect, String> {
    let ks = kids(ty, v);
    let pos = ks.iter().position(|k| k.addr == addr).unwrap();
    let k = ks[pos];
    let r = if src.chance(1, 3) { r.as_reflect_mut() } else { r };
    let direct = src.chance(1, 2);
    let how = src.below(3);
    macro_rules! open {
        ($m:ident) => {
            match if direct { r.$m() } else { r.reflect_mut().$m() } {
                Some(x) => x,
                None => return Err(format!("{} gives nothing for a {}", stringify!($m), kind_of(v))),
            }
        };
    }
    let out = match v {
        V::Struct(_) => {
            let s = open!(as_struct_mut);
            match how {
                0 => s.field_mut(k.name),
                1 => s.field_at_mut(pos),
                _ => match s.fields_mut().nth(pos) {
                    Some((n, c)) => {
                        check!(n == k.name, "fields_mut() names field {pos} {n:?} instead of {:?}", k.name);
                        Some(c)
                    }
                    None => None,
                },
            }
        }
        V::TStruct(_) => {
            let s = open!(as_tuple_struct_mut);
            if how < 2 {
                s.field_at_mut(pos)
            } else {
                s.fields_mut().nth(pos)
            }
        }
        V::Tuple(_) => {
            let s = open!(as_tuple_mut);
            if how < 2 {
                s.field_at_mut(pos)
            } else {
                s.fields_mut().nth(pos)
            }
        }
        V::Enum(_, kind, _) => {
            let e = open!(as_enum_mut);
            match (how, kind) {
                (0, VK::Struct) => e.field_mut(k.name),
                (0 | 1, _) => e.field_at_mut(pos),
                _ => match e.fields_mut().nth(pos) {
                    Some(VariantFieldMut::Struct(n, c)) => {
                        check!(n == k.name, "fields_mut() names field {pos} {n:?} instead of {:?}", k.name);
                        Some(c)
                    }
                    Some(VariantFieldMut::Tuple(c)) => Some(c),
                    None => None,
                },
            }
        }
        V::List(_) => {
            let l = open!(as_list_mut);
            if how < 2 {
                l.get_mut(pos)
            } else {
                l.iter_mut().nth(pos)
            }
        }
        V::Array(_) => {
            let l = open!(as_array_mut);
            if how < 2 {
                l.get_mut(pos)
            } else {
                l.iter_mut().nth(pos)
            }
        }
        V::Map(kvs) => {
            let m = open!(as_map_mut);
            let shown = see(key_ty(ty), &kvs[addr].0);
            if how < 2 {
                let key = m.iter().map(|(k, _)| k.clone_reflect()).find(|k| matches(&shown, &observe(&**k)));
                match key {
                    Some(key) => m.get_mut(&*key),
                    None => return Err(format!("no key {shown:?}")),
                }
            } else {
                m.iter_mut().find(|(k, _)| matches(&shown, &observe(*k))).map(|(_, c)| c)
            }
        }
        _ => None,
    };
    out.ok_or_else(|| format!("no mutable access ({how}) to child {pos} ({:?}) of a {}", k.name, kind_of(v)))
}

pub fn nav_mut<'a>(src: &mut Src, ty: Option<Ty>, v: &V, r: &'a mut dyn Reflect, addr: &[usize]) -> Result<(&'a mut dyn Reflect, Option<Ty>), String> {
    let (mut r, mut ty, mut v) = (r, ty, v);
    for a in addr {
        let k = kids(ty, v).into_iter().find(|k| k.addr == *a).unwrap();
        r = step_mut(src, ty, v, r, *a)?;
        (ty, v) = (k.ty, k.v);
    }
    Ok((r, ty))
}

/// Overwrite a value by one of the ways there are; the new value, or `None` when there is none
/// that fits.
pub fn overwrite(src: &mut Src, ty: Option<Ty>, v: &V, r: &mut dyn Reflect) -> Result<Option<V>, String> {
    if let V::S(s) = v {
        let new = gen_sc(src, s.kind());
        let ok = match src.below(4) {
            0 => match r.as_scalar_mut() {
                Some(m) => {
                    check!(Sc::of_mut(&m) == *s, "as_scalar_mut shows {:?}, not {s:?}", Sc::of_mut(&m));
                    new.write(m)
                }
                None => false,
            },
            1 => match r.reflect_mut() {
                ReflectMut::Scalar(m) => new.write(m),
                _ => false,
            },
            2 => downcast_write(r, &new),
            _ => {
                r.patch(&*native_scalar(&new));
                true
            }
        };
        check!(ok, "scalar can't be written");
        return Ok(Some(V::S(new)));
    }
    let Some(ty) = static_ty(ty) else { return Ok(None) };
    let Some(e) = entry_of(ty) else { return Ok(None) };
    let new = gen_val(src, ty, 2);
    check!((e.assign)(r, &new), "downcast to {} fails", e.label);
    Ok(Some(new))
}

/// Rewrite every scalar in place through the mutable iterators.
pub fn rewrite_all(src: &mut Src, ty: Option<Ty>, v: &mut V, r: &mut dyn Reflect) -> Res {
    let list: Vec<(usize, Option<Ty>)> = kids(ty, v).iter().map(|k| (k.addr, k.ty)).collect();
    let kind = kind_of(v);
    let end = |extra: bool| -> Res {
        check!(!extra, "mutable iterator of a {kind} does not end");
        Ok(())
    };
    match v {
        V::S(s) => {
            let new = gen_sc(src, s.kind());
            let Some(m) = r.as_scalar_mut() else { return Err("no mutable scalar".into()) };
            check!(new.write(m), "scalar can't be written");
            *s = new;
            Ok(())
        }
        V::NZ(_) | V::Dur(..) | V::Opq(_) | V::Any => Ok(()),
        V::Map(kvs) => {
            let kt = key_ty(ty);
            let mut n = 0;
            let Some(m) = r.as_map_mut() else { return Err("no mutable map".into()) };
            for (k, c) in m.iter_mut() {
                n += 1;
                let o = observe(k);
                let Some(i) = kvs.iter().position(|(k, _)| matches(&see(kt, k), &o)) else { return Err(format!("unknown key {o:?}")) };
                rewrite_all(src, list[i].1, &mut kvs[i].1, c)?;
            }
            same("items of iter_mut()", kvs.len(), n)
        }
        v => {
            macro_rules! each {
                ($it:expr) => {{
                    let mut it = $it;
                    for (a, t) in &list {
                        let Some(c) = it.next() else { return Err(format!("mutable iterator of a {kind} ends early")) };
                        rewrite_all(src, *t, v.child_mut(*a), c)?;
                    }
                    end(it.next().is_some())
                }};
            }
            match r.reflect_mut() {
                ReflectMut::Struct(s) => each!(s.fields_mut().map(|(_, c)| c)),
                ReflectMut::TupleStruct(s) => each!(s.fields_mut()),
                ReflectMut::Tuple(s) => each!(s.fields_mut()),
                ReflectMut::Enum(s) => each!(s.fields_mut().map(|f| match f {
                    VariantFieldMut::Struct(_, c) | VariantFieldMut::Tuple(c) => c,
                })),
                ReflectMut::List(s) => each!(s.iter_mut()),
                ReflectMut::Array(s) => each!(s.iter_mut()),
                m => Err(format!("reflect_mut of a {kind} is a {}", mut_kind(&m))),
            }
        }
    }
}

/// The value behind `r` is exactly `v`, skipped fields included (wildcards aside).
pub fn holds(e: &Entry, what: &str, v: &V, r: &dyn Reflect) -> Res {
    match (e.down)(r) {
        Some(a) => shows(what, v, &a),
        None => Err(format!("{what}: the value is no {} any more", e.label)),
    }
}

pub fn scalar_kind(s: ScalarType) -> SK {
    macro_rules! go {
        ($(($v:ident $t:ident))*) => { match s {
            $(ScalarType::$t => SK::$v,)*
            ScalarType::f32 => SK::F32,
            ScalarType::f64 => SK::F64,
            ScalarType::String => SK::Str,
        } };
    }
    for_scalars!(go)
}

pub fn type_kind(t: Type<'_>) -> &'static str {
    match t {
        Type::Struct(_) => "struct",
        Type::TupleStruct(_) => "tuple struct",
        Type::Tuple(_) => "tuple",
        Type::Enum(_) => "enum",
        Type::List(_) => "list",
        Type::Array(_) => "array",
        Type::Map(_) => "map",
        Type::Scalar(_) => "scalar",
        Type::Opaque(_) => "opaque",
    }
}

pub fn ty_kind(ty: Ty) -> &'static str {
    match &ty.k {
        TK::Sc(_) => "scalar",
        TK::Nz(_) | TK::Dur | TK::Opq | TK::Dyn(_) => "opaque",
        TK::Struct(_) => "struct",
        TK::TStruct(_) => "tuple struct",
        TK::Tuple(_) => "tuple",
        TK::Enum(_) => "enum",
        TK::List(_) => "list",
        TK::Arr(..) => "array",
        TK::Map(..) => "map",
    }
}

pub fn check_attrs<'a, T: GetMeta<'a> + Copy>(what: &str, t: T, docs: &[&str], meta: &[(&'static str, V)]) -> Res {
    let got: Vec<&str> = t.docs().iter().map(|s| s.as_str()).collect();
    check!(docs == got.as_slice(), "docs of {what}: expected {docs:?}, got {got:?}");
    for (k, v) in meta {
        match t.meta(k) {
            Some(m) => shows(&format!("meta {k:?} of {what}"), v, &observe(m))?,
            None => return Err(format!("no meta {k:?} of {what}")),
        }
        match t.get_meta::<mirror_mirror::Value>(k) {
            Some(m) => shows(&format!("get_meta {k:?} of {what}"), v, &observe(&m))?,
            None => return Err(format!("no get_meta {k:?} of {what}")),
        }
        if let V::S(Sc::I32(n)) = v {
            same("typed get_meta", Some(*n), t.get_meta::<i32>(k))?;
            same("get_meta of another type", None, t.get_meta::<String>(k))?;
        }
        if let V::S(Sc::Str(s)) = v {
            same("typed get_meta", Some(s.clone()), t.get_meta::<String>(k))?;
        }
    }
    for k in ["nope", "", "b", "weight", "z"] {
        if meta.iter().all(|(m, _)| *m != k) {
            check!(t.meta(k).is_none(), "meta {k:?} of {what} exists");
        }
    }
    Ok(())
}

/// The description agrees with the model, all the way down.
pub fn check_type(t: Type<'_>, ty: Ty) -> Res {
    check_type_at(t, ty, &mut HashSet::new())
}

fn check_type_at(t: Type<'_>, ty: Ty, visited: &mut HashSet<TypeId>) -> Res {
    if !visited.insert(ty.id) {
        // already checked; a different description of it would still be wrong
        return same("type name", ty.name, t.type_name());
    }
    let what = ty.name;
    same("type name", ty.name, t.type_name())?;
    same(&format!("kind of type {what}"), ty_kind(ty), type_kind(t))?;
    let as_ = [
        t.as_struct().is_some(),
        t.as_tuple_struct().is_some(),
        t.as_tuple().is_some(),
        t.as_enum().is_some(),
        t.as_list().is_some(),
        t.as_array().is_some(),
        t.as_map().is_some(),
        t.as_scalar().is_some(),
        t.as_opaque().is_some(),
    ];
    let names = ["struct", "tuple struct", "tuple", "enum", "list", "array", "map", "scalar", "opaque"];
    for (a, n) in as_.into_iter().zip(names) {
        check!(a == (n == ty_kind(ty)), "{what}: cast to {n} type gives {a}");
    }
    check_attrs(what, t, &ty.docs, &ty.meta)?;
    let reflected = |fds: &'static [FD]| -> Vec<&'static FD> { fds.iter().filter(|d| !d.skip).collect() };
    match (t, &ty.k) {
        (Type::Struct(s), TK::Struct(fds)) => {
            let fs = reflected(fds);
            same("type name", ty.name, s.type_name())?;
            check_attrs(what, s, &ty.docs, &ty.meta)?;
            same("fields_len", fs.len(), s.fields_len())?;
            same("number of fields", fs.len(), s.field_types().count())?;
            for (i, (d, f)) in fs.iter().zip(s.field_types()).enumerate() {
                let what = format!("{what}.{}", d.name);
                same("field name", d.name, f.name())?;
                check_attrs(&what, f, &d.docs, &d.meta)?;
                let Some(g) = s.field_type(d.name) else { return Err(format!("no field_type({:?})", d.name)) };
                let Some(h) = s.field_type_at(i) else { return Err(format!("no field_type_at({i})")) };
                check!(f == g && f == h, "{what}: three different descriptions");
                same("field name", d.name, h.name())?;
                check_type_at(f.get_type(), (d.ty)(), visited).map_err(|e| format!("{what}: {e}"))?;
            }
            check!(s.field_type_at(fs.len()).is_none(), "{what}: field after the last");
            for m in NO_NAMES.iter().copied().chain(fds.iter().filter(|d| d.skip).map(|d| d.name)) {
                if fs.iter().all(|d| d.name != m) {
                    check!(s.field_type(m).is_none(), "{what}: field_type({m:?}) exists");
                }
            }
        }
        (Type::TupleStruct(s), TK::TStruct(fds)) => {
            let fs = reflected(fds);
            same("type name", ty.name, s.type_name())?;
            check_attrs(what, s, &ty.docs, &ty.meta)?;
            same("fields_len", fs.len(), s.fields_len())?;
            same("number of fields", fs.len(), s.field_types().count())?;
            for (i, (d, f)) in fs.iter().zip(s.field_types()).enumerate() {
                let what = format!("{what}.{i}");
                check_attrs(&what, f, &d.docs, &d.meta)?;
                let Some(h) = s.field_type_at(i) else { return Err(format!("no field_type_at({i})")) };
                check!(f == h, "{what}: two different descriptions");
                check_type_at(f.get_type(), (d.ty)(), visited).map_err(|e| format!("{what}: {e}"))?;
            }
            check!(s.field_type_at(fs.len()).is_none(), "{what}: field after the last");
        }
        (Type::Tuple(s), TK::Tuple(ts)) => {
            same("type name", ty.name, s.type_name())?;
            same("fields_len", ts.len(), s.fields_len())?;
            same("number of fields", ts.len(), s.field_types().count())?;
            for (i, (t, f)) in ts.iter().zip(s.field_types()).enumerate() {
                let Some(h) = s.field_type_at(i) else { return Err(format!("no field_type_at({i})")) };
                check!(f == h, "{what}.{i}: two different descriptions");
                check_type_at(f.get_type(), t(), visited).map_err(|e| format!("{what}.{i}: {e}"))?;
            }
            check!(s.field_type_at(ts.len()).is_none(), "{what}: field after the last");
        }
        (Type::Enum(s), TK::Enum(vds)) => {
            same("type name", ty.name, s.type_name())?;
            check_attrs(what, s, &ty.docs, &ty.meta)?;
            let vs: Vec<&VD> = vds.iter().filter(|d| !d.skip).collect();
            same("variants_len", vs.len(), s.variants_len())?;
            same("number of variants", vs.len(), s.variants().count())?;
            for (d, var) in vs.iter().zip(s.variants()) {
                let Some(w) = s.variant(d.name) else { return Err(format!("{what}: no variant({:?})", d.name)) };
                check!(w == var, "{what}::{}: two different descriptions", d.name);
                check_variant_at(var, ty, d, visited)?;
            }
            for m in NO_NAMES.iter().copied().chain(vds.iter().filter(|d| d.skip).map(|d| d.name)) {
                if vs.iter().all(|d| d.name != m) {
                    check!(s.variant(m).is_none(), "{what}: variant({m:?}) exists");
                }
            }
        }
        (Type::List(l), TK::List(e)) => {
            same("type name", ty.name, l.type_name())?;
            check_type_at(l.element_type(), e(), visited)?;
        }
        (Type::Array(l), TK::Arr(e, n)) => {
            same("type name", ty.name, l.type_name())?;
            same("array length", *n, l.len())?;
            same("array is_empty", *n == 0, l.is_empty())?;
            check_type_at(l.element_type(), e(), visited)?;
        }
        (Type::Map(m), TK::Map(k, v)) => {
            same("type name", ty.name, m.type_name())?;
            check_type_at(m.key_type(), k(), visited)?;
            check_type_at(m.value_type(), v(), visited)?;
        }
        (Type::Scalar(s), TK::Sc(k)) => {
            same("scalar kind", *k, scalar_kind(s))?;
            same("type name", ty.name, s.type_name())?;
        }
        (Type::Opaque(o), _) => same("type name", ty.name, o.type_name())?,
        _ => return Err(format!("{what}: described as another kind of type")),
    }
    Ok(())
}

pub fn check_variant(var: Variant<'_>, ty: Ty, d: &'static VD) -> Res {
    check_variant_at(var, ty, d, &mut HashSet::new())
}

fn check_variant_at(var: Variant<'_>, ty: Ty, d: &'static VD, visited: &mut HashSet<TypeId>) -> Res {
    let what = format!("{}::{}", ty.name, d.name);
    same("variant name", d.name, var.name())?;
    same(&format!("{what}: type name"), ty.name, var.type_name())?;
    let kind = match var {
        Variant::Struct(_) => VK::Struct,
        Variant::Tuple(_) => VK::Tuple,
        Variant::Unit(_) => VK::Unit,
    };
    same(&format!("{what}: kind"), d.kind, kind)?;
    check_attrs(&what, var, &d.docs, &d.meta)?;
    same("enum of the variant", ty.name, var.enum_type().type_name())?;
    check!(var.enum_type().variant(d.name) == Some(var), "{what}: not a variant of its enum");
    let fs: Vec<&FD> = d.fields.iter().filter(|d| !d.skip).collect();
    same(&format!("{what}: fields_len"), fs.len(), var.fields_len())?;
    same(&format!("{what}: number of fields"), fs.len(), var.field_types().count())?;
    for (i, (fd, f)) in fs.iter().zip(var.field_types()).enumerate() {
        let what = format!("{what}.{i}");
        let name = (d.kind == VK::Struct).then_some(fd.name);
        same(&format!("{what}: field name"), name, f.name())?;
        check_attrs(&what, f, &fd.docs, &fd.meta)?;
        let Some(g) = var.field_type_at(i) else { return Err(format!("{what}: no field_type_at")) };
        check!(g == f, "{what}: two different descriptions");
        if let Some(n) = name {
            let Some(g) = var.field_type(n) else { return Err(format!("{what}: no field_type")) };
            same("field name", n, g.name())?;
            check!(type_info::VariantField::Named(g) == f, "{what}: two different descriptions");
        }
        check_type_at(f.get_type(), (fd.ty)(), visited).map_err(|e| format!("{what}: {e}"))?;
    }
    check!(var.field_type_at(fs.len()).is_none(), "{what}: field after the last");
    for m in NO_NAMES.iter().copied().chain(d.fields.iter().filter(|d| d.skip).map(|d| d.name)) {
        if d.kind != VK::Struct || fs.iter().all(|d| d.name != m) {
            check!(var.field_type(m).is_none(), "{what}: field_type({m:?}) exists");
        }
    }
    match var {
        Variant::Struct(s) => {
            same("variant name", d.name, s.name())?;
            same("variant fields", fs.len(), s.fields_len())?;
            for (i, fd) in fs.iter().enumerate() {
                same("variant field", Some(fd.name), s.field_type_at(i).map(|f| f.name()))?;
                same("variant field", Some(fd.name), s.field_type(fd.name).map(|f| f.name()))?;
            }
            same("variant fields", fs.len(), s.field_types().count())?;
            same("type name", ty.name, s.type_name())?;
            same("enum of the variant", ty.name, s.enum_type().type_name())?;
            check_attrs(&what, s, &d.docs, &d.meta)?;
        }
        Variant::Tuple(s) => {
            same("variant name", d.name, s.name())?;
            same("variant fields", fs.len(), s.fields_len())?;
            same("variant fields", fs.len(), s.field_types().count())?;
            for i in 0..fs.len() {
                same("variant field", Some((fs[i].ty)().name), s.field_type_at(i).map(|f| f.get_type().type_name()))?;
            }
            check!(s.field_type_at(fs.len()).is_none(), "{what}: field after the last");
            same("type name", ty.name, s.type_name())?;
            same("enum of the variant", ty.name, s.enum_type().type_name())?;
            check_attrs(&what, s, &d.docs, &d.meta)?;
        }
        Variant::Unit(s) => {
            same("variant name", d.name, s.name())?;
            same("type name", ty.name, s.type_name())?;
            same("enum of the variant", ty.name, s.enum_type().type_name())?;
            check_attrs(&what, s, &d.docs, &d.meta)?;
        }
    }
    Ok(())
}

/// What a type path leads to is what the model says.
pub fn check_at(at: Option<type_info::TypeAtPath<'_>>, want: Option<TAt>, what: &str) -> Res {
    match (at, want) {
        (None, None) => Ok(()),
        (Some(a), None) => Err(format!("{what}: leads to {} instead of nothing", a.type_name())),
        (None, Some(TAt::Ty(t))) => Err(format!("{what}: leads to nothing instead of {}", t.name)),
        (None, Some(TAt::Var(t, i))) => Err(format!("{what}: leads to nothing instead of {}::{}", t.name, variant(t, i).name)),
        (Some(a), Some(TAt::Var(t, i))) => match a.as_variant() {
            Some(v) => {
                check_attrs(what, a, &variant(t, i).docs, &variant(t, i).meta)?;
                same("type name", t.name, a.type_name())?;
                check_variant(v, t, variant(t, i))
            }
            None => Err(format!("{what}: leads to {} instead of a variant", a.type_name())),
        },
        (Some(a), Some(TAt::Ty(t))) => {
            same(&format!("{what}: type name"), t.name, a.type_name())?;
            check_attrs(what, a, &t.docs, &t.meta)?;
            let as_ = [
                ("struct", a.as_struct().map(Type::Struct)),
                ("tuple struct", a.as_tuple_struct().map(Type::TupleStruct)),
                ("tuple", a.as_tuple().map(Type::Tuple)),
                ("enum", a.as_enum().map(Type::Enum)),
                ("list", a.as_list().map(Type::List)),
                ("array", a.as_array().map(Type::Array)),
                ("map", a.as_map().map(Type::Map)),
                ("scalar", a.as_scalar().map(Type::Scalar)),
                ("opaque", a.as_opaque().map(Type::Opaque)),
            ];
            check!(a.as_variant().is_none(), "{what}: is a variant");
            for (n, x) in as_ {
                check!(x.is_some() == (n == ty_kind(t)), "{what}: cast to {n} type");
                if let Some(x) = x {
                    check_type(x, t)?;
                }
            }
            let _ = a.type_at(&Default::default());
            Ok(())
        }
    }
}
