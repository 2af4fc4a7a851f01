//! C01 round trips, C02 exactness of conversions, C20 copies and casts.

use mirror_mirror::enum_::EnumValue;
use mirror_mirror::struct_::StructValue;
use mirror_mirror::tuple::TupleValue;
use mirror_mirror::tuple_struct::TupleStructValue;
use mirror_mirror::{FromReflect, Reflect, ReflectOwned, ScalarMut, ScalarOwned, ScalarRef, Value};

use crate::gen::*;
use crate::model::*;
use crate::observe::*;
use crate::run::*;
use crate::walk::*;
use crate::zoo::*;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            rule: "a case counts when the generated value has at least two parts or is a scalar other than its type's zero",
            subs: vec![
                sub("to_value", 224000, to_value_is_faithful),
                sub("round_trip", 280000, round_trip),
                sub("dynamic", 84000, dynamic_round_trip),
                sub("deep", 480, deep_round_trip),
                sub("huge", 40, super::huge::round_trip),
            ],
        },
        Prop {
            id: "C02",
            rule: "a case counts when the outcome is specified and the source is not a zero scalar",
            subs: vec![sub("from_reflect", 560000, from_exact), sub("dynamic_targets", 112000, from_dynamic)],
        },
        Prop {
            id: "C20",
            rule: "a case counts when the value has at least two parts, or is a scalar other than zero",
            subs: vec![
                sub("clone_reflect", 168000, clones),
                sub("independent", 112000, clone_is_independent),
                sub("casts", 168000, casts),
                sub("scalars", 56000, scalars),
            ],
        },
    ]
}

pub fn small(v: &V) -> bool {
    match v {
        V::S(s) => s.is_zero(),
        v => v.size() < 2,
    }
}

fn has(ty: Ty, f: &dyn Fn(Ty) -> bool) -> bool {
    fn go(ty: Ty, f: &dyn Fn(Ty) -> bool, seen: &mut Vec<std::any::TypeId>) -> bool {
        if seen.contains(&ty.id) {
            return false;
        }
        seen.push(ty.id);
        if f(ty) {
            return true;
        }
        match &ty.k {
            TK::Struct(fds) | TK::TStruct(fds) => fds.iter().any(|d| go((d.ty)(), f, seen)),
            TK::Tuple(ts) => ts.iter().any(|t| go(t(), f, seen)),
            TK::Enum(vds) => vds.iter().any(|d| d.fields.iter().any(|d| go((d.ty)(), f, seen))),
            TK::List(t) | TK::Arr(t, _) => go(t(), f, seen),
            TK::Map(k, v) => go(k(), f, seen) || go(v(), f, seen),
            _ => false,
        }
    }
    go(ty, f, &mut vec![])
}

fn custom_fields(ty: Ty) -> bool {
    let c = |d: &FD| d.skip || d.with.is_some();
    ty.cfrom.is_some()
        || match &ty.k {
            TK::Struct(fds) | TK::TStruct(fds) => fds.iter().any(c),
            TK::Enum(vds) => vds.iter().any(|d| d.skip || d.fields.iter().any(c)),
            _ => false,
        }
}

/// Everything in values of the type survives a trip through itself.
pub fn keeps_all(ty: Ty) -> bool {
    !has(ty, &custom_fields)
}

/// Everything in values of the type survives a trip through a dynamic value.
pub fn lossless(ty: Ty) -> bool {
    keeps_all(ty) && !has(ty, &|t| matches!(t.k, TK::Dur | TK::Opq))
}

fn to_value_is_faithful(cx: &mut Cx) -> Res {
    let (e, v) = gen_entry_val(&mut cx.src);
    cx.input((e, &v));
    cx.trivial_if(small(&v));
    let r = (e.make)(&v);
    let want = valued(&view(e.ty, &v));
    let got = r.to_value();
    shows("to_value", &want, &observe(&got))?;
    coherent(None, &norm(&want), &got)?;
    check!(got == to_value(&want), "to_value differs from the value built by hand: {got:?}");
    shows("Value::from(&dyn Reflect)", &want, &observe(&Value::from(&*r)))?;
    match Value::from_reflect(&*r) {
        Some(x) => shows("Value::from_reflect", &want, &observe(&x))?,
        None => return Err("Value::from_reflect fails".into()),
    }
    if let Some(f) = e.into_value {
        cx.label("into Value");
        shows("Into<Value>", &want, &observe(&f(&v)))?;
    }
    same("to_value of the value", &got, &got.to_value())?;
    holds(e, "after to_value", &v, &*r)
}

fn round_trip(cx: &mut Cx) -> Res {
    let (e, v) = gen_entry_val(&mut cx.src);
    cx.input((e, &v));
    cx.trivial_if(small(&v));
    let r = (e.make)(&v);
    let vw = view(e.ty, &v);
    // through the value itself
    let want = from(e.ty, &vw, true);
    let got = (e.from_reflect)(&*r);
    if keeps_all(e.ty) {
        cx.label("keeps all");
        check!(matches!(&got, Some(x) if matches(&v, x)), "from_reflect of itself: expected {v:?}, got {got:?}");
    }
    is(&want, &got, "from_reflect of itself")?;
    // through a dynamic value
    let value = r.to_value();
    let got = (e.from_reflect)(&value);
    if lossless(e.ty) {
        cx.label("lossless");
        check!(matches!(&got, Some(x) if matches(&v, x)), "through a value: expected {v:?}, got {got:?}");
    }
    is(&from(e.ty, &valued(&vw), false), &got, "through a value")?;
    // through a second value, and a value in a box
    let again = Value::from_reflect(&value).ok_or("Value::from_reflect of a value fails")?;
    same("value of the value", &value, &again)?;
    let boxed: Box<dyn Reflect> = Box::new(Box::new(again));
    let got2 = (e.from_reflect)(&*boxed);
    check!(got == got2 || got.as_ref().zip(got2.as_ref()).map_or(false, |(a, b)| norm(a) == norm(b)), "through a boxed value: {got2:?}");
    // and the value that came back has the same value
    if let Some(x) = &got {
        if lossless(e.ty) {
            same("value after the round trip", &value, &(e.make)(x).to_value())?;
        }
    }
    holds(e, "after the round trip", &v, &*r)
}

pub fn is(want: &R, got: &Option<V>, what: &str) -> Res {
    match (want, got) {
        (R::Unspec, _) | (R::None, None) => Ok(()),
        (R::Some(w), Some(g)) => shows(what, w, g),
        (R::Some(w), None) => Err(format!("{what}: nothing instead of {w:?}")),
        (R::None, Some(g)) => Err(format!("{what}: {g:?} instead of nothing")),
    }
}

fn dynamic_round_trip(cx: &mut Cx) -> Res {
    let fuel = cx.src.range(1, 4);
    let v = gen_dyn(&mut cx.src, fuel);
    cx.input(&v);
    cx.trivial_if(small(&v));
    let value = to_value(&v);
    shows("observed", &v, &observe(&value))?;
    shows("to_value", &v, &observe(&value.to_value()))?;
    same("Value::from_reflect", Some(&value), Value::from_reflect(&value).as_ref())?;
    macro_rules! kind {
        ($t:ident $k:ident $pat:pat) => {
            let got = $t::from_reflect(&value);
            same(concat!("made a ", stringify!($t)), matches!(v, $pat), got.is_some())?;
            if let Some(x) = got {
                cx.label(stringify!($t));
                shows(stringify!($t), &v, &observe(&x))?;
                same("to_value", &value, &x.to_value())?;
                same("Into<Value>", &value, &Value::from(x))?;
            }
        };
    }
    kind!(StructValue Struct V::Struct(_));
    kind!(EnumValue Enum V::Enum(..));
    kind!(TupleValue Tuple V::Tuple(_));
    kind!(TupleStructValue TStruct V::TStruct(_));
    Ok(())
}

/// Recursive types nested a few hundred levels.
fn deep_round_trip(cx: &mut Cx) -> Res {
    let n = cx.src.range(10, 150);
    let which = cx.src.below(4);
    cx.input((which, n));
    let leaf = V::S(Sc::I32(7));
    let (ty, v) = match which {
        0 => {
            let mut v = sv(vec![("v", V::S(Sc::U8(0))), ("next", ev("None", VK::Unit, vec![]))]);
            for i in 0..n {
                v = sv(vec![("v", V::S(Sc::U8(i as u8))), ("next", ev("Some", VK::Tuple, vec![v]))]);
            }
            (<crate::gen_zoo::Chain as Model>::ty(), v)
        }
        1 => {
            let mut v = sv(vec![("v", leaf.clone()), ("children", V::List(vec![]))]);
            for _ in 0..n {
                v = sv(vec![("v", leaf.clone()), ("children", V::List(vec![v]))]);
            }
            (<crate::gen_zoo::Tree as Model>::ty(), v)
        }
        2 => {
            let mut v = ev("Lit", VK::Tuple, vec![leaf.clone()]);
            for _ in 0..n {
                v = ev("Many", VK::Tuple, vec![V::List(vec![v, ev("Nil", VK::Unit, vec![])])]);
            }
            (<crate::gen_zoo::Expr as Model>::ty(), v)
        }
        _ => {
            let v = V::List((0..n * 20).map(|i| V::S(Sc::I32(i as i32))).collect());
            (<Vec<i32> as Model>::ty(), v)
        }
    };
    let e = entry_of(ty).unwrap();
    let r = (e.make)(&v);
    let value = r.to_value();
    let back = (e.from_reflect)(&value);
    check!(back.as_ref() == Some(&v), "deep value does not survive");
    check!((e.from_reflect)(&*r).as_ref() == Some(&v), "deep value does not survive itself");
    same("deep reflect_eq", Some(true), mirror_mirror::reflect_eq(&*r, &value))?;
    holds(e, "deep clone", &v, &*r.clone_reflect())
}

fn from_exact(cx: &mut Cx) -> Res {
    let e = pick_entry(&mut cx.src);
    let fuel = cx.src.range(1, 4);
    let s = gen_source(&mut cx.src, e, fuel);
    cx.input((e, s.how, &s.view));
    let want = from(e.ty, &s.view, s.native);
    cx.trivial_if(small(&s.view));
    match &want {
        R::Some(_) => cx.label("convertible"),
        R::None => cx.label("not convertible"),
        R::Unspec => {
            cx.trivial();
            cx.label("unspecified")
        }
    }
    let got = (e.from_reflect)(&*s.real);
    is(&want, &got, "from_reflect")?;
    // the source is only read
    shows("source", &seen(&s.view), &observe(&*s.real))
}

fn from_dynamic(cx: &mut Cx) -> Res {
    let e = loop_pick(&mut cx.src, |e| matches!(e.ty.k, TK::Dyn(_)));
    let (o, v) = gen_entry_val(&mut cx.src);
    cx.input((e, o, &v));
    let vw = view(o.ty, &v);
    let r = (o.make)(&v);
    is(&from(e.ty, &vw, true), &(e.from_reflect)(&*r), "from a native value")?;
    is(&from(e.ty, &valued(&vw), false), &(e.from_reflect)(&r.to_value()), "from a value")
}

fn clones(cx: &mut Cx) -> Res {
    let (e, v) = gen_entry_val(&mut cx.src);
    cx.input((e, &v));
    cx.trivial_if(small(&v));
    let r = (e.make)(&v);
    // types that can't be cloned lose the skipped fields
    let want = if has(e.ty, &custom_fields) { wild(e.ty, &v) } else { v.clone() };
    let c = r.clone_reflect();
    holds(e, "clone_reflect", &want, &*c)?;
    coherent(Some(e.ty), &v, &*c)?;
    holds(e, "to_owned", &want, &*(*r).to_owned())?;
    holds(e, "clone of the clone", &want, &*c.clone_reflect())?;
    same("descriptor of the clone", &r.type_descriptor(), &c.type_descriptor())?;
    // a copy of what is in a box may be without the box
    if !e.boxed {
        same("type name of the clone", r.type_name(), c.type_name())?;
    }
    drop(c);
    holds(e, "after cloning", &v, &*r)
}

fn clone_is_independent(cx: &mut Cx) -> Res {
    let (e, v) = gen_entry_val(&mut cx.src);
    cx.input((e, &v));
    let r = (e.make)(&v);
    let mut c = r.clone_reflect();
    let mut o: ReflectOwned = r.clone_reflect().reflect_owned();
    let o2 = o.clone();
    let mut w = v.clone();
    rewrite_all(&mut cx.src, Some(e.ty), &mut w, &mut *c)?;
    cx.trivial_if(w == v);
    shows("changed copy", &see(Some(e.ty), &w), &observe(&*c))?;
    holds(e, "original after a change of the copy", &v, &*r)?;
    if matches!(e.ty.k, TK::Nz(_) | TK::Dur | TK::Opq) {
        return Ok(());
    }
    let mut w2 = v.clone();
    rewrite_all(&mut cx.src, Some(e.ty), &mut w2, o.as_reflect_mut())?;
    shows("changed owned", &see(Some(e.ty), &w2), &observe(o.as_reflect()))?;
    shows("copy of the owned", &see(Some(e.ty), &v), &observe(o2.as_reflect()))?;
    holds(e, "original after a change of the owned copy", &v, &*r)
}

fn owned_kind(o: &ReflectOwned) -> &'static str {
    match o {
        ReflectOwned::Struct(_) => "struct",
        ReflectOwned::TupleStruct(_) => "tuple struct",
        ReflectOwned::Tuple(_) => "tuple",
        ReflectOwned::Enum(_) => "enum",
        ReflectOwned::List(_) => "list",
        ReflectOwned::Array(_) => "array",
        ReflectOwned::Map(_) => "map",
        ReflectOwned::Scalar(_) => "scalar",
        ReflectOwned::Opaque(_) => "opaque",
    }
}

fn casts(cx: &mut Cx) -> Res {
    let dynamic = cx.src.chance(1, 4);
    let (e, v) = if dynamic {
        let e = loop_pick(&mut cx.src, |e| matches!(e.ty.k, TK::Dyn(_)));
        let v = gen_val(&mut cx.src, e.ty, 3);
        (e, v)
    } else {
        gen_entry_val(&mut cx.src)
    };
    cx.input((e, &v));
    cx.trivial_if(small(&v));
    let ty = Some(e.ty);
    let want = see(ty, &v);
    let mk = || (e.make)(&v);
    let kind = kind_of(&v);
    let scalar_like = matches!(v, V::NZ(_) | V::Dur(..));
    // owned
    let o = mk().reflect_owned();
    if !scalar_like {
        same("kind of reflect_owned", kind, owned_kind(&o))?;
    }
    shows("reflect_owned", &want, &observe(o.as_reflect()))?;
    shows("clone of reflect_owned", &want, &observe(o.clone().as_reflect()))?;
    same("kind of the clone", owned_kind(&o), owned_kind(&o.clone()))?;
    macro_rules! into {
        ($m:ident $k:literal) => {
            let a = mk().$m();
            let b = o.clone().$m();
            same(concat!("Reflect::", stringify!($m)), owned_kind(&o) == $k, a.is_some())?;
            same(concat!("ReflectOwned::", stringify!($m)), owned_kind(&o) == $k, b.is_some())?;
            if let (Some(a), Some(b)) = (a, b) {
                shows(stringify!($m), &want, &observe(a.as_reflect()))?;
                shows(stringify!($m), &want, &observe(b.as_reflect()))?;
            }
        };
    }
    into!(into_struct "struct");
    into!(into_tuple_struct "tuple struct");
    into!(into_tuple "tuple");
    into!(into_enum "enum");
    into!(into_list "list");
    into!(into_array "array");
    into!(into_map "map");
    into!(into_scalar "scalar");
    same("into_opaque", owned_kind(&o) == "opaque", o.clone().into_opaque().is_some())?;
    // references
    let r = mk();
    macro_rules! as_ref {
        ($m:ident $k:literal) => {
            let x = r.reflect_ref().$m();
            same(concat!("ReflectRef::", stringify!($m)), kind == $k, x.is_some())?;
            if let Some(x) = x {
                shows(stringify!($m), &want, &observe(x.as_reflect()))?;
            }
        };
    }
    as_ref!(as_struct "struct");
    as_ref!(as_tuple_struct "tuple struct");
    as_ref!(as_tuple "tuple");
    as_ref!(as_enum "enum");
    as_ref!(as_list "list");
    as_ref!(as_array "array");
    as_ref!(as_map "map");
    as_ref!(as_scalar "scalar");
    as_ref!(as_opaque "opaque");
    // mutable references
    let mut r = mk();
    let mk_kind = mut_kind(&r.reflect_mut());
    if !scalar_like {
        same("kind of reflect_mut", kind, mk_kind)?;
    }
    macro_rules! as_mut {
        ($m:ident $k:literal) => {
            let a = r.$m().is_some();
            same(concat!("Reflect::", stringify!($m)), mk_kind == $k, a)?;
            let mut x = r.reflect_mut().$m();
            same(concat!("ReflectMut::", stringify!($m)), mk_kind == $k, x.is_some())?;
            if let Some(x) = &mut x {
                shows(stringify!($m), &want, &observe(x.as_reflect()))?;
                shows(stringify!($m), &want, &observe(x.as_reflect_mut()))?;
            }
        };
    }
    as_mut!(as_struct_mut "struct");
    as_mut!(as_tuple_struct_mut "tuple struct");
    as_mut!(as_tuple_mut "tuple");
    as_mut!(as_enum_mut "enum");
    as_mut!(as_list_mut "list");
    as_mut!(as_array_mut "array");
    as_mut!(as_map_mut "map");
    as_mut!(as_scalar_mut "scalar");
    same("as_opaque_mut", mk_kind == "opaque", r.reflect_mut().as_opaque_mut().is_some())?;
    shows("ReflectMut::as_reflect", &want, &observe(r.reflect_mut().as_reflect()))?;
    shows("ReflectMut::as_reflect_mut", &want, &observe(r.reflect_mut().as_reflect_mut()))?;
    shows("as_reflect_mut", &want, &observe(r.as_reflect_mut()))?;
    holds(e, "after all casts", &v, &*r)?;
    if !matches!(e.ty.k, TK::Dyn(_)) {
        if !e.boxed {
            same("type name", e.ty.name, r.type_name())?;
        }
        same("descriptor", &(e.descriptor)(), &r.type_descriptor())?;
        check!((e.assign)(&mut *r, &v), "downcast_mut fails");
        if let Some(o) = reg().iter().find(|o| o.ty.id != e.ty.id && !matches!(o.ty.k, TK::Dyn(_)) && o.label != "u8") {
            check!((o.down)(&*r).is_none(), "downcast to {} works", o.label);
        }
    }
    Ok(())
}

fn scalars(cx: &mut Cx) -> Res {
    let k = *cx.src.pick(ALL_SK);
    let s = gen_sc(&mut cx.src, k);
    let t = gen_sc(&mut cx.src, k);
    cx.input((&s, &t));
    cx.trivial_if(s.is_zero());
    let mut r = native_scalar(&s);
    let v = V::S(s.clone());
    same("value", &s.to_value(), &r.to_value())?;
    let o: ScalarOwned = r.clone_reflect().into_scalar().ok_or("no owned scalar")?;
    same("owned", &s, &Sc::of_owned(&o))?;
    shows("ScalarOwned::as_reflect", &v, &observe(o.as_reflect()))?;
    check!(downcast_is(o.as_reflect(), &s), "type of the owned scalar");
    let mut o2 = o.clone();
    shows("ScalarOwned::as_reflect_mut", &v, &observe(o2.as_reflect_mut()))?;
    check!(downcast_write(o2.as_reflect_mut(), &t), "write to the owned scalar");
    same("owned after a write", &t, &Sc::of_owned(&o2))?;
    same("copy", &s, &Sc::of_owned(&o))?;
    let r1: ScalarRef<'_> = r.as_scalar().ok_or("no scalar")?;
    shows("ScalarRef::as_reflect", &v, &observe(r1.as_reflect()))?;
    check!(downcast_is(r1.as_reflect(), &s), "type of the scalar");
    same("copy of a scalar", &s, &Sc::of_ref(r1))?;
    let t_ = native_scalar(&t);
    same("equality of scalars", s.native_eq(&t), Some(r1) == t_.as_scalar())?;
    let mut m: ScalarMut<'_> = r.as_scalar_mut().ok_or("no mutable scalar")?;
    shows("ScalarMut::as_reflect", &v, &observe(m.as_reflect()))?;
    check!(downcast_write(m.as_reflect_mut(), &t), "write to the mutable scalar");
    same("after a write", &t, &Sc::of_mut(&m))?;
    same("after a write", &t.to_value(), &r.to_value())?;
    // another kind
    let k2 = *cx.src.pick(ALL_SK);
    if k2 != k {
        let u = native_scalar(&gen_sc(&mut cx.src, k2));
        same("scalars of different types", Some(false), mirror_mirror::reflect_eq(&*u, &*r))?;
        r.patch(&*u);
        same("patched with another type", &t.to_value(), &r.to_value())?;
    }
    Ok(())
}
