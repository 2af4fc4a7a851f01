//! C05 patching native values, C06 patching dynamic values.

use mirror_mirror::Reflect;

use super::convert::small;
use crate::gen::*;
use crate::model::*;
use crate::observe::*;
use crate::run::*;
use crate::walk::*;
use crate::zoo::*;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C05",
            rule: "a case counts when a specified patch changed the target, or had to leave alone a target it does not fit",
            subs: vec![
                sub("patch", 270000, patch_native),
                sub("history", 54000, patch_history),
                sub("nested", 72000, patch_nested),
                sub("self", 54000, patch_self),
                sub("huge", 40, super::huge::patched),
            ],
        },
        Prop {
            id: "C06",
            rule: "a case counts when the patch changed the target or had to leave alone a target it does not fit",
            subs: vec![sub("value", 216000, patch_value), sub("native_source", 72000, patch_value_native), sub("history", 36000, value_history)],
        },
    ]
}

fn one_patch(cx: &mut Cx, e: &'static Entry, v: &mut V, r: &mut dyn Reflect, s: &Source) -> Result<bool, String> {
    let mut want = v.clone();
    let ok = patch(e.ty, &mut want, &s.view, s.native);
    r.patch(&*s.real);
    shows("source after the patch", &seen(&s.view), &observe(&*s.real))?;
    if !ok {
        cx.label("unspecified");
        check!((e.down)(r).is_some(), "the target is no {} any more", e.label);
        return Ok(false);
    }
    if matches(&want, &v) && want == *v {
        cx.label("left alone");
    } else {
        cx.label("changed");
    }
    holds(e, &format!("patch of {v:?} with {:?} ({})", s.view, s.how), &want, r)?;
    // again: no further change
    r.patch(&*s.real);
    let mut again = want.clone();
    if !want.any(&|v| matches!(v, V::Any)) && patch(e.ty, &mut again, &s.view, s.native) {
        holds(e, "second patch", &again, r)?;
        if again == want {
            cx.label("idempotent");
        }
    }
    *v = (e.down)(r).unwrap();
    Ok(true)
}

fn patch_native(cx: &mut Cx) -> Res {
    let (e, mut v) = gen_entry_val(&mut cx.src);
    let fuel = cx.src.range(1, 4);
    let s = gen_source(&mut cx.src, e, fuel);
    cx.input((e, &v, s.how, &s.view));
    let mut r = (e.make)(&v);
    let specified = one_patch(cx, e, &mut v, &mut *r, &s)?;
    cx.trivial_if(!specified || small(&s.view));
    if !specified {
        return Ok(());
    }
    coherent(Some(e.ty), &v, &*r)
}

fn patch_history(cx: &mut Cx) -> Res {
    let (e, mut v) = gen_entry_val(&mut cx.src);
    cx.input((e, &v));
    let mut r = (e.make)(&v);
    for _ in 0..cx.src.range(2, 5) {
        let s = gen_source(&mut cx.src, e, 2);
        cx.input((s.how, &s.view));
        if !one_patch(cx, e, &mut v, &mut *r, &s)? {
            cx.trivial();
            break;
        }
    }
    Ok(())
}

/// Patching a part changes that part only.
fn patch_nested(cx: &mut Cx) -> Res {
    let (e, v) = gen_entry_val(&mut cx.src);
    let at: Vec<_> = reached(Some(e.ty), &v).into_iter().filter(|(_, t)| static_ty(*t).is_some()).collect();
    if at.is_empty() {
        cx.trivial();
        return Ok(());
    }
    let (addr, t) = cx.src.pick(&at).clone();
    let t = t.unwrap();
    // a source for the part
    let v2 = gen_val(&mut cx.src, t, 2);
    let full = valued(&view(t, &v2));
    let sv = match cx.src.below(3) {
        0 => full,
        1 => partial(&mut cx.src, &full),
        _ => near_miss(&mut cx.src, &full),
    };
    cx.input((e, &v, &addr, &sv));
    let mut want = v.clone();
    let ok = patch(t, want.sub_mut(&addr), &sv, false);
    cx.trivial_if(!ok || addr.is_empty());
    let mut r = (e.make)(&v);
    let (target, _) = nav_mut(&mut cx.src, Some(e.ty), &v, &mut *r, &addr)?;
    target.patch(&to_value(&sv));
    if ok {
        holds(e, "patch of a part", &want, &*r)
    } else {
        check!((e.down)(&*r).is_some(), "the target is no {} any more", e.label);
        Ok(())
    }
}

/// A value patched with another of its type becomes that value where the type allows it; patched
/// with its own value it stays.
fn patch_self(cx: &mut Cx) -> Res {
    let (e, v) = gen_entry_val(&mut cx.src);
    let w = gen_val(&mut cx.src, e.ty, 3);
    cx.input((e, &v, &w));
    cx.trivial_if(small(&v));
    let mut r = (e.make)(&v);
    if super::convert::keeps_all(e.ty) {
        r.patch(&*(e.make)(&v));
        holds(e, "patched with itself", &v, &*r)?;
    }
    if super::convert::lossless(e.ty) {
        r.patch(&(e.make)(&v).to_value());
        holds(e, "patched with its value", &v, &*r)?;
    }
    // without containers of varying size the patch is complete
    if super::convert::keeps_all(e.ty) && fixed(e.ty) {
        cx.label("complete");
        r.patch(&*(e.make)(&w));
        holds(e, "patched with another value", &w, &*r)?;
        if super::convert::lossless(e.ty) {
            r.patch(&(e.make)(&v).to_value());
            holds(e, "patched back with the value", &v, &*r)?;
        }
    }
    Ok(())
}

fn fixed(ty: Ty) -> bool {
    fn go(ty: Ty, seen: &mut Vec<std::any::TypeId>) -> bool {
        if seen.contains(&ty.id) {
            return true;
        }
        seen.push(ty.id);
        match &ty.k {
            TK::Struct(fds) | TK::TStruct(fds) => fds.iter().all(|d| go((d.ty)(), seen)),
            TK::Tuple(ts) => ts.iter().all(|t| go(t(), seen)),
            TK::Arr(t, _) => go(t(), seen),
            // an enum is replaced as a whole
            TK::Enum(_) => true,
            TK::List(_) | TK::Map(..) | TK::Dyn(_) => false,
            _ => true,
        }
    }
    go(ty, &mut vec![])
}

fn dyn_source(cx: &mut Cx, v: &V) -> V {
    match cx.src.below(6) {
        0 => gen_dyn(&mut cx.src, 3),
        1 => {
            let w = renew(cx, v);
            partial(&mut cx.src, &w)
        }
        2 | 3 => renew(cx, v),
        _ => {
            let w = renew(cx, v);
            near_miss(&mut cx.src, &w)
        }
    }
}

/// The same shape with other scalars.
fn renew(cx: &mut Cx, v: &V) -> V {
    let mut w = v.clone();
    for a in addresses(v) {
        let s = w.sub_mut(&a);
        if let V::S(x) = s {
            *s = V::S(gen_sc(&mut cx.src, x.kind()));
        }
    }
    w
}

fn patch_value(cx: &mut Cx) -> Res {
    let fuel = cx.src.range(1, 4);
    let v = gen_dyn(&mut cx.src, fuel);
    let s = dyn_source(cx, &v);
    cx.input((&v, &s));
    let mut want = v.clone();
    let ok = patch_dyn(&mut want, &s);
    cx.trivial_if(!ok || small(&s));
    cx.label(if want == v { "left alone" } else { "changed" });
    let mut value = to_value(&v);
    value.patch(&to_value(&s));
    if !ok {
        return Ok(());
    }
    shows("patched", &want, &observe(&value))?;
    coherent(None, &want, &value)?;
    // through the concrete type too
    macro_rules! direct {
        ($t:ty) => {{
            let mut x = <$t as Model>::from_v(&v);
            x.patch(&to_value(&s));
            shows(stringify!($t), &want, &observe(&x))?;
        }};
    }
    match &v {
        V::Struct(_) => direct!(mirror_mirror::struct_::StructValue),
        V::TStruct(_) => direct!(mirror_mirror::tuple_struct::TupleStructValue),
        V::Tuple(_) => direct!(mirror_mirror::tuple::TupleValue),
        V::Enum(..) => direct!(mirror_mirror::enum_::EnumValue),
        _ => {}
    }
    Ok(())
}

/// A dynamic value patched with a native one takes over what fits, as with its value.
fn patch_value_native(cx: &mut Cx) -> Res {
    let (e, w) = gen_entry_val(&mut cx.src);
    let base = gen_val(&mut cx.src, e.ty, 3);
    let mut v = valued(&view(e.ty, &base));
    if cx.src.chance(1, 2) {
        v = near_miss(&mut cx.src, &v);
    }
    cx.input((e, &v, &w));
    let native = (e.make)(&w);
    let mut a = to_value(&v);
    a.patch(&*native);
    let mut want = v.clone();
    let ok = patch_dyn(&mut want, &view(e.ty, &w));
    cx.trivial_if(!ok || small(&w));
    if ok {
        shows("patched with a native value", &want, &observe(&a))?;
    }
    let mut want = v.clone();
    if patch_dyn(&mut want, &valued(&view(e.ty, &w))) {
        let mut b = to_value(&v);
        b.patch(&native.to_value());
        shows("patched with its value", &want, &observe(&b))?;
    }
    Ok(())
}

fn value_history(cx: &mut Cx) -> Res {
    let mut v = gen_dyn(&mut cx.src, 3);
    cx.input(&v);
    let mut value = to_value(&v);
    for _ in 0..cx.src.range(2, 6) {
        let s = dyn_source(cx, &v);
        cx.input(&s);
        let mut want = v.clone();
        let ok = patch_dyn(&mut want, &s);
        value.patch(&to_value(&s));
        if !ok {
            cx.trivial();
            return Ok(());
        }
        shows("patched", &want, &observe(&value))?;
        v = want;
    }
    Ok(())
}
