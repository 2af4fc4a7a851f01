//! C22 what the derive attributes promise: skipped fields and variants stay out of reflection,
//! custom conversions are used, opting out of traits changes nothing else.

use mirror_mirror::enum_::EnumValue;
use mirror_mirror::key_path::{GetPath, KeyPath};
use mirror_mirror::{Reflect, ReflectRef, Value};

use super::convert::small;
use crate::gen::*;
use crate::model::*;
use crate::observe::*;
use crate::run::*;
use crate::tape::Src;
use crate::walk::*;
use crate::zoo::*;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C22",
        rule: "a case counts when the type has a skipped field or variant, a custom conversion, or an opt-out that plays a part",
        subs: vec![
            sub("skipped_fields", 160000, skipped_fields),
            sub("skipped_variants", 120000, skipped_variants),
            sub("custom_conversion", 120000, custom_conversion),
            sub("descriptions", 8000, descriptions),
            sub("types", 60000, types),
        ],
    }]
}

fn fds(ty: Ty) -> Vec<&'static FD> {
    match &ty.k {
        TK::Struct(f) | TK::TStruct(f) => f.iter().collect(),
        TK::Enum(vs) => vs.iter().flat_map(|v| v.fields.iter()).collect(),
        _ => vec![],
    }
}

fn has_skip(ty: Ty) -> bool {
    fds(ty).iter().any(|d| d.skip)
}

fn has_hidden(ty: Ty) -> bool {
    matches!(&ty.k, TK::Enum(vs) if vs.iter().any(|v| v.skip))
}

fn has_with(ty: Ty) -> bool {
    fds(ty).iter().any(|d| d.with.is_some()) || ty.cfrom.is_some()
}

fn pick(src: &mut Src, ok: fn(Ty) -> bool) -> &'static Entry {
    loop_pick(src, |e| ok(e.ty) && inhabited(e.ty))
}

/// The skipped fields of a value, at the top.
fn hidden(ty: Ty, v: &V) -> Vec<V> {
    let f = |ds: &'static [FD]| ds.iter().zip(v.children()).filter(|(d, _)| d.skip).map(|(_, v)| v.clone()).collect();
    match (&ty.k, v) {
        (TK::Struct(ds) | TK::TStruct(ds), _) => f(ds),
        (TK::Enum(vs), V::Enum(n, _, _)) => f(&vs.iter().find(|d| d.name == n).unwrap().fields),
        _ => vec![],
    }
}

fn skipped_fields(cx: &mut Cx) -> Res {
    let e = pick(&mut cx.src, has_skip);
    let v = gen_val(&mut cx.src, e.ty, 3);
    let hid = hidden(e.ty, &v);
    cx.input((e, &v));
    cx.trivial_if(hid.is_empty());
    let mut r = (e.make)(&v);
    // nothing to be seen of them
    coherent(Some(e.ty), &v, &*r)?;
    coherent_mut(Some(e.ty), &v, &mut *r)?;
    let value = r.to_value();
    shows("its value", &valued(&view(e.ty, &v)), &observe(&value))?;
    let shown = kids(Some(e.ty), &v).len();
    for d in fds(e.ty).iter().filter(|d| d.skip && !d.name.is_empty()) {
        let clash = kids(Some(e.ty), &v).iter().any(|k| k.name == d.name);
        if !clash {
            let p: KeyPath = [mirror_mirror::key_path::Key::Field(mirror_mirror::key_path::NamedOrNumbered::Named(d.name.to_string()))].into_iter().collect();
            check!(r.at(&p).is_none() && r.at_mut(&p).is_none(), "a path leads to the skipped field {}", d.name);
        }
    }
    if !matches!(v, V::Struct(_)) {
        let p: KeyPath = [mirror_mirror::key_path::Key::Field(mirror_mirror::key_path::NamedOrNumbered::Numbered(shown))].into_iter().collect();
        check!(r.at(&p).is_none() && r.at_mut(&p).is_none(), "a path leads past the {shown} reflected fields");
    }
    // converting from a value: defaults
    let s = gen_source(&mut cx.src, e, 2);
    match (from(e.ty, &s.view, s.native), (e.from_reflect)(&*s.real)) {
        (R::Some(w), Some(g)) => shows("from_reflect", &w, &g)?,
        (R::None, None) | (R::Unspec, _) => {}
        (w, g) => return Err(format!("from_reflect of {:?}: expected {w:?}, got {g:?}", s.view)),
    }
    // writing what is shown leaves them alone
    let mut w = v.clone();
    rewrite_all(&mut cx.src, Some(e.ty), &mut w, &mut *r)?;
    holds(e, "shown fields rewritten", &w, &*r)?;
    // and so does patching, unless an enum is replaced
    let s = gen_source(&mut cx.src, e, 2);
    let mut p = w.clone();
    if patch(e.ty, &mut p, &s.view, s.native) {
        r.patch(&*s.real);
        holds(e, "patched", &p, &*r)?;
        if !matches!(w, V::Enum(..)) {
            let now = (e.down)(&*r).ok_or("lost")?;
            check!(hidden(e.ty, &now) == hid, "a patch changed skipped fields {hid:?}: {now:?}");
        }
    }
    Ok(())
}

fn skipped_variants(cx: &mut Cx) -> Res {
    let e = pick(&mut cx.src, has_hidden);
    let TK::Enum(vds) = &e.ty.k else { unreachable!() };
    let hid: Vec<&VD> = vds.iter().filter(|d| d.skip).collect();
    let vd = *cx.src.pick(&hid);
    let fs = gen_fields(&mut cx.src, &vd.fields, 2);
    let hv = V::Enum(vd.name.to_string(), vd.kind, fs);
    let sv_ = gen_val(&mut cx.src, e.ty, 3);
    cx.input((e, &hv, &sv_));
    // a value of a skipped variant has a name, a kind and no fields
    let mut h = (e.make)(&hv);
    coherent(Some(e.ty), &hv, &*h)?;
    coherent_mut(Some(e.ty), &hv, &mut *h)?;
    rewrite_all(&mut cx.src, Some(e.ty), &mut hv.clone(), &mut *h)?;
    holds(e, "skipped variant", &hv, &*h)?;
    for p in ["a", "0"] {
        let e = h.as_enum().ok_or("no enum")?;
        check!(e.field(p).is_none() && e.field_at(0).is_none() && e.name_at(0).is_none(), "skipped variant has fields");
    }
    // values that name it don't convert, and don't patch
    let named: Value = match vd.kind {
        VK::Unit => EnumValue::new_unit_variant(vd.name).into(),
        VK::Struct => {
            let mut b = EnumValue::new_struct_variant(vd.name);
            for d in &vd.fields {
                b.set_struct_field(d.name, to_value(&valued(&seen(&gen_val(&mut cx.src, (d.ty)(), 1)))));
            }
            b.finish().into()
        }
        VK::Tuple => {
            let mut b = EnumValue::new_tuple_variant(vd.name);
            for d in &vd.fields {
                b.push_tuple_field(to_value(&valued(&seen(&gen_val(&mut cx.src, (d.ty)(), 1)))));
            }
            b.finish().into()
        }
    };
    check!((e.from_reflect)(&named).is_none(), "{named:?} converts to a skipped variant");
    let mut s = (e.make)(&sv_);
    s.patch(&named);
    holds(e, "patched with a skipped variant", &sv_, &*s)?;
    // a skipped variant turns into what it is patched with, if that is complete
    let src = valued(&view(e.ty, &sv_));
    let w = from(e.ty, &src, false);
    let before = (e.make)(&hv);
    let mut h = before;
    h.patch(&to_value(&src));
    match w {
        R::Some(w) => holds(e, "skipped variant patched", &wild(e.ty, &w), &*h),
        R::None => holds(e, "skipped variant patched in vain", &hv, &*h),
        R::Unspec => Ok(()),
    }?;
    // paths don't lead into it
    let p: KeyPath = [mirror_mirror::key_path::Key::Variant(vd.name.to_string()), mirror_mirror::key_path::Key::Field(mirror_mirror::key_path::NamedOrNumbered::Numbered(0))]
        .into_iter()
        .collect();
    check!((e.make)(&hv).at(&p).is_none(), "a path leads into a skipped variant");
    match (e.make)(&hv).reflect_ref() {
        ReflectRef::Enum(_) => Ok(()),
        _ => Err("no enum".into()),
    }
}

fn custom_conversion(cx: &mut Cx) -> Res {
    let e = pick(&mut cx.src, has_with);
    let v = gen_val(&mut cx.src, e.ty, 2);
    // what the custom functions want is not what the fields show
    let mut s = valued(&view(e.ty, &v));
    let ds: Vec<&FD> = match (&e.ty.k, &v) {
        (TK::Struct(f) | TK::TStruct(f), _) => f.iter().filter(|d| !d.skip).collect(),
        (TK::Enum(vs), V::Enum(n, _, _)) => vs.iter().find(|d| d.name == n).unwrap().fields.iter().filter(|d| !d.skip).collect(),
        _ => vec![],
    };
    let mut custom = e.ty.cfrom.is_some();
    for (i, d) in ds.iter().enumerate() {
        if d.with.is_some() {
            custom = true;
            let new = match cx.src.below(4) {
                0 => V::of_str(STRINGS[cx.src.below(STRINGS.len())]),
                1 => V::S(gen_sc(&mut cx.src, SK::U32)),
                2 => gen_dyn(&mut cx.src, 1),
                _ => continue,
            };
            *s.sub_mut(&[i]) = new;
        }
    }
    if cx.src.chance(1, 5) {
        s = near_miss(&mut cx.src, &s);
    }
    cx.input((e, &s));
    cx.trivial_if(!custom || small(&s));
    let value = to_value(&s);
    match (from(e.ty, &s, false), (e.from_reflect)(&value)) {
        (R::Some(w), Some(g)) => shows("from_reflect", &w, &g)?,
        (R::None, None) | (R::Unspec, _) => {}
        (w, g) => return Err(format!("from_reflect of {s:?}: expected {w:?}, got {g:?}")),
    }
    // a native source
    let r = (e.make)(&v);
    match (from(e.ty, &view(e.ty, &v), true), (e.from_reflect)(&*r)) {
        (R::Some(w), Some(g)) => shows("from_reflect of the type itself", &w, &g)?,
        (R::None, None) | (R::Unspec, _) => {}
        (w, g) => return Err(format!("from_reflect of {v:?}: expected {w:?}, got {g:?}")),
    }
    coherent(Some(e.ty), &v, &*r)
}

/// Docs and metadata are those that were written, and only those of what is reflected.
fn descriptions(cx: &mut Cx) -> Res {
    let e = pick(&mut cx.src, |t| has_skip(t) || has_hidden(t) || !t.docs.is_empty() || !t.meta.is_empty() || fds(t).iter().any(|d| !d.docs.is_empty() || !d.meta.is_empty()));
    cx.input(e);
    let d = (e.descriptor)();
    check_type(d.get_type(), e.ty)
}

/// Opting out of traits changes nothing else: cloning, describing, reading, writing, converting, patching.
fn types(cx: &mut Cx) -> Res {
    let e = pick(&mut cx.src, |t| (t.opt_out || t.dbg.is_none()) && matches!(t.k, TK::Struct(_) | TK::TStruct(_) | TK::Enum(_)));
    let v = gen_val(&mut cx.src, e.ty, 3);
    cx.input((e, &v));
    cx.trivial_if(small(&v));
    let r = (e.make)(&v);
    coherent(Some(e.ty), &v, &*r)?;
    let c = r.clone_reflect();
    holds(e, "clone", &wild(e.ty, &v), &*c)?;
    let d = (e.descriptor)();
    check_type(d.get_type(), e.ty)?;
    let s = gen_source(&mut cx.src, e, 2);
    cx.input(&s.view);
    match (from(e.ty, &s.view, s.native), (e.from_reflect)(&*s.real)) {
        (R::Some(w), Some(g)) => shows("from_reflect", &w, &g)?,
        (R::None, None) | (R::Unspec, _) => {}
        (w, g) => return Err(format!("from_reflect of {:?}: expected {w:?}, got {g:?}", s.view)),
    }
    let mut r = r;
    coherent_mut(Some(e.ty), &v, &mut *r)?;
    let mut p = v.clone();
    if patch(e.ty, &mut p, &s.view, s.native) {
        r.patch(&*s.real);
        holds(e, "patched", &p, &*r)?;
    }
    Ok(())
}
