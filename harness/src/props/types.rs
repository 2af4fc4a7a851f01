//! C09 descriptions of types, C10 concurrent first use, C11 descriptions of parts on their own,
//! C15 default values.

use std::any::TypeId;
use std::borrow::Cow;
use std::io::Read;
use std::process::{Command, Stdio};
use std::sync::{Arc, Barrier};
use std::time::{Duration, Instant};

use mirror_mirror::key_path::GetTypePath;
use mirror_mirror::type_info::{Type, TypeDescriptor, Variant};
use mirror_mirror::Value;

use super::convert::keeps_all;
use crate::gen::*;
use crate::model::*;
use crate::observe::*;
use crate::run::*;
use crate::tape::hash_str;
use crate::walk::*;
use crate::zoo::*;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C09",
            rule: "a case counts when the described type is not a scalar",
            subs: vec![sub("static", 80000, describes), sub("instance", 240000, instance), sub("built", 40000, built), sub("parts", 240000, parts), sub("twins", 4000, twins), sub("own", 2000, super::own::shape)],
        },
        Prop {
            id: "C10",
            rule: "a case counts when at least two threads describe one type for the first time",
            subs: vec![sub("threads", 2400, concurrent), sub("repeated", 20000, repeated)],
        },
        Prop {
            id: "C11",
            rule: "a case counts when the part taken out is not the whole type",
            subs: vec![sub("standalone", 240000, standalone), sub("nested", 80000, nested), sub("own", 2000, super::own::part)],
        },
        Prop {
            id: "C15",
            rule: "a case counts when the type is not a scalar",
            subs: vec![sub("default", 160000, defaults), sub("at_path", 240000, default_at), sub("own", 2000, super::own::default)],
        },
    ]
}

fn scalar(ty: Ty) -> bool {
    matches!(ty.k, TK::Sc(_))
}

fn describes(cx: &mut Cx) -> Res {
    let e = pick_entry(&mut cx.src);
    cx.input(e);
    cx.trivial_if(scalar(e.ty));
    let d = (e.descriptor)();
    check_descriptor(&d, e.ty)?;
    check!(*d == *(e.descriptor)(), "described differently the second time");
    check!((*d).clone() == *d, "clone of the descriptor differs");
    Ok(())
}

pub fn check_descriptor(d: &TypeDescriptor, ty: Ty) -> Res {
    same("type name", ty.name, d.type_name())?;
    check_attrs(ty.name, d, &ty.docs, &ty.meta)?;
    let as_ = [
        ("struct", d.as_struct().map(Type::Struct)),
        ("tuple struct", d.as_tuple_struct().map(Type::TupleStruct)),
        ("tuple", d.as_tuple().map(Type::Tuple)),
        ("enum", d.as_enum().map(Type::Enum)),
        ("list", d.as_list().map(Type::List)),
        ("array", d.as_array().map(Type::Array)),
        ("map", d.as_map().map(Type::Map)),
        ("scalar", d.as_scalar().map(Type::Scalar)),
        ("opaque", d.as_opaque().map(Type::Opaque)),
    ];
    for (n, t) in as_ {
        check!(t.is_some() == (n == ty_kind(ty)), "{}: cast to {n} type", ty.name);
        if let Some(t) = t {
            check!(t == d.get_type(), "{}: two descriptions", ty.name);
        }
    }
    check_type(d.get_type(), ty)
}

/// A value is described by the description of its type, and so are all its parts.
fn instance(cx: &mut Cx) -> Res {
    let (e, v) = gen_entry_val(&mut cx.src);
    let parts = reached(Some(e.ty), &v);
    let parts: Vec<_> = parts.into_iter().filter(|(_, t)| static_ty(*t).is_some()).collect();
    if parts.is_empty() {
        cx.trivial();
        return Ok(());
    }
    let (addr, t) = cx.src.pick(&parts).clone();
    let t = t.unwrap();
    cx.input((e, &v, &addr));
    cx.trivial_if(scalar(t));
    let mut r = (e.make)(&v);
    let x: &dyn mirror_mirror::Reflect = {
        let (x, _) = nav_mut(&mut cx.src, Some(e.ty), &v, &mut *r, &addr)?;
        x
    };
    check_descriptor(&x.type_descriptor(), t)?;
    if let Some(e2) = entry_of(t) {
        check!(*x.type_descriptor() == *(e2.descriptor)(), "value of {} described unlike its type", t.name);
    }
    Ok(())
}

/// Types that share one name, by declarations in blocks of one function.
struct Twin<const N: usize>;

trait Pick {
    type T: mirror_mirror::FromReflect + mirror_mirror::DescribeType + Clone;
}

fn twin_models() -> Vec<(&'static str, Vec<&'static str>)> {
    use mirror_mirror::Reflect;
    {
        #[derive(Reflect, Clone, Debug)]
        struct Same {
            a: i32,
        }
        impl Pick for Twin<0> {
            type T = Same;
        }
    }
    {
        #[derive(Reflect, Clone, Debug)]
        struct Same {
            b: bool,
            a: u8,
        }
        impl Pick for Twin<1> {
            type T = Same;
        }
    }
    {
        #[derive(Reflect, Clone, Debug)]
        struct Same(i32, u8);
        impl Pick for Twin<2> {
            type T = Same;
        }
    }
    {
        #[derive(Reflect, Clone, Debug)]
        enum Same {
            X,
            Y(u8),
        }
        impl Pick for Twin<3> {
            type T = Same;
        }
    }
    vec![("struct", vec!["a: i32"]), ("struct", vec!["b: bool", "a: u8"]), ("tuple struct", vec!["i32", "u8"]), ("enum", vec!["X", "Y"])]
}

fn twin_parts(t: Type<'_>) -> Vec<String> {
    match t {
        Type::Struct(s) => s.field_types().map(|f| format!("{}: {}", f.name(), f.get_type().type_name())).collect(),
        Type::TupleStruct(s) => s.field_types().map(|f| f.get_type().type_name().to_string()).collect(),
        Type::Enum(s) => s.variants().map(|v| v.name().to_string()).collect(),
        _ => vec![],
    }
}

/// Different types are described apart even when their names are equal.
fn twins(cx: &mut Cx) -> Res {
    use mirror_mirror::DescribeType;
    type At<const N: usize> = <Twin<N> as Pick>::T;
    type Make = fn() -> Cow<'static, TypeDescriptor>;
    let models = twin_models();
    // (tuple of twins, or a container of one)
    macro_rules! tuples {
        ($([$($n:literal)*])*) => { vec![$((vec![$($n),*], <($(At<$n>,)*) as DescribeType>::type_descriptor as Make)),*] };
    }
    let cands: Vec<(Vec<usize>, Make)> = tuples!([0 1] [1 0] [2 0] [0 3] [3 2 1 0] [0 1 2 3] [1] [3] [2 1] [1 2 1] [0 0 3]);
    let one: Vec<(usize, Make)> = vec![
        (0, <Vec<At<0>> as DescribeType>::type_descriptor),
        (1, <Vec<At<1>> as DescribeType>::type_descriptor),
        (2, <Option<At<2>> as DescribeType>::type_descriptor),
        (3, <Option<At<3>> as DescribeType>::type_descriptor),
    ];
    let n = cx.src.range(1, 4);
    for _ in 0..n {
        let (want, d) = match cx.src.below(3) {
            0 => {
                let (w, d) = cx.src.pick(&one);
                (vec![*w], d())
            }
            _ => {
                let (w, d) = cx.src.pick(&cands);
                (w.clone(), d())
            }
        };
        cx.input(&want);
        let got: Vec<Type<'_>> = match d.get_type() {
            Type::Tuple(t) => t.field_types().map(|f| f.get_type()).collect(),
            Type::List(l) => vec![l.element_type()],
            Type::Enum(o) => o.variants().flat_map(|v| v.field_types().map(|f| f.get_type()).collect::<Vec<_>>()).collect(),
            _ => vec![],
        };
        same("number of parts", want.len(), got.len())?;
        for (w, g) in want.iter().zip(got) {
            let parts: Vec<String> = models[*w].1.iter().map(|s| s.to_string()).collect();
            same("parts of a type that shares its name", parts, twin_parts(g))?;
        }
    }
    Ok(())
}

/// Nodes are built once per graph and type.
fn built(cx: &mut Cx) -> Res {
    let mut g = Default::default();
    let n = cx.src.range(2, 6);
    let picked: Vec<&'static Entry> = (0..n).map(|_| pick_entry(&mut cx.src)).collect();
    cx.input(&picked);
    let ids: Vec<_> = picked.iter().map(|e| (e.build)(&mut g)).collect();
    let mut other = picked.clone();
    cx.src.shuffle(&mut other);
    let mut g2 = Default::default();
    let mut ids2: Vec<_> = other.iter().map(|e| (other_ty(e), (e.build)(&mut g2))).collect();
    ids2.extend(other.iter().map(|e| (other_ty(e), (e.build)(&mut g2))));
    for (i, a) in picked.iter().enumerate() {
        for (j, b) in picked.iter().enumerate() {
            same(&format!("node of {} is the node of {}", a.label, b.label), a.ty.id == b.ty.id, ids[i] == ids[j])?;
        }
        for (t, id) in &ids2 {
            same("node in another graph", a.ty.id == *t, ids[i] == *id)?;
        }
    }
    check!(g == g2, "the order of building matters");
    Ok(())
}

fn other_ty(e: &Entry) -> TypeId {
    e.ty.id
}

/// Descriptions reached through a parent are the descriptions of the parts.
fn parts(cx: &mut Cx) -> Res {
    let e = pick_entry(&mut cx.src);
    let path = gen_type_path(&mut cx.src, e.ty);
    cx.input((e, &path));
    let d = (e.descriptor)();
    let want = type_at(e.ty, &path);
    cx.trivial_if(want.is_none() || path.is_empty());
    let Some(TAt::Ty(t)) = want else { return Ok(()) };
    let Some(at) = d.type_at(&key_path(&path)) else { return Err("no such type".into()) };
    let Some(e2) = entry_of(t) else { return Ok(()) };
    let d2 = (e2.descriptor)();
    same("kind", type_kind(d2.get_type()), ty_kind(t))?;
    check!(at.default_value() == d2.default_value(), "default value of {} depends on where it is", t.name);
    same("docs", mirror_mirror::type_info::GetMeta::docs(at), mirror_mirror::type_info::GetMeta::docs(&*d2))
}

/// One child process: the threads describe types for the first time in this process, all at once.
fn concurrent(cx: &mut Cx) -> Res {
    let r = reg();
    // few types, so that threads meet
    let pool: Vec<usize> = (0..cx.src.range(1, 6)).map(|_| cx.src.below(r.len())).collect();
    let threads = cx.src.range(2, 8);
    let lists: Vec<Vec<usize>> = (0..threads).map(|_| (0..cx.src.range(1, 6)).map(|_| *cx.src.pick(&pool)).collect()).collect();
    cx.input(lists.iter().map(|l| l.iter().map(|i| r[*i].label).collect::<Vec<_>>()).collect::<Vec<_>>());
    let firsts: Vec<usize> = lists.iter().map(|l| l[0]).collect();
    let meet = firsts.iter().any(|i| firsts.iter().filter(|j| i == *j).count() > 1);
    cx.trivial_if(!meet);
    cx.label(if meet { "threads meet" } else { "apart" });
    let arg = lists.iter().map(|l| l.iter().map(|i| i.to_string()).collect::<Vec<_>>().join(",")).collect::<Vec<_>>().join("|");
    let mut child = Command::new(std::env::current_exe().unwrap())
        .args(["concurrent", &arg])
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .map_err(|e| format!("harness: {e}"))
        .unwrap();
    let t0 = Instant::now();
    let mut pause = 200;
    let status = loop {
        match child.try_wait().unwrap() {
            Some(s) => break s,
            None if t0.elapsed() > Duration::from_secs(100) => {
                let _ = child.kill();
                let _ = child.wait();
                return Err("the threads don't end".into());
            }
            None => {
                std::thread::sleep(Duration::from_micros(pause));
                pause = (pause * 2).min(20000);
            }
        }
    };
    let mut out = String::new();
    child.stdout.take().unwrap().read_to_string(&mut out).unwrap();
    check!(status.success(), "child process: {status} {out}");
    // what the child saw is what this process sees
    for line in out.lines() {
        let (i, h) = line.split_once(' ').ok_or("harness: bad line")?;
        let i: usize = i.parse().unwrap();
        same(&format!("description of {} in another process", r[i].label), fingerprint(&(r[i].descriptor)()).to_string(), h.to_string())?;
    }
    Ok(())
}

fn fingerprint(d: &TypeDescriptor) -> u64 {
    hash_str(&serde_json::to_string(d).unwrap_or_else(|e| format!("{e}")))
}

pub fn concurrent_child(arg: &str) {
    let lists: Vec<Vec<usize>> = arg.split('|').map(|l| l.split(',').map(|i| i.parse().unwrap()).collect()).collect();
    let barrier = Arc::new(Barrier::new(lists.len()));
    let handles: Vec<_> = lists
        .into_iter()
        .map(|l| {
            let barrier = barrier.clone();
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn(move || -> Result<Vec<(usize, usize, u64)>, String> {
                    let r = reg();
                    let tys: Vec<Ty> = l.iter().map(|i| r[*i].ty).collect();
                    barrier.wait();
                    let ds: Vec<Cow<'static, TypeDescriptor>> = l.iter().map(|i| (r[*i].descriptor)()).collect();
                    let mut out = vec![];
                    for ((i, d), ty) in l.iter().zip(&ds).zip(tys) {
                        check_descriptor(d, ty)?;
                        let p = match d {
                            Cow::Borrowed(d) => *d as *const TypeDescriptor as usize,
                            Cow::Owned(_) => 0,
                        };
                        out.push((*i, p, fingerprint(d)));
                    }
                    Ok(out)
                })
                .unwrap()
        })
        .collect();
    let mut seen: Vec<(usize, usize, u64)> = vec![];
    for h in handles {
        let out = match h.join() {
            Ok(Ok(o)) => o,
            Ok(Err(m)) => {
                println!("{m}");
                std::process::exit(1);
            }
            Err(_) => {
                println!("{}", last_panic());
                std::process::exit(1);
            }
        };
        for (i, p, f) in out {
            match seen.iter().find(|s| s.0 == i) {
                Some(s) if s.1 != p || s.2 != f => {
                    println!("{} has two descriptions in one process", reg()[i].label);
                    std::process::exit(1);
                }
                Some(_) => {}
                None => seen.push((i, p, f)),
            }
        }
    }
    for (i, _, f) in seen {
        println!("{i} {f}");
    }
}

/// Many types in any order from one thread: the descriptions stay what they were.
fn repeated(cx: &mut Cx) -> Res {
    let n = cx.src.range(2, 12);
    let picked: Vec<&'static Entry> = (0..n).map(|_| pick_entry(&mut cx.src)).collect();
    cx.input(&picked);
    let ds: Vec<_> = picked.iter().map(|e| (e.descriptor)()).collect();
    for (e, d) in picked.iter().zip(&ds) {
        same("type name", e.ty.name, d.type_name())?;
        let again = (e.descriptor)();
        check!(*again == **d, "{}: described differently the second time", e.label);
        if let (Cow::Borrowed(a), Cow::Borrowed(b)) = (d, &again) {
            check!(std::ptr::eq(*a, *b), "{}: described anew on every use", e.label);
        }
    }
    for (a, d) in picked.iter().zip(&ds) {
        for (b, f) in picked.iter().zip(&ds) {
            same(&format!("{} and {} share a description", a.label, b.label), a.ty.id == b.ty.id, **d == **f)?;
        }
    }
    Ok(())
}

fn detach(t: Type<'_>) -> Vec<(&'static str, TypeDescriptor)> {
    let mut out = vec![("Type", t.into_type_descriptor().into_owned())];
    match t {
        Type::Struct(t) => out.push(("StructType", t.into_type_descriptor())),
        Type::TupleStruct(t) => out.push(("TupleStructType", t.into_type_descriptor())),
        Type::Tuple(t) => out.push(("TupleType", t.into_type_descriptor())),
        Type::Enum(t) => out.push(("EnumType", t.into_type_descriptor())),
        Type::List(t) => out.push(("ListType", t.into_type_descriptor())),
        Type::Array(t) => out.push(("ArrayType", t.into_type_descriptor())),
        Type::Map(t) => out.push(("MapType", t.into_type_descriptor())),
        Type::Opaque(t) => out.push(("OpaqueType", t.into_type_descriptor())),
        Type::Scalar(_) => {}
    }
    out
}

/// Walk down a description by field and element types only.
pub fn descend<'a>(cx: &mut Cx, t: Type<'a>, ty: Ty) -> Option<(Type<'a>, Ty)> {
    match (t, &ty.k) {
        (Type::Struct(s), TK::Struct(fds)) => {
            let fds: Vec<&FD> = fds.iter().filter(|d| !d.skip).collect();
            if fds.is_empty() {
                return None;
            }
            let d = *cx.src.pick(&fds);
            Some((s.field_type(d.name)?.get_type(), (d.ty)()))
        }
        (Type::TupleStruct(s), TK::TStruct(fds)) => {
            let fds: Vec<&FD> = fds.iter().filter(|d| !d.skip).collect();
            if fds.is_empty() {
                return None;
            }
            let i = cx.src.below(fds.len());
            Some((s.field_type_at(i)?.get_type(), (fds[i].ty)()))
        }
        (Type::Tuple(s), TK::Tuple(ts)) => {
            if ts.is_empty() {
                return None;
            }
            let i = cx.src.below(ts.len());
            Some((s.field_type_at(i)?.get_type(), ts[i]()))
        }
        (Type::Enum(s), TK::Enum(vds)) => {
            let vds: Vec<&VD> = vds.iter().filter(|d| !d.skip && d.fields.iter().any(|d| !d.skip)).collect();
            if vds.is_empty() {
                return None;
            }
            let vd = *cx.src.pick(&vds);
            let fds: Vec<&FD> = vd.fields.iter().filter(|d| !d.skip).collect();
            let i = cx.src.below(fds.len());
            Some((s.variant(vd.name)?.field_type_at(i)?.get_type(), (fds[i].ty)()))
        }
        (Type::List(s), TK::List(t)) => Some((s.element_type(), t())),
        (Type::Array(s), TK::Arr(t, _)) => Some((s.element_type(), t())),
        (Type::Map(s), TK::Map(k, v)) => Some(if cx.src.chance(1, 2) { (s.key_type(), k()) } else { (s.value_type(), v()) }),
        _ => None,
    }
}

fn standalone(cx: &mut Cx) -> Res {
    let e = pick_entry(&mut cx.src);
    cx.input(e);
    // the parent goes away
    let parent: Box<TypeDescriptor> = Box::new((e.descriptor)().into_owned());
    let (mut t, mut ty) = (parent.get_type(), e.ty);
    let mut steps = 0;
    for _ in 0..cx.src.range(1, 5) {
        match descend(cx, t, ty) {
            Some((a, b)) => (t, ty) = (a, b),
            None => break,
        }
        steps += 1;
    }
    cx.input(ty);
    cx.trivial_if(steps == 0);
    cx.label(ty_kind(ty));
    let out = detach(t);
    drop(parent);
    for (what, d) in &out {
        check_descriptor(d, ty).map_err(|e| format!("{what}::into_type_descriptor: {e}"))?;
        let path = gen_type_path(&mut cx.src, ty);
        check_at(d.type_at(&key_path(&path)), type_at(ty, &path), &format!("{what}: type at {path:?}"))?;
        same("default value", default(ty).map(|v| to_value(&v)), d.default_value())?;
    }
    Ok(())
}

/// Taking parts of parts out, again and again.
fn nested(cx: &mut Cx) -> Res {
    let e = pick_entry(&mut cx.src);
    cx.input(e);
    let mut d = (e.descriptor)().into_owned();
    let mut ty = e.ty;
    let mut steps = 0;
    for _ in 0..cx.src.range(2, 5) {
        let next = {
            let Some((t, nt)) = descend(cx, d.get_type(), ty) else { break };
            let mut all = detach(t);
            let i = cx.src.below(all.len());
            (all.swap_remove(i).1, nt)
        };
        (d, ty) = next;
        steps += 1;
        check_descriptor(&d, ty)?;
    }
    cx.input(ty);
    cx.trivial_if(steps < 2);
    Ok(())
}

fn is_default(what: &str, want: &Option<V>, got: Option<Value>, has: bool) -> Res {
    same(&format!("{what}: has_default_value"), want.is_some(), has)?;
    match (want, got) {
        (None, None) => Ok(()),
        (Some(w), Some(g)) => shows(&format!("{what}: default_value"), w, &observe(&g)),
        (w, g) => Err(format!("{what}: default_value: expected {w:?}, got {g:?}")),
    }
}

fn type_default(what: &str, t: Type<'_>, ty: Ty) -> Res {
    let want = default(ty);
    is_default(what, &want, t.default_value(), t.has_default_value())?;
    match t {
        Type::Struct(t) => is_default(what, &want, t.default_value(), t.has_default_value()),
        Type::TupleStruct(t) => is_default(what, &want, t.default_value(), t.has_default_value()),
        Type::Tuple(t) => is_default(what, &want, t.default_value(), t.has_default_value()),
        Type::Enum(t) => is_default(what, &want, t.default_value(), t.has_default_value()),
        Type::List(t) => is_default(what, &want, Some(t.default_value()), t.has_default_value()),
        Type::Array(t) => is_default(what, &want, t.default_value(), t.has_default_value()),
        Type::Map(t) => is_default(what, &want, Some(t.default_value()), t.has_default_value()),
        Type::Scalar(t) => is_default(what, &want, Some(t.default_value()), t.has_default_value()),
        Type::Opaque(t) => is_default(what, &want, t.default_value(), t.has_default_value()),
    }
}

fn variant_default(what: &str, v: Variant<'_>, ty: Ty, vd: &VD) -> Res {
    // the fields of a variant may hold the enum itself, where that has a default
    let want = default_variant(vd, &mut vec![]);
    let _ = ty;
    is_default(what, &want, v.default_value(), v.has_default_value())?;
    match v {
        Variant::Struct(v) => is_default(what, &want, v.default_value(), v.has_default_value()),
        Variant::Tuple(v) => is_default(what, &want, v.default_value(), v.has_default_value()),
        Variant::Unit(v) => is_default(what, &want, Some(v.default_value()), v.has_default_value()),
    }
}

fn defaults(cx: &mut Cx) -> Res {
    let e = pick_entry(&mut cx.src);
    cx.input(e);
    cx.trivial_if(scalar(e.ty));
    let d = (e.descriptor)();
    let want = default(e.ty);
    cx.label(if want.is_some() { "has a default" } else { "none" });
    is_default("descriptor", &want, d.default_value(), d.has_default_value())?;
    type_default("type", d.get_type(), e.ty)?;
    if let TK::Enum(vds) = &e.ty.k {
        let en = d.as_enum().ok_or("no enum")?;
        for vd in vds.iter().filter(|d| !d.skip) {
            let v = en.variant(vd.name).ok_or("no variant")?;
            variant_default(&format!("variant {}", vd.name), v, e.ty, vd)?;
        }
    }
    // the default is a value of the type
    if let (Some(w), Some(g)) = (&want, d.default_value()) {
        let made = (e.from_reflect)(&g);
        super::convert::is(&from(e.ty, w, false), &made, "from_reflect of the default")?;
        if keeps_all(e.ty) {
            let Some(x) = made else { return Err("the default is no value of the type".into()) };
            same("default after a round trip", &g, &(e.make)(&x).to_value())?;
            cx.label("made");
        }
    }
    Ok(())
}

fn default_at(cx: &mut Cx) -> Res {
    let e = pick_entry(&mut cx.src);
    let path = gen_type_path(&mut cx.src, e.ty);
    cx.input((e, &path));
    let p = key_path(&path);
    let d = (e.descriptor)();
    let want = type_at(e.ty, &path);
    cx.trivial_if(want.is_none() || path.is_empty());
    match (want, d.type_at(&p)) {
        (None, None) => Ok(()),
        (Some(TAt::Ty(t)), Some(at)) => is_default(&format!("type at {p}"), &default(t), at.default_value(), at.has_default_value()),
        (Some(TAt::Var(t, i)), Some(at)) => {
            let vd = variant(t, i);
            let want = default_variant(vd, &mut vec![]);
            is_default(&format!("variant at {p}"), &want, at.default_value(), at.has_default_value())?;
            let v = at.as_variant().ok_or("no variant")?;
            variant_default(&format!("variant at {p}"), v, t, vd)
        }
        _ => Err(format!("{p}: leads elsewhere")),
    }
}
