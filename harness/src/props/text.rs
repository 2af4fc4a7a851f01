//! C21 type names and printed types, C24 debug output.

use std::any::TypeId;
use std::fmt::{self, Write};

#[cfg(feature = "std")]
use mirror_mirror::type_info::SimpleTypeName;
use mirror_mirror::type_info::{PrettyPrintRoot, Type};
use mirror_mirror::{Reflect, ReflectRef};

use super::convert::small;
use crate::gen::*;
use crate::model::*;
use crate::run::*;
use crate::tape::Src;
use crate::walk::*;
use crate::zoo::*;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C21",
            rule: "a case counts when the name or the printed type has at least two parts",
            subs: vec![
                #[cfg(feature = "std")]
                sub("names", 300000, names),
                #[cfg(feature = "std")]
                sub("zoo_names", 6000, zoo_names),
                #[cfg(feature = "std")]
                sub("any_text", 120000, any_text),
                sub("pretty", 40000, pretty),
            ],
        },
        Prop {
            id: "C24",
            rule: "a case counts when the value has at least two parts",
            subs: vec![sub("debug", 900000, debug)],
        },
    ]
}

// ---- type names ----

#[cfg(feature = "std")]
const IDENTS: &[&str] =
    &["i32", "Foo", "a", "alloc", "core", "Option", "_private", "__Two", "r2d2", "Größe", "Vec", "mirror_mirror", "T", "_0", "option", "u", "x9_", "Self_", "crate_", "mutable", "dynamic", "consts"];

/// A type name as the compiler writes it, the simple form, and the number of parts.
#[cfg(feature = "std")]
fn name(src: &mut Src, fuel: usize) -> (String, String, usize) {
    let k = if fuel == 0 { 0 } else { src.below(9) };
    match k {
        0..=4 => path(src, fuel),
        5 => {
            let n = src.below(5);
            let parts: Vec<_> = (0..n).map(|_| name(src, fuel - 1)).collect();
            let join = |f: &dyn Fn(&(String, String, usize)) -> String| {
                let xs: Vec<String> = parts.iter().map(f).collect();
                if n == 1 { format!("({},)", xs[0]) } else { format!("({})", xs.join(", ")) }
            };
            (join(&|p| p.0.clone()), join(&|p| p.1.clone()), 1 + parts.iter().map(|p| p.2).sum::<usize>())
        }
        6 => {
            let (a, b, n) = name(src, fuel - 1);
            let len = *src.pick(&[0usize, 1, 2, 3, 10, 255, 65536, usize::MAX]);
            (format!("[{a}; {len}]"), format!("[{b}; {len}]"), n + 1)
        }
        7 => {
            let (a, b, n) = name(src, fuel - 1);
            (format!("&{a}"), format!("&{b}"), n + 1)
        }
        _ => {
            let (a, b, n) = name(src, fuel - 1);
            (format!("&mut {a}"), format!("&mut {b}"), n + 1)
        }
    }
}

#[cfg(feature = "std")]
fn path(src: &mut Src, fuel: usize) -> (String, String, usize) {
    let mut full = String::new();
    let n = src.below(4);
    for i in 0..n {
        full.push_str(src.pick(IDENTS));
        full.push_str("::");
        // types in unnamed constants
        if i > 0 || n == 1 {
            for _ in 0..if src.chance(1, 8) { 1 + src.below(3) } else { 0 } {
                full.push_str("_::");
            }
        }
    }
    let last = *src.pick(IDENTS);
    full.push_str(last);
    let mut simple = last.to_string();
    let mut parts = 1 + n;
    if fuel > 0 && src.chance(1, 2) {
        let mut f: Vec<String> = vec![];
        let mut s: Vec<String> = vec![];
        // lifetimes come first
        for _ in 0..if src.chance(1, 5) { 1 + src.below(2) } else { 0 } {
            f.push(src.pick(&["'_", "'a", "'static"]).to_string());
        }
        for _ in 0..1 + src.below(3) {
            match src.below(8) {
                0 => {
                    let c = src.pick(&["0", "1", "42", "true", "false", "'x'", "'\\''", "'\\n'", "'é'", "255"]).to_string();
                    f.push(c.clone());
                    s.push(c);
                }
                1 if !f.is_empty() && s.is_empty() => {}
                _ => {
                    let (a, b, n) = name(src, fuel - 1);
                    f.push(a);
                    s.push(b);
                    parts += n;
                }
            }
        }
        let _ = write!(full, "<{}>", f.join(", "));
        if !s.is_empty() {
            let _ = write!(simple, "<{}>", s.join(", "));
        }
    }
    (full, simple, parts)
}

#[cfg(feature = "std")]
fn simplified(full: &str) -> Result<Result<String, ()>, String> {
    let Some(n) = SimpleTypeName::new(full) else { return Err(format!("{full} is not understood")) };
    let mut out = String::new();
    Ok(match write!(out, "{n}") {
        Ok(()) => Ok(out),
        Err(_) => Err(()),
    })
}

#[cfg(feature = "std")]
fn names(cx: &mut Cx) -> Res {
    let fuel = cx.src.below(4);
    let (full, simple, parts) = name(&mut cx.src, fuel);
    cx.input((&full, &simple));
    cx.trivial_if(parts < 2);
    same(&full, Ok(simple.clone()), simplified(&full)?)?;
    // a simple name is its own simple name
    same("simplified again", Ok(simple.clone()), simplified(&simple)?)
}

/// The names of real types: paths lose all but the last part.
fn strip(full: &str) -> String {
    let mut out = String::new();
    let mut word = String::new();
    let mut cs = full.chars().peekable();
    while let Some(c) = cs.next() {
        if c == ':' && cs.peek() == Some(&':') {
            cs.next();
            word.clear();
        } else if c.is_alphanumeric() || c == '_' {
            word.push(c);
        } else {
            out.push_str(&word);
            word.clear();
            out.push(c);
        }
    }
    out.push_str(&word);
    out
}

#[cfg(feature = "std")]
fn zoo_names(cx: &mut Cx) -> Res {
    let e = pick_entry(&mut cx.src);
    cx.input(e);
    cx.trivial_if(!e.label.contains("::"));
    same(e.label, Ok(strip(e.label)), simplified(e.label)?)?;
    macro_rules! typed {
        ($($t:ty),* $(,)?) => { $(
            same("simple name of a type", strip(std::any::type_name::<$t>()), SimpleTypeName::new_from_type::<$t>().to_string())?;
        )* };
    }
    if cx.src.chance(1, 50) {
        typed! {
            i32, String, (), (u8,), (u8, String), Option<String>, Vec<Option<(i32, [u8; 3])>>, &'static i32, &'static mut Vec<u8>,
            std::collections::BTreeMap<String, Option<std::time::Duration>>, Result<(), Box<i32>>, std::ops::Range<i8>, Opaque,
            std::marker::PhantomData<&'static str>, std::rc::Rc<std::cell::RefCell<char>>
        }
        // lifetimes are left out
        same("simple name of a type", "Cow<String>".to_string(), SimpleTypeName::new_from_type::<std::borrow::Cow<'static, String>>().to_string())?;
    }
    Ok(())
}

/// No text makes it panic, and what is understood has a stable simple form.
#[cfg(feature = "std")]
fn any_text(cx: &mut Cx) -> Res {
    let mut s = String::new();
    if cx.src.chance(1, 2) {
        let (full, _, _) = name(&mut cx.src, 2);
        s = full;
        // damage it
        let chars: Vec<char> = s.chars().collect();
        let i = cx.src.below(chars.len() + 1);
        let bit = *cx.src.pick(&["", "<", ">", ",", "::", "_", "_::", "[", "]", "(", ")", "&", "*const ", "dyn ", "fn() -> ", "'", "-1", "!", " ", "\"x\"", ";", "\u{0}", "é", "{{closure}}"]);
        let cut = cx.src.below(3);
        s = chars[..i].iter().collect::<String>() + bit + &chars[(i + cut).min(chars.len())..].iter().collect::<String>();
    } else {
        for _ in 0..cx.src.below(10) {
            s.push_str(cx.src.pick(&["i32", "Foo", "::", "<", ">", ", ", "(", ")", "[", "]", "; 3", "&", "&mut ", "*mut ", "dyn ", "impl ", "fn(", ") -> ", "!", "'a", "_", "::_::", "{", "}", "-", "1", "'x'", "\"s\"", "for<'a> ", " + Send", "#", "\\", "\u{7f}", "日"]));
        }
    }
    cx.input(&s);
    cx.trivial_if(s.len() < 2);
    if let Some(n) = SimpleTypeName::new(&s) {
        cx.label("understood");
        let mut out = String::new();
        if write!(out, "{n}").is_ok() {
            cx.label("printed");
            check!(!out.is_empty(), "{s:?} has an empty name");
        }
    }
    Ok(())
}

// ---- printed types ----

fn short(ty: Ty) -> String {
    if cfg!(not(feature = "std")) {
        // names are only simplified with the standard library
        return ty.name.into();
    }
    if ty.id == TypeId::of::<String>() {
        return "String".into();
    }
    strip(ty.name)
}

fn printed(ty: Ty) -> String {
    let list = |fds: &mut dyn Iterator<Item = &FD>| fds.filter(|d| !d.skip).map(|d| short((d.ty)())).collect::<Vec<_>>().join(", ");
    let block = |fds: &[FD], tab: &str| -> String {
        let mut out = String::from("{");
        for (i, d) in fds.iter().filter(|d| !d.skip).enumerate() {
            if i == 0 {
                out.push('\n');
            }
            let _ = writeln!(out, "{tab}    {}: {},", d.name, short((d.ty)()));
        }
        if out.len() > 1 {
            out.push_str(tab);
        }
        out + "}"
    };
    match &ty.k {
        TK::Sc(SK::Str) => "String".into(),
        TK::Sc(_) | TK::Nz(_) | TK::Dur | TK::Opq | TK::Dyn(_) => short(ty),
        TK::Struct(fds) => format!("struct {} {}", short(ty), block(fds, "")),
        TK::TStruct(fds) => format!("struct {}({})", short(ty), list(&mut fds.iter())),
        TK::Tuple(ts) => format!("({})", ts.iter().map(|t| short(t())).collect::<Vec<_>>().join(", ")),
        TK::List(t) => format!("[{}]", short(t())),
        TK::Arr(t, n) => format!("[{}; {n}]", short(t())),
        TK::Map(k, v) => format!("[{}: {}]", short(k()), short(v())),
        TK::Enum(vds) => {
            let mut out = format!("enum {} {{", short(ty));
            for (i, d) in vds.iter().filter(|d| !d.skip).enumerate() {
                if i == 0 {
                    out.push('\n');
                }
                let _ = match d.kind {
                    VK::Unit => writeln!(out, "    {},", d.name),
                    VK::Tuple => writeln!(out, "    {}({}),", d.name, list(&mut d.fields.iter())),
                    VK::Struct => writeln!(out, "    {} {},", d.name, block(&d.fields, "    ")),
                };
            }
            out + "}"
        }
    }
}

/// Everything that is printed one way or another.
fn print_type(t: Type<'_>) -> Vec<String> {
    let mut out = vec![t.pretty_print_root().to_string()];
    out.push(match t {
        Type::Struct(t) => t.pretty_print_root().to_string(),
        Type::TupleStruct(t) => t.pretty_print_root().to_string(),
        Type::Tuple(t) => t.pretty_print_root().to_string(),
        Type::Enum(t) => t.pretty_print_root().to_string(),
        Type::List(t) => t.pretty_print_root().to_string(),
        Type::Array(t) => t.pretty_print_root().to_string(),
        Type::Map(t) => t.pretty_print_root().to_string(),
        Type::Scalar(t) => t.pretty_print_root().to_string(),
        Type::Opaque(t) => t.pretty_print_root().to_string(),
    });
    out
}

fn pretty(cx: &mut Cx) -> Res {
    let e = pick_entry(&mut cx.src);
    cx.input(e);
    let want = printed(e.ty);
    cx.trivial_if(want.len() < 12);
    if ty_has_box(e.ty) {
        // a box goes by two names
        cx.label("box");
        let _ = print_type((e.descriptor)().get_type());
        return Ok(());
    }
    let d = (e.descriptor)();
    same("printed", want.clone(), d.pretty_print_root().to_string())?;
    for p in print_type(d.get_type()) {
        same("printed type", want.clone(), p)?;
    }
    // a part of it, also one of a type that has no values
    let (mut t, mut ty) = (d.get_type(), e.ty);
    for _ in 0..cx.src.below(4) {
        let Some(next) = super::types::descend(cx, t, ty) else { break };
        (t, ty) = next;
    }
    if !ty_has_box(ty) {
        for p in print_type(t) {
            same("printed part", printed(ty), p)?;
        }
    }
    // through a value
    if inhabited(e.ty) {
        let v = gen_val(&mut cx.src, e.ty, 1);
        let r = (e.make)(&v);
        same("printed type of a value", want, r.type_descriptor().pretty_print_root().to_string())?;
    }
    Ok(())
}

fn ty_has_box(ty: Ty) -> bool {
    let f = |d: &FD| !d.skip && d.boxed;
    ty.name.contains("Box<")
        || match &ty.k {
            TK::Struct(fds) | TK::TStruct(fds) => fds.iter().any(f),
            TK::Enum(vds) => vds.iter().any(|d| d.fields.iter().any(f)),
            _ => false,
        }
}

// ---- debug output ----

/// Whether the output of the type is fixed: boxes and dynamic values inside go by another form.
fn plain(ty: Ty, parents: &mut Vec<TypeId>) -> bool {
    if ty.dbg.is_some() && !matches!(ty.k, TK::Dyn(_)) {
        return true;
    }
    if matches!(ty.k, TK::Dyn(_)) || ty.name.contains("Box<") {
        return false;
    }
    if parents.contains(&ty.id) {
        return true;
    }
    parents.push(ty.id);
    let mut f = |d: &FD| d.skip || !d.boxed && plain((d.ty)(), parents);
    let ok = match &ty.k {
        TK::Struct(fds) | TK::TStruct(fds) => fds.iter().all(f),
        TK::Enum(vds) => vds.iter().all(|d| d.fields.iter().all(&mut f)),
        TK::Tuple(ts) => ts.iter().all(|t| plain(t(), parents)),
        TK::List(t) | TK::Arr(t, _) => plain(t(), parents),
        TK::Map(k, v) => plain(k(), parents) && plain(v(), parents),
        _ => true,
    };
    parents.pop();
    ok
}

struct Shown<'a>(Ty, &'a V);

impl fmt::Debug for Shown<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let Shown(ty, v) = self;
        if let Some(d) = ty.dbg {
            return d(v, f);
        }
        let ks = kids(Some(ty), v);
        match (&ty.k, v) {
            (TK::Struct(_), _) => {
                let mut f = f.debug_struct(ty.name);
                for k in ks {
                    f.field(k.name, &Shown(k.ty.unwrap(), k.v));
                }
                f.finish()
            }
            (TK::TStruct(_), _) => {
                let mut f = f.debug_tuple(ty.name);
                for k in ks {
                    f.field(&Shown(k.ty.unwrap(), k.v));
                }
                f.finish()
            }
            (TK::Tuple(_), _) if ks.is_empty() => f.write_str("()"),
            (TK::Tuple(_), _) => {
                let mut f = f.debug_tuple("");
                for k in ks {
                    f.field(&Shown(k.ty.unwrap(), k.v));
                }
                f.finish()
            }
            (_, V::Enum(n, VK::Struct, _)) => {
                let mut f = f.debug_struct(n);
                for k in ks {
                    f.field(k.name, &Shown(k.ty.unwrap(), k.v));
                }
                f.finish()
            }
            (_, V::Enum(n, VK::Tuple, _)) => {
                let mut f = f.debug_tuple(n);
                for k in ks {
                    f.field(&Shown(k.ty.unwrap(), k.v));
                }
                f.finish()
            }
            (_, V::Enum(n, VK::Unit, _)) => f.write_str(n),
            (TK::Map(kt, vt), V::Map(kvs)) => f.debug_map().entries(kvs.iter().map(|(k, v)| (Shown(kt(), k), Shown(vt(), v)))).finish(),
            _ => f.debug_list().entries(ks.into_iter().map(|k| Shown(k.ty.unwrap(), k.v))).finish(),
        }
    }
}

fn debug(cx: &mut Cx) -> Res {
    let (e, v) = gen_entry_val(&mut cx.src);
    cx.input((e, &v));
    let r = (e.make)(&v);
    // maps in order
    let v = (e.down)(&*r).ok_or("lost")?;
    let r: &dyn Reflect = &*r;
    if e.boxed || !plain(e.ty, &mut vec![]) && !matches!(e.ty.k, TK::Dyn(_)) {
        // the form is open; it must not fail
        cx.trivial();
        let _ = format!("{r:?} {r:#?}");
        return Ok(());
    }
    cx.trivial_if(small(&v));
    let want = (format!("{:?}", Shown(e.ty, &v)), format!("{:#?}", Shown(e.ty, &v)));
    same("debug output", &want, &(format!("{r:?}"), format!("{r:#?}")))?;
    if matches!(e.ty.k, TK::Dyn(_)) {
        return Ok(());
    }
    let by_kind = match r.reflect_ref() {
        ReflectRef::Struct(x) => (format!("{x:?}"), format!("{x:#?}")),
        ReflectRef::TupleStruct(x) => (format!("{x:?}"), format!("{x:#?}")),
        ReflectRef::Tuple(x) => (format!("{x:?}"), format!("{x:#?}")),
        ReflectRef::Enum(x) => (format!("{x:?}"), format!("{x:#?}")),
        ReflectRef::List(x) => (format!("{x:?}"), format!("{x:#?}")),
        ReflectRef::Array(x) => (format!("{x:?}"), format!("{x:#?}")),
        ReflectRef::Map(x) => (format!("{x:?}"), format!("{x:#?}")),
        ReflectRef::Scalar(_) | ReflectRef::Opaque(_) => want.clone(),
    };
    same("debug output by kind", &want, &by_kind)
}
