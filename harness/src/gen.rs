//! Generators. Small draws give simple values, so zeroing a tape shrinks a case.

use std::any::TypeId;
use std::collections::HashMap;
use std::sync::Mutex;

use crate::model::*;
use crate::tape::Src;
use crate::zoo::{ev, reg, Entry};

pub const STRINGS: &[&str] = &[
    "", "a", "b", "x", "y", "name", "value", "hello world", "0", "1", "A", "Some", "é", "日本", "\"q\"", "\\", "\n\t", "[0]", ".x", "::A", "a b c",
    "\u{0}", "zzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzz", "🦀", "-1",
];
pub const NAMES: &[&str] = &["a", "b", "c", "x", "y", "name", "value", "index", "item", "v", "0", "", "é", "hidden", "alpha", "field", "other"];
pub const VARIANTS: &[&str] = &["A", "B", "C", "Some", "None", "Ok", "Err", "Unit", "One", "S", "", "Lit", "Alpha", "X", "HiddenT"];

/// Rarer names: of every look, as dynamic values may have them.
const ODD_NAMES: &[&str] = &[
    "A", "Name", "VALUE", "aa", "a1", "a ", " a", "\ta", "a\n", "_", "__a", "self", "Self", "r#type", "type", "r#a", "a.b", "a[0]", "a::b", "::a", "[0]", ".a", "1", "2", "00",
    "-1", "+1", "0x1", "1e3", "true", "null", "\"a\"", "'a'", "\\", "{}", "{a}", "%s", "a,b", "(a)", "<a>", "\u{0}", "e\u{301}", "É", "ß", "日本", "🦀", "\u{feff}a",
    "a_name_that_is_longer_than_most_others", "a_name_that_is_longer_than_most_otherz",
    "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx",
];

pub fn field_name(src: &mut Src) -> &'static str {
    if src.chance(1, 20) { src.pick(ODD_NAMES) } else { src.pick(NAMES) }
}

pub fn variant_name(src: &mut Src) -> &'static str {
    if src.chance(1, 20) { src.pick(ODD_NAMES) } else { src.pick(VARIANTS) }
}

macro_rules! gen_int {
    ($src:ident, $t:ident) => {{
        match $src.below(10) {
            0..=3 => $src.below(5) as $t,
            4 => ($src.below(5) as $t).wrapping_neg(),
            5 => $t::MAX.wrapping_sub($src.below(3) as $t),
            6 => $t::MIN.wrapping_add($src.below(3) as $t),
            7 => $src.below(300) as $t,
            8 => (1 as $t).wrapping_shl($src.below(128) as u32).wrapping_add($src.below(3) as $t).wrapping_sub(1),
            _ => {
                let hi = $src.draw(0) as u128;
                let lo = $src.draw(0) as u128;
                (hi << 64 | lo) as $t
            }
        }
    }};
}

pub fn gen_f64(src: &mut Src) -> f64 {
    match src.below(12) {
        0 => 0.0,
        1 => 1.0,
        2 => -1.0,
        3 => -0.0,
        4 => src.below(2000) as f64 / 8.0,
        5 => -(src.below(2000) as f64) / 8.0,
        6 => f64::NAN,
        7 => f64::INFINITY,
        8 => f64::NEG_INFINITY,
        9 => *src.pick(&[f64::MAX, f64::MIN, f64::MIN_POSITIVE, f64::EPSILON, 5e-324, 1e300, 1e18, 9007199254740993.0, 0.1]),
        10 => f64::from_bits(0xFFF8_0000_0000_0000 | src.draw(1 << 40)),
        _ => f64::from_bits(src.draw(0)),
    }
}

pub fn gen_f32(src: &mut Src) -> f32 {
    match src.below(12) {
        0 => 0.0,
        1 => 1.0,
        2 => -1.0,
        3 => -0.0,
        4 => src.below(2000) as f32 / 8.0,
        5 => -(src.below(2000) as f32) / 8.0,
        6 => f32::NAN,
        7 => f32::INFINITY,
        8 => f32::NEG_INFINITY,
        9 => *src.pick(&[f32::MAX, f32::MIN, f32::MIN_POSITIVE, 1e-45, 18446744073709551616.0, 18446742974197923840.0, 16777217.0, 0.1, 1e30]),
        10 => f32::from_bits(0xFFC0_0000 | src.draw(1 << 20) as u32),
        _ => f32::from_bits(src.draw(1 << 32) as u32),
    }
}

pub fn gen_string(src: &mut Src) -> String {
    match src.below(8) {
        0..=5 => src.pick(STRINGS).to_string(),
        6 => (0..src.below(6)).map(|_| (b'a' + src.below(3) as u8) as char).collect(),
        _ => match long(src, 2) {
            Some(n) => (0..n * *src.pick(&[1, 1, 300])).map(|i| (b'a' + (i % 7) as u8) as char).collect(),
            None => (0..src.below(12)).map(|_| gen_char(src)).collect(),
        },
    }
}

/// The length of a rare long value, beyond what fits a byte.
fn long(src: &mut Src, fuel: usize) -> Option<usize> {
    if fuel < 2 || src.long || !src.chance(1, 60) {
        return None;
    }
    src.long = true;
    Some(match src.below(40) {
        0..=37 => src.range(250, 300),
        _ => src.range(500, 1100),
    })
}

/// `n` values by turns.
fn cycle(src: &mut Src, n: usize, mut f: impl FnMut(&mut Src) -> V) -> Vec<V> {
    let k = *src.pick(&[1, 3, 5, 7]);
    let xs: Vec<V> = (0..k).map(|_| f(src)).collect();
    (0..n).map(|i| xs[i % k].clone()).collect()
}

pub fn gen_char(src: &mut Src) -> char {
    match src.below(6) {
        0..=2 => (b'a' + src.below(26) as u8) as char,
        3 => *src.pick(&['\u{0}', '"', '\'', '\\', '\n', ' ', '0', '_']),
        4 => char::from_u32(src.below(0xD800) as u32).unwrap(),
        _ => *src.pick(&['é', '日', '🦀', char::MAX, '\u{D7FF}', '\u{E000}', '\u{301}']),
    }
}

pub fn gen_sc(src: &mut Src, k: SK) -> Sc {
    match k {
        SK::Usize => Sc::Usize(gen_int!(src, usize)),
        SK::U8 => Sc::U8(gen_int!(src, u8)),
        SK::U16 => Sc::U16(gen_int!(src, u16)),
        SK::U32 => Sc::U32(gen_int!(src, u32)),
        SK::U64 => Sc::U64(gen_int!(src, u64)),
        SK::U128 => Sc::U128(gen_int!(src, u128)),
        SK::I8 => Sc::I8(gen_int!(src, i8)),
        SK::I16 => Sc::I16(gen_int!(src, i16)),
        SK::I32 => Sc::I32(gen_int!(src, i32)),
        SK::I64 => Sc::I64(gen_int!(src, i64)),
        SK::I128 => Sc::I128(gen_int!(src, i128)),
        SK::Bool => Sc::Bool(src.chance(1, 2)),
        SK::Char => Sc::Char(gen_char(src)),
        SK::F32 => Sc::F32(gen_f32(src).to_bits()),
        SK::F64 => Sc::F64(gen_f64(src).to_bits()),
        SK::Str => Sc::Str(gen_string(src)),
    }
}

pub fn gen_dur(src: &mut Src) -> V {
    match src.below(8) {
        0 => V::Dur(0, 0),
        1 => V::Dur(src.below(10) as u64, 0),
        2 => V::Dur(src.below(100) as u64, src.below(1_000_000_000) as u32),
        3 => V::Dur(0, src.below(10) as u32),
        4 => V::Dur(u64::MAX, 999_999_999),
        5 => V::Dur(u64::MAX - src.below(3) as u64, src.below(1_000_000_000) as u32),
        6 => V::Dur(1 << src.below(64), src.below(3) as u32),
        _ => V::Dur(src.draw(0), src.below(1_000_000_000) as u32),
    }
}

const INF: usize = 1_000_000;

/// Depth of the smallest value of a type (`INF`: none).
pub fn min_depth(ty: Ty) -> usize {
    static CACHE: Mutex<Option<HashMap<TypeId, usize>>> = Mutex::new(None);
    if let Some(d) = CACHE.lock().unwrap().get_or_insert_with(HashMap::new).get(&ty.id) {
        return *d;
    }
    fn go(ty: Ty, visiting: &mut Vec<TypeId>) -> usize {
        if visiting.contains(&ty.id) {
            return INF;
        }
        visiting.push(ty.id);
        fn fields(fds: &[FD], visiting: &mut Vec<TypeId>) -> usize {
            fds.iter().map(|d| go((d.ty)(), visiting)).max().unwrap_or(0)
        }
        let d = match &ty.k {
            TK::Struct(fds) | TK::TStruct(fds) => 1 + fields(fds, visiting),
            TK::Tuple(ts) => 1 + ts.iter().map(|t| go(t(), visiting)).max().unwrap_or(0),
            TK::Enum(vds) => vds.iter().filter(|v| !v.skip).map(|v| 1 + fields(&v.fields, visiting)).min().unwrap_or(INF),
            TK::Arr(t, n) if *n > 0 => 1 + go(t(), visiting),
            _ => 1,
        };
        visiting.pop();
        d.min(INF)
    }
    let d = go(ty, &mut vec![]);
    CACHE.lock().unwrap().as_mut().unwrap().insert(ty.id, d);
    d
}

pub fn variant_depth(vd: &VD) -> usize {
    1 + vd.fields.iter().map(|d| min_depth((d.ty)())).max().unwrap_or(0)
}

pub fn inhabited(ty: Ty) -> bool {
    min_depth(ty) < INF
}

/// A value of type `ty`; `fuel` bounds the depth where the type allows it.
pub fn gen_val(src: &mut Src, ty: Ty, fuel: usize) -> V {
    if fuel >= 3 && !src.long && recursive(ty) && src.chance(1, 12) {
        src.long = true;
        let n = src.range(5, 70);
        return spine(src, ty, ty, n);
    }
    match &ty.k {
        TK::Sc(k) => V::S(gen_sc(src, *k)),
        TK::Nz(k) => {
            let s = gen_sc(src, *k);
            V::NZ(if s.is_zero() { one(*k) } else { s })
        }
        TK::Dur => gen_dur(src),
        TK::Opq => V::Opq(src.below(5) as u32),
        TK::Dyn(DK::Value) => gen_dyn(src, fuel.min(3)),
        TK::Dyn(dk) => gen_dyn_kind(src, *dk, fuel.min(3)),
        TK::Struct(fds) => V::Struct(gen_fields(src, fds, fuel)),
        TK::TStruct(fds) => V::TStruct(gen_fields(src, fds, fuel).into_iter().map(|(_, v)| v).collect()),
        TK::Tuple(ts) => V::Tuple(ts.iter().map(|t| gen_val(src, t(), fuel.saturating_sub(1))).collect()),
        TK::Enum(vds) => {
            let least = vds.iter().filter(|d| !d.skip).map(variant_depth).min().unwrap();
            let vds: Vec<&VD> = vds.iter().filter(|d| !d.skip && variant_depth(d) <= least.max(fuel)).collect();
            let vd = *src.pick(&vds);
            V::Enum(vd.name.to_string(), vd.kind, gen_fields(src, &vd.fields, fuel))
        }
        TK::List(t) => {
            if inhabited(t()) {
                if let Some(n) = long(src, fuel) {
                    return V::List(cycle(src, n, |src| gen_val(src, t(), 1)));
                }
            }
            let n = if fuel == 0 || !inhabited(t()) { 0 } else { gen_len(src, fuel) };
            V::List((0..n).map(|_| gen_val(src, t(), fuel.saturating_sub(1))).collect())
        }
        TK::Arr(t, n) => V::Array((0..*n).map(|_| gen_val(src, t(), fuel.saturating_sub(1))).collect()),
        TK::Map(kt, vt) => {
            let mut n = if fuel == 0 { 0 } else { gen_len(src, fuel) };
            if matches!(kt().k, TK::Sc(SK::I32 | SK::Usize | SK::U32 | SK::U16 | SK::Str)) {
                n = long(src, fuel).unwrap_or(n);
            }
            let mut kvs: Vec<(V, V)> = vec![];
            if n > 200 {
                let TK::Sc(kind) = kt().k else { unreachable!() };
                let vs = cycle(src, n, |src| gen_val(src, vt(), 1));
                let key = |i: usize| match kind {
                    SK::I32 => Sc::I32(i as i32 - 20),
                    SK::Usize => Sc::Usize(i),
                    SK::U32 => Sc::U32(i as u32),
                    SK::Str => Sc::Str(format!("k{i}")),
                    _ => Sc::U16(i as u16),
                };
                return V::Map(vs.into_iter().enumerate().map(|(i, v)| (V::S(key(i)), v)).collect());
            }
            for _ in 0..n {
                let k = gen_key(src, kt(), fuel.saturating_sub(1));
                let v = gen_val(src, vt(), fuel.saturating_sub(1));
                if map_find(&kvs, &k).is_none() {
                    kvs.push((k, v));
                }
            }
            V::Map(kvs)
        }
    }
}

/// The types that a visible part of a value of `ty` can have.
fn part_types(ty: Ty) -> Vec<Ty> {
    match &ty.k {
        TK::Struct(fds) | TK::TStruct(fds) => fds.iter().filter(|d| !d.skip).map(|d| (d.ty)()).collect(),
        TK::Enum(vds) => vds.iter().filter(|d| !d.skip).flat_map(|d| d.fields.iter().filter(|d| !d.skip)).map(|d| (d.ty)()).collect(),
        TK::Tuple(ts) => ts.iter().map(|t| t()).collect(),
        TK::List(t) => vec![t()],
        TK::Arr(t, n) if *n > 0 => vec![t()],
        TK::Map(_, t) => vec![t()],
        _ => vec![],
    }
}

/// How many steps it takes from `ty` to a part of type `to`; 0 when they are the same.
fn steps_to(ty: Ty, to: Ty) -> Option<usize> {
    use std::collections::{HashMap, VecDeque};
    static CACHE: Mutex<Option<HashMap<(TypeId, TypeId), Option<usize>>>> = Mutex::new(None);
    if let Some(d) = CACHE.lock().unwrap().get_or_insert_with(Default::default).get(&(ty.id, to.id)) {
        return *d;
    }
    let mut seen = vec![ty.id];
    let mut todo = VecDeque::from([(ty, 0)]);
    let mut found = None;
    while let Some((t, d)) = todo.pop_front() {
        if t.id == to.id {
            found = Some(d);
            break;
        }
        for p in part_types(t) {
            if inhabited(p) && !seen.contains(&p.id) {
                seen.push(p.id);
                todo.push_back((p, d + 1));
            }
        }
    }
    CACHE.lock().unwrap().as_mut().unwrap().insert((ty.id, to.id), found);
    found
}

fn recursive(ty: Ty) -> bool {
    part_types(ty).into_iter().any(|p| inhabited(p) && steps_to(p, ty).is_some())
}

/// A value of type `ty` that goes `n` times through `root`.
fn spine(src: &mut Src, ty: Ty, root: Ty, n: usize) -> V {
    let mut n = n;
    if ty.id == root.id {
        if n == 0 {
            return gen_val(src, ty, 1);
        }
        n -= 1;
    }
    let leads = |t: Ty| inhabited(t) && steps_to(t, root).is_some();
    let fields = |src: &mut Src, fds: &[FD]| -> Vec<(String, V)> {
        let ways: Vec<usize> = (0..fds.len()).filter(|i| !fds[*i].skip && leads((fds[*i].ty)())).collect();
        let way = *src.pick(&ways);
        fds.iter().enumerate().map(|(i, d)| (d.name.to_string(), if i == way { spine(src, (d.ty)(), root, n) } else { gen_val(src, (d.ty)(), 0) })).collect()
    };
    match &ty.k {
        TK::Struct(fds) => V::Struct(fields(src, fds)),
        TK::TStruct(fds) => V::TStruct(fields(src, fds).into_iter().map(|(_, v)| v).collect()),
        TK::Enum(vds) => {
            let vds: Vec<&VD> = vds.iter().filter(|d| !d.skip && variant_depth(d) < INF && d.fields.iter().any(|d| !d.skip && leads((d.ty)()))).collect();
            let vd = *src.pick(&vds);
            V::Enum(vd.name.to_string(), vd.kind, fields(src, &vd.fields))
        }
        TK::Tuple(ts) => {
            let ways: Vec<usize> = (0..ts.len()).filter(|i| leads(ts[*i]())).collect();
            let way = *src.pick(&ways);
            V::Tuple(ts.iter().enumerate().map(|(i, t)| if i == way { spine(src, t(), root, n) } else { gen_val(src, t(), 0) }).collect())
        }
        TK::List(t) => {
            let mut xs = vec![spine(src, t(), root, n)];
            if src.chance(1, 6) {
                let x = gen_val(src, t(), 0);
                let at = src.below(2);
                xs.insert(at, x);
            }
            V::List(xs)
        }
        TK::Arr(t, m) => {
            let way = src.below(*m);
            V::Array((0..*m).map(|i| if i == way { spine(src, t(), root, n) } else { gen_val(src, t(), 0) }).collect())
        }
        TK::Map(kt, vt) => {
            let k = gen_key(src, kt(), 0);
            V::Map(vec![(k, spine(src, vt(), root, n))])
        }
        _ => unreachable!("{} has no parts", ty.name),
    }
}

/// A dynamic value in `n` others.
fn deep_dyn(src: &mut Src, n: usize) -> V {
    let mut v = gen_dyn(src, 0);
    for _ in 0..n {
        v = match src.below(7) {
            0 => V::List(vec![v]),
            1 => V::Struct(vec![(field_name(src).to_string(), v)]),
            2 => V::TStruct(vec![v]),
            3 => V::Tuple(vec![v]),
            4 => V::Enum(variant_name(src).to_string(), VK::Tuple, vec![(String::new(), v)]),
            5 => V::Enum(variant_name(src).to_string(), VK::Struct, vec![(field_name(src).to_string(), v)]),
            _ => V::Map(vec![(gen_dyn(src, 0), v)]),
        };
        if src.chance(1, 8) {
            if let V::List(xs) | V::TStruct(xs) | V::Tuple(xs) = &mut v {
                let at = src.below(2);
                xs.insert(at, gen_dyn(src, 0));
            }
        }
    }
    v
}

fn gen_len(src: &mut Src, fuel: usize) -> usize {
    if fuel >= 2 && src.chance(1, 40) {
        return src.range(8, 20);
    }
    src.below(4)
}

/// A map key.
pub fn gen_key(src: &mut Src, ty: Ty, fuel: usize) -> V {
    match &ty.k {
        TK::Dyn(DK::Value) => gen_dyn_key(src, fuel.min(2)),
        _ => gen_val(src, ty, fuel.min(2)),
    }
}

pub fn one(k: SK) -> Sc {
    macro_rules! one {
        ($($v:ident)*) => { match k { $(SK::$v => Sc::$v(1),)* k => Sc::zero(k) } };
    }
    one!(Usize U8 U16 U32 U64 U128 I8 I16 I32 I64 I128)
}

pub fn gen_fields(src: &mut Src, fds: &[FD], fuel: usize) -> Vec<(String, V)> {
    fds.iter().map(|d| (d.name.to_string(), gen_val(src, (d.ty)(), fuel.saturating_sub(1)))).collect()
}

/// Any dynamic value.
pub fn gen_dyn(src: &mut Src, fuel: usize) -> V {
    if fuel >= 3 && !src.long && src.chance(1, 100) {
        src.long = true;
        let n = src.range(5, 70);
        return deep_dyn(src, n);
    }
    let n = if fuel == 0 { 1 } else { 8 };
    match src.below(n) {
        0 | 1 => {
            let k = *src.pick(ALL_SK);
            V::S(gen_sc(src, k))
        }
        2 => gen_dyn_kind(src, DK::Struct, fuel),
        3 => gen_dyn_kind(src, DK::TStruct, fuel),
        4 => gen_dyn_kind(src, DK::Tuple, fuel),
        5 => gen_dyn_kind(src, DK::Enum, fuel),
        6 => {
            if let Some(n) = long(src, fuel) {
                return V::List(cycle(src, n, |src| gen_dyn(src, 0)));
            }
            let n = gen_len(src, fuel);
            // often all of one kind
            if src.chance(1, 2) {
                let k = *src.pick(ALL_SK);
                V::List((0..n).map(|_| V::S(gen_sc(src, k))).collect())
            } else {
                V::List((0..n).map(|_| gen_dyn(src, fuel - 1)).collect())
            }
        }
        _ => {
            let mut kvs: Vec<(V, V)> = vec![];
            if let Some(n) = long(src, fuel) {
                let vs = cycle(src, n, |src| gen_dyn(src, 0));
                let kind = src.below(3);
                let key = |i: usize| match kind {
                    0 => Sc::Usize(i),
                    1 => Sc::I32(20 - i as i32),
                    _ => Sc::Str(format!("k{i}")),
                };
                return V::Map(vs.into_iter().enumerate().map(|(i, v)| (V::S(key(i)), v)).collect());
            }
            for _ in 0..gen_len(src, fuel) {
                let (k, v) = (gen_dyn_key(src, fuel - 1), gen_dyn(src, fuel - 1));
                if map_find(&kvs, &k).is_none() {
                    kvs.push((k, v));
                }
            }
            V::Map(kvs)
        }
    }
}

/// A dynamic map key: structs have their fields in name order, so that the two notions of
/// equality agree on keys.
pub fn gen_dyn_key(src: &mut Src, fuel: usize) -> V {
    let v = gen_dyn(src, fuel);
    sort_fields(&v)
}

pub fn sort_fields(v: &V) -> V {
    v.map_all(&|v| match v {
        V::Struct(fs) => {
            let mut fs: Vec<_> = fs.iter().map(|(n, v)| (n.clone(), sort_fields(v))).collect();
            fs.sort_by(|a, b| a.0.cmp(&b.0));
            Some(V::Struct(fs))
        }
        V::Enum(n, VK::Struct, fs) => {
            let mut fs: Vec<_> = fs.iter().map(|(n, v)| (n.clone(), sort_fields(v))).collect();
            fs.sort_by(|a, b| a.0.cmp(&b.0));
            Some(V::Enum(n.clone(), VK::Struct, fs))
        }
        _ => None,
    })
}

pub fn gen_dyn_kind(src: &mut Src, dk: DK, fuel: usize) -> V {
    let sub = fuel.saturating_sub(1);
    match dk {
        DK::Value => gen_dyn(src, fuel),
        DK::Struct => V::Struct(gen_named(src, sub)),
        DK::TStruct | DK::Tuple if fuel >= 2 && src.chance(1, 4) => {
            let xs = match long(src, fuel) {
                Some(n) => cycle(src, n, |src| gen_dyn(src, 0)),
                None => (0..src.below(4)).map(|_| gen_dyn(src, sub)).collect(),
            };
            if dk == DK::Tuple { V::Tuple(xs) } else { V::TStruct(xs) }
        }
        DK::TStruct => V::TStruct((0..src.below(4)).map(|_| gen_dyn(src, sub)).collect()),
        DK::Tuple => V::Tuple((0..src.below(4)).map(|_| gen_dyn(src, sub)).collect()),
        DK::Enum => {
            let name = variant_name(src).to_string();
            match src.below(3) {
                0 => ev(&name, VK::Unit, vec![]),
                1 if fuel >= 2 && src.chance(1, 4) => match long(src, fuel) {
                    Some(n) => ev(&name, VK::Tuple, cycle(src, n, |src| gen_dyn(src, 0))),
                    None => ev(&name, VK::Tuple, vec![]),
                },
                1 => ev(&name, VK::Tuple, (0..src.below(4)).map(|_| gen_dyn(src, sub)).collect()),
                _ => V::Enum(name, VK::Struct, gen_named(src, sub)),
            }
        }
    }
}

pub fn gen_named(src: &mut Src, fuel: usize) -> Vec<(String, V)> {
    let mut fs: Vec<(String, V)> = vec![];
    if let Some(n) = long(src, fuel + 1) {
        let vs = cycle(src, n, |src| gen_dyn(src, 0));
        return vs.into_iter().enumerate().map(|(i, v)| (format!("f{}", (i * 7) % n.max(8)), v)).fold(fs, |mut fs, (k, v)| {
            if fs.iter().all(|(m, _)| *m != k) {
                fs.push((k, v));
            }
            fs
        });
    }
    for _ in 0..src.below(5) {
        let n = field_name(src).to_string();
        let v = gen_dyn(src, fuel);
        if fs.iter().all(|(m, _)| *m != n) {
            fs.push((n, v));
        }
    }
    fs
}

pub fn pick_entry(src: &mut Src) -> &'static Entry {
    loop_pick(src, |_| true)
}

/// An entry that `ok` accepts.
pub fn loop_pick(src: &mut Src, ok: impl Fn(&Entry) -> bool) -> &'static Entry {
    let r = reg();
    let i = src.below(r.len());
    let many = src.chance(1, 8);
    let ok = |e: &Entry| ok(e) && (many || !e.many);
    // deterministic scan keeps the number of draws fixed
    (0..r.len()).map(|d| &r[(i + d) % r.len()]).find(|e| ok(e)).expect("no such entry")
}

pub fn gen_entry_val(src: &mut Src) -> (&'static Entry, V) {
    let e = pick_entry(src);
    let fuel = src.range(1, 4);
    let v = gen_val(src, e.ty, fuel);
    (e, v)
}

/// Addresses of all values inside `v`, itself included, with how deep they are.
pub fn addresses(v: &V) -> Vec<Vec<usize>> {
    fn go(v: &V, at: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        out.push(at.clone());
        for (i, c) in v.children().iter().enumerate() {
            at.push(i);
            go(c, at, out);
            at.pop();
        }
    }
    let mut out = vec![];
    go(v, &mut vec![], &mut out);
    out
}

/// A dynamic view with a few defects.
pub fn near_miss(src: &mut Src, v: &V) -> V {
    let mut v = v.clone();
    for _ in 0..src.range(1, 3) {
        let addrs = addresses(&v);
        let a = src.pick(&addrs).clone();
        let sub = v.sub_mut(&a);
        *sub = mutate(src, sub);
    }
    v
}

/// A view made of some of the parts of `v`.
pub fn partial(src: &mut Src, v: &V) -> V {
    let keep = |fs: &[(String, V)], src: &mut Src| -> Vec<(String, V)> {
        let mut out = vec![];
        for (n, v) in fs {
            if !src.chance(1, 3) {
                out.push((n.clone(), partial(src, v)));
            }
        }
        out
    };
    match v {
        V::Struct(fs) => V::Struct(keep(fs, src)),
        V::Enum(n, VK::Struct, fs) => V::Enum(n.clone(), VK::Struct, keep(fs, src)),
        V::Enum(n, VK::Tuple, fs) => {
            let n_keep = src.below(fs.len() + 1);
            V::Enum(n.clone(), VK::Tuple, fs[..fs.len() - n_keep].iter().map(|(n, v)| (n.clone(), partial(src, v))).collect())
        }
        V::TStruct(xs) => {
            let k = xs.len() - src.below(xs.len() + 1);
            V::TStruct(xs[..k].iter().map(|v| partial(src, v)).collect())
        }
        V::Tuple(xs) => {
            let k = xs.len() - src.below(xs.len() + 1);
            V::Tuple(xs[..k].iter().map(|v| partial(src, v)).collect())
        }
        V::List(xs) => {
            let k = xs.len() - src.below(xs.len() + 1);
            V::List(xs[..k].iter().map(|v| partial(src, v)).collect())
        }
        V::Map(kvs) => {
            let mut out = vec![];
            for (k, v) in kvs {
                if !src.chance(1, 3) {
                    out.push((k.clone(), partial(src, v)));
                }
            }
            V::Map(out)
        }
        v => v.clone(),
    }
}

pub fn mutate(src: &mut Src, v: &V) -> V {
    let other = |src: &mut Src| gen_dyn(src, 2);
    match v {
        V::S(s) => match src.below(3) {
            0 => V::S(gen_sc(src, s.kind())),
            1 => {
                let k = *src.pick(ALL_SK);
                V::S(gen_sc(src, k))
            }
            _ => other(src),
        },
        V::Struct(fs) => {
            let mut fs = fs.clone();
            match src.below(7) {
                0 => drop_one(src, &mut fs),
                1 => {
                    let n = field_name(src).to_string();
                    if fs.iter().all(|(m, _)| *m != n) {
                        let i = src.below(fs.len() + 1);
                        let x = other(src);
                        fs.insert(i, (n, x));
                    }
                }
                2 | 3 => src.shuffle(&mut fs),
                4 => {
                    if !fs.is_empty() {
                        let i = src.below(fs.len());
                        let n = field_name(src).to_string();
                        if fs.iter().all(|(m, _)| *m != n) {
                            fs[i].0 = n;
                        }
                    }
                }
                5 => return as_other_kind(src, fs.into_iter().collect()),
                _ => return other(src),
            }
            V::Struct(fs)
        }
        V::Enum(n, k, fs) => {
            let (mut n, mut k, mut fs) = (n.clone(), *k, fs.clone());
            match src.below(8) {
                0 => n = variant_name(src).to_string(),
                1 => drop_one(src, &mut fs),
                2 if k == VK::Struct => src.shuffle(&mut fs),
                3 | 2 => {
                    let x = other(src);
                    match k {
                        VK::Struct => {
                            let m = field_name(src).to_string();
                            if fs.iter().all(|(o, _)| *o != m) {
                                fs.push((m, x));
                            }
                        }
                        VK::Tuple => fs.push((String::new(), x)),
                        VK::Unit => {}
                    }
                }
                4 => {
                    k = *src.pick(&[VK::Unit, VK::Tuple, VK::Struct]);
                    fs = match k {
                        VK::Unit => vec![],
                        VK::Tuple => fs.into_iter().map(|(_, v)| (String::new(), v)).collect(),
                        VK::Struct => {
                            fs.into_iter().enumerate().map(|(i, (n, v))| (if n.is_empty() { format!("f{i}") } else { n }, v)).collect()
                        }
                    };
                }
                5 => n.push('x'),
                6 => return as_other_kind(src, fs),
                _ => return other(src),
            }
            V::Enum(n, k, fs)
        }
        V::TStruct(xs) | V::Tuple(xs) | V::List(xs) | V::Array(xs) => {
            let mut ys = xs.clone();
            match src.below(6) {
                0 => drop_one(src, &mut ys),
                1 => {
                    let x = other(src);
                    let i = src.below(ys.len() + 1);
                    ys.insert(i, x);
                }
                2 => {
                    if !ys.is_empty() {
                        let i = src.below(ys.len());
                        let x = ys[i].clone();
                        ys.push(x);
                    }
                }
                3 => src.shuffle(&mut ys),
                4 => return as_other_kind(src, ys.into_iter().map(|v| (String::new(), v)).collect()),
                _ => return other(src),
            }
            match v {
                V::TStruct(_) => V::TStruct(ys),
                V::Tuple(_) => V::Tuple(ys),
                _ => V::List(ys),
            }
        }
        V::Map(kvs) => {
            let mut kvs = kvs.clone();
            match src.below(5) {
                0 => drop_one(src, &mut kvs),
                1 => {
                    let (k, v) = (gen_dyn_key(src, 1), other(src));
                    if map_find(&kvs, &k).is_none() {
                        kvs.push((k, v));
                    }
                }
                2 => {
                    if !kvs.is_empty() {
                        let i = src.below(kvs.len());
                        let k = sort_fields(&mutate(src, &kvs[i].0));
                        if map_find(&kvs, &k).is_none() {
                            kvs[i].0 = k;
                        }
                    }
                }
                3 => return as_other_kind(src, kvs.into_iter().map(|(_, v)| (String::new(), v)).collect()),
                _ => return other(src),
            }
            V::Map(kvs)
        }
        _ => other(src),
    }
}

fn drop_one<T>(src: &mut Src, xs: &mut Vec<T>) {
    if !xs.is_empty() {
        let i = src.below(xs.len());
        xs.remove(i);
    }
}

fn as_other_kind(src: &mut Src, fs: Vec<(String, V)>) -> V {
    let vs: Vec<V> = fs.iter().map(|(_, v)| v.clone()).collect();
    let named: Vec<(String, V)> =
        fs.into_iter().enumerate().map(|(i, (n, v))| (if n.is_empty() { format!("f{i}") } else { n }, v)).collect();
    match src.below(6) {
        0 => V::List(vs),
        1 => V::Tuple(vs),
        2 => V::TStruct(vs),
        3 => V::Struct(named),
        4 => {
            let n = variant_name(src).to_string();
            ev(&n, VK::Tuple, vs)
        }
        _ => V::Map(vs.into_iter().enumerate().map(|(i, v)| (V::S(if i < 200 { Sc::U8(i as u8) } else { Sc::U16(i as u16) }), v)).collect()),
    }
}

/// A key path for a value: mostly valid steps, sometimes none that exists.
pub fn gen_path(src: &mut Src, ty: Option<Ty>, v: &V) -> Vec<K> {
    let mut path = vec![];
    let (mut t, mut cur) = (ty, v);
    let mut max = src.below(8);
    let mut wrong = 12;
    if v.depth() > 8 && src.chance(2, 3) {
        max = src.below(200);
        wrong = 150;
    }
    for _ in 0..max {
        let k = if src.chance(1, wrong) { wrong_key(src) } else { valid_key(src, t, cur) };
        let Some(k) = k.or_else(|| if src.chance(1, 3) { wrong_key(src) } else { None }) else { break };
        path.push(k);
        match step(t, cur, path.last().unwrap()) {
            Step::Child(i, ct) => {
                cur = cur.children()[i];
                t = ct;
            }
            Step::Here => {}
            _ => {
                if src.chance(1, 2) {
                    path.extend(wrong_key(src));
                }
                break;
            }
        }
    }
    path
}

pub fn wrong_key(src: &mut Src) -> Option<K> {
    Some(match src.below(5) {
        0 => K::Num(*src.pick(&[0, 1, 2, 3, 5, usize::MAX, 17])),
        1 => K::Named(field_name(src).to_string()),
        2 => K::Var(variant_name(src).to_string()),
        3 => {
            let k = *src.pick(ALL_SK);
            K::Get(V::S(gen_sc(src, k)))
        }
        _ => K::Get(gen_dyn_key(src, 2)),
    })
}

/// An integer key of any integer kind that can hold `i`.
pub fn index_key(src: &mut Src, i: usize) -> V {
    V::S(match src.below(11) {
        0 => Sc::Usize(i),
        1 if i <= 255 => Sc::U8(i as u8),
        2 if i <= 65535 => Sc::U16(i as u16),
        3 => Sc::U32(i as u32),
        4 => Sc::U64(i as u64),
        5 => Sc::U128(i as u128),
        6 if i <= 127 => Sc::I8(i as i8),
        7 if i <= 32767 => Sc::I16(i as i16),
        8 => Sc::I32(i as i32),
        9 => Sc::I64(i as i64),
        _ => Sc::I128(i as i128),
    })
}

fn valid_key(src: &mut Src, ty: Option<Ty>, v: &V) -> Option<K> {
    match v {
        V::Struct(fs) => {
            // skipped fields included: no such key then
            let n = if fs.is_empty() { return None } else { src.below(fs.len()) };
            Some(K::Named(fs[n].0.clone()))
        }
        V::TStruct(fs) | V::Tuple(fs) => (!fs.is_empty()).then(|| K::Num(src.below(fs.len()))),
        V::Enum(n, k, fs) => {
            if fs.is_empty() || src.chance(1, 3) {
                return Some(K::Var(n.clone()));
            }
            let i = src.below(fs.len());
            Some(match k {
                VK::Struct => K::Named(fs[i].0.clone()),
                _ => K::Num(i),
            })
        }
        V::List(xs) | V::Array(xs) => {
            let n = xs.len() + src.chance(1, 6) as usize;
            if n == 0 {
                return None;
            }
            let i = src.below(n);
            Some(K::Get(index_key(src, i)))
        }
        V::Map(kvs) => {
            let kt = match ty.map(|t| &t.k) {
                Some(TK::Map(kt, _)) => Some(kt()),
                _ => None,
            };
            if kvs.is_empty() || src.chance(1, 6) {
                return Some(K::Get(match kt {
                    Some(kt) => valued(&view(kt, &gen_key(src, kt, 2))),
                    None => gen_dyn_key(src, 1),
                }));
            }
            let i = src.below(kvs.len());
            let k = &kvs[i].0;
            Some(K::Get(valued(&kt.map_or(k.clone(), |t| view(t, k)))))
        }
        _ => None,
    }
}

/// A key path into a type.
pub fn gen_type_path(src: &mut Src, ty: Ty) -> Vec<K> {
    let mut path: Vec<K> = vec![];
    let mut max = src.below(9);
    let mut wrong = 14;
    if recursive(ty) && src.chance(1, 10) {
        max = src.below(60);
        wrong = 80;
    }
    for _ in 0..max {
        let cur = type_at(ty, &path).unwrap();
        let k = if src.chance(1, wrong) {
            wrong_key(src)
        } else {
            match cur {
                TAt::Ty(t) => match &t.k {
                    TK::Struct(fds) => (!fds.is_empty()).then(|| K::Named(src.pick(fds).name.to_string())),
                    TK::TStruct(fds) => (!fds.is_empty()).then(|| K::Num(src.below(fds.len()))),
                    TK::Tuple(ts) => (!ts.is_empty()).then(|| K::Num(src.below(ts.len()))),
                    TK::Enum(vds) => (!vds.is_empty()).then(|| K::Var(src.pick(vds).name.to_string())),
                    TK::List(_) | TK::Arr(..) => {
                        let i = src.below(10);
                        Some(K::Get(index_key(src, i)))
                    }
                    TK::Map(kt, _) => {
                        let kt = kt();
                        Some(K::Get(valued(&view(kt, &gen_key(src, kt, 2)))))
                    }
                    _ => None,
                },
                TAt::Var(t, i) => {
                    let vd = variant(t, i);
                    if vd.fields.is_empty() || src.chance(1, 8) {
                        Some(K::Var(vd.name.to_string()))
                    } else {
                        let j = src.below(vd.fields.len());
                        Some(match vd.kind {
                            VK::Struct => K::Named(vd.fields[j].name.to_string()),
                            _ => K::Num(j),
                        })
                    }
                }
            }
        };
        let Some(k) = k else { break };
        path.push(k);
        if type_at(ty, &path).is_none() {
            if src.chance(1, 3) {
                path.extend(wrong_key(src));
            }
            break;
        }
    }
    path
}

/// A source for conversions to (or patches of) `ty`: the model view, the real value, and whether
/// it is a native value.
pub struct Source {
    pub view: V,
    pub real: Box<dyn mirror_mirror::Reflect>,
    pub native: bool,
    pub how: &'static str,
}

pub fn gen_source(src: &mut Src, e: &Entry, fuel: usize) -> Source {
    let dynamic = |v: V, how| Source { real: Box::new(to_value(&v)), view: v, native: false, how };
    let native = |e: &Entry, v: V, how| Source { view: view(e.ty, &v), real: (e.make)(&v), native: true, how };
    match src.below(8) {
        0 => dynamic(valued(&view(e.ty, &gen_val(src, e.ty, fuel))), "value of the type"),
        1 => native(e, gen_val(src, e.ty, fuel), "the type itself"),
        2 => {
            let v = valued(&view(e.ty, &gen_val(src, e.ty, fuel)));
            dynamic(partial(src, &v), "part of a value")
        }
        3 | 4 | 5 => {
            let v = valued(&view(e.ty, &gen_val(src, e.ty, fuel)));
            dynamic(near_miss(src, &v), "value with defects")
        }
        6 => {
            let v = gen_dyn(src, fuel);
            dynamic(v, "any value")
        }
        _ => {
            let o = loop_pick(src, |o| inhabited(o.ty));
            native(o, gen_val(src, o.ty, fuel), "another type")
        }
    }
}
