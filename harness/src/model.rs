//! Reference model. `V` is a plain tree; `Ty` describes a Rust type without using any of the
//! code under test. The functions below are the specification the checks compare against.

use std::any::TypeId;
use std::collections::HashMap;
use std::sync::Mutex;
use std::time::Duration;

use mirror_mirror::enum_::EnumValue;
use mirror_mirror::key_path::{Key, KeyPath, NamedOrNumbered};
use mirror_mirror::struct_::StructValue;
use mirror_mirror::tuple::TupleValue;
use mirror_mirror::tuple_struct::TupleStructValue;
use mirror_mirror::{ScalarMut, ScalarOwned, ScalarRef, Value};

macro_rules! for_scalars {
    ($m:ident) => {
        $m! {
            (Usize usize) (U8 u8) (U16 u16) (U32 u32) (U64 u64) (U128 u128)
            (I8 i8) (I16 i16) (I32 i32) (I64 i64) (I128 i128) (Bool bool) (Char char)
        }
    };
}
pub(crate) use for_scalars;

macro_rules! def {
    ($(($v:ident $t:ident))*) => {
        #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
        pub enum SK { $($v,)* F32, F64, Str }

        pub const ALL_SK: &[SK] = &[$(SK::$v,)* SK::F32, SK::F64, SK::Str];

        /// A scalar; floats are held as bits.
        #[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
        pub enum Sc { $($v($t),)* F32(u32), F64(u64), Str(String) }

        impl Sc {
            pub fn kind(&self) -> SK {
                match self { $(Sc::$v(_) => SK::$v,)* Sc::F32(_) => SK::F32, Sc::F64(_) => SK::F64, Sc::Str(_) => SK::Str }
            }
            pub fn to_value(&self) -> Value {
                match self {
                    $(Sc::$v(x) => Value::$t(*x),)*
                    Sc::F32(b) => Value::f32(f32::from_bits(*b)),
                    Sc::F64(b) => Value::f64(f64::from_bits(*b)),
                    Sc::Str(s) => Value::String(s.clone()),
                }
            }
            pub fn of_ref(r: ScalarRef<'_>) -> Sc {
                match r {
                    $(ScalarRef::$t(x) => Sc::$v(x),)*
                    ScalarRef::f32(x) => Sc::F32(x.to_bits()),
                    ScalarRef::f64(x) => Sc::F64(x.to_bits()),
                    ScalarRef::String(s) => Sc::Str(s.clone()),
                }
            }
            pub fn of_mut(r: &ScalarMut<'_>) -> Sc {
                match r {
                    $(ScalarMut::$t(x) => Sc::$v(**x),)*
                    ScalarMut::f32(x) => Sc::F32(x.to_bits()),
                    ScalarMut::f64(x) => Sc::F64(x.to_bits()),
                    ScalarMut::String(s) => Sc::Str(s.to_string()),
                }
            }
            pub fn of_owned(r: &ScalarOwned) -> Sc {
                match r {
                    $(ScalarOwned::$t(x) => Sc::$v(*x),)*
                    ScalarOwned::f32(x) => Sc::F32(x.to_bits()),
                    ScalarOwned::f64(x) => Sc::F64(x.to_bits()),
                    ScalarOwned::String(s) => Sc::Str(s.clone()),
                }
            }
            pub fn to_owned_scalar(&self) -> ScalarOwned {
                match self {
                    $(Sc::$v(x) => ScalarOwned::$t(*x),)*
                    Sc::F32(b) => ScalarOwned::f32(f32::from_bits(*b)),
                    Sc::F64(b) => ScalarOwned::f64(f64::from_bits(*b)),
                    Sc::Str(s) => ScalarOwned::String(s.clone()),
                }
            }
            /// Write through a mutable scalar; false when the kinds differ.
            pub fn write(&self, r: ScalarMut<'_>) -> bool {
                match (self, r) {
                    $((Sc::$v(x), ScalarMut::$t(p)) => *p = *x,)*
                    (Sc::F32(b), ScalarMut::f32(p)) => *p = f32::from_bits(*b),
                    (Sc::F64(b), ScalarMut::f64(p)) => *p = f64::from_bits(*b),
                    (Sc::Str(s), ScalarMut::String(p)) => *p = s.clone(),
                    _ => return false,
                }
                true
            }
            pub fn zero(k: SK) -> Sc {
                match k {
                    $(SK::$v => Sc::$v(<$t>::default()),)*
                    SK::F32 => Sc::F32(0), SK::F64 => Sc::F64(0), SK::Str => Sc::Str(String::new()),
                }
            }
            pub fn of_value(v: &Value) -> Option<Sc> {
                Some(match v {
                    $(Value::$t(x) => Sc::$v(*x),)*
                    Value::f32(x) => Sc::F32(x.to_bits()),
                    Value::f64(x) => Sc::F64(x.to_bits()),
                    Value::String(s) => Sc::Str(s.clone()),
                    _ => return None,
                })
            }
        }
        impl std::fmt::Debug for Sc {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                match self {
                    $(Sc::$v(x) => write!(f, "{:?}{}", x, stringify!($t)),)*
                    Sc::F32(b) => write!(f, "{:?}f32", f32::from_bits(*b)),
                    Sc::F64(b) => write!(f, "{:?}f64", f64::from_bits(*b)),
                    Sc::Str(s) => write!(f, "{:?}", s),
                }
            }
        }
    };
}
for_scalars!(def);

impl SK {
    pub fn name(self) -> &'static str {
        macro_rules! nm {
            ($(($v:ident $t:ident))*) => { match self { $(SK::$v => stringify!($t),)* SK::F32 => "f32", SK::F64 => "f64", SK::Str => "String" } };
        }
        for_scalars!(nm)
    }
}

impl Sc {
    /// The index an integer scalar stands for.
    pub fn index(&self) -> Option<usize> {
        match self {
            Sc::Usize(n) => Some(*n),
            Sc::U8(n) => Some(*n as usize),
            Sc::U16(n) => Some(*n as usize),
            Sc::U32(n) => usize::try_from(*n).ok(),
            Sc::U64(n) => usize::try_from(*n).ok(),
            Sc::U128(n) => usize::try_from(*n).ok(),
            Sc::I8(n) => usize::try_from(*n).ok(),
            Sc::I16(n) => usize::try_from(*n).ok(),
            Sc::I32(n) => usize::try_from(*n).ok(),
            Sc::I64(n) => usize::try_from(*n).ok(),
            Sc::I128(n) => usize::try_from(*n).ok(),
            _ => None,
        }
    }
    pub fn is_zero(&self) -> bool {
        *self == Sc::zero(self.kind())
    }
    /// Equality as `==` on the scalar type itself.
    pub fn native_eq(&self, o: &Sc) -> bool {
        match (self, o) {
            (Sc::F32(a), Sc::F32(b)) => f32::from_bits(*a) == f32::from_bits(*b),
            (Sc::F64(a), Sc::F64(b)) => f64::from_bits(*a) == f64::from_bits(*b),
            _ => self == o,
        }
    }
    /// Equality of `Value`s: every NaN equals every NaN and the zeros are equal.
    pub fn value_eq(&self, o: &Sc) -> bool {
        match (self, o) {
            (Sc::F32(a), Sc::F32(b)) => {
                let (a, b) = (f32::from_bits(*a), f32::from_bits(*b));
                a == b || (a.is_nan() && b.is_nan())
            }
            (Sc::F64(a), Sc::F64(b)) => {
                let (a, b) = (f64::from_bits(*a), f64::from_bits(*b));
                a == b || (a.is_nan() && b.is_nan())
            }
            _ => self == o,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub enum VK {
    Struct,
    Tuple,
    Unit,
}

/// A value: of a native type (all fields, skipped ones included), or what a reflected value
/// shows (a "view", reflected fields only).
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum V {
    S(Sc),
    /// native `NonZero*`
    NZ(Sc),
    /// native `Duration`
    Dur(u64, u32),
    /// native opaque type of the harness
    Opq(u32),
    Struct(Vec<(String, V)>),
    TStruct(Vec<V>),
    Tuple(Vec<V>),
    Enum(String, VK, Vec<(String, V)>),
    List(Vec<V>),
    Array(Vec<V>),
    Map(Vec<(V, V)>),
    /// matches anything (not specified)
    Any,
}

impl std::fmt::Debug for V {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            V::S(s) => write!(f, "{s:?}"),
            V::NZ(s) => write!(f, "NonZero({s:?})"),
            V::Dur(s, n) => write!(f, "Duration({s}s {n}ns)"),
            V::Opq(n) => write!(f, "Opaque({n})"),
            V::Struct(fs) => {
                f.write_str("struct")?;
                f.debug_map().entries(fs.iter().map(|(k, v)| (k, v))).finish()
            }
            V::TStruct(fs) => {
                f.write_str("tstruct")?;
                f.debug_list().entries(fs).finish()
            }
            V::Tuple(fs) => {
                f.write_str("tuple")?;
                f.debug_list().entries(fs).finish()
            }
            V::Enum(n, k, fs) => {
                write!(f, "{n}<{k:?}>")?;
                f.debug_map().entries(fs.iter().map(|(k, v)| (k, v))).finish()
            }
            V::List(xs) => {
                f.write_str("list")?;
                f.debug_list().entries(xs).finish()
            }
            V::Array(xs) => {
                f.write_str("array")?;
                f.debug_list().entries(xs).finish()
            }
            V::Map(xs) => {
                f.write_str("map")?;
                f.debug_map().entries(xs.iter().map(|(k, v)| (k, v))).finish()
            }
            V::Any => f.write_str("_"),
        }
    }
}

pub type TF = fn() -> Ty;
pub type Ty = &'static TyD;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum DK {
    Value,
    Struct,
    TStruct,
    Tuple,
    Enum,
}

pub struct TyD {
    pub name: &'static str,
    pub id: TypeId,
    pub docs: Vec<&'static str>,
    pub meta: Vec<(&'static str, V)>,
    /// the type's own `Debug`, when reflection has to print it that way
    pub dbg: Option<fn(&V, &mut std::fmt::Formatter<'_>) -> std::fmt::Result>,
    /// whether the derive is opted out of some trait
    pub opt_out: bool,
    /// a `FromReflect` written by hand
    pub cfrom: Option<fn(&V, bool) -> R>,
    pub k: TK,
}

pub enum TK {
    Sc(SK),
    Nz(SK),
    Dur,
    Opq,
    Dyn(DK),
    Struct(Vec<FD>),
    TStruct(Vec<FD>),
    Tuple(Vec<TF>),
    Enum(Vec<VD>),
    List(TF),
    Arr(TF, usize),
    Map(TF, TF),
}

pub struct FD {
    pub name: &'static str,
    pub ty: TF,
    pub skip: bool,
    pub docs: Vec<&'static str>,
    pub meta: Vec<(&'static str, V)>,
    /// value of a skipped field made by `from_reflect`
    pub dflt: Option<fn() -> V>,
    pub with: Option<fn(&V) -> R>,
    /// the field is in a box, or has one inside
    pub boxed: bool,
}

pub struct VD {
    pub name: &'static str,
    pub kind: VK,
    pub fields: Vec<FD>,
    pub skip: bool,
    pub docs: Vec<&'static str>,
    pub meta: Vec<(&'static str, V)>,
}

pub fn fd(name: &'static str, ty: TF) -> FD {
    FD { name, ty, skip: false, docs: vec![], meta: vec![], dflt: None, with: None, boxed: false }
}

impl std::fmt::Debug for TyD {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(self.name)
    }
}

/// A type with a model. Implemented by hand (or by the type generator) with direct field access.
pub trait Model: Sized + 'static {
    fn mk() -> TyD;
    fn from_v(v: &V) -> Self;
    fn to_v(&self) -> V;
    fn ty() -> Ty {
        ty::<Self>()
    }
    /// The model of the value behind `r`, if it is a `Self`.
    fn down(r: &dyn mirror_mirror::Reflect) -> Option<V> {
        r.as_any().downcast_ref::<Self>().map(|x| x.to_v())
    }
    /// Overwrite the value behind `r` through a typed reference.
    fn assign(r: &mut dyn mirror_mirror::Reflect, v: &V) -> bool {
        match r.as_any_mut().downcast_mut::<Self>() {
            Some(x) => {
                *x = Self::from_v(v);
                true
            }
            None => false,
        }
    }
}

pub fn tf<T: Model>() -> Ty {
    T::ty()
}

pub fn native_dbg<T: Model + std::fmt::Debug>(v: &V, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    std::fmt::Debug::fmt(&T::from_v(v), f)
}

pub fn ty<T: Model>() -> Ty {
    static CACHE: Mutex<Option<HashMap<TypeId, Ty>>> = Mutex::new(None);
    let mut guard = CACHE.lock().unwrap();
    let map = guard.get_or_insert_with(HashMap::new);
    if let Some(ty) = map.get(&TypeId::of::<T>()) {
        return ty;
    }
    let ty: Ty = Box::leak(Box::new(T::mk()));
    map.insert(TypeId::of::<T>(), ty);
    ty
}

pub fn tyd<T: 'static>(k: TK) -> TyD {
    TyD { name: std::any::type_name::<T>(), id: TypeId::of::<T>(), docs: vec![], meta: vec![], dbg: None, opt_out: false, cfrom: None, k }
}

/// Outcome of a conversion: `Unspec` where the specification does not say.
#[derive(Clone, Debug, PartialEq)]
pub enum R {
    Some(V),
    None,
    Unspec,
}

impl R {
    pub fn map(self, f: impl FnOnce(V) -> V) -> R {
        match self {
            R::Some(v) => R::Some(f(v)),
            r => r,
        }
    }
}

impl V {
    pub fn of_str(s: &str) -> V {
        V::S(Sc::Str(s.to_string()))
    }

    /// Children in order, for structural addressing.
    pub fn children(&self) -> Vec<&V> {
        match self {
            V::Struct(fs) | V::Enum(_, _, fs) => fs.iter().map(|(_, v)| v).collect(),
            V::TStruct(xs) | V::Tuple(xs) | V::List(xs) | V::Array(xs) => xs.iter().collect(),
            V::Map(kvs) => kvs.iter().map(|(_, v)| v).collect(),
            _ => vec![],
        }
    }
    pub fn child_mut(&mut self, i: usize) -> &mut V {
        match self {
            V::Struct(fs) | V::Enum(_, _, fs) => &mut fs[i].1,
            V::TStruct(xs) | V::Tuple(xs) | V::List(xs) | V::Array(xs) => &mut xs[i],
            V::Map(kvs) => &mut kvs[i].1,
            _ => panic!("no children"),
        }
    }
    pub fn sub(&self, addr: &[usize]) -> &V {
        let mut v = self;
        for i in addr {
            v = v.children()[*i];
        }
        v
    }
    pub fn sub_mut(&mut self, addr: &[usize]) -> &mut V {
        let mut v = self;
        for i in addr {
            v = v.child_mut(*i);
        }
        v
    }
    pub fn size(&self) -> usize {
        1 + match self {
            V::Map(kvs) => kvs.iter().map(|(k, v)| k.size() + v.size()).sum::<usize>(),
            v => v.children().iter().map(|v| v.size()).sum::<usize>(),
        }
    }
    pub fn depth(&self) -> usize {
        1 + self.children().iter().map(|v| v.depth()).max().unwrap_or(0)
    }
    pub fn map_all(&self, f: &dyn Fn(&V) -> Option<V>) -> V {
        if let Some(v) = f(self) {
            return v;
        }
        match self {
            V::Struct(fs) => V::Struct(fs.iter().map(|(n, v)| (n.clone(), v.map_all(f))).collect()),
            V::Enum(n, k, fs) => V::Enum(n.clone(), *k, fs.iter().map(|(n, v)| (n.clone(), v.map_all(f))).collect()),
            V::TStruct(xs) => V::TStruct(xs.iter().map(|v| v.map_all(f)).collect()),
            V::Tuple(xs) => V::Tuple(xs.iter().map(|v| v.map_all(f)).collect()),
            V::List(xs) => V::List(xs.iter().map(|v| v.map_all(f)).collect()),
            V::Array(xs) => V::Array(xs.iter().map(|v| v.map_all(f)).collect()),
            V::Map(kvs) => V::Map(kvs.iter().map(|(k, v)| (k.map_all(f), v.map_all(f))).collect()),
            v => v.clone(),
        }
    }
    pub fn any(&self, f: &dyn Fn(&V) -> bool) -> bool {
        if f(self) {
            return true;
        }
        if let V::Map(kvs) = self {
            if kvs.iter().any(|(k, _)| k.any(f)) {
                return true;
            }
        }
        self.children().iter().any(|v| v.any(f))
    }
}

pub fn dur_secs_f32(s: u64, n: u32) -> f32 {
    Duration::new(s, n).as_secs_f32()
}

/// What reading through the reflection API shows of a view: `NonZero` and `Duration` appear as
/// their scalar.
pub fn seen(v: &V) -> V {
    v.map_all(&|v| match v {
        V::NZ(s) => Some(V::S(s.clone())),
        V::Dur(s, n) => Some(V::S(Sc::F32(dur_secs_f32(*s, *n).to_bits()))),
        _ => None,
    })
}

/// The value (`to_value`) of a view: as `seen`, and arrays become lists.
pub fn valued(v: &V) -> V {
    seen(v).map_all(&|v| match v {
        V::Array(xs) => Some(V::List(xs.iter().map(valued).collect())),
        V::Opq(n) => Some(V::S(Sc::U32(*n))),
        _ => None,
    })
}

/// The view of a native value: skipped fields are left out.
pub fn view(ty: Ty, v: &V) -> V {
    match (&ty.k, v) {
        (TK::Struct(fds), V::Struct(fs)) => V::Struct(
            fds.iter().zip(fs).filter(|(d, _)| !d.skip).map(|(d, (n, v))| (n.clone(), view((d.ty)(), v))).collect(),
        ),
        (TK::TStruct(fds), V::TStruct(fs)) => {
            V::TStruct(fds.iter().zip(fs).filter(|(d, _)| !d.skip).map(|(d, v)| view((d.ty)(), v)).collect())
        }
        (TK::Tuple(ts), V::Tuple(fs)) => V::Tuple(ts.iter().zip(fs).map(|(t, v)| view(t(), v)).collect()),
        (TK::Enum(vds), V::Enum(n, k, fs)) => {
            let vd = vds.iter().find(|d| d.name == n).unwrap();
            let fields = vd
                .fields
                .iter()
                .zip(fs)
                .filter(|(d, _)| !d.skip && !vd.skip)
                .map(|(d, (n, v))| (n.clone(), view((d.ty)(), v)))
                .collect();
            V::Enum(n.clone(), *k, fields)
        }
        (TK::List(t), V::List(xs)) => V::List(xs.iter().map(|v| view(t(), v)).collect()),
        (TK::Arr(t, _), V::Array(xs)) => V::Array(xs.iter().map(|v| view(t(), v)).collect()),
        (TK::Map(kt, vt), V::Map(kvs)) => {
            V::Map(kvs.iter().map(|(k, v)| (view(kt(), k), view(vt(), v))).collect())
        }
        (_, v) => v.clone(),
    }
}

/// Sort maps so that two models of the same map compare equal.
pub fn norm(v: &V) -> V {
    v.map_all(&|v| match v {
        V::Map(kvs) => {
            let mut kvs: Vec<_> = kvs.iter().map(|(k, v)| (norm(k), norm(v))).collect();
            kvs.sort();
            Some(V::Map(kvs))
        }
        _ => None,
    })
}

fn matches_normed(e: &V, a: &V) -> bool {
    match (e, a) {
        (V::Any, _) => true,
        (V::Struct(x), V::Struct(y)) => {
            x.len() == y.len() && x.iter().zip(y).all(|(p, q)| p.0 == q.0 && matches_normed(&p.1, &q.1))
        }
        (V::Enum(n, k, x), V::Enum(m, l, y)) => {
            n == m && k == l && x.len() == y.len() && x.iter().zip(y).all(|(p, q)| p.0 == q.0 && matches_normed(&p.1, &q.1))
        }
        (V::TStruct(x), V::TStruct(y))
        | (V::Tuple(x), V::Tuple(y))
        | (V::List(x), V::List(y))
        | (V::Array(x), V::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| matches_normed(p, q)),
        (V::Map(x), V::Map(y)) => {
            x.len() == y.len() && x.iter().zip(y).all(|(p, q)| matches_normed(&p.0, &q.0) && matches_normed(&p.1, &q.1))
        }
        (e, a) => e == a,
    }
}

/// `actual` is what `expected` says, wildcards aside; maps are compared as sets.
pub fn matches(expected: &V, actual: &V) -> bool {
    matches_normed(&norm(expected), &norm(actual))
}

/// Equality of `Value`s with these contents.
pub fn veq(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::S(a), V::S(b)) => a.value_eq(b),
        (V::NZ(a), V::NZ(b)) => a == b,
        (V::Struct(x), V::Struct(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| p.0 == q.0 && veq(&p.1, &q.1)),
        (V::Enum(n, k, x), V::Enum(m, l, y)) => {
            n == m && k == l && x.len() == y.len() && x.iter().zip(y).all(|(p, q)| p.0 == q.0 && veq(&p.1, &q.1))
        }
        (V::TStruct(x), V::TStruct(y)) | (V::Tuple(x), V::Tuple(y)) | (V::List(x), V::List(y)) | (V::Array(x), V::Array(y)) => {
            x.len() == y.len() && x.iter().zip(y).all(|(p, q)| veq(p, q))
        }
        (V::Map(x), V::Map(y)) => {
            x.len() == y.len()
                && x.iter().all(|(k, v)| y.iter().any(|(l, w)| veq(k, l) && veq(v, w)))
                && y.iter().all(|(k, v)| x.iter().any(|(l, w)| veq(k, l) && veq(v, w)))
        }
        (a, b) => a == b,
    }
}

pub fn map_find(kvs: &[(V, V)], key: &V) -> Option<usize> {
    kvs.iter().position(|(k, _)| veq(k, key))
}

/// Build the `Value` with the contents of `v`, with the public builders only.
pub fn to_value(v: &V) -> Value {
    match v {
        V::S(s) | V::NZ(s) => s.to_value(),
        V::Dur(s, n) => Value::f32(dur_secs_f32(*s, *n)),
        V::Opq(n) => Value::u32(*n),
        V::Struct(fs) => to_struct_value(fs).into(),
        V::TStruct(xs) => {
            let mut s = TupleStructValue::new();
            for v in xs {
                s.push_field(to_value(v));
            }
            s.into()
        }
        V::Tuple(xs) => {
            let mut s = TupleValue::new();
            for v in xs {
                s.push_field(to_value(v));
            }
            s.into()
        }
        V::Enum(..) => to_enum_value(v).into(),
        V::List(xs) | V::Array(xs) => Value::List(xs.iter().map(to_value).collect()),
        V::Map(kvs) => Value::Map(kvs.iter().map(|(k, v)| (to_value(k), to_value(v))).collect()),
        V::Any => panic!("value of a wildcard"),
    }
}

pub fn to_struct_value(fs: &[(String, V)]) -> StructValue {
    let mut s = StructValue::new();
    for (n, v) in fs {
        s.set_field(n.as_str(), to_value(v));
    }
    s
}

pub fn to_enum_value(v: &V) -> EnumValue {
    let V::Enum(n, k, fs) = v else { panic!("not an enum") };
    match k {
        VK::Unit => EnumValue::new_unit_variant(n.as_str()),
        VK::Struct => {
            let mut b = EnumValue::new_struct_variant(n.as_str());
            for (n, v) in fs {
                b.set_struct_field(n.as_str(), to_value(v));
            }
            b.finish()
        }
        VK::Tuple => {
            let mut b = EnumValue::new_tuple_variant(n.as_str());
            for (_, v) in fs {
                b.push_tuple_field(to_value(v));
            }
            b.finish()
        }
    }
}

fn all(rs: impl Iterator<Item = R>) -> Result<Vec<V>, R> {
    let mut out = vec![];
    let mut unspec = false;
    let mut none = false;
    for r in rs {
        match r {
            R::Some(v) => out.push(v),
            R::None => none = true,
            R::Unspec => unspec = true,
        }
    }
    if none {
        Err(R::None)
    } else if unspec {
        Err(R::Unspec)
    } else {
        Ok(out)
    }
}

fn from_field(d: &FD, v: Option<&V>, native: bool) -> R {
    if d.skip {
        return match d.dflt {
            Some(f) if !native => R::Some(f()),
            _ => R::Some(V::Any),
        };
    }
    match v {
        None => R::None,
        Some(v) => match d.with {
            // a value of the very type may be cloned instead
            Some(f) if native => match f(v) {
                R::Some(x) if x == *v => R::Some(x),
                _ => R::Unspec,
            },
            Some(f) => f(v),
            None => from((d.ty)(), v, native),
        },
    }
}

pub fn dur_from_f32(f: f32) -> Option<V> {
    if f >= 0.0 && f < 18446744073709551616.0f32 {
        let d = Duration::from_secs_f32(f);
        Some(V::Dur(d.as_secs(), d.subsec_nanos()))
    } else {
        None
    }
}

/// Reference `from_reflect`: what a value of type `ty` made from the view `src` is. `native`:
/// the source is a value of a Rust type, not a dynamic value.
pub fn from(ty: Ty, src: &V, native: bool) -> R {
    match ty.cfrom {
        Some(f) => f(src, native),
        None => from_std(ty, src, native),
    }
}

pub fn from_std(ty: Ty, src: &V, native: bool) -> R {
    match (&ty.k, src) {
        (_, V::Any) => R::Unspec,
        (TK::Dyn(DK::Value), v) => R::Some(valued(v)),
        (TK::Dyn(DK::Struct), v @ V::Struct(_))
        | (TK::Dyn(DK::TStruct), v @ V::TStruct(_))
        | (TK::Dyn(DK::Tuple), v @ V::Tuple(_))
        | (TK::Dyn(DK::Enum), v @ V::Enum(..)) => R::Some(valued(v)),
        (TK::Dyn(_), _) => R::None,
        (TK::Opq, V::Opq(n)) => R::Some(V::Opq(*n)),
        (TK::Opq, _) => R::None,
        (TK::Sc(k), V::S(s)) => {
            if s.kind() == *k {
                R::Some(V::S(s.clone()))
            } else {
                R::None
            }
        }
        (TK::Sc(_), V::NZ(_) | V::Dur(..)) => R::Unspec,
        (TK::Nz(k), V::NZ(s)) => {
            if s.kind() == *k {
                R::Some(V::NZ(s.clone()))
            } else {
                R::Unspec
            }
        }
        (TK::Nz(k), V::S(s)) => {
            if s.kind() == *k && !s.is_zero() {
                R::Some(V::NZ(s.clone()))
            } else {
                R::None
            }
        }
        (TK::Nz(_), V::Dur(..)) | (TK::Dur, V::NZ(_)) => R::Unspec,
        (TK::Dur, V::Dur(s, n)) => R::Some(V::Dur(*s, *n)),
        (TK::Dur, V::S(Sc::F32(b))) => match dur_from_f32(f32::from_bits(*b)) {
            Some(v) => R::Some(v),
            None => R::None,
        },
        (TK::Struct(fds), V::Struct(fs)) => {
            let vs = all(fds.iter().map(|d| from_field(d, fs.iter().find(|(n, _)| n == d.name).map(|(_, v)| v), native)));
            match vs {
                Ok(vs) => R::Some(V::Struct(fds.iter().map(|d| d.name.to_string()).zip(vs).collect())),
                Err(r) => r,
            }
        }
        (TK::TStruct(fds), V::TStruct(fs)) => {
            let mut i = 0;
            let vs = all(fds.iter().map(|d| {
                let v = fs.get(i);
                if !d.skip {
                    i += 1;
                }
                from_field(d, v, native)
            }));
            match vs {
                Ok(vs) => R::Some(V::TStruct(vs)),
                Err(r) => r,
            }
        }
        (TK::Tuple(ts), V::Tuple(fs)) => {
            let vs = all(ts.iter().enumerate().map(|(i, t)| match fs.get(i) {
                Some(v) => from(t(), v, native),
                None => R::None,
            }));
            match vs {
                Ok(vs) => R::Some(V::Tuple(vs)),
                Err(r) => r,
            }
        }
        (TK::Enum(vds), V::Enum(n, k, fs)) => {
            let Some(vd) = vds.iter().find(|d| d.name == n && !d.skip) else { return R::None };
            if vd.kind != *k {
                return R::Unspec;
            }
            let mut i = 0;
            let vs = all(vd.fields.iter().map(|d| {
                let v = match vd.kind {
                    VK::Struct => fs.iter().find(|(n, _)| n == d.name).map(|(_, v)| v),
                    _ => fs.get(i).map(|(_, v)| v),
                };
                if !d.skip {
                    i += 1;
                }
                from_field(d, v, native)
            }));
            match vs {
                Ok(vs) => R::Some(V::Enum(n.clone(), *k, vd.fields.iter().map(|d| d.name.to_string()).zip(vs).collect())),
                Err(r) => r,
            }
        }
        (TK::List(t), V::List(xs)) => match all(xs.iter().map(|v| from(t(), v, native))) {
            Ok(vs) => R::Some(V::List(vs)),
            Err(r) => r,
        },
        (TK::List(_), V::Array(_)) => R::Unspec,
        (TK::Arr(t, n), V::Array(xs) | V::List(xs)) => {
            if xs.len() != *n {
                return R::None;
            }
            match all(xs.iter().map(|v| from(t(), v, native))) {
                Ok(vs) => R::Some(V::Array(vs)),
                Err(r) => r,
            }
        }
        (TK::Map(kt, vt), V::Map(kvs)) => {
            let ks = all(kvs.iter().map(|(k, _)| from(kt(), k, native)));
            let vs = all(kvs.iter().map(|(_, v)| from(vt(), v, native)));
            match (ks, vs) {
                (Err(R::None), _) | (_, Err(R::None)) => R::None,
                (Err(r), _) | (_, Err(r)) => r,
                (Ok(ks), Ok(vs)) => {
                    let mut out: Vec<(V, V)> = vec![];
                    for (k, v) in ks.into_iter().zip(vs) {
                        // keys that only differ in parts the key type ignores
                        if map_find(&out, &k).is_some() {
                            return R::Unspec;
                        }
                        out.push((k, v));
                    }
                    R::Some(V::Map(out))
                }
            }
        }
        _ => R::None,
    }
}

fn wild_skipped(ty: Ty, v: V) -> V {
    match (&ty.k, v) {
        (TK::Struct(fds), V::Struct(fs)) => V::Struct(fds.iter().zip(fs).map(|(d, (n, v))| (n, wild_field(d, v))).collect()),
        (TK::TStruct(fds), V::TStruct(fs)) => V::TStruct(fds.iter().zip(fs).map(|(d, v)| wild_field(d, v)).collect()),
        (TK::Tuple(ts), V::Tuple(fs)) => V::Tuple(ts.iter().zip(fs).map(|(t, v)| wild_skipped(t(), v)).collect()),
        (TK::Enum(vds), V::Enum(n, k, fs)) => {
            let fields = match vds.iter().find(|d| d.name == n) {
                Some(vd) => vd.fields.iter().zip(fs).map(|(d, (n, v))| (n, wild_field(d, v))).collect(),
                None => fs,
            };
            V::Enum(n, k, fields)
        }
        (TK::List(t), V::List(xs)) => V::List(xs.into_iter().map(|v| wild_skipped(t(), v)).collect()),
        (TK::Arr(t, _), V::Array(xs)) => V::Array(xs.into_iter().map(|v| wild_skipped(t(), v)).collect()),
        (TK::Map(kt, vt), V::Map(kvs)) => {
            V::Map(kvs.into_iter().map(|(k, v)| (wild_skipped(kt(), k), wild_skipped(vt(), v))).collect())
        }
        (_, v) => v,
    }
}

fn wild_field(d: &FD, v: V) -> V {
    if d.skip {
        V::Any
    } else {
        wild_skipped((d.ty)(), v)
    }
}

/// Wildcards for all skipped fields, nested ones too.
pub fn wild(ty: Ty, v: &V) -> V {
    wild_skipped(ty, v.clone())
}

/// Reference `patch` of a native value. False: not specified.
pub fn patch(ty: Ty, tgt: &mut V, src: &V, native: bool) -> bool {
    match (&ty.k, &mut *tgt, src) {
        (_, V::Any, _) | (_, _, V::Any) => false,
        (TK::Dyn(_), _, _) => patch_dyn(tgt, src),
        (TK::Sc(_), V::S(a), V::S(b)) => {
            if a.kind() == b.kind() {
                *a = b.clone();
            }
            true
        }
        (TK::Sc(_), _, V::NZ(_) | V::Dur(..)) => false,
        (TK::Nz(_) | TK::Dur | TK::Opq, _, _) => match from(ty, src, native) {
            R::Some(v) => {
                *tgt = v;
                true
            }
            R::None => true,
            R::Unspec => false,
        },
        (TK::Struct(fds), V::Struct(fs), V::Struct(ss)) => {
            let mut ok = true;
            for (d, (_, v)) in fds.iter().zip(fs) {
                if d.skip {
                    continue;
                }
                if let Some((_, s)) = ss.iter().find(|(n, _)| n == d.name) {
                    ok &= patch((d.ty)(), v, s, native);
                }
            }
            ok
        }
        (TK::TStruct(fds), V::TStruct(fs), V::TStruct(ss)) => {
            let mut ok = true;
            let fields = fds.iter().zip(fs).filter(|(d, _)| !d.skip);
            for ((d, v), s) in fields.zip(ss) {
                ok &= patch((d.ty)(), v, s, native);
            }
            ok
        }
        (TK::Tuple(ts), V::Tuple(fs), V::Tuple(ss)) => {
            let mut ok = true;
            for ((t, v), s) in ts.iter().zip(fs).zip(ss) {
                ok &= patch(t(), v, s, native);
            }
            ok
        }
        (TK::Enum(vds), _, V::Enum(n, k, ss)) => match from(ty, src, native) {
            R::Some(v) => {
                *tgt = wild(ty, &v);
                true
            }
            R::Unspec => false,
            R::None => {
                let V::Enum(m, l, fs) = tgt else { unreachable!() };
                if m != n {
                    return true;
                }
                if k != l {
                    return false;
                }
                let vd = vds.iter().find(|d| d.name == m).unwrap();
                let mut ok = true;
                let fields = vd.fields.iter().zip(fs).filter(|(d, _)| !d.skip && !vd.skip);
                for (i, (d, (_, v))) in fields.enumerate() {
                    let s = match k {
                        VK::Struct => ss.iter().find(|(n, _)| n == d.name).map(|(_, s)| s),
                        _ => ss.get(i).map(|(_, s)| s),
                    };
                    if let Some(s) = s {
                        ok &= patch((d.ty)(), v, s, native);
                    }
                }
                ok
            }
        },
        (TK::List(t), V::List(xs), V::List(ss) | V::Array(ss))
        | (TK::Arr(t, _), V::Array(xs), V::List(ss) | V::Array(ss)) => {
            let mut ok = true;
            for (v, s) in xs.iter_mut().zip(ss) {
                ok &= patch(t(), v, s, native);
            }
            ok
        }
        (TK::Map(kt, vt), V::Map(kvs), V::Map(ss)) => {
            let mut ok = true;
            let mut hit = vec![];
            for (k, s) in ss {
                match from(kt(), k, native) {
                    R::Some(k) => {
                        if let Some(i) = map_find(kvs, &k) {
                            if hit.contains(&i) {
                                return false;
                            }
                            hit.push(i);
                            ok &= patch(vt(), &mut kvs[i].1, s, native);
                        }
                    }
                    R::None => {}
                    R::Unspec => ok = false,
                }
            }
            ok
        }
        _ => true,
    }
}

/// Reference `patch` of a dynamic value. False: not specified.
pub fn patch_dyn(tgt: &mut V, src: &V) -> bool {
    match (&mut *tgt, src) {
        (V::Any, _) | (_, V::Any) => false,
        (V::S(a), V::S(b)) => {
            if a.kind() == b.kind() {
                *a = b.clone();
            }
            true
        }
        (V::S(_), V::NZ(_) | V::Dur(..)) => false,
        (V::Struct(fs), V::Struct(ss)) => {
            let mut ok = true;
            for (n, v) in fs {
                if let Some((_, s)) = ss.iter().find(|(m, _)| m == n) {
                    ok &= patch_dyn(v, s);
                }
            }
            ok
        }
        (V::TStruct(fs), V::TStruct(ss)) | (V::Tuple(fs), V::Tuple(ss)) | (V::List(fs), V::List(ss) | V::Array(ss)) => {
            let mut ok = true;
            for (v, s) in fs.iter_mut().zip(ss) {
                ok &= patch_dyn(v, s);
            }
            ok
        }
        (V::Enum(m, l, fs), V::Enum(n, k, ss)) => {
            if m != n {
                *tgt = valued(src);
                return true;
            }
            if k != l {
                return false;
            }
            let mut ok = true;
            for (i, (n, v)) in fs.iter_mut().enumerate() {
                let s = match k {
                    VK::Struct => ss.iter().find(|(m, _)| m == n).map(|(_, s)| s),
                    _ => ss.get(i).map(|(_, s)| s),
                };
                if let Some(s) = s {
                    ok &= patch_dyn(v, s);
                }
            }
            ok
        }
        (V::Map(kvs), V::Map(ss)) => {
            let mut ok = true;
            for (k, s) in ss {
                if let Some(i) = map_find(kvs, &valued(k)) {
                    ok &= patch_dyn(&mut kvs[i].1, s);
                }
            }
            ok
        }
        _ => true,
    }
}

/// Reference `reflect_eq` of two views, for views without opaque parts.
pub fn reflect_eq(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::S(a), V::S(b)) => a.native_eq(b),
        (V::Struct(x), V::Struct(y)) => {
            x.len() == y.len() && x.iter().all(|(n, v)| y.iter().any(|(m, w)| n == m && reflect_eq(v, w)))
        }
        (V::Enum(n, k, x), V::Enum(m, l, y)) => {
            n == m
                && k == l
                && x.len() == y.len()
                && match k {
                    VK::Struct => x.iter().all(|(n, v)| y.iter().any(|(m, w)| n == m && reflect_eq(v, w))),
                    _ => x.iter().zip(y).all(|(p, q)| reflect_eq(&p.1, &q.1)),
                }
        }
        (V::TStruct(x), V::TStruct(y)) | (V::Tuple(x), V::Tuple(y)) | (V::List(x) | V::Array(x), V::List(y) | V::Array(y)) => {
            x.len() == y.len() && x.iter().zip(y).all(|(p, q)| reflect_eq(p, q))
        }
        (V::Map(x), V::Map(y)) => {
            // an array is found under the list it is seen as
            let find = |k: &V| y.iter().position(|(l, _)| veq(&lists(l), &lists(k)));
            x.len() == y.len() && x.iter().all(|(k, v)| find(k).map_or(false, |i| reflect_eq(v, &y[i].1)))
        }
        _ => false,
    }
}

fn lists(v: &V) -> V {
    v.map_all(&|v| match v {
        V::Array(xs) => Some(V::List(xs.iter().map(lists).collect())),
        _ => None,
    })
}

#[derive(Clone, PartialEq, Debug)]
pub enum K {
    Named(String),
    Num(usize),
    Get(V),
    Var(String),
}

pub fn key_path(path: &[K]) -> KeyPath {
    path.iter().map(key).collect()
}

pub fn key(k: &K) -> Key {
    match k {
        K::Named(n) => Key::Field(NamedOrNumbered::Named(n.clone())),
        K::Num(n) => Key::Field(NamedOrNumbered::Numbered(*n)),
        K::Get(v) => Key::Get(to_value(v)),
        K::Var(n) => Key::Variant(n.clone()),
    }
}

fn nth_reflected(fds: &[FD], i: usize) -> Option<usize> {
    fds.iter().enumerate().filter(|(_, d)| !d.skip).nth(i).map(|(i, _)| i)
}

/// Where one key leads from a value (`ty` is `None` for dynamic values): the child, or the value
/// itself for a variant key.
pub enum Step {
    Child(usize, Option<Ty>),
    Here,
    Nothing,
    Unspec,
}

pub fn step(ty: Option<Ty>, v: &V, key: &K) -> Step {
    let child = |i: Option<usize>, t: Option<Ty>| match i {
        Some(i) => Step::Child(i, t),
        None => Step::Nothing,
    };
    let ty = match ty.map(|t| &t.k) {
        Some(TK::Dyn(_)) => None,
        _ => ty,
    };
    match (key, v) {
        (K::Named(n), V::Struct(fs)) => match ty.map(|t| &t.k) {
            Some(TK::Struct(fds)) => {
                let i = fds.iter().position(|d| d.name == n && !d.skip);
                child(i, i.map(|i| (fds[i].ty)()))
            }
            _ => child(fs.iter().position(|(m, _)| m == n), None),
        },
        (K::Named(n), V::Enum(var, VK::Struct, fs)) => match ty.map(|t| &t.k) {
            Some(TK::Enum(vds)) => {
                let vd = vds.iter().find(|d| d.name == var).unwrap();
                let i = vd.fields.iter().position(|d| d.name == n && !d.skip && !vd.skip);
                child(i, i.map(|i| (vd.fields[i].ty)()))
            }
            _ => child(fs.iter().position(|(m, _)| m == n), None),
        },
        (K::Num(n), V::TStruct(fs)) => match ty.map(|t| &t.k) {
            Some(TK::TStruct(fds)) => {
                let i = nth_reflected(fds, *n);
                child(i, i.map(|i| (fds[i].ty)()))
            }
            _ => child((*n < fs.len()).then_some(*n), None),
        },
        (K::Num(n), V::Tuple(fs)) => match ty.map(|t| &t.k) {
            Some(TK::Tuple(ts)) => child((*n < fs.len()).then_some(*n), ts.get(*n).map(|t| t())),
            _ => child((*n < fs.len()).then_some(*n), None),
        },
        (K::Num(n), V::Enum(var, VK::Tuple, fs)) => match ty.map(|t| &t.k) {
            Some(TK::Enum(vds)) => {
                let vd = vds.iter().find(|d| d.name == var).unwrap();
                let i = if vd.skip { None } else { nth_reflected(&vd.fields, *n) };
                child(i, i.map(|i| (vd.fields[i].ty)()))
            }
            _ => child((*n < fs.len()).then_some(*n), None),
        },
        (K::Get(k), V::List(xs) | V::Array(xs)) => {
            let t = match ty.map(|t| &t.k) {
                Some(TK::List(t) | TK::Arr(t, _)) => Some(t()),
                _ => None,
            };
            match k {
                V::S(s) => child(s.index().filter(|i| *i < xs.len()), t),
                _ => Step::Nothing,
            }
        }
        (K::Get(k), V::Map(kvs)) => match ty.map(|t| &t.k) {
            Some(TK::Map(kt, vt)) => match from(kt(), k, false) {
                R::Some(k) => child(map_find(kvs, &k), Some(vt())),
                R::None => Step::Nothing,
                R::Unspec => Step::Unspec,
            },
            _ => child(map_find(kvs, k), None),
        },
        (K::Var(n), V::Enum(var, _, _)) => {
            if n == var {
                Step::Here
            } else {
                Step::Nothing
            }
        }
        _ => Step::Nothing,
    }
}

/// Reference `at`: address and type of what the path leads to.
pub fn at(ty: Option<Ty>, v: &V, path: &[K]) -> Option<Option<(Vec<usize>, Option<Ty>)>> {
    let mut addr = vec![];
    let (mut t, mut cur) = (ty, v);
    for k in path {
        match step(t, cur, k) {
            Step::Child(i, ct) => {
                addr.push(i);
                cur = cur.children()[i];
                t = ct;
            }
            Step::Here => {}
            Step::Nothing => return Some(None),
            Step::Unspec => return None,
        }
    }
    Some(Some((addr, t)))
}

/// Position in a type reached by a key path.
#[derive(Clone, Copy)]
pub enum TAt {
    Ty(Ty),
    Var(Ty, usize),
}

pub fn type_at(ty: Ty, path: &[K]) -> Option<TAt> {
    let mut cur = TAt::Ty(ty);
    for k in path {
        cur = match (k, cur) {
            (K::Named(n), TAt::Ty(t)) => match &t.k {
                TK::Struct(fds) => TAt::Ty((fds.iter().find(|d| d.name == n && !d.skip)?.ty)()),
                _ => return None,
            },
            (K::Named(n), TAt::Var(t, i)) => {
                let vd = variant(t, i);
                if vd.kind != VK::Struct {
                    return None;
                }
                TAt::Ty((vd.fields.iter().find(|d| d.name == n && !d.skip)?.ty)())
            }
            (K::Num(n), TAt::Ty(t)) => match &t.k {
                TK::TStruct(fds) => TAt::Ty((fds[nth_reflected(fds, *n)?].ty)()),
                TK::Tuple(ts) => TAt::Ty(ts.get(*n)?()),
                _ => return None,
            },
            (K::Num(n), TAt::Var(t, i)) => {
                let vd = variant(t, i);
                if vd.kind != VK::Tuple {
                    return None;
                }
                TAt::Ty((vd.fields[nth_reflected(&vd.fields, *n)?].ty)())
            }
            (K::Get(k), TAt::Ty(t)) => match &t.k {
                TK::Map(_, vt) => TAt::Ty(vt()),
                TK::List(t) | TK::Arr(t, _) => match k {
                    V::S(s) => {
                        s.index()?;
                        TAt::Ty(t())
                    }
                    _ => return None,
                },
                _ => return None,
            },
            (K::Get(_), TAt::Var(..)) => return None,
            (K::Var(n), TAt::Ty(t)) => match &t.k {
                TK::Enum(vds) => TAt::Var(t, vds.iter().position(|d| d.name == n && !d.skip)?),
                _ => return None,
            },
            (K::Var(n), TAt::Var(t, i)) => {
                if variant(t, i).name == n {
                    cur
                } else {
                    return None;
                }
            }
        }
    }
    Some(cur)
}

pub fn variant(t: Ty, i: usize) -> &'static VD {
    match &t.k {
        TK::Enum(vds) => &vds[i],
        _ => panic!("not an enum"),
    }
}

/// Reference default value.
pub fn default(ty: Ty) -> Option<V> {
    default_within(ty, &mut vec![])
}

pub fn default_fields<'a>(fds: impl Iterator<Item = &'a FD>, parents: &mut Vec<TypeId>) -> Option<Vec<(String, V)>> {
    fds.filter(|d| !d.skip).map(|d| Some((d.name.to_string(), default_within((d.ty)(), parents)?))).collect()
}

pub fn default_variant(vd: &VD, parents: &mut Vec<TypeId>) -> Option<V> {
    Some(V::Enum(vd.name.to_string(), vd.kind, default_fields(vd.fields.iter(), parents)?))
}

pub fn default_within(ty: Ty, parents: &mut Vec<TypeId>) -> Option<V> {
    if parents.contains(&ty.id) {
        return None;
    }
    parents.push(ty.id);
    let out = (|| {
        Some(match &ty.k {
            TK::Sc(k) => V::S(Sc::zero(*k)),
            TK::Nz(_) | TK::Dur | TK::Opq | TK::Dyn(_) => return None,
            TK::Struct(fds) => V::Struct(default_fields(fds.iter(), parents)?),
            TK::TStruct(fds) => V::TStruct(default_fields(fds.iter(), parents)?.into_iter().map(|(_, v)| v).collect()),
            TK::Tuple(ts) => V::Tuple(ts.iter().map(|t| default_within(t(), parents)).collect::<Option<_>>()?),
            TK::Enum(vds) => default_variant(vds.iter().find(|d| !d.skip)?, parents)?,
            TK::List(_) => V::List(vec![]),
            TK::Arr(_, 0) => V::List(vec![]),
            TK::Arr(t, n) => V::List(vec![default_within(t(), parents)?; *n]),
            TK::Map(..) => V::Map(vec![]),
        })
    })();
    parents.pop();
    out
}

/// Is the type described as opaque?
pub fn is_opaque(ty: Ty) -> bool {
    matches!(ty.k, TK::Nz(_) | TK::Dur | TK::Opq | TK::Dyn(_))
}
