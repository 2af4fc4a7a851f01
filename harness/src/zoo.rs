//! The types the checks run on: models of the foreign types with `Reflect` impls, a hand written
//! opaque type, and the type-erased registry. Derived types come from `gen/zoo.rs`.

use std::any::Any;
use std::borrow::Cow;
use std::collections::BTreeMap;
use std::fmt;
use std::num::*;
use std::ops::{Range, RangeFrom, RangeFull, RangeTo, RangeToInclusive};
use std::time::Duration;

use mirror_mirror::enum_::EnumValue;
use mirror_mirror::struct_::StructValue;
use mirror_mirror::tuple::TupleValue;
use mirror_mirror::tuple_struct::TupleStructValue;
use mirror_mirror::type_info::graph::{NodeId, OpaqueNode, TypeGraph};
use mirror_mirror::{DescribeType, FromReflect, Reflect, ReflectMut, ReflectOwned, ReflectRef, TypeDescriptor, Value};

use crate::model::*;
use crate::observe::observe;

macro_rules! impl_sc {
    ($(($v:ident $t:ident))*) => { $(
        impl Model for $t {
            fn mk() -> TyD { TyD { dbg: Some(native_dbg::<$t>), ..tyd::<$t>(TK::Sc(SK::$v)) } }
            fn from_v(v: &V) -> Self { match v { V::S(Sc::$v(x)) => x.clone(), _ => panic!("bad model {v:?}") } }
            fn to_v(&self) -> V { V::S(Sc::$v(self.clone())) }
        }
    )* };
}
for_scalars!(impl_sc);
impl_sc! { (Str String) }

impl Model for f32 {
    fn mk() -> TyD {
        TyD { dbg: Some(native_dbg::<f32>), ..tyd::<f32>(TK::Sc(SK::F32)) }
    }
    fn from_v(v: &V) -> Self {
        match v {
            V::S(Sc::F32(b)) => f32::from_bits(*b),
            _ => panic!("bad model {v:?}"),
        }
    }
    fn to_v(&self) -> V {
        V::S(Sc::F32(self.to_bits()))
    }
}

impl Model for f64 {
    fn mk() -> TyD {
        TyD { dbg: Some(native_dbg::<f64>), ..tyd::<f64>(TK::Sc(SK::F64)) }
    }
    fn from_v(v: &V) -> Self {
        match v {
            V::S(Sc::F64(b)) => f64::from_bits(*b),
            _ => panic!("bad model {v:?}"),
        }
    }
    fn to_v(&self) -> V {
        V::S(Sc::F64(self.to_bits()))
    }
}

macro_rules! impl_nz {
    ($($t:ident $v:ident)*) => { $(
        impl Model for $t {
            fn mk() -> TyD { TyD { dbg: Some(native_dbg::<$t>), ..tyd::<$t>(TK::Nz(SK::$v)) } }
            fn from_v(v: &V) -> Self { match v { V::NZ(Sc::$v(x)) => $t::new(*x).unwrap(), _ => panic!("bad model {v:?}") } }
            fn to_v(&self) -> V { V::NZ(Sc::$v(self.get())) }
        }
    )* };
}
impl_nz! { NonZeroUsize Usize NonZeroU8 U8 NonZeroU16 U16 NonZeroU32 U32 NonZeroU64 U64 NonZeroU128 U128
NonZeroI8 I8 NonZeroI16 I16 NonZeroI32 I32 NonZeroI64 I64 NonZeroI128 I128 }

impl Model for Duration {
    fn mk() -> TyD {
        TyD { dbg: Some(native_dbg::<Duration>), ..tyd::<Duration>(TK::Dur) }
    }
    fn from_v(v: &V) -> Self {
        match v {
            V::Dur(s, n) => Duration::new(*s, *n),
            _ => panic!("bad model {v:?}"),
        }
    }
    fn to_v(&self) -> V {
        V::Dur(self.as_secs(), self.subsec_nanos())
    }
}

impl<T: Model> Model for Vec<T> {
    fn mk() -> TyD {
        tyd::<Self>(TK::List(tf::<T>))
    }
    fn from_v(v: &V) -> Self {
        match v {
            V::List(xs) => xs.iter().map(T::from_v).collect(),
            _ => panic!("bad model {v:?}"),
        }
    }
    fn to_v(&self) -> V {
        V::List(self.iter().map(T::to_v).collect())
    }
}

impl<T: Model, const N: usize> Model for [T; N] {
    fn mk() -> TyD {
        tyd::<Self>(TK::Arr(tf::<T>, N))
    }
    fn from_v(v: &V) -> Self {
        match v {
            V::Array(xs) => match xs.iter().map(T::from_v).collect::<Vec<_>>().try_into() {
                Ok(a) => a,
                Err(_) => panic!("bad model"),
            },
            _ => panic!("bad model {v:?}"),
        }
    }
    fn to_v(&self) -> V {
        V::Array(self.iter().map(T::to_v).collect())
    }
}

impl<A: Model + Ord, B: Model> Model for BTreeMap<A, B> {
    fn mk() -> TyD {
        tyd::<Self>(TK::Map(tf::<A>, tf::<B>))
    }
    fn from_v(v: &V) -> Self {
        match v {
            V::Map(kvs) => kvs.iter().map(|(k, v)| (A::from_v(k), B::from_v(v))).collect(),
            _ => panic!("bad model {v:?}"),
        }
    }
    fn to_v(&self) -> V {
        V::Map(self.iter().map(|(k, v)| (k.to_v(), v.to_v())).collect())
    }
}

impl<T: Model> Model for Box<T> {
    fn mk() -> TyD {
        T::mk()
    }
    fn from_v(v: &V) -> Self {
        Box::new(T::from_v(v))
    }
    fn to_v(&self) -> V {
        (**self).to_v()
    }
    fn ty() -> Ty {
        T::ty()
    }
    fn down(r: &dyn Reflect) -> Option<V> {
        T::down(r)
    }
    fn assign(r: &mut dyn Reflect, v: &V) -> bool {
        T::assign(r, v)
    }
}

pub fn vd(name: &'static str, kind: VK, fields: Vec<FD>) -> VD {
    VD { name, kind, fields, skip: false, docs: vec![], meta: vec![] }
}

pub fn ev(name: &str, kind: VK, fields: Vec<V>) -> V {
    V::Enum(name.to_string(), kind, fields.into_iter().map(|v| (String::new(), v)).collect())
}

impl<T: Model> Model for Option<T> {
    fn mk() -> TyD {
        tyd::<Self>(TK::Enum(vec![vd("None", VK::Unit, vec![]), vd("Some", VK::Tuple, vec![fd("", tf::<T>)])]))
    }
    fn from_v(v: &V) -> Self {
        match v {
            V::Enum(_, _, fs) => fs.first().map(|(_, v)| T::from_v(v)),
            _ => panic!("bad model {v:?}"),
        }
    }
    fn to_v(&self) -> V {
        match self {
            None => ev("None", VK::Unit, vec![]),
            Some(x) => ev("Some", VK::Tuple, vec![x.to_v()]),
        }
    }
}

impl<T: Model, E: Model> Model for Result<T, E> {
    fn mk() -> TyD {
        tyd::<Self>(TK::Enum(vec![
            vd("Ok", VK::Tuple, vec![fd("", tf::<T>)]),
            vd("Err", VK::Tuple, vec![fd("", tf::<E>)]),
        ]))
    }
    fn from_v(v: &V) -> Self {
        match v {
            V::Enum(n, _, fs) if n == "Ok" => Ok(T::from_v(&fs[0].1)),
            V::Enum(_, _, fs) => Err(E::from_v(&fs[0].1)),
            _ => panic!("bad model {v:?}"),
        }
    }
    fn to_v(&self) -> V {
        match self {
            Ok(x) => ev("Ok", VK::Tuple, vec![x.to_v()]),
            Err(x) => ev("Err", VK::Tuple, vec![x.to_v()]),
        }
    }
}

pub fn sf(v: &V, i: usize) -> &V {
    match v {
        V::Struct(fs) | V::Enum(_, _, fs) => &fs[i].1,
        V::TStruct(xs) | V::Tuple(xs) => &xs[i],
        _ => panic!("bad model {v:?}"),
    }
}

pub fn sv(fields: Vec<(&str, V)>) -> V {
    V::Struct(fields.into_iter().map(|(n, v)| (n.to_string(), v)).collect())
}

macro_rules! impl_struct {
    ([$($g:ident)*] $t:ty, $name:ident, $($f:ident : $ft:ty),*) => {
        impl<$($g: Model),*> Model for $t {
            fn mk() -> TyD { tyd::<Self>(TK::Struct(vec![$(fd(stringify!($f), tf::<$ft>)),*])) }
            #[allow(unused_assignments, unused_mut, unused_variables)]
            fn from_v(v: &V) -> Self {
                let mut i = 0;
                $(let $f: $ft = Model::from_v(sf(v, i)); i += 1;)*
                $name { $($f),* }
            }
            fn to_v(&self) -> V { sv(vec![$((stringify!($f), self.$f.to_v())),*]) }
        }
    };
}
impl_struct!([T] Range<T>, Range, start: T, end: T);
impl_struct!([T] RangeFrom<T>, RangeFrom, start: T);
impl_struct!([T] RangeTo<T>, RangeTo, end: T);
impl_struct!([T] RangeToInclusive<T>, RangeToInclusive, end: T);

impl Model for RangeFull {
    fn mk() -> TyD {
        TyD { dbg: Some(native_dbg::<RangeFull>), ..tyd::<RangeFull>(TK::Struct(vec![])) }
    }
    fn from_v(_: &V) -> Self {
        ..
    }
    fn to_v(&self) -> V {
        sv(vec![])
    }
}

impl Model for glam::Vec2 {
    fn mk() -> TyD {
        TyD {
            dbg: Some(native_dbg::<Self>),
            ..tyd::<Self>(TK::Struct(vec![fd("x", tf::<f32>), fd("y", tf::<f32>)]))
        }
    }
    fn from_v(v: &V) -> Self {
        glam::Vec2::new(Model::from_v(sf(v, 0)), Model::from_v(sf(v, 1)))
    }
    fn to_v(&self) -> V {
        sv(vec![("x", self.x.to_v()), ("y", self.y.to_v())])
    }
}

impl Model for glam::Vec3 {
    fn mk() -> TyD {
        TyD {
            dbg: Some(native_dbg::<Self>),
            ..tyd::<Self>(TK::Struct(vec![fd("x", tf::<f32>), fd("y", tf::<f32>), fd("z", tf::<f32>)]))
        }
    }
    fn from_v(v: &V) -> Self {
        glam::Vec3::new(Model::from_v(sf(v, 0)), Model::from_v(sf(v, 1)), Model::from_v(sf(v, 2)))
    }
    fn to_v(&self) -> V {
        sv(vec![("x", self.x.to_v()), ("y", self.y.to_v()), ("z", self.z.to_v())])
    }
}

impl Model for glam::Mat3 {
    fn mk() -> TyD {
        TyD {
            dbg: Some(native_dbg::<Self>),
            ..tyd::<Self>(TK::Struct(vec![
                fd("x_axis", tf::<glam::Vec3>),
                fd("y_axis", tf::<glam::Vec3>),
                fd("z_axis", tf::<glam::Vec3>),
            ]))
        }
    }
    fn from_v(v: &V) -> Self {
        glam::Mat3 { x_axis: Model::from_v(sf(v, 0)), y_axis: Model::from_v(sf(v, 1)), z_axis: Model::from_v(sf(v, 2)) }
    }
    fn to_v(&self) -> V {
        sv(vec![("x_axis", self.x_axis.to_v()), ("y_axis", self.y_axis.to_v()), ("z_axis", self.z_axis.to_v())])
    }
}

impl Model for macaw::ColorRgba8 {
    fn mk() -> TyD {
        TyD { dbg: Some(native_dbg::<Self>), ..tyd::<Self>(TK::TStruct(vec![fd("", tf::<[u8; 4]>)])) }
    }
    fn from_v(v: &V) -> Self {
        macaw::ColorRgba8(Model::from_v(sf(v, 0)))
    }
    fn to_v(&self) -> V {
        V::TStruct(vec![self.0.to_v()])
    }
}

macro_rules! impl_tuples {
    ($([$($t:ident $i:tt)*])*) => { $(
        #[allow(unused_variables)]
        impl<$($t: Model),*> Model for ($($t,)*) {
            fn mk() -> TyD { tyd::<Self>(TK::Tuple(vec![$(tf::<$t>),*])) }
            fn from_v(v: &V) -> Self { ($(<$t as Model>::from_v(sf(v, $i)),)*) }
            fn to_v(&self) -> V { V::Tuple(vec![$(self.$i.to_v()),*]) }
        }
    )* };
}
impl_tuples! {
    []
    [A 0]
    [A 0 B 1]
    [A 0 B 1 C 2]
    [A 0 B 1 C 2 D 3]
    [A 0 B 1 C 2 D 3 E 4]
    [A 0 B 1 C 2 D 3 E 4 F 5]
    [A 0 B 1 C 2 D 3 E 4 F 5 G 6]
    [A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7]
    [A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8]
    [A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8 J 9]
    [A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8 J 9 K 10]
    [A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8 J 9 K 10 L 11]
    [A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8 J 9 K 10 L 11 M 12]
    [A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8 J 9 K 10 L 11 M 12 N 13]
    [A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8 J 9 K 10 L 11 M 12 N 13 O 14]
    [A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8 J 9 K 10 L 11 M 12 N 13 O 14 P 15]
}

impl Model for Value {
    fn mk() -> TyD {
        TyD { dbg: Some(native_dbg::<Self>), ..tyd::<Self>(TK::Dyn(DK::Value)) }
    }
    fn from_v(v: &V) -> Self {
        to_value(v)
    }
    fn to_v(&self) -> V {
        observe(self)
    }
    fn down(r: &dyn Reflect) -> Option<V> {
        Some(observe(r))
    }
    fn assign(_: &mut dyn Reflect, _: &V) -> bool {
        false
    }
}

macro_rules! impl_dyn {
    ($t:ident $dk:ident $v:ident => $e:expr) => {
        impl Model for $t {
            fn mk() -> TyD {
                TyD { dbg: Some(native_dbg::<Self>), ..tyd::<Self>(TK::Dyn(DK::$dk)) }
            }
            fn from_v($v: &V) -> Self {
                $e
            }
            fn to_v(&self) -> V {
                observe(self)
            }
        }
    };
}
impl_dyn! { StructValue Struct v => match v { V::Struct(fs) => to_struct_value(fs), _ => panic!("bad model") } }
impl_dyn! { EnumValue Enum v => to_enum_value(v) }
impl_dyn! { TupleStructValue TStruct v => match v {
    V::TStruct(xs) => { let mut s = TupleStructValue::new(); for x in xs { s.push_field(to_value(x)); } s }
    _ => panic!("bad model"),
} }
impl_dyn! { TupleValue Tuple v => match v {
    V::Tuple(xs) => { let mut s = TupleValue::new(); for x in xs { s.push_field(to_value(x)); } s }
    _ => panic!("bad model"),
} }

/// A type whose contents reflection can't see.
#[derive(Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord)]
pub struct Opaque(pub u32);

impl DescribeType for Opaque {
    fn build(graph: &mut TypeGraph) -> NodeId {
        graph.get_or_build_node_with::<Self, _>(|graph| OpaqueNode::new::<Self>(Default::default(), graph))
    }
}

impl Reflect for Opaque {
    fn type_descriptor(&self) -> Cow<'static, TypeDescriptor> {
        <Self as DescribeType>::type_descriptor()
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn as_any_mut(&mut self) -> &mut dyn Any {
        self
    }
    fn as_reflect(&self) -> &dyn Reflect {
        self
    }
    fn as_reflect_mut(&mut self) -> &mut dyn Reflect {
        self
    }
    fn reflect_owned(self: Box<Self>) -> ReflectOwned {
        ReflectOwned::Opaque(self)
    }
    fn reflect_ref(&self) -> ReflectRef<'_> {
        ReflectRef::Opaque(self)
    }
    fn reflect_mut(&mut self) -> ReflectMut<'_> {
        ReflectMut::Opaque(self)
    }
    fn patch(&mut self, value: &dyn Reflect) {
        if let Some(x) = Self::from_reflect(value) {
            *self = x;
        }
    }
    fn to_value(&self) -> Value {
        self.0.to_value()
    }
    fn clone_reflect(&self) -> Box<dyn Reflect> {
        Box::new(self.clone())
    }
    fn debug(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(self, f)
    }
}

impl FromReflect for Opaque {
    fn from_reflect(reflect: &dyn Reflect) -> Option<Self> {
        reflect.downcast_ref::<Self>().cloned()
    }
}

impl Model for Opaque {
    fn mk() -> TyD {
        TyD { dbg: Some(native_dbg::<Self>), ..tyd::<Self>(TK::Opq) }
    }
    fn from_v(v: &V) -> Self {
        match v {
            V::Opq(n) => Opaque(*n),
            _ => panic!("bad model {v:?}"),
        }
    }
    fn to_v(&self) -> V {
        V::Opq(self.0)
    }
}

/// A type without `Reflect`, for skipped fields.
#[derive(Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord)]
pub struct NotReflect(pub u32);

impl Model for NotReflect {
    fn mk() -> TyD {
        TyD { dbg: Some(native_dbg::<Self>), ..tyd::<Self>(TK::Opq) }
    }
    fn from_v(v: &V) -> Self {
        match v {
            V::Opq(n) => NotReflect(*n),
            _ => panic!("bad model {v:?}"),
        }
    }
    fn to_v(&self) -> V {
        V::Opq(self.0)
    }
    fn down(_: &dyn Reflect) -> Option<V> {
        None
    }
    fn assign(_: &mut dyn Reflect, _: &V) -> bool {
        false
    }
}

impl Model for std::convert::Infallible {
    fn mk() -> TyD {
        tyd::<Self>(TK::Enum(vec![]))
    }
    fn from_v(_: &V) -> Self {
        panic!("bad model")
    }
    fn to_v(&self) -> V {
        match *self {}
    }
}

/// Type-erased operations of one type.
#[derive(Clone)]
pub struct Entry {
    pub label: &'static str,
    pub ty: Ty,
    pub make: fn(&V) -> Box<dyn Reflect>,
    /// the model of the value behind a `dyn Reflect`, by downcast
    pub down: fn(&dyn Reflect) -> Option<V>,
    /// overwrite the value behind a `dyn Reflect`, by downcast
    pub assign: fn(&mut dyn Reflect, &V) -> bool,
    pub from_reflect: fn(&dyn Reflect) -> Option<V>,
    pub descriptor: fn() -> Cow<'static, TypeDescriptor>,
    pub build: fn(&mut TypeGraph) -> NodeId,
    pub into_value: Option<fn(&V) -> Value>,
    pub boxed: bool,
    /// hundreds of parts, to be picked less often
    pub many: bool,
}

impl fmt::Debug for Entry {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(self.label)
    }
}

pub fn entry<T: Model + Reflect + FromReflect + DescribeType>() -> Entry {
    let label = std::any::type_name::<T>();
    Entry {
        label,
        ty: T::ty(),
        make: |v| Box::new(T::from_v(v)),
        down: T::down,
        assign: T::assign,
        from_reflect: |r| T::from_reflect(r).map(|x| x.to_v()),
        descriptor: <T as DescribeType>::type_descriptor,
        build: T::build,
        into_value: None,
        boxed: label.starts_with("alloc::boxed::Box"),
        many: label.contains("::Many") || label.contains("; 300]"),
    }
}

pub fn entry_v<T: Model + Reflect + FromReflect + DescribeType + Into<Value>>() -> Entry {
    Entry { into_value: Some(|v| T::from_v(v).into()), ..entry::<T>() }
}

// Conversion functions named by `from_reflect_with`, each with its model.

/// Takes the type itself or the length of a string.
pub fn w_len(r: &dyn Reflect) -> Option<i32> {
    if let Some(s) = r.downcast_ref::<String>() {
        return Some(s.len() as i32);
    }
    r.downcast_ref::<i32>().copied()
}

pub fn w_len_model(v: &V) -> R {
    match v {
        V::S(Sc::Str(s)) => R::Some(V::S(Sc::I32(s.len() as i32))),
        V::S(Sc::I32(n)) => R::Some(V::S(Sc::I32(*n))),
        _ => R::None,
    }
}

/// Not the identity: keeps the low bit cleared.
pub fn w_even(r: &dyn Reflect) -> Option<u32> {
    Some(*r.downcast_ref::<u32>()? & !1)
}

pub fn w_even_model(v: &V) -> R {
    match v {
        V::S(Sc::U32(n)) => R::Some(V::S(Sc::U32(*n & !1))),
        _ => R::None,
    }
}

/// Accepts a bool too.
pub fn w_flag(r: &dyn Reflect) -> Option<u32> {
    if let Some(b) = r.downcast_ref::<bool>() {
        return Some(*b as u32);
    }
    r.downcast_ref::<u32>().copied()
}

pub fn w_flag_model(v: &V) -> R {
    match v {
        V::S(Sc::Bool(b)) => R::Some(V::S(Sc::U32(*b as u32))),
        V::S(Sc::U32(_)) => R::Some(v.clone()),
        _ => R::None,
    }
}

/// Accepts a string where a list is expected.
pub fn w_words(r: &dyn Reflect) -> Option<Vec<String>> {
    if let Some(s) = r.downcast_ref::<String>() {
        return Some(s.split(' ').map(|s| s.to_string()).collect());
    }
    Vec::<String>::from_reflect(r)
}

pub fn w_words_model(v: &V) -> R {
    match v {
        V::S(Sc::Str(s)) => R::Some(V::List(s.split(' ').map(V::of_str).collect())),
        v => from(<Vec<String> as Model>::ty(), v, true),
    }
}

// `FromReflect` written by hand for types that opt out of the derived one.

pub fn custom_from(r: &dyn Reflect) -> Option<i32> {
    match r.as_tuple_struct() {
        Some(t) => t.field_at(0)?.downcast_ref::<i32>().copied(),
        None => r.downcast_ref::<i32>().map(|n| n.wrapping_add(1)),
    }
}

pub fn custom_from_model(v: &V, _: bool) -> R {
    match v {
        V::S(Sc::I32(n)) => R::Some(V::TStruct(vec![V::S(Sc::I32(n.wrapping_add(1)))])),
        V::TStruct(xs) => match xs.first() {
            Some(V::S(Sc::I32(n))) => R::Some(V::TStruct(vec![V::S(Sc::I32(*n))])),
            Some(V::Any) => R::Unspec,
            _ => R::None,
        },
        V::Any => R::Unspec,
        _ => R::None,
    }
}

/// Variant number (0, 1, 2) and contents.
pub fn e_custom_from(r: &dyn Reflect) -> Option<(u8, i32)> {
    if let Some(n) = r.downcast_ref::<i32>() {
        return Some(((*n > 0) as u8 + 2 * (*n < 0) as u8, *n));
    }
    let e = r.as_enum()?;
    match e.variant_name() {
        "Zero" => Some((0, 0)),
        "Pos" => Some((1, *e.field_at(0)?.downcast_ref::<i32>()?)),
        "Neg" => Some((2, *e.field("by")?.downcast_ref::<i32>()?)),
        _ => None,
    }
}

pub fn e_custom_from_model(v: &V, native: bool) -> R {
    match v {
        V::S(Sc::I32(n)) => R::Some(match n.signum() {
            0 => ev("Zero", VK::Unit, vec![]),
            1 => ev("Pos", VK::Tuple, vec![V::S(Sc::I32(*n))]),
            _ => V::Enum("Neg".to_string(), VK::Struct, vec![("by".to_string(), V::S(Sc::I32(*n)))]),
        }),
        v => from_std(ty::<crate::gen_zoo::ECustomFrom>(), v, native),
    }
}

pub fn registry() -> Vec<Entry> {
    use glam::{Mat3, Vec2, Vec3};
    let mut r: Vec<Entry> = vec![];
    macro_rules! e { ($($t:ty),* $(,)?) => { $(r.push(entry::<$t>());)* } }
    macro_rules! ev { ($($t:ty),* $(,)?) => { $(r.push(entry_v::<$t>());)* } }
    ev!(usize, u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, bool, char, f32, f64, String);
    ev!(
        NonZeroUsize, NonZeroU8, NonZeroU16, NonZeroU32, NonZeroU64, NonZeroU128, NonZeroI8, NonZeroI16, NonZeroI32,
        NonZeroI64, NonZeroI128, Duration
    );
    ev!(Value, StructValue, EnumValue, TupleStructValue, TupleValue);
    e!(Opaque, Vec<Opaque>, Option<Opaque>);
    ev!(Vec<i32>, Vec<String>, Vec<Vec<u8>>, Vec<f32>, Vec<Value>, Vec<Option<bool>>, Vec<()>, Vec<[i8; 2]>);
    ev!(Vec<NonZeroU8>, Vec<Duration>, [Duration; 2], BTreeMap<u8, Duration>, Option<Duration>, Option<NonZeroI32>);
    ev!([i32; 0], [u8; 3], [String; 2], [[i16; 2]; 2], [Opaque; 0], [Option<f64>; 1], [u8; 17]);
    ev!(BTreeMap<String, i32>, BTreeMap<i32, String>, BTreeMap<u8, Vec<bool>>, BTreeMap<(i8, bool), f64>, BTreeMap<Value, Value>);
    ev!(BTreeMap<char, BTreeMap<bool, u8>>, BTreeMap<NonZeroU16, i64>, BTreeMap<Option<u8>, [u8; 1]>, BTreeMap<Vec<u8>, ()>, BTreeMap<i128, i128>);
    ev!(Option<i32>, Option<Option<String>>, Option<Vec<i32>>, Result<i32, String>, Result<(), Option<u8>>, Result<Vec<f32>, Vec<f64>>);
    ev!(Range<i32>, Range<f64>, RangeFrom<u8>, RangeTo<i64>, RangeToInclusive<char>, RangeFull, Range<String>, RangeFrom<Option<u16>>);
    ev!(Vec2, Vec3, Mat3, macaw::ColorRgba8, Vec<Vec2>, Option<Mat3>);
    ev!(Box<i32>, Box<String>, Box<Box<u8>>, Box<Vec<i32>>, Box<Option<i32>>, Option<Box<i32>>, Vec<Box<String>>, Box<BTreeMap<u8, u8>>);
    e!((), (i32,), (i32, String), (bool, f32, char), (u8, (u16, (u32,))), (Vec<i32>, Option<u8>, [i8; 2], BTreeMap<u8, u8>));
    e!((u8, u16, u32, u64, u128), (i8, i16, i32, i64, i128, usize), (u8, u8, u8, u8, u8, u8, u8), (f32, f64, f32, f64, f32, f64, f32, f64));
    e!((u8, u8, u8, u8, u8, u8, u8, u8, u8), (u8, bool, u8, bool, u8, bool, u8, bool, u8, bool));
    e!((i8, i8, i8, i8, i8, i8, i8, i8, i8, i8, i8), (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, String));
    e!((u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, i8), (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, i8));
    e!((u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, i8), (u8, u16, u8, u16, u8, u16, u8, u16, u8, u16, u8, u16, u8, u16, u8, i16));
    e!((NonZeroU8, Duration), (Opaque, i32), (Value, Option<Value>), Vec<(i32, String)>, BTreeMap<u8, (u8, u8)>);
    ev!(Result<u8, std::convert::Infallible>, Option<std::convert::Infallible>, Vec<std::convert::Infallible>);
    crate::gen_zoo::register(&mut r);
    r
}

thread_local! {
    static REG: &'static [Entry] = Box::leak(registry().into_boxed_slice());
}

pub fn reg() -> &'static [Entry] {
    REG.with(|r| *r)
}

/// The entry of a type.
pub fn entry_of(ty: Ty) -> Option<&'static Entry> {
    reg().iter().find(|e| e.ty.id == ty.id && !e.boxed)
}
