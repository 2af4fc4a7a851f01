//! Opaque types that describe themselves, with metadata and default values (for C09, C11, C14, C15).

use std::any::Any;
use std::borrow::Cow;
use std::collections::BTreeMap;
use std::fmt;

use mirror_mirror::type_info::graph::{NodeId, OpaqueNode, TypeGraph};
use mirror_mirror::type_info::{GetMeta, Type, TypeDescriptor};
use mirror_mirror::{DescribeType, FromReflect, Reflect, ReflectMut, ReflectOwned, ReflectRef, Value};

use crate::gen::*;
use crate::model::*;
use crate::observe::*;
use crate::run::*;
use crate::tape::*;
use crate::walk::*;

/// Metadata and default value are those generated from `N`.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Own<const N: usize>(u32);

const KEYS: [&str; 6] = ["", "a", "b", "min", "max value", "\u{e9}"];

fn metadata(n: usize) -> BTreeMap<&'static str, V> {
    let mut src = Src::random(mix(7, n as u64));
    (0..n % 4).map(|_| (*src.pick(&KEYS), gen_dyn(&mut src, 2))).collect()
}

fn own_default(n: usize) -> Option<V> {
    let mut src = Src::random(mix(8, n as u64));
    (n % 3 > 0).then(|| gen_dyn(&mut src, 2))
}

impl<const N: usize> DescribeType for Own<N> {
    fn build(graph: &mut TypeGraph) -> NodeId {
        graph.get_or_build_node_with::<Self, _>(|graph| {
            let node = OpaqueNode::new::<Self>(metadata(N).into_iter().map(|(k, v)| (k, to_value(&v))).collect(), graph);
            match own_default(N) {
                Some(v) => node.default_value(to_value(&v)),
                None => node,
            }
        })
    }
}

impl<const N: usize> Reflect for Own<N> {
    fn type_descriptor(&self) -> Cow<'static, TypeDescriptor> {
        <Self as DescribeType>::type_descriptor()
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn as_any_mut(&mut self) -> &mut dyn Any {
        self
    }
    fn as_reflect(&self) -> &dyn Reflect {
        self
    }
    fn as_reflect_mut(&mut self) -> &mut dyn Reflect {
        self
    }
    fn reflect_owned(self: Box<Self>) -> ReflectOwned {
        ReflectOwned::Opaque(self)
    }
    fn reflect_ref(&self) -> ReflectRef<'_> {
        ReflectRef::Opaque(self)
    }
    fn reflect_mut(&mut self) -> ReflectMut<'_> {
        ReflectMut::Opaque(self)
    }
    fn patch(&mut self, _: &dyn Reflect) {}
    fn to_value(&self) -> Value {
        self.0.to_value()
    }
    fn clone_reflect(&self) -> Box<dyn Reflect> {
        Box::new(self.clone())
    }
    fn debug(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(self, f)
    }
}

impl<const N: usize> FromReflect for Own<N> {
    fn from_reflect(reflect: &dyn Reflect) -> Option<Self> {
        reflect.downcast_ref::<Self>().cloned()
    }
}

#[derive(Reflect, Clone, Debug)]
struct Holds<const N: usize> {
    n: i32,
    o: Own<N>,
}

#[derive(Reflect, Clone, Debug)]
struct HoldsT<const N: usize>(Own<N>, bool);

#[derive(Reflect, Clone, Debug)]
enum HoldsE<const N: usize> {
    A(Own<N>),
    B { x: Own<N> },
}

#[derive(Clone, Copy, PartialEq)]
pub enum Aspect {
    Shape,
    Default,
    Part,
    Formats,
}

/// The opaque type itself.
fn is_own<const N: usize>(t: Type<'_>, aspect: Aspect) -> Res {
    let o = t.as_opaque().ok_or("not described as opaque")?;
    match aspect {
        Aspect::Shape => {
            same("type name", std::any::type_name::<Own<N>>(), o.type_name())?;
            same("type name", std::any::type_name::<Own<N>>(), t.type_name())?;
            let want = metadata(N);
            for k in KEYS.iter().chain(&["no such"]) {
                let want = want.get(k).map(to_value);
                for (what, got) in [("opaque type", o.meta(k)), ("type", t.meta(k))] {
                    same(&format!("{what}: metadata {k:?}"), &want, &got.map(|x| x.to_value()))?;
                }
                same(&format!("read metadata {k:?}"), &want, &o.get_meta::<Value>(k))?;
            }
            check!(t.docs().is_empty(), "docs out of nowhere: {:?}", t.docs());
            Ok(())
        }
        _ => {
            let want = own_default(N);
            has(&want, o.default_value(), o.has_default_value())?;
            has(&want, t.default_value(), t.has_default_value())
        }
    }
}

fn has(want: &Option<V>, got: Option<Value>, has: bool) -> Res {
    same("has_default_value", want.is_some(), has)?;
    same("default_value", &want.as_ref().map(to_value), &got)?;
    match (want, got) {
        (Some(w), Some(g)) => shows("default_value", w, &observe(&g)),
        _ => Ok(()),
    }
}

fn of<const N: usize>(cx: &mut Cx, aspect: Aspect) -> Res {
    let d = own_default(N);
    let e = |name: &str, kind, field: &str| d.clone().map(|v| V::Enum(name.into(), kind, vec![(field.into(), v)]));
    let zero = V::S(Sc::I32(0));
    // a type, how to get to the opaque one in it, and its default value
    macro_rules! all {
        ($($t:ty, $want:expr, |$x:ident| $get:expr;)*) => {{
            let which = cx.src.below(0 $(+ { let _ = stringify!($t); 1 })*);
            let mut _i = 0;
            $(
                if _i == which {
                    cx.input(stringify!($t));
                    let want: Option<V> = $want;
                    let get = |$x: Type<'_>, aspect| -> Res { let $x = $get; is_own::<N>($x, aspect) };
                    return whole::<$t, N>(want, &get, aspect);
                }
                _i += 1;
            )*
            unreachable!()
        }};
    }
    all! {
        Own<N>, d.clone(), |t| t;
        Box<Own<N>>, d.clone(), |t| t;
        Vec<Own<N>>, Some(V::List(vec![])), |t| t.as_list().ok_or("no list")?.element_type();
        [Own<N>; 2], d.clone().map(|v| V::List(vec![v.clone(), v])), |t| t.as_array().ok_or("no array")?.element_type();
        BTreeMap<u8, Own<N>>, Some(V::Map(vec![])), |t| t.as_map().ok_or("no map")?.value_type();
        BTreeMap<Own<N>, bool>, Some(V::Map(vec![])), |t| t.as_map().ok_or("no map")?.key_type();
        (i32, Own<N>), d.clone().map(|v| V::Tuple(vec![zero.clone(), v])), |t| t.as_tuple().ok_or("no tuple")?.field_type_at(1).ok_or("no field")?.get_type();
        Holds<N>, d.clone().map(|v| V::Struct(vec![("n".into(), zero.clone()), ("o".into(), v)])), |t| t.as_struct().ok_or("no struct")?.field_type("o").ok_or("no field")?.get_type();
        HoldsT<N>, d.clone().map(|v| V::TStruct(vec![v, V::S(Sc::Bool(false))])), |t| t.as_tuple_struct().ok_or("no tuple struct")?.field_type_at(0).ok_or("no field")?.get_type();
        HoldsE<N>, e("A", VK::Tuple, ""), |t| t.as_enum().ok_or("no enum")?.variant("B").ok_or("no variant")?.field_type("x").ok_or("no field")?.get_type();
        HoldsE<N>, e("A", VK::Tuple, ""), |t| t.as_enum().ok_or("no enum")?.variant("A").ok_or("no variant")?.field_type_at(0).ok_or("no field")?.get_type();
    }
}

fn whole<T: DescribeType, const N: usize>(want: Option<V>, get: &dyn Fn(Type<'_>, Aspect) -> Res, aspect: Aspect) -> Res {
    let d = T::type_descriptor();
    let complete = |d: &TypeDescriptor| -> Res {
        get(d.get_type(), Aspect::Shape)?;
        get(d.get_type(), Aspect::Default)?;
        has(&want, d.default_value(), d.has_default_value())
    };
    match aspect {
        Aspect::Shape => get(d.get_type(), aspect),
        Aspect::Default => {
            get(d.get_type(), aspect)?;
            has(&want, d.default_value(), d.has_default_value())?;
            has(&want, d.get_type().default_value(), d.get_type().has_default_value())
        }
        Aspect::Part => {
            let own = d.get_type().into_type_descriptor();
            drop(d);
            complete(&own)
        }
        Aspect::Formats => super::values::formats("descriptor", &*d, &|q: &TypeDescriptor| {
            check!(*d == *q, "differs");
            complete(q)
        }),
    }
}

fn case(cx: &mut Cx, aspect: Aspect) -> Res {
    let n = cx.src.below(12);
    cx.input(n);
    cx.trivial_if(n == 0);
    macro_rules! pick {
        ($($n:literal)*) => {
            match n {
                $($n => of::<$n>(cx, aspect),)*
                _ => unreachable!(),
            }
        };
    }
    pick!(0 1 2 3 4 5 6 7 8 9 10 11)
}

pub fn shape(cx: &mut Cx) -> Res {
    case(cx, Aspect::Shape)
}
pub fn default(cx: &mut Cx) -> Res {
    case(cx, Aspect::Default)
}
pub fn part(cx: &mut Cx) -> Res {
    case(cx, Aspect::Part)
}
pub fn written(cx: &mut Cx) -> Res {
    case(cx, Aspect::Formats)
}
