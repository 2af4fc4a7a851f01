//! Reading a reflected value into the model.

use mirror_mirror::enum_::{VariantField, VariantKind};
use mirror_mirror::{Reflect, ReflectRef};

use crate::model::*;

pub fn vkind(k: VariantKind) -> VK {
    match k {
        VariantKind::Struct => VK::Struct,
        VariantKind::Tuple => VK::Tuple,
        VariantKind::Unit => VK::Unit,
    }
}

/// What the iterators of the reflection API show.
pub fn observe(r: &dyn Reflect) -> V {
    match r.reflect_ref() {
        ReflectRef::Struct(s) => V::Struct(s.fields().map(|(n, v)| (n.to_string(), observe(v))).collect()),
        ReflectRef::TupleStruct(s) => V::TStruct(s.fields().map(observe).collect()),
        ReflectRef::Tuple(s) => V::Tuple(s.fields().map(observe).collect()),
        ReflectRef::Enum(e) => {
            let fields = e
                .fields()
                .map(|f| match f {
                    VariantField::Struct(n, v) => (n.to_string(), observe(v)),
                    VariantField::Tuple(v) => (String::new(), observe(v)),
                })
                .collect();
            V::Enum(e.variant_name().to_string(), vkind(e.variant_kind()), fields)
        }
        ReflectRef::Array(a) => V::Array(a.iter().map(observe).collect()),
        ReflectRef::List(a) => V::List(a.iter().map(observe).collect()),
        ReflectRef::Map(m) => V::Map(m.iter().map(|(k, v)| (observe(k), observe(v))).collect()),
        ReflectRef::Scalar(s) => V::S(Sc::of_ref(s)),
        ReflectRef::Opaque(o) => V::Opq(o.downcast_ref::<crate::zoo::Opaque>().map_or(u32::MAX, |o| o.0)),
    }
}
