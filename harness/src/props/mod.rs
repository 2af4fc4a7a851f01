//! The properties.

mod access;
mod attrs;
mod containers;
mod convert;
mod huge;
mod own;
mod patching;
mod paths;
mod text;
mod types;
mod values;
pub use types::concurrent_child;

use crate::run::Prop;

pub fn all() -> Vec<Prop> {
    let mut ps = vec![];
    ps.extend(convert::props());
    ps.extend(access::props());
    ps.extend(patching::props());
    ps.extend(paths::props());
    ps.extend(types::props());
    ps.extend(values::props());
    ps.extend(containers::props());
    ps.extend(attrs::props());
    ps.extend(text::props());
    ps.sort_by_key(|p| p.id);
    ps
}
