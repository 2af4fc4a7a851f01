//! Property checks of mirror-mirror over generated types, values and histories.

#[path = "../../gen/zoo.rs"]
mod gen_zoo;
#[macro_use]
mod walk;
mod gen;
mod model;
mod observe;
mod props;
mod run;
mod tape;
mod zoo;

/// A path to the crate under test from the outside, for `crate_name`.
pub mod some_library {
    pub use mirror_mirror::*;
    pub mod nested {
        pub use mirror_mirror::*;
    }
}

fn main() {
    run::main(props::all);
}
