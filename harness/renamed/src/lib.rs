//! Well-formed definitions in a crate that names the library differently (file named by VP_BADDEFS): only ever checked.
include!(env!("VP_BADDEFS"));
