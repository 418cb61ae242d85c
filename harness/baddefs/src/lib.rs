//! Ill-formed definitions, one per module (file named by VP_BADDEFS): only ever checked, each must be rejected.
include!(env!("VP_BADDEFS"));
