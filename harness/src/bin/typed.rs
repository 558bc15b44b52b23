//! Runs cases over a generated type registry.
#![allow(dead_code, unused_imports, mismatched_lifetime_syntaxes, non_snake_case, non_camel_case_types)]
#[cfg(feature = "gen")]
include!(concat!(env!("VH_GEN"), "/gen.rs"));

#[cfg(feature = "gen")]
fn main() {
    vh::main_loop(|case| dispatch(case.get("op").str(), case.get("ty").int(), case));
}

#[cfg(not(feature = "gen"))]
fn main() {}
