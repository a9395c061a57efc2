//! C26: definitions for the derive macros; compiled, never run.
#![allow(dead_code, unused_imports, unused_variables, non_snake_case, unexpected_cfgs)]
include!(concat!(env!("TPMGEN"), "/refuse.rs"));
fn main() {}
