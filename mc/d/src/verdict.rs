// Generated definitions whose compilation is observed.
#![allow(warnings)]
include!(env!("MC_GEN"));
fn main() {}
