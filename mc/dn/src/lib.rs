// Generated definitions in a crate without the standard library.
#![no_std]
#![allow(warnings)]
extern crate alloc;
include!(env!("MC_GEN"));
