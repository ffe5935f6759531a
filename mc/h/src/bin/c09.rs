mccore::own_environment!();
#[path = "../c09.rs"]
mod c09;
#[allow(dead_code, unused_imports)]
#[path = "../common.rs"]
mod common;

fn main() {
    mccore::main(&[
        ("C09", c09::c09),
        #[cfg(feature = "std")]
        ("C10", c09::c10),
    ]);
}
