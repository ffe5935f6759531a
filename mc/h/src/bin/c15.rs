mccore::own_environment!();
#[path = "../c15.rs"]
mod c15;
#[allow(dead_code, unused_imports)]
#[path = "../common.rs"]
mod common;

fn main() {
    mccore::main(&[
        ("C15", c15::c15),
        ("C16", c15::c16),
        ("C17", c15::c17),
    ]);
}
