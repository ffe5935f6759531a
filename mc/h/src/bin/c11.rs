mccore::own_environment!();
#[path = "../c11.rs"]
mod c11;
#[allow(dead_code, unused_imports)]
#[path = "../common.rs"]
mod common;

fn main() {
    mccore::main(&[
        ("C11", c11::c11),
    ]);
}
