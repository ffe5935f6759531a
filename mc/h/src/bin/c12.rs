mccore::own_environment!();
#[path = "../c12.rs"]
mod c12;
#[allow(dead_code, unused_imports)]
#[path = "../common.rs"]
mod common;

fn main() {
    mccore::main(&[
        ("C12", c12::c12),
        ("C21", c12::c21),
        ("C23", c12::c23),
    ]);
}
