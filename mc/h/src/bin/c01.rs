mccore::own_environment!();
#[path = "../c01.rs"]
mod c01;
#[allow(dead_code, unused_imports)]
#[path = "../common.rs"]
mod common;

fn main() {
    mccore::main(&[
        ("C01", c01::c01),
        ("C02", c01::c02),
    ]);
}
