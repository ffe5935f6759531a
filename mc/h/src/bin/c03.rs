mccore::own_environment!();
#[path = "../c03.rs"]
mod c03;
#[allow(dead_code, unused_imports)]
#[path = "../common.rs"]
mod common;

fn main() {
    mccore::main(&[
        ("C03", c03::c03),
        ("C04", c03::c04),
        ("C05", c03::c05),
        ("C06", c03::c06),
    ]);
}
