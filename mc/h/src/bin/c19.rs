mccore::own_environment!();
#[path = "../c19.rs"]
mod c19;
#[allow(dead_code, unused_imports)]
#[path = "../common.rs"]
mod common;

fn main() {
    mccore::main(&[
        ("C19", c19::c19),
        ("C20", c19::c20),
    ]);
}
