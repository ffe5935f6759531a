mccore::own_environment!();
#[path = "../c08.rs"]
mod c08;
#[allow(dead_code, unused_imports)]
#[path = "../common.rs"]
mod common;

fn main() {
    mccore::main(&[
        ("C08", c08::c08),
    ]);
}
