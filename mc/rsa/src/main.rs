mccore::own_environment!();
#[path = "../../h/src/common.rs"]
#[allow(dead_code)]
mod common;
mod c07;

fn main() {
    mccore::main(&[("C07", c07::c07), ("C17", c07::c17)]);
}
