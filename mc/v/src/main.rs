#[macro_use]
extern crate log;
mccore::own_environment!();
#[path = "/repo/examples/src/server/authorization.rs"]
mod authorization;
#[path = "/repo/examples/src/server/handler.rs"]
mod handler;
#[path = "/repo/examples/src/client/auth.rs"]
mod auth;
#[path = "/repo/examples/src/client/request.rs"]
#[macro_use]
mod request;
#[allow(dead_code)]
#[path = "../../h/src/c08.rs"]
mod c08;
mod c22;
mod c25;
#[allow(dead_code)]
#[path = "../../h/src/common.rs"]
mod common;
extern crate oauth as oauth1_request;
fn main() {
    mccore::main(&[("C22", c22::c22), ("C25", c25::c25)]);
}
