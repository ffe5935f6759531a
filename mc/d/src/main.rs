//! C13: runs generated definitions and compares their serialization with the model's.
#![allow(warnings)]
mccore::own_environment!();
use mccore::*;
use oauth1_request as oauth;
use std::fmt::Display;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Param(String, String),
    Encoded(String, String),
    Slot(usize),
}
pub const SLOTS: [&str; 8] =
    ["oauth_callback", "oauth_consumer_key", "oauth_nonce", "oauth_signature_method", "oauth_timestamp", "oauth_token", "oauth_verifier", "oauth_version"];

#[derive(Clone, Default)]
pub struct Tape(Vec<Op>);
macro_rules! slots {
    ($($f:ident $i:expr),*) => { $(fn $f(&mut self) { self.0.push(Op::Slot($i)) })* };
}
impl oauth::serializer::Serializer for Tape {
    type Output = Vec<Op>;
    fn serialize_parameter<V: Display>(&mut self, k: &str, v: V) {
        self.0.push(Op::Param(k.into(), v.to_string()));
    }
    fn serialize_parameter_encoded<V: Display>(&mut self, k: &str, v: V) {
        self.0.push(Op::Encoded(k.into(), v.to_string()));
    }
    slots!(serialize_oauth_callback 0, serialize_oauth_consumer_key 1, serialize_oauth_nonce 2, serialize_oauth_signature_method 3,
        serialize_oauth_timestamp 4, serialize_oauth_token 5, serialize_oauth_verifier 6, serialize_oauth_version 7);
    fn end(self) -> Vec<Op> {
        self.0
    }
}

/// A field: its parameter name, whether it is written as encoded, and the text of each value (or nothing).
pub struct Fs {
    name: &'static str,
    enc: bool,
    dom: &'static [Option<&'static str>],
}
pub struct Spec {
    src: &'static str,
    /// In order of declaration.
    fields: &'static [Fs],
    run: fn(&[usize]) -> (Vec<Op>, Option<String>),
}
pub fn outputs<R: oauth::Request>(r: &R) -> (Vec<Op>, Option<String>) {
    (r.serialize(Tape::default()), None)
}
pub mod sup {
    include!(concat!(env!("MC_GEN"), "/sup.rs"));
}
include!(concat!(env!("MC_GEN"), "/", env!("CARGO_BIN_NAME"), ".rs"));

fn c13(rn: &mut Runner) {
    rn.assumptions.push("field names and renames equal to a protocol parameter's name are out of domain (they would be sent twice)".into());
    rn.assumptions.push("lower-case constants or statics named like the macro's local variables are out of domain".into());
    let all = rn.by(64, 4096);
    rn.scenario("values", "every generated definition x every combination of field values", 0, move |cx| {
        let s = &SPECS[cx.pick(SPECS.len())];
        // With many fields: all combinations of the first ones, the others rotate.
        let mut room = all;
        let mut v = vec![];
        for f in s.fields {
            let n = f.dom.len();
            if room >= n {
                room /= n;
                v.push(cx.pick(n));
            } else {
                v.push(v.iter().sum::<usize>() % n);
            }
        }
        let mut want: Vec<(&str, Op)> = SLOTS.iter().enumerate().map(|(i, k)| (*k, Op::Slot(i))).collect();
        for (f, &i) in s.fields.iter().zip(&v) {
            if let Some(t) = f.dom[i] {
                want.push((f.name, if f.enc { Op::Encoded(f.name.into(), t.into()) } else { Op::Param(f.name.into(), t.into()) }));
            }
        }
        want.sort_by(|a, b| a.0.cmp(b.0));
        let want: Vec<Op> = want.into_iter().map(|x| x.1).collect();
        let (got, _) = (s.run)(&v);
        cx.state(&(s.src, &got));
        cx.note(|| format!("{} values {:?} => {:?}", s.src, v, got));
        ensure_eq!(got, want, "values {:?} of {}", v, s.src);
        Ok(())
    });
}

fn main() {
    mccore::main(&[("C13", c13)]);
}
