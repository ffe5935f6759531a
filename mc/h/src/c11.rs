//! C11: custom signature methods are driven by the documented call protocol.
use crate::common::*;
use either::Either;
use mccore::refimpl::{self as r, Pair};
use mccore::*;
use oauth::serializer::{auth, Authorizer, Serializer};
use oauth::signature_method::{Plaintext, Sign, SignatureMethod, HMAC_SHA1};
use oauth1_request as oauth;
use std::fmt::Display;

/// Which of callback, consumer_key, nonce, signature_method, timestamp, token, verifier, version
/// a signer overrides, as a bit mask.
pub trait Overrides {
    const MASK: u8;
}
impl Overrides for Spy {
    const MASK: u8 = 0;
}
impl Overrides for FullSpy {
    const MASK: u8 = 0xff;
}

macro_rules! partial {
    ($($name:ident $mask:literal { $($body:tt)* })*) => { $(
        /// Overrides one operation only, and `use_*` not at all.
        #[derive(Clone, Debug)]
        pub struct $name(pub Log, pub SpyCfg);
        impl Overrides for $name {
            const MASK: u8 = $mask;
        }
        impl SignatureMethod for $name {
            type Sign = $name;
            fn sign_with(self, c: &str, t: Option<&str>) -> $name {
                self.0.borrow_mut().push(Ev::SignWith(c.into(), t.map(Into::into)));
                self
            }
        }
        impl Sign for $name {
            type Signature = String;
            fn get_signature_method_name(&self) -> &'static str {
                self.1.name
            }
            fn request_method(&mut self, method: &str) {
                self.0.borrow_mut().push(Ev::Method(method.into()));
            }
            fn uri<T: Display>(&mut self, uri: T) {
                let s = uri.to_string();
                self.0.borrow_mut().push(Ev::Uri(s));
            }
            fn parameter<V: Display>(&mut self, k: &str, v: V) {
                let s = v.to_string();
                self.0.borrow_mut().push(Ev::Param(k.into(), s));
            }
            fn delimiter(&mut self) {
                self.0.borrow_mut().push(Ev::Delim);
            }
            fn end(self) -> String {
                self.0.borrow_mut().push(Ev::End);
                self.1.signature.into()
            }
            $($body)*
        }
    )* };
}
partial! {
    Min 0 {}
    OneCallback 1 { fn callback<V: Display>(&mut self, v: V) { let s = v.to_string(); self.0.borrow_mut().push(Ev::Callback(s)); } }
    OneConsumerKey 2 { fn consumer_key<V: Display>(&mut self, v: V) { let s = v.to_string(); self.0.borrow_mut().push(Ev::ConsumerKey(s)); } }
    OneNonce 4 { fn nonce<V: Display>(&mut self, v: V) { let s = v.to_string(); self.0.borrow_mut().push(Ev::Nonce(s)); } }
    OneSigMethod 8 { fn signature_method(&mut self) { self.0.borrow_mut().push(Ev::SigMethod); } }
    OneTimestamp 16 { fn timestamp(&mut self, t: u64) { self.0.borrow_mut().push(Ev::Timestamp(t)); } }
    OneToken 32 { fn token<V: Display>(&mut self, v: V) { let s = v.to_string(); self.0.borrow_mut().push(Ev::Token(s)); } }
    OneVerifier 64 { fn verifier<V: Display>(&mut self, v: V) { let s = v.to_string(); self.0.borrow_mut().push(Ev::Verifier(s)); } }
    OneVersion 128 { fn version(&mut self) { self.0.borrow_mut().push(Ev::Version); } }
}

/// The calls a signer must see, given the protocol parameters that were transmitted.
fn expected_calls(c: &Case, proto: &[Pair], mask: u8) -> Vec<Ev> {
    let mut all: Vec<(String, String, bool)> = vec![];
    all.extend(proto.iter().map(|(k, v)| (k.clone(), v.clone(), true)));
    all.extend(c.pairs().into_iter().map(|(k, v)| (k, v, false)));
    all.sort_by(|a, b| (a.0.as_bytes(), r::pct(&a.1)).cmp(&(b.0.as_bytes(), r::pct(&b.1))));
    let mut v = vec![Ev::SignWith(c.cs.clone(), c.token_secret().map(Into::into)), Ev::Method(c.method.clone()), Ev::Uri(r::pct(&c.uri.text))];
    for (i, (k, x, own)) in all.iter().enumerate() {
        if i > 0 {
            v.push(Ev::Delim);
        }
        let e = r::pct(&r::pct(x));
        let bit = SLOTS.iter().position(|s| s == k);
        v.push(match bit {
            Some(b) if *own && mask >> b & 1 == 1 => match b {
                0 => Ev::Callback(e),
                1 => Ev::ConsumerKey(e),
                2 => Ev::Nonce(e),
                3 => Ev::SigMethod,
                4 => Ev::Timestamp(x.parse().unwrap()),
                5 => Ev::Token(e),
                6 => Ev::Verifier(e),
                _ => Ev::Version,
            },
            _ => Ev::Param(k.clone(), e),
        });
    }
    v.push(Ev::End);
    v
}

/// What `dissect` should find, with parameters the signer opted out of missing.
fn check_out<S: Overrides>(c: &Case, cfg: SpyCfg, log: &Log, out: &str) -> Verdict {
    let pairs = match c.kind {
        Kind::Header => r::parse_header(out)?,
        Kind::Form => r::parse_form(out)?,
        Kind::Query => r::parse_form(out.strip_prefix(&*c.uri.text).and_then(|t| t.strip_prefix('?')).ok_or_else(|| format!("bad query output {:?}", out))?)?,
    };
    let (sigs, mut rest): (Vec<Pair>, Vec<Pair>) = pairs.into_iter().partition(|p| p.0 == "oauth_signature");
    ensure!(sigs.len() == 1, "{} signatures in {:?}", sigs.len(), out);
    ensure_eq!(r::pct(&sigs[0].1), cfg.signature, "transmitted signature is not the finalized value in {:?}", out);
    if c.kind != Kind::Header {
        for p in c.pairs() {
            let i = rest.iter().position(|q| *q == p).ok_or_else(|| format!("{:?} is missing from {:?}", p, out))?;
            rest.remove(i);
        }
    }
    let mut want = c.expected_oauth(cfg.name);
    if !cfg.nonce {
        want.retain(|p| p.0 != "oauth_nonce");
    } else if c.nonce.is_none() {
        let n = rest.iter().find(|p| p.0 == "oauth_nonce").ok_or_else(|| format!("no nonce in {:?}", out))?;
        want.push(n.clone());
    }
    if !cfg.timestamp {
        want.retain(|p| p.0 != "oauth_timestamp");
    } else if c.timestamp.is_none() {
        let n = rest.iter().find(|p| p.0 == "oauth_timestamp").ok_or_else(|| format!("no timestamp in {:?}", out))?;
        want.push(n.clone());
    }
    want.sort();
    rest.sort();
    ensure_eq!(rest, want, "protocol parameters transmitted in {:?} (signer {:?})", out, cfg);
    let calls = expected_calls(c, &want, S::MASK);
    ensure_eq!(*log.borrow(), calls, "calls received by the signer (overrides {:08b}) for {:?}", S::MASK, c);
    let base = c.base_string(&want);
    ensure_eq!(fed(log, cfg.name), base, "concatenated calls do not reproduce the base string");
    Ok(())
}

const CFGS: [SpyCfg; 6] = [
    SPY,
    SpyCfg { name: "X-A.b~1_z", nonce: true, timestamp: true, signature: "" },
    SpyCfg { name: "A", nonce: false, timestamp: true, signature: "%26%25~" },
    SpyCfg { name: "HMAC-SHA256", nonce: true, timestamp: false, signature: "a%2Fb%3D" },
    SpyCfg { name: "PLAINTEXT", nonce: false, timestamp: false, signature: "s" },
    SpyCfg { name: "", nonce: false, timestamp: false, signature: "0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789" },
];

fn run_one<S: Overrides + SignatureMethod + Clone>(cx: &mut Ctx, c: &Case, cfg: SpyCfg, mk: impl Fn(Log, SpyCfg) -> S, wrap: usize) -> Verdict {
    let log = Log::default();
    let s = mk(log.clone(), cfg);
    let other_log = Log::default();
    let other = FullSpy(other_log.clone(), SpyCfg { name: "OTHER", nonce: !cfg.nonce, timestamp: !cfg.timestamp, signature: "other" });
    let min = Spy(other_log.clone(), SpyCfg { name: "OTHER", nonce: !cfg.nonce, timestamp: !cfg.timestamp, signature: "other" });
    let out = match wrap {
        0 => c.run(s),
        1 => c.run(Either::<S, FullSpy>::Left(s)),
        2 => c.run(Either::<FullSpy, S>::Right(s)),
        3 => c.run(Either::<Spy, S>::Right(s)),
        4 => c.run(Either::<S, Spy>::Left(s)),
        _ => c.run(Either::<Either<Spy, S>, FullSpy>::Left(Either::Right(s))),
    };
    let _ = (other, min);
    if c.nonce.is_some() {
        cx.state(&*log.borrow());
    } else {
        cx.state(&(c, cfg, S::MASK));
    }
    cx.note(|| format!("{:?} => {:?}", log.borrow(), out));
    ensure!(other_log.borrow().is_empty(), "the variant that was not chosen was called");
    check_out::<S>(c, cfg, &log, &out).map_err(|e| format!("wrap {}: {}", wrap, e))
}

fn any_signer(cx: &mut Ctx, c: &Case, cfg: SpyCfg, which: usize, wrap: usize) -> Verdict {
    // Signers that do not override `use_*` always use both.
    let full = SpyCfg { nonce: true, timestamp: true, ..cfg };
    match which {
        0 => run_one(cx, c, cfg, Spy, wrap),
        1 => run_one(cx, c, cfg, FullSpy, wrap),
        2 => run_one(cx, c, full, Min, wrap),
        3 => run_one(cx, c, full, OneCallback, wrap),
        4 => run_one(cx, c, full, OneConsumerKey, wrap),
        5 => run_one(cx, c, full, OneNonce, wrap),
        6 => run_one(cx, c, full, OneSigMethod, wrap),
        7 => run_one(cx, c, full, OneTimestamp, wrap),
        8 => run_one(cx, c, full, OneToken, wrap),
        9 => run_one(cx, c, full, OneVerifier, wrap),
        _ => run_one(cx, c, full, OneVersion, wrap),
    }
}

/// A signer driven directly, operation by operation.
fn op<S: Sign>(s: &mut S, i: usize, v: &str) -> String {
    match i {
        0 => s.request_method(v),
        1 => s.uri(v),
        2 => s.parameter("k", v),
        3 => s.delimiter(),
        4 => s.callback(v),
        5 => s.consumer_key(v),
        6 => s.nonce(v),
        7 => s.signature_method(),
        8 => s.timestamp(v.len() as u64),
        9 => s.token(v),
        10 => s.verifier(v),
        11 => s.version(),
        12 => return s.use_nonce().to_string(),
        13 => return s.use_timestamp().to_string(),
        _ => return s.get_signature_method_name().into(),
    }
    String::new()
}

pub fn c11(rn: &mut Runner) {
    rn.assumptions.push("signature method names are URI-safe and finalized values are percent-encoded, as the trait documents".into());
    let k = rn.by(2, 3);
    rn.scenario("protocol", "the call log of every signer type (no / each one / all overrides, each opt-out) x Either wrapping x requests", k, |cx| {
        let kind = *cx.of(&KINDS);
        let which = cx.pick(11);
        let wrap = cx.dev(6);
        let cfg = *cx.devof(&CFGS);
        let mut c = any_case(cx, kind);
        if c.timestamp.is_none() {
            env::set_clock(vec![(1_600_000_000, 0)]);
        }
        if kind == Kind::Query && c.uri.text.is_empty() {
            c.uri.text = "http://e/".into();
        }
        let res = any_signer(cx, &c, cfg, which, wrap);
        env::clear();
        res
    });
    rn.scenario("option-combinations", "all option combinations x opt-outs x request parameters around the protocol parameters, every signer type, direct and through Either", 0, |cx| {
        let kind = *cx.of(&KINDS);
        let which = cx.pick(11);
        let wrap = cx.pick(3);
        let cfg = CFGS[if which < 2 { [0, 2, 3, 4][cx.pick(4)] } else { 0 }];
        let mut c = Case::basic(kind);
        let bits = cx.pick(64);
        if bits & 1 == 1 {
            c.callback = Some("http://cb/é?a=b&c".into());
        }
        if bits & 2 != 0 {
            c.verifier = Some("v%e".into());
        }
        if bits & 4 != 0 {
            c.nonce = None;
        }
        if bits & 8 != 0 {
            c.timestamp = AUTOMATIC;
        }
        c.version = bits & 16 != 0;
        if bits & 32 != 0 {
            c.token = None;
        }
        match cx.pick(5) {
            0 => {}
            1 => c.params = vec![p("a", "1 2")],
            2 => c.params = vec![p("z", "&")],
            3 => c.params = vec![p("oauth_d", "x"), p("oauth_o", ""), p("oauth_sz", "%"), p("oauth_u", "é")],
            _ => c.params = vec![p("a", "1"), p("a", "1"), param("oauth_token_", "b c", Split::Chars, true), p("z", "2"), p("z", "10")],
        }
        env::set_clock(vec![(1_600_000_000, 0)]);
        let res = any_signer(cx, &c, cfg, which, wrap);
        env::clear();
        res
    });
    rn.scenario("wide-texts", "the call log over the wide corpus at every place, by signers overriding nothing and everything", 0, |cx| {
        let kind = *cx.of(&KINDS);
        let mut c = Case::basic(kind);
        let which = cx.pick(2);
        let field = cx.pick(FIELDS);
        let t = texts::few(cx);
        place(&mut c, field, &t);
        any_signer(cx, &c, CFGS[0], which, 0)
    });
    let k = rn.by(2, 3);
    rn.scenario("relations", "the call log over texts that are equal to, or a beginning or end of, one another", k, |cx| {
        let kind = *cx.of(&KINDS);
        let which = cx.pick(2);
        let c = relations_case(cx, kind);
        any_signer(cx, &c, CFGS[0], which, 0)
    });
    let max = rn.by(100, 600);
    rn.scenario("names-and-lengths", "the call log over the corpus of parameter names and every length of every text", 0, move |cx| {
        let kind = *cx.of(&KINDS);
        let which = cx.pick(2);
        let c = if cx.flag() { name_case(cx, kind) } else { length_case(cx, kind, max) };
        any_signer(cx, &c, CFGS[0], which, 0)
    });
    let depth = rn.by(3, 4);
    rn.scenario("either-operations", "every sequence of Sign operations, on a signer directly and through both sides of Either", 0, move |cx| {
        let n = cx.pick(depth + 1);
        let cfg = *cx.of(&CFGS[..4]);
        let ops: Vec<usize> = (0..n).map(|_| cx.pick(15)).collect();
        let drive = |wrap: usize, full: bool| -> (Vec<Ev>, Vec<String>, String) {
            let log = Log::default();
            let mut res = vec![];
            fn go<S: SignatureMethod>(s: S, ops: &[usize], res: &mut Vec<String>) -> String
            where
                <S::Sign as Sign>::Signature: Display,
            {
                let mut s = s.sign_with("c s", Some("t&s"));
                for (i, &o) in ops.iter().enumerate() {
                    res.push(op(&mut s, o, ["x", "yy", "%20", ""][i % 4]));
                }
                s.end().to_string()
            }
            let out = match (wrap, full) {
                (0, true) => go(FullSpy(log.clone(), cfg), &ops, &mut res),
                (0, false) => go(Spy(log.clone(), cfg), &ops, &mut res),
                (1, true) => go(Either::<_, Spy>::Left(FullSpy(log.clone(), cfg)), &ops, &mut res),
                (1, false) => go(Either::<_, FullSpy>::Left(Spy(log.clone(), cfg)), &ops, &mut res),
                (2, true) => go(Either::<Spy, _>::Right(FullSpy(log.clone(), cfg)), &ops, &mut res),
                _ => go(Either::<FullSpy, _>::Right(Spy(log.clone(), cfg)), &ops, &mut res),
            };
            let l = log.borrow().clone();
            (l, res, out)
        };
        for full in [true, false] {
            let direct = drive(0, full);
            cx.state(&direct);
            for wrap in 1..3 {
                ensure_eq!(drive(wrap, full), direct, "operations {:?} through Either ({}) against the signer itself", ops, if wrap == 1 { "left" } else { "right" });
            }
        }
        Ok(())
    });
    rn.scenario("either-real", "Either of the built-in methods against the chosen one", rn.by(2, 3), |cx| {
        let kind = *cx.of(&KINDS);
        let mut c = any_case(cx, kind);
        c.nonce.get_or_insert_with(|| "n".into());
        c.timestamp.get_or_insert(7);
        let h = c.run(HMAC_SHA1);
        let pl = c.run(Plaintext::new());
        cx.state(&(&h, &pl));
        type E = Either<oauth::signature_method::HmacSha1, Plaintext>;
        ensure_eq!(c.run(E::Left(HMAC_SHA1)), h, "Either::Left(HMAC-SHA1) for {:?}", c);
        ensure_eq!(c.run(E::Right(Plaintext::new())), pl, "Either::Right(PLAINTEXT) for {:?}", c);
        type F = Either<Plaintext, oauth::signature_method::HmacSha1>;
        ensure_eq!(c.run(F::Right(HMAC_SHA1)), h, "Either::Right(HMAC-SHA1) for {:?}", c);
        ensure_eq!(c.run(F::Left(Plaintext::new())), pl, "Either::Left(PLAINTEXT) for {:?}", c);
        Ok(())
    });
    // The serializer driven in any order of slots that keeps names ascending: any subset, each
    // possibly absent, the delimiter protocol must hold for all of them.
    rn.scenario("partial-sequences", "a serializer driven by hand with every subset of slots and parameters in between", 0, |cx| {
        let kind = *cx.of(&KINDS);
        let which = cx.pick(2);
        let cfg = *cx.of(&CFGS[..5]);
        let mask = cx.pick(256);
        let pos = cx.pick(10);
        let mut c = Case::basic(kind);
        c.callback = Some("cb".into());
        c.verifier = Some("v".into());
        c.version = true;
        let log = Log::default();
        let mut o = auth::Options::new();
        o.callback(c.callback.as_deref()).verifier(c.verifier.as_deref()).nonce(c.nonce.as_deref());
        o.timestamp(c.timestamp.map(|t| std::num::NonZeroU64::new(t).unwrap())).version(true);
        const AT: [&str; 8] = ["a", "oauth_cb", "oauth_d", "oauth_o", "oauth_t", "oauth_tj", "oauth_u", "oauth_verj"];
        fn drive<SM: SignatureMethod>(c: &Case, o: &auth::Options<'_>, sm: SM, mask: usize, pos: usize) {
            let cl = oauth::Credentials::new(&*c.ck, &*c.cs);
            let t = c.token.as_ref().map(|(a, b)| oauth::Credentials::new(&**a, &**b));
            let mut s: Authorizer<'_, SM> = match c.kind {
                Kind::Header => Authorizer::authorization(&c.method, &c.uri, cl, t, o, sm),
                Kind::Form => Authorizer::form(&c.method, &c.uri, cl, t, o, sm),
                Kind::Query => Authorizer::query(&c.method, c.uri.text.clone(), cl, t, o, sm),
            };
            for i in 0..8 {
                if pos == i {
                    s.serialize_parameter(AT[i], "x");
                }
                if mask >> i & 1 == 1 {
                    slot(&mut s, i);
                }
            }
            if pos == 8 {
                s.serialize_parameter_encoded("z", "%20");
            }
            s.end();
        }
        if which == 0 {
            drive(&c, &o, Spy(log.clone(), cfg), mask, pos);
        } else {
            drive(&c, &o, FullSpy(log.clone(), cfg), mask, pos);
        }
        let mut proto: Vec<Pair> = c.expected_oauth(cfg.name);
        proto.retain(|(k, _)| {
            let i = SLOTS.iter().position(|s| s == k).unwrap();
            mask >> i & 1 == 1 && (i != 2 || cfg.nonce) && (i != 4 || cfg.timestamp)
        });
        c.params = match pos {
            9 => vec![],
            8 => vec![p("z", " ")],
            _ => vec![p(AT[pos], "x")],
        };
        let want = expected_calls(&c, &proto, if which == 0 { 0 } else { 0xff });
        cx.state(&*log.borrow());
        ensure_eq!(*log.borrow(), want, "calls for slots {:08b} with a parameter at {}", mask, pos);
        Ok(())
    });
}

