//! C24: one corpus, every configuration.
mccore::own_environment!();
#[allow(dead_code, unused_imports)]
#[path = "../../h/src/common.rs"]
mod common;

use common::*;
use mccore::*;
use oauth1_request as oauth;
use oauth::serializer::auth::{self, Authorizer};
use oauth::serializer::Urlencoder;
use oauth::signature_method::{Plaintext, SignatureMethod};
use oauth::{Credentials, ParameterList, Request, Token};
use std::fmt::{Display, Write};
use std::num::NonZeroU64;

/// The output of every entry point there is in this configuration.
fn all<SM: SignatureMethod + Clone, R: Request>(c: &Case, sm: &SM, req: &R) -> Vec<(&'static str, String)> {
    let mut o: Vec<(&'static str, String)> = vec![];
    let b = c.builder(sm.clone());
    let (m, u) = (&*c.method, &c.uri);
    let pre = "before=1&";
    fn cut(s: String, pre: &str) -> String {
        s.strip_prefix(pre).map_or_else(|| format!("(not appended) {}", s), Into::into)
    }
    fn join(p: Pieces) -> String {
        p.0.concat()
    }
    let cl = Credentials::new(&*c.ck, &*c.cs);
    let tk = c.token.as_ref().map(|(a, b)| Credentials::new(&**a, &**b));
    let mut opts = auth::Options::new();
    opts.callback(c.callback.as_deref()).verifier(c.verifier.as_deref()).nonce(c.nonce.as_deref());
    opts.timestamp(c.timestamp.and_then(NonZeroU64::new)).version(c.version);
    match c.kind {
        Kind::Header => {
            o.push(("authorize_with_buf", cut(b.authorize_with_buf(pre.to_string(), m, u, req), pre)));
            o.push(("authorize_with_buf pieces", join(b.authorize_with_buf(Pieces::default(), m, u, req))));
            o.push(("into_authorization_with_buf", b.clone().into_authorization_with_buf(String::new(), m, u, req)));
            o.push(("Authorizer with buf", req.serialize(Authorizer::authorization_with_buf(String::new(), m, u, cl, tk, &opts, sm.clone()))));
            #[cfg(any(feature = "std", feature = "alloc"))]
            {
                o.push(("authorize", b.authorize(m, u, req)));
                o.push(("Authorizer", req.serialize(Authorizer::<SM>::authorization(m, u, cl, tk, &opts, sm.clone()))));
                match m {
                    "GET" => o.push(("get", b.get(u, req))),
                    "POST" => o.push(("post", b.post(u, req))),
                    "PUT" => o.push(("put", b.put(u, req))),
                    "DELETE" => o.push(("delete", b.delete(u, req))),
                    _ => {}
                }
                o.push(("into_authorization", b.into_authorization(m, u, req)));
            }
        }
        Kind::Form => {
            #[cfg(any(feature = "std", feature = "alloc"))]
            o.push(("to_form_with_buf", cut(b.to_form_with_buf(pre.to_string(), m, u, req), pre)));
            #[cfg(any(feature = "std", feature = "alloc"))]
            o.push(("to_form_with_buf pieces", join(b.to_form_with_buf(Pieces::default(), m, u, req))));
            o.push(("into_form_with_buf pre", cut(b.clone().into_form_with_buf(pre.to_string(), m, u, req), pre)));
            o.push(("into_form_with_buf", b.clone().into_form_with_buf(String::new(), m, u, req)));
            o.push(("Authorizer with buf", req.serialize(Authorizer::form_with_buf(String::new(), m, u, cl, tk, &opts, sm.clone()))));
            #[cfg(any(feature = "std", feature = "alloc"))]
            {
                o.push(("to_form", b.to_form(m, u, req)));
                o.push(("Authorizer", req.serialize(Authorizer::<SM>::form(m, u, cl, tk, &opts, sm.clone()))));
                o.push(("into_form", b.into_form(m, u, req)));
            }
        }
        Kind::Query => {
            let text = || c.uri.text.clone();
            let mut p = Pieces::default();
            let half = (0..=u.text.len() / 2).rev().find(|&i| u.text.is_char_boundary(i)).unwrap();
            p.write_str(&u.text[..half]).unwrap();
            p.write_str(&u.text[half..]).unwrap();
            o.push(("to_query", b.to_query(m, text(), req)));
            o.push(("to_query pieces", join(b.to_query(m, p, req))));
            o.push(("Authorizer", req.serialize(Authorizer::query(m, text(), cl, tk, &opts, sm.clone()))));
            match m {
                "GET" => o.push(("get_query", b.get_query(text(), req))),
                "PUT" => o.push(("put_query", b.put_query(text(), req))),
                "POST" => o.push(("post_query", b.post_query(text(), req))),
                "DELETE" => o.push(("delete_query", b.delete_query(text(), req))),
                "HEAD" => o.push(("head_query", b.head_query(text(), req))),
                "OPTIONS" => o.push(("options_query", b.options_query(text(), req))),
                "TRACE" => o.push(("trace_query", b.trace_query(text(), req))),
                "CONNECT" => o.push(("connect_query", b.connect_query(text(), req))),
                "PATCH" => o.push(("patch_query", b.patch_query(text(), req))),
                _ => {}
            }
            o.push(("into_query", b.into_query(m, text(), req)));
        }
    }
    o
}

fn agree(c: &Case, o: Vec<(&'static str, String)>) -> Result<String, String> {
    let (n0, x) = o[0].clone();
    for (n, y) in &o {
        ensure!(*y == x, "{} and {} differ for {:?}\n  {}\n  {}", n0, n, c, x, y);
    }
    Ok(x)
}

#[cfg(feature = "eithers")]
type Duo = either::Either<Plaintext<String>, Plaintext<Pieces>>;

fn plain(c: &Case) -> Result<String, String> {
    let req = c.request();
    let mut o = all(c, &Plaintext::<String>::with_buf(), &req);
    o.extend(all(c, &Plaintext::<Pieces>::with_buf(), &req));
    #[cfg(any(feature = "std", feature = "alloc"))]
    o.extend(all(c, &oauth::PLAINTEXT, &req));
    #[cfg(feature = "eithers")]
    {
        o.extend(all(c, &Duo::Left(Plaintext::with_buf()), &req));
        o.extend(all(c, &Duo::Right(Plaintext::with_buf()), &req));
    }
    let x = agree(c, o)?;
    verify(c, &x, Sig::Plain)?;
    Ok(x)
}
#[cfg(feature = "hmac")]
fn hmac(c: &Case) -> Result<String, String> {
    let req = c.request();
    let mut o = all(c, &oauth::HMAC_SHA1, &req);
    o.extend(all(c, &oauth::HmacSha1::new(), &req));
    #[cfg(feature = "eithers")]
    {
        o.extend(all(c, &either::Either::<Plaintext<String>, oauth::HmacSha1>::Right(oauth::HMAC_SHA1), &req));
        o.extend(all(c, &either::Either::<oauth::HmacSha1, Plaintext<String>>::Left(oauth::HMAC_SHA1), &req));
    }
    let x = agree(c, o)?;
    verify(c, &x, Sig::Hmac)?;
    Ok(x)
}

fn fixed(mut c: Case) -> Case {
    c.nonce.get_or_insert("auto".into());
    c.timestamp.get_or_insert(77);
    c
}

/// With a signer that records everything: what is signed is the same, call by call.
fn spied(c: &Case) -> Result<String, String> {
    let s = spy(SPY);
    let x = agree(c, all(c, &s, &c.request()))?;
    dissect(c, &x, Sig::Other("SPY"))?;
    let log = s.0.borrow();
    // Every entry point drove it in the same way.
    let runs: Vec<&[Ev]> = log.split(|e| *e == Ev::End).filter(|r| !r.is_empty()).collect();
    for r in &runs {
        ensure_eq!(*r, runs[0], "calls to the signer for {:?}", c);
    }
    let base: String = runs[0].iter().map(|e| e.text("SPY")).collect();
    let want = c.base_string(&c.expected_oauth("SPY"));
    ensure_eq!(base, want, "text signed for {:?}", c);
    Ok(format!("{} {:?}", x, runs[0]))
}

/// Forms, queries and parameter lists.
fn unsigned(cx: &mut Ctx) -> Verdict {
    let n = cx.pick(4);
    let mut v: Vec<(&str, &str)> = vec![];
    for _ in 0..n {
        v.push((*cx.of(&["a", "b", "oauth_o", "z"]), *cx.of(&["", "1", "~", "é", "a b", "%", "\u{10ffff}"])));
    }
    let mut want: Vec<(String, String)> = v.iter().map(|(k, x)| (refimpl::pct(k), refimpl::pct(x))).collect();
    want.sort();
    let want = want.iter().map(|(k, v)| format!("{}={}", k, v)).collect::<Vec<_>>().join("&");
    let list = ParameterList::new(v.clone());
    let mut slice = v.clone();
    let by_slice = ParameterList::new(&mut slice[..]);
    let sorted: Vec<(&str, &str)> = list.iter().map(|&(k, v)| (k, v)).collect();
    let from_sorted = ParameterList::from_sorted(sorted.clone()).ok_or("a sorted list is not taken for sorted")?;
    let mut o: Vec<(&str, String)> = vec![
        ("form", list.serialize(Urlencoder::form_with_buf(String::new()))),
        ("slice", by_slice.serialize(Urlencoder::form_with_buf(String::new()))),
        ("from_sorted", from_sorted.serialize(Urlencoder::form_with_buf(Pieces::default())).0.concat()),
        ("query", list.serialize(Urlencoder::query("u".to_string()))),
    ];
    match n {
        0 => {
            let a: [(&str, &str); 0] = [];
            o.push(("array", ParameterList::new(a).serialize(Urlencoder::form_with_buf(String::new()))));
        }
        2 => o.push(("array", ParameterList::new([v[0], v[1]]).serialize(Urlencoder::form_with_buf(String::new())))),
        _ => {}
    }
    #[cfg(any(feature = "std", feature = "alloc"))]
    {
        o.push(("to_form", oauth::to_form(&list)));
        o.push(("query", oauth::to_query("u".to_string(), &list)));
        o.push(("Urlencoder::form", list.serialize(Urlencoder::form())));
    }
    for (n, x) in &o {
        let w = if *n == "query" { if want.is_empty() { None } else { Some(format!("u?{}", want)) } } else { Some(want.clone()) };
        match w {
            Some(w) => ensure_eq!(*x, w, "{} of {:?}", n, v),
            None => ensure!(x == "u" || x == "u?", "query of nothing: {:?}", x),
        }
    }
    cx.state(&(&o[0].1, &o[3].1, &sorted));
    cx.note(|| format!("{:?} => {:?}", v, o));
    Ok(())
}

fn credentials(cx: &mut Ctx) -> Verdict {
    let t: Vec<&str> = (0..4).map(|_| *cx.of(&["", "a", "\"é"])).collect();
    let tok = Token::from_parts(t[0], t[1], t[2], t[3]);
    let c = Credentials::new(t[0], t[1]);
    let o = format!("{:?} {:?} {:#?} {:?} {:?}", tok, c, tok, tok.as_ref().client.identifier(), tok.token.as_ref().secret);
    ensure!(format!("{:?}", c).contains(&format!("{:?}", t[0])), "identifier not shown in {:?}", c);
    cx.state(&o);
    Ok(())
}

#[cfg(feature = "derive")]
#[derive(oauth::Request)]
struct Derived<'a> {
    a: &'a str,
    #[oauth1(option = true)]
    oauth_o: Option<u64>,
    #[oauth1(rename = "y", encoded)]
    x: &'a str,
    #[oauth1(skip_if = str::is_empty)]
    z: &'a str,
}
#[cfg(not(feature = "derive"))]
struct Derived<'a> {
    a: &'a str,
    oauth_o: Option<u64>,
    x: &'a str,
    z: &'a str,
}
#[cfg(not(feature = "derive"))]
impl Request for Derived<'_> {
    fn serialize<S: oauth::serializer::Serializer>(&self, s: S) -> S::Output {
        let mut v = vec![p("a", self.a)];
        if let Some(o) = self.oauth_o {
            v.push(p("oauth_o", &o.to_string()));
        }
        v.push(param("y", &refimpl::unpct(self.x).unwrap(), Split::Whole, true));
        if !self.z.is_empty() {
            v.push(p("z", self.z));
        }
        SpecReq::sorted(v).serialize(s)
    }
}
fn derived(cx: &mut Ctx) -> Verdict {
    let kind = *cx.of(&KINDS);
    let z = *cx.of(&["", "z", "é"]);
    let d = Derived { a: *cx.of(&["", "1", "&"]), oauth_o: *cx.of(&[None, Some(0), Some(u64::MAX)]), x: *cx.of(&["", "%26", "x"]), z };
    let mut c = options(cx, kind);
    c.params = vec![p("a", d.a), param("y", &refimpl::unpct(d.x).unwrap(), Split::Whole, true)];
    if let Some(o) = d.oauth_o {
        c.params.push(p("oauth_o", &o.to_string()));
    }
    if !z.is_empty() {
        c.params.push(p("z", z));
    }
    let x = agree(&c, all(&c, &Plaintext::<String>::with_buf(), &d))?;
    verify(&c, &x, Sig::Plain)?;
    #[cfg(feature = "hmac")]
    verify(&c, &agree(&c, all(&c, &oauth::HMAC_SHA1, &d))?, Sig::Hmac)?;
    let spied = spy(SPY);
    let y = agree(&c, all(&c, &spied, &d))?;
    cx.state(&(x, y));
    Ok(())
}
/// A few departures from the plain request.
fn options(cx: &mut Ctx, kind: Kind) -> Case {
    let mut c = Case::basic(kind);
    if cx.flag() {
        c.token = None;
    }
    if cx.flag() {
        c.callback = Some("oob".into());
        c.version = true;
    }
    c
}

/// Automatic values without the standard library (and the nonce with it).
fn automatic(cx: &mut Ctx) -> Verdict {
    let kind = *cx.of(&KINDS);
    let way = cx.pick(2);
    let seed = cx.pick(3) as u64;
    let mut c = Case::basic(kind);
    c.nonce = None;
    c.method = "GET".into();
    let s = spy(SPY);
    let fail = cx.flag();
    env::set(None, Some(if fail { env::Entropy::Fail { after: 0 } } else { env::Entropy::Script { head: vec![], seed } }));
    let sign = || {
        let b = c.builder(s.clone());
        match (kind, way) {
            (Kind::Header, 0) => b.authorize_with_buf(String::new(), "GET", &c.uri, &c.request()),
            (Kind::Header, _) => b.into_authorization_with_buf(String::new(), "GET", &c.uri, &c.request()),
            #[cfg(any(feature = "std", feature = "alloc"))]
            (Kind::Form, 0) => b.to_form_with_buf(String::new(), "GET", &c.uri, &c.request()),
            (Kind::Form, _) => b.into_form_with_buf(String::new(), "GET", &c.uri, &c.request()),
            (Kind::Query, 0) => b.get_query(c.uri.text.clone(), &c.request()),
            (Kind::Query, _) => b.into_query("GET", c.uri.text.clone(), &c.request()),
        }
    };
    if cfg!(feature = "std") {
        // C09 decides the details; the generator of the thread outlives this execution.
        if !fail {
            dissect(&c, &sign(), Sig::Other("SPY"))?;
        }
        return Ok(());
    }
    if fail {
        let r = catch(sign);
        env::clear();
        ensure!(r.is_err(), "a nonce was made up without entropy: {:?}", r);
        return Ok(());
    }
    let mut nonces = vec![];
    for i in 0..3 {
        let before = env::usage().2;
        let out = sign();
        let drawn = env::usage().2 - before;
        ensure!(drawn >= 9, "signing {} drew {} bytes of entropy for its nonce", i, drawn);
        let seen = dissect(&c, &out, Sig::Other("SPY"))?;
        nonces.push(seen.proto.iter().find(|p| p.0 == "oauth_nonce").unwrap().1.clone());
    }
    // The same again under other entropy.
    env::set(None, Some(env::Entropy::Script { head: vec![], seed: seed + 100 }));
    let seen = dissect(&c, &sign(), Sig::Other("SPY"))?;
    nonces.push(seen.proto.iter().find(|p| p.0 == "oauth_nonce").unwrap().1.clone());
    env::clear();
    cx.state(&nonces);
    let mut u = nonces.clone();
    u.sort();
    u.dedup();
    ensure!(u.len() == nonces.len(), "equal nonces: {:?}", nonces);
    Ok(())
}

fn no_clock(cx: &mut Ctx) -> Verdict {
    let kind = *cx.of(&KINDS);
    let plaintext = cx.flag();
    let needs = plaintext || cx.flag();
    let mut c = Case::basic(kind);
    c.timestamp = None;
    let cfg = SpyCfg { timestamp: needs, ..SPY };
    let s = spy(cfg);
    env::set(Some(vec![(5_000_000_000, 0)]), Some(env::Entropy::Script { head: vec![], seed: 1 }));
    let out = catch(|| if plaintext { all(&c, &Plaintext::<String>::with_buf(), &c.request()) } else { all(&c, &s, &c.request()) });
    env::clear();
    cx.state(&(kind, plaintext, needs));
    if !needs {
        // No timestamp is needed: nothing may go wrong.
        let out = out.map_err(|e| format!("a signature method without timestamps panicked: {}", e))?;
        let x = agree(&c, out)?;
        ensure!(!x.contains("oauth_timestamp"), "timestamp nobody asked for in {}", x);
        return Ok(());
    }
    if cfg!(feature = "std") {
        let x = agree(&c, out?)?;
        ensure!(x.contains("5000000000"), "the time is not in {}", x);
    } else {
        ensure!(out.is_err(), "a timestamp was made up without a clock: {:?}", out);
    }
    Ok(())
}

#[cfg(any(feature = "rsa06", feature = "rsa09"))]
fn rsa(cx: &mut Ctx) -> Verdict {
    use std::sync::OnceLock;
    let der = include_bytes!("../../rsa/keys/r512.p8");
    let kind = *cx.of(&KINDS);
    let c = fixed(any_case(cx, kind));
    let req = c.request();
    let mut o = vec![];
    #[cfg(feature = "rsa06")]
    {
        use oauth::signature_method::rsa_sha1_06 as m;
        static KEY: OnceLock<m::RsaPrivateKey> = OnceLock::new();
        let k = KEY.get_or_init(|| <m::RsaPrivateKey as m::DecodePrivateKey>::from_pkcs8_der(der).unwrap());
        o.extend(all(&c, &m::RsaSha1::new(k.clone()), &req));
        let by_ref: &m::RsaSha1 = k.as_ref();
        o.extend(all(&c, &by_ref, &req));
    }
    #[cfg(feature = "rsa09")]
    {
        use oauth::signature_method::rsa_sha1_09 as m;
        static KEY: OnceLock<m::RsaPrivateKey> = OnceLock::new();
        let k = KEY.get_or_init(|| <m::RsaPrivateKey as m::DecodePrivateKey>::from_pkcs8_der(der).unwrap());
        o.extend(all(&c, &m::RsaSha1::new(k.clone()), &req));
        let by_ref: &m::RsaSha1 = k.as_ref();
        o.extend(all(&c, &by_ref, &req));
    }
    let x = agree(&c, o)?;
    dissect(&c, &x, Sig::Other("RSA-SHA1"))?;
    cx.state(&x);
    Ok(())
}

fn run(r: &mut Runner, tag: &'static str, f: fn(&Case) -> Result<String, String>) {
    let k = r.by(2, 2);
    let two = r.by(2, 3);
    for (kt, kind) in [("header", Kind::Header), ("form", Kind::Form), ("query", Kind::Query)] {
        let go = move |cx: &mut Ctx, c: Case| {
            let c = fixed(c);
            let x = f(&c)?;
            cx.state(&x);
            cx.note(|| format!("{:?} => {}", c, x));
            Ok(())
        };
        let k = if tag == "spy" { two } else { k };
        r.scenario(&format!("{}-{}-dims", tag, kt), "departures from a plain request over every dimension, through every entry point", k, move |cx| {
            let c = any_case(cx, kind);
            go(cx, c)
        });
        r.scenario(&format!("{}-{}-options", tag, kt), "methods x options x parameters", 0, move |cx| {
            let c = options_case(cx, kind);
            go(cx, c)
        });
        r.scenario(&format!("{}-{}-relations", tag, kt), "texts that are equal to, or a beginning or end of, one another", two, move |cx| {
            let c = relations_case(cx, kind);
            go(cx, c)
        });
        let max = r.by(270, 600);
        r.scenario(&format!("{}-{}-lengths", tag, kt), "lengths of every text", 0, move |cx| {
            let c = length_case(cx, kind, max);
            go(cx, c)
        });
        r.scenario(&format!("{}-{}-texts", tag, kt), "the wide corpus at every place", 0, move |cx| {
            let mut c = Case::basic(kind);
            let field = cx.pick(FIELDS);
            let t = texts::few(cx);
            place(&mut c, field, &t);
            go(cx, c)
        });
        let max = r.by(270, 600);
        r.scenario(&format!("{}-{}-counts", tag, kt), "numbers of parameters", 0, move |cx| {
            let c = count_case(cx, kind, max);
            go(cx, c)
        });
    }
}

fn c24(r: &mut Runner) {
    r.assumptions.push("the `js` clock exists only on wasm32 and is not run".into());
    r.scenario("unsigned", "forms, queries and parameter lists", 0, unsigned);
    r.scenario("credentials", "credentials and their Debug output", 0, credentials);
    r.scenario("derived", "a derived request against the written one", 0, derived);
    r.scenario("auto-nonce", "automatic nonces come from the system's entropy or not at all", 0, automatic);
    r.scenario("no-clock", "timestamps without a clock", 0, no_clock);
    run(r, "spy", spied);
    run(r, "plain", plain);
    #[cfg(feature = "hmac")]
    run(r, "hmac", hmac);
    #[cfg(any(feature = "rsa06", feature = "rsa09"))]
    r.scenario("rsa", "RSA-SHA1 by each back end", 1, rsa);
}

fn main() {
    mccore::main(&[("C24", c24)]);
}
