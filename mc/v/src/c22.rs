//! C22: the example server against the library, and against everything that is not correctly signed.
use crate::handler;
use bytes::Bytes;
use futures::stream;
use http::header::{AUTHORIZATION, CONTENT_TYPE};
use hyper::{Body, Request};
use mccore::refimpl::{parse_form, parse_header, pct};
use mccore::*;
use oauth::signature_method::SignatureMethod;
use oauth::ParameterList;
use oauth_credentials::Credentials;
use std::num::NonZeroU64;

type Pair = (String, String);
const NOW: u64 = 1_700_000_000;
const FORM: &str = "application/x-www-form-urlencoded";
const ORIGIN: &str = "http://127.0.0.1:8080";

#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum Ep {
    Echo,
    Temp,
    Token,
}
const EPS: [Ep; 3] = [Ep::Echo, Ep::Temp, Ep::Token];
#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum Carry {
    Header,
    Form,
    Query,
}
const CARRY: [Carry; 3] = [Carry::Header, Carry::Form, Carry::Query];

/// A client of the library.
#[derive(Clone, Debug)]
struct Client {
    ep: Ep,
    carry: Carry,
    plaintext: bool,
    method: String,
    path: String,
    params: Vec<Pair>,
    client: (String, String),
    token: Option<(String, String)>,
    callback: Option<String>,
    verifier: Option<String>,
    nonce: Option<String>,
    timestamp: Option<u64>,
    version: bool,
    /// With a header: the request parameters go in the query rather than in the form.
    in_query: bool,
}
impl Client {
    fn new(ep: Ep, carry: Carry, plaintext: bool) -> Client {
        let s = |x: &str| x.to_string();
        Client {
            ep,
            carry,
            plaintext,
            method: s(if carry == Carry::Query && ep == Ep::Echo { "GET" } else { "POST" }),
            path: s(match ep {
                Ep::Echo => "/echo",
                Ep::Temp => "/request_temp_credentials",
                Ep::Token => "/request_token",
            }),
            params: vec![],
            client: (s("client"), s("client_secret")),
            token: match ep {
                Ep::Echo => Some((s("token"), s("token_secret"))),
                Ep::Temp => None,
                Ep::Token => Some((s("request"), s("request_secret"))),
            },
            callback: if ep == Ep::Temp { Some(s("oob")) } else { None },
            verifier: if ep == Ep::Token { Some(s("verifier")) } else { None },
            nonce: Some(s("nonce")),
            timestamp: Some(NOW),
            version: true,
            in_query: false,
        }
    }
    fn request(&self) -> ParameterList<&str, &str, Vec<(&str, &str)>> {
        ParameterList::new(self.params.iter().map(|(k, v)| (&**k, &**v)).collect::<Vec<_>>())
    }
    fn sign<SM: SignatureMethod + Clone>(&self, sm: SM) -> String {
        let uri = format!("{}{}", ORIGIN, self.path);
        let mut b = oauth::Builder::<SM, &str, &str>::new(Credentials { identifier: &*self.client.0, secret: &*self.client.1 }, sm);
        b.token(self.token.as_ref().map(|t| Credentials { identifier: &*t.0, secret: &*t.1 }));
        b.callback(self.callback.as_deref());
        b.verifier(self.verifier.as_deref());
        b.nonce(self.nonce.as_deref());
        b.timestamp(self.timestamp.and_then(NonZeroU64::new));
        b.version(self.version);
        let r = self.request();
        match self.carry {
            Carry::Header => b.authorize(&self.method, &*uri, &r),
            Carry::Form => b.to_form(&self.method, &*uri, &r),
            Carry::Query => b.to_query(&self.method, uri, &r),
        }
    }
    /// The request as the library's user sends it.
    fn wire(&self) -> Wire {
        let out = if self.plaintext { self.sign(oauth::PLAINTEXT) } else { self.sign(oauth::HMAC_SHA1) };
        let mut w = Wire { method: self.method.clone(), target: self.path.clone(), auth: vec![], form: None, chunk: 0 };
        match self.carry {
            Carry::Header => {
                w.auth.push(out.into_bytes());
                if self.in_query {
                    w.target = oauth::to_query(self.path.clone(), &self.request());
                } else {
                    w.form = Some(oauth::to_form(&self.request()).into_bytes());
                }
            }
            Carry::Form => w.form = Some(out.into_bytes()),
            Carry::Query => w.target = out[ORIGIN.len()..].to_string(),
        }
        w
    }
    fn signed(&self) -> Msg {
        let out = if self.plaintext { self.sign(oauth::PLAINTEXT) } else { self.sign(oauth::HMAC_SHA1) };
        let all = match self.carry {
            Carry::Header => parse_header(&out),
            Carry::Form => parse_form(&out),
            Carry::Query => parse_form(out.split_once('?').unwrap().1),
        }
        .unwrap();
        let (proto, _) = all.into_iter().partition(|(k, _)| k.starts_with("oauth_") && !self.params.iter().any(|p| p.0 == *k));
        Msg { ep: self.ep, method: self.method.clone(), path: self.path.clone(), carry: self.carry, proto, params: self.params.clone(), in_query: self.in_query }
    }
}

/// An HTTP request.
#[derive(Clone)]
struct Wire {
    method: String,
    target: String,
    auth: Vec<Vec<u8>>,
    form: Option<Vec<u8>>,
    chunk: usize,
}
impl std::fmt::Debug for Wire {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{} {}", self.method, self.target)?;
        for a in &self.auth {
            write!(f, " [{}]", String::from_utf8_lossy(a))?;
        }
        if let Some(b) = &self.form {
            write!(f, " body {:?}", String::from_utf8_lossy(b))?;
        }
        Ok(())
    }
}
impl Wire {
    fn sendable(&self) -> bool {
        http::Method::from_bytes(self.method.as_bytes()).is_ok() && self.target.parse::<http::Uri>().is_ok()
    }
    fn send(&self, ep: Ep, now: u64) -> Result<(u16, Vec<u8>), String> {
        let mut b = Request::builder().method(&*self.method).uri(&*self.target);
        for a in &self.auth {
            b = b.header(AUTHORIZATION, &a[..]);
        }
        if self.form.is_some() {
            b = b.header(CONTENT_TYPE, FORM);
        }
        let body = self.form.clone().unwrap_or_default();
        let body = if self.chunk == 0 {
            Body::from(body)
        } else {
            let mut v: Vec<Result<Bytes, std::io::Error>> = vec![];
            for c in body.chunks(self.chunk) {
                v.push(Ok(Bytes::copy_from_slice(c)));
                v.push(Ok(Bytes::new()));
            }
            Body::wrap_stream(stream::iter(v))
        };
        let req = b.body(body).map_err(|e| format!("harness error: {} in {:?}", e, self))?;
        env::set_clock(vec![(now as i64, 0)]);
        catch(|| {
            futures::executor::block_on(async {
                let res = match ep {
                    Ep::Echo => handler::echo(req).await,
                    Ep::Temp => handler::post_request_temp_credentials(req).await,
                    Ep::Token => handler::post_request_token(req).await,
                };
                let code = res.status().as_u16();
                (code, hyper::body::to_bytes(res.into_body()).await.unwrap().to_vec())
            })
        })
        .map_err(|p| format!("the server crashed: {}", p))
    }
}

/// A message taken apart, to be tampered with.
#[derive(Clone, Debug)]
struct Msg {
    ep: Ep,
    method: String,
    path: String,
    carry: Carry,
    proto: Vec<Pair>,
    params: Vec<Pair>,
    in_query: bool,
}
fn form(v: &[Pair]) -> String {
    v.iter().map(|(k, v)| format!("{}={}", pct(k), pct(v))).collect::<Vec<_>>().join("&")
}
impl Msg {
    fn wire(&self) -> Wire {
        let mut w = Wire { method: self.method.clone(), target: self.path.clone(), auth: vec![], form: None, chunk: 0 };
        let all: Vec<Pair> = match self.carry {
            Carry::Header => {
                let h = self.proto.iter().map(|(k, v)| format!("{}=\"{}\"", pct(k), pct(v))).collect::<Vec<_>>().join(", ");
                w.auth.push(format!("OAuth {}", h).into_bytes());
                self.params.clone()
            }
            _ => self.params.iter().chain(&self.proto).cloned().collect(),
        };
        if self.carry == Carry::Query || self.carry == Carry::Header && self.in_query {
            w.target += &format!("?{}", form(&all));
        } else {
            w.form = Some(form(&all).into_bytes());
        }
        w
    }
    fn get(&mut self, k: &str) -> Option<&mut String> {
        self.proto.iter_mut().find(|p| p.0 == k).map(|p| &mut p.1)
    }
}

fn expected_body(ep: Ep, all: &[Pair]) -> Vec<Pair> {
    let s = |x: &str| x.to_string();
    let mut v = match ep {
        Ep::Echo => all.to_vec(),
        Ep::Temp => vec![(s("oauth_token"), s("request")), (s("oauth_token_secret"), s("request_secret")), (s("oauth_callback_confirmed"), s("true"))],
        Ep::Token => vec![(s("oauth_token"), s("token")), (s("oauth_token_secret"), s("token_secret"))],
    };
    v.sort();
    v
}

/// Parameters whose decoded order is not their encoded order: the server sorts before encoding and
/// so rejects them although they are correctly signed (a recorded finding).
fn missorted(all: &[Pair]) -> bool {
    let mut a: Vec<&Pair> = all.iter().collect();
    a.sort();
    let a: Vec<Pair> = a.into_iter().map(|(k, v)| (pct(k), pct(v))).collect();
    let mut b = a.clone();
    b.sort();
    a != b
}

fn accepted(cx: &mut Ctx, ep: Ep, w: &Wire, now: u64, all: &[Pair], hmac: bool) -> Verdict {
    if !w.sendable() {
        return Ok(()); // not an HTTP request
    }
    let got = w.send(ep, now)?;
    cx.state(&(ep, got.0, &w.method, all.iter().map(|(k, v)| (k, if k == "oauth_nonce" || k == "oauth_signature" { "" } else { v })).collect::<Vec<_>>()));
    cx.note(|| format!("{:?} {:?} at {} => {} {}", ep, w, now, got.0, String::from_utf8_lossy(&got.1)));
    // Recorded findings (see the probes).
    if hmac && missorted(all) && got.0 == 401 {
        return Ok(());
    }
    if got.0 == 400 && w.auth.iter().any(|a| a.windows(3).any(|x| x == b"=\"\"")) {
        return Ok(());
    }
    ensure!(got.0 == 200, "a correctly signed request to {:?} was answered with {}: {:?}", ep, got.0, w);
    // The body is an ordinary form (written by the server with `+` for blanks).
    let body = String::from_utf8(got.1).map_err(|e| e.to_string())?;
    let mut pairs: Vec<Pair> = form_urlencoded::parse(body.as_bytes()).into_owned().collect();
    pairs.sort();
    ensure_eq!(pairs, expected_body(ep, all), "what {:?} answered to {:?}", ep, w);
    Ok(())
}
fn rejected(cx: &mut Ctx, ep: Ep, w: &Wire, now: u64, why: &str) -> Verdict {
    if !w.sendable() {
        return Ok(()); // not an HTTP request
    }
    let got = w.send(ep, now)?;
    cx.state(&(ep, got.0, fp(&format!("{:?}", w))));
    cx.note(|| format!("{} {:?} {:?} at {} => {}", why, ep, w, now, got.0));
    ensure!((400..500).contains(&got.0), "a request with {} was answered with {}: {:?} {:?}", why, got.0, ep, w);
    Ok(())
}

const KEYS: &[&str] = &["a", "b", "oauth", "oauth_c", "oauth_n", "oauth_tokem", "oauth_w", "z", "0", "A", "~", "a.b-c_d", "oauth_callback_confirmed", "oauth_"];
const VALUES: &[&str] = &["", "1", "a b", "+", "%", "%41", "&", "=", "?", "#", "\"", "\\", ",", "é", "€", "😀", "\0", "\n", "~", "'()*!", "\u{7f}", "\u{fffd}", ";", "/", "a&oauth_token=x"];
const PATHS: &[&str] = &["/echo", "/", "/a/b", "/a%20b", "/a%2Fb", "/~a;b=c@d:e!$'()*+,", "/é"];
const METHODS: &[&str] = &["GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS", "PATCH", "TRACE", "CONNECT", "M-SEARCH", "A!#$&'-.", "A_|~", "get", "pOST", "a&z", "UPDATEREDIRECTREF"];

fn requests(cx: &mut Ctx) -> Verdict {
    let ep = *cx.of(&EPS);
    let carry = *cx.of(&CARRY);
    let mut c = Client::new(ep, carry, cx.flag());
    c.in_query = cx.flag();
    if carry != Carry::Header && c.in_query {
        return Ok(());
    }
    c.method = METHODS[match cx.dev(METHODS.len() + 1) {
        0 => METHODS.iter().position(|m| *m == c.method).unwrap(),
        i => i - 1,
    }]
    .into();
    match cx.dev(PATHS.len()) {
        0 => {}
        i => c.path = PATHS[i].into(),
    }
    let n = cx.pick(3);
    for i in 0..n {
        let k = *cx.devof(&KEYS[..]);
        let v = *cx.devof(&VALUES[..]);
        c.params.push((k.into(), if v.is_empty() { format!("v{}", i) } else { v.into() }));
    }
    c.params.sort_by(|a, b| a.0.cmp(&b.0));
    c.nonce = cx.devof(&[Some("nonce"), None, Some("a b&\"\\é😀"), Some("\0"), Some("x,oauth_version=\"2.0\"")]).map(|s| s.to_string());
    c.timestamp = *cx.devof(&[Some(NOW), None, Some(NOW - 30), Some(NOW + 1), Some(NOW + 1_000_000_000), Some(u64::MAX - 30)]);
    c.version = !cx.dflag();
    if cx.dflag() && ep != Ep::Temp {
        c.callback = Some(cx.of(&["oob", "http://c/?x=1&y", ""]).to_string());
    }
    env::set(Some(vec![(NOW as i64, 0)]), Some(env::Entropy::Script { head: vec![], seed: 7 }));
    let mut w = c.wire();
    w.chunk = *cx.devof(&[0, 1, 7]);
    // What was sent, seen by the reference implementation.
    let mut all: Vec<Pair> = vec![];
    for a in &w.auth {
        all.extend(parse_header(std::str::from_utf8(a).unwrap())?);
    }
    if let Some(f) = &w.form {
        all.extend(parse_form(std::str::from_utf8(f).unwrap())?);
    }
    if let Some((_, q)) = w.target.split_once('?') {
        all.extend(parse_form(q)?);
    }
    if w.target.contains('é') {
        return Ok(()); // cannot be sent
    }
    let r = accepted(cx, ep, &w, NOW, &all, !c.plaintext);
    env::clear();
    r
}

fn values(cx: &mut Ctx, blocks: &[(u32, u32)]) -> Verdict {
    let (lo, hi) = *cx.of(blocks);
    let x = lo + cx.pick(((hi - lo) / 64 + 1) as usize) as u32 * 64 + cx.pick(64) as u32;
    let carry = *cx.of(&CARRY);
    let ch = match std::char::from_u32(x) {
        Some(c) => c,
        None => return Ok(()),
    };
    let mut c = Client::new(Ep::Echo, carry, false);
    c.params = vec![("k".into(), format!("{}", ch)), ("l".into(), format!("x{}{}y", ch, ch))];
    c.nonce = Some(format!("n{}", ch));
    c.in_query = cx.flag();
    let m = c.signed();
    let all: Vec<Pair> = m.proto.iter().chain(&c.params).cloned().collect();
    accepted(cx, Ep::Echo, &c.wire(), NOW, &all, true)
}
fn wide_texts(cx: &mut Ctx) -> Verdict {
    let place = cx.pick(4);
    let t = texts::few(cx);
    let carry = CARRY[t.len() % CARRY.len()];
    let mut c = Client::new(Ep::Echo, carry, false);
    match place {
        0 => c.params = vec![("k".into(), t)],
        1 => c.params = vec![("a".into(), t.clone()), ("oauth_o".into(), t.clone()), ("z".into(), t)],
        2 => c.nonce = Some(format!("n{}", t)),
        _ => {
            c.params = vec![("k".into(), t)];
            c.in_query = true;
        }
    }
    let m = c.signed();
    let all: Vec<Pair> = m.proto.iter().chain(&c.params).cloned().collect();
    accepted(cx, Ep::Echo, &c.wire(), NOW, &all, true)
}
fn lengths(cx: &mut Ctx, max: usize) -> Verdict {
    let n = cx.pick(max + 1);
    let carry = *cx.of(&CARRY);
    let t = cx.of(&["a", "%", "€"]).repeat(n);
    let mut c = Client::new(Ep::Echo, carry, false);
    match cx.pick(3) {
        0 => c.params = vec![("k".into(), t)],
        1 => c.nonce = Some(format!("n{}", t)),
        _ => c.params = (0..n).map(|i| (format!("p{:04}", i), "v".into())).collect(),
    }
    let m = c.signed();
    let all: Vec<Pair> = m.proto.iter().chain(&c.params).cloned().collect();
    accepted(cx, Ep::Echo, &c.wire(), NOW, &all, true)
}

fn base(cx: &mut Ctx, plaintext: bool) -> Client {
    let ep = *cx.of(&EPS);
    let carry = *cx.of(&CARRY);
    let mut c = Client::new(ep, carry, plaintext);
    c.params = vec![("a".into(), "1".into()), ("b".into(), "x y".into()), ("z".into(), "".into())];
    c.in_query = carry == Carry::Header && cx.flag();
    c
}

/// One thing in a signed message is changed afterwards.
fn tampered(cx: &mut Ctx) -> Verdict {
    let c = base(cx, false);
    let m0 = c.signed();
    let ep = c.ep;
    let mut m = m0.clone();
    let n = m.proto.len() + m.params.len();
    let what = cx.pick(9);
    let why = match what {
        0 => {
            // Nothing: rebuilt by the reference writer, and in any order.
            if cx.flag() {
                m.proto.reverse();
                m.params.reverse();
            }
            let all: Vec<Pair> = m.proto.iter().chain(&m.params).cloned().collect();
            return accepted(cx, ep, &m.wire(), NOW, &all, true);
        }
        1 => {
            m.method = cx.of(METHODS).to_string();
            if m.method.eq_ignore_ascii_case(&m0.method) {
                return Ok(());
            }
            "another method".to_string()
        }
        2 => {
            m.path = match cx.pick(7) {
                0 => format!("{}/", m.path),
                1 => format!("/{}", m.path),
                2 => m.path.to_uppercase(),
                3 => m.path[..m.path.len() - 1].to_string(),
                4 => format!("{}x", m.path),
                5 => m.path.replace('e', "%65"),
                _ => "/".into(),
            };
            "another path".to_string()
        }
        3 | 4 => {
            // The value or the name of one pair.
            let i = cx.pick(n);
            let k = cx.pick(6);
            let np = m.proto.len();
            let p = if i < np { &mut m.proto[i] } else { &mut m.params[i - np] };
            let old = p.clone();
            let t = if what == 3 { &mut p.1 } else { &mut p.0 };
            *t = match k {
                0 => format!("{}x", t),
                1 => format!("x{}", t),
                2 => t.to_uppercase(),
                3 => String::new(),
                4 => t.chars().rev().collect(),
                _ => t.chars().skip(1).collect(),
            };
            if *p == old {
                return Ok(());
            }
            if what == 3 && (old.0 == "oauth_signature" || old.0 == "oauth_timestamp" && p.1.parse::<u64>().map_or(false, |t| t > u64::MAX - 30)) {
                return Ok(()); // below
            }
            format!("{:?} changed to {:?}", old, p)
        }
        5 => {
            // A pair removed.
            let i = cx.pick(n);
            let np = m.proto.len();
            let p = if i < np { m.proto.remove(i) } else { m.params.remove(i - np) };
            format!("{:?} removed", p)
        }
        6 => {
            // A pair added.
            let p: Pair = match cx.pick(n + 6) {
                i if i < m.proto.len() => m.proto[i].clone(),
                i if i < n => m.params[i - m.proto.len()].clone(),
                i => {
                    let (k, v) = [("c", "2"), ("", ""), ("oauth_token", ""), ("oauth_", "x"), ("a", "0"), ("oauth_body_hash", "x")][i - n];
                    (k.into(), v.into())
                }
            };
            if p.0 == "oauth_signature" {
                return Ok(());
            }
            let to_params = cx.flag();
            if to_params {
                m.params.insert(0, p.clone());
            } else if !p.0.is_empty() || m.carry != Carry::Header {
                m.proto.push(p.clone());
            } else {
                return Ok(());
            }
            format!("{:?} added", p)
        }
        7 => {
            // Two values exchanged.
            let (i, j) = (cx.pick(m.proto.len()), cx.pick(m.proto.len()));
            if i >= j || m.proto[i].1 == m.proto[j].1 || [&m.proto[i].0, &m.proto[j].0].iter().any(|k| *k == "oauth_signature") {
                return Ok(());
            }
            let v = m.proto[i].1.clone();
            m.proto[i].1 = std::mem::replace(&mut m.proto[j].1, v);
            format!("{} and {} exchanged", m.proto[i].0, m.proto[j].0)
        }
        _ => {
            // The signature of another message.
            let mut o = c.clone();
            match cx.pick(5) {
                0 => o.nonce = Some("Nonce".into()),
                1 => o.timestamp = Some(NOW + 1),
                2 => o.params[0].1 = "2".into(),
                3 => o.method = "PUT".into(),
                _ => o.path = "/".into(),
            }
            let s = o.signed().get("oauth_signature").unwrap().clone();
            *m.get("oauth_signature").unwrap() = s;
            "the signature of another request".to_string()
        }
    };
    rejected(cx, ep, &m.wire(), NOW, &why)
}

/// Signatures that are not the right one: every character replaced by every other, every length.
fn signatures(cx: &mut Ctx) -> Verdict {
    const B64: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/=-_ \0\xc3";
    let ep = *cx.of(&EPS);
    let c = Client::new(ep, *cx.of(&CARRY), false);
    let mut m = c.signed();
    let s = m.get("oauth_signature").unwrap();
    let old = s.clone();
    let mut b = s.clone().into_bytes();
    match cx.pick(4) {
        0 => {
            let i = cx.pick(b.len());
            let x = *cx.of(B64);
            if b[i] == x {
                return Ok(());
            }
            b[i] = x;
        }
        1 => {
            let n = cx.pick(64);
            let x = *cx.of(b"AB/=%");
            b = vec![x; n];
        }
        2 => {
            let n = cx.pick(b.len());
            b.truncate(n);
        }
        _ => {
            let n = 1 + cx.pick(40);
            let x = *cx.of(b"A=/%");
            b.extend(vec![x; n]);
        }
    }
    *s = b.iter().map(|&b| if b < 128 { b as char } else { 'é' }).collect();
    // The same 20 bytes written without padding are the same signature.
    if s.trim_end_matches('=') == old.trim_end_matches('=') {
        let _ = m.wire().send(ep, NOW)?;
        return Ok(());
    }
    let why = format!("signature {:?} instead of {:?}", s, old);
    rejected(cx, ep, &m.wire(), NOW, &why)
}

fn wrong(cx: &mut Ctx, s: &str, with_empty: bool) -> Option<String> {
    Some(match cx.dev(8) {
        0 => return None,
        1 => format!("{}x", s),
        2 => s[1..].to_string(),
        3 => s.to_uppercase(),
        4 => format!("{}&", s),
        5 => format!("{}\0", s),
        6 => s.chars().rev().collect(),
        _ if with_empty => String::new(),
        _ => format!(" {}", s),
    })
}

/// Clients that sign correctly, but are not who the server expects.
fn impostors(cx: &mut Ctx) -> Verdict {
    let plaintext = cx.flag();
    let mut c = base(cx, plaintext);
    let ep = c.ep;
    let mut why = vec![];
    let mut secrets_only = true;
    if let Some(x) = wrong(cx, "client", true) {
        c.client.0 = x;
        secrets_only = false;
        why.push("client identifier");
    }
    if let Some(x) = wrong(cx, "client_secret", true) {
        c.client.1 = x;
        why.push("client secret");
    }
    match c.token.clone() {
        Some(t) => match cx.dev(3) {
            0 => {
                if let Some(x) = wrong(cx, &t.0, true) {
                    c.token.as_mut().unwrap().0 = x;
                    secrets_only = false;
                    why.push("token");
                }
                if let Some(x) = wrong(cx, &t.1, true) {
                    c.token.as_mut().unwrap().1 = x;
                    why.push("token secret");
                }
            }
            1 => {
                c.token = None;
                secrets_only = false;
                why.push("no token");
            }
            _ => {
                // The other endpoint's token.
                c.token = Some(if ep == Ep::Echo { ("request".into(), "request_secret".into()) } else { ("token".into(), "token_secret".into()) });
                secrets_only = false;
                why.push("the other token");
            }
        },
        None => {
            if cx.dflag() {
                c.token = Some(("token".into(), "token_secret".into()));
                secrets_only = false;
                why.push("a token");
            }
        }
    }
    if let Some(v) = c.verifier.clone() {
        match cx.dev(2) {
            0 => {
                if let Some(x) = wrong(cx, &v, true) {
                    c.verifier = Some(x);
                    secrets_only = false;
                    why.push("verifier");
                }
            }
            _ => {
                c.verifier = None;
                secrets_only = false;
                why.push("no verifier");
            }
        }
    } else if cx.dflag() {
        c.verifier = Some("verifier".into());
        secrets_only = false;
        why.push("a verifier");
    }
    if ep == Ep::Temp {
        match cx.dev(4) {
            0 => {}
            1 => {
                c.callback = None;
                secrets_only = false;
                why.push("no callback");
            }
            k => {
                c.callback = Some(["", "http://c/"][k - 2].into());
                secrets_only = false;
                why.push("callback");
            }
        }
    }
    let late = *cx.devof(&[0, 30, 31, 32, 1000, NOW - 1]);
    c.timestamp = Some(NOW - late);
    if late > 30 {
        secrets_only = false;
        why.push("stale timestamp");
    }
    let w = c.wire();
    if why.is_empty() {
        let all: Vec<Pair> = c.signed().proto.into_iter().chain(c.params.clone()).collect();
        return accepted(cx, ep, &w, NOW, &all, !plaintext);
    }
    if plaintext && secrets_only {
        // A recorded finding: the server only logs a wrong PLAINTEXT signature.
        let got = w.send(ep, NOW)?;
        cx.state(&(ep, got.0));
        ensure!(got.0 == 200 || (400..500).contains(&got.0), "a wrong PLAINTEXT signature was answered with {}", got.0);
        return Ok(());
    }
    rejected(cx, ep, &w, NOW, &why.join(", "))
}

/// Timestamps that are no timestamps, or stale, signed by the reference implementation.
fn timestamps(cx: &mut Ctx) -> Verdict {
    let ep = *cx.of(&EPS);
    let carry = *cx.of(&CARRY);
    let now = *cx.of(&[NOW, 31, 30, 29, 1, u32::MAX as u64 + 1]);
    let t = cx.pick(now.min(100) as usize + 20);
    let mut c = Client::new(ep, carry, cx.flag());
    let (t, stale) = match t {
        0 => (u64::MAX - 30, false),
        1 => (now + 1000, false),
        k => {
            let t = (now + 18).saturating_sub(k as u64).max(1);
            (t, t + 30 < now)
        }
    };
    c.timestamp = Some(t);
    if stale {
        return rejected(cx, ep, &c.wire(), now, "a stale timestamp");
    }
    let all: Vec<Pair> = c.signed().proto;
    accepted(cx, ep, &c.wire(), now, &all, !c.plaintext)
}
fn bad_protocol(cx: &mut Ctx) -> Verdict {
    let mut c = base(cx, cx_false());
    c.params.clear();
    let ep = c.ep;
    let mut m = c.signed();
    let (k, v) = *cx.of(&[
        ("oauth_timestamp", ""), ("oauth_timestamp", "-1"), ("oauth_timestamp", "x"), ("oauth_timestamp", "1e9"), ("oauth_timestamp", "18446744073709551616"), ("oauth_timestamp", "99999999999999999999999999"),
        ("oauth_timestamp", " 1700000000"), ("oauth_timestamp", "1700000000.0"), ("oauth_timestamp", "０"), ("oauth_timestamp", "0"),
        ("oauth_signature_method", ""), ("oauth_signature_method", "hmac-sha1"), ("oauth_signature_method", "RSA-SHA1"), ("oauth_signature_method", "HMAC-SHA256"), ("oauth_signature_method", "plaintext"), ("oauth_signature_method", "NONE"),
    ]);
    *m.get(k).unwrap() = v.into();
    // Signed again, so that only this value is wrong.
    let mut all: Vec<Pair> = m.proto.iter().filter(|p| p.0 != "oauth_signature").cloned().collect();
    all.sort();
    let b = refimpl::base_string(&m.method, &format!("{}{}", ORIGIN, m.path), &all);
    *m.get("oauth_signature").unwrap() = refimpl::hmac_signature(&b, &c.client.1, c.token.as_ref().map(|t| &*t.1));
    rejected(cx, ep, &m.wire(), NOW, &format!("{} = {:?}", k, v))
}
fn cx_false() -> bool {
    false
}

/// Arbitrary `Authorization` headers over an alphabet of fragments: never a crash, never accepted.
fn headers(cx: &mut Ctx, max: usize) -> Verdict {
    const FRAG: &[&[u8]] = &[b"OAuth", b" ", b"oauth_consumer_key", b"oauth_signature", b"oauth_signature_method", b"=", b"\"", b",", b"\\", b"%", b"%C3", b"HMAC-SHA1", b"client", b"\xff", b"\t", b"Basic", b"oauth_token"];
    let n = cx.pick(max + 1);
    let mut h: Vec<u8> = vec![];
    if cx.flag() {
        h.extend(b"OAuth oauth_consumer_key=\"client\",oauth_signature_method=\"HMAC-SHA1\",oauth_timestamp=\"1700000000\",oauth_nonce=\"n\",oauth_token=\"token\",oauth_signature=\"");
    }
    for _ in 0..n {
        h.extend(*cx.of(FRAG));
    }
    let ep = Ep::Echo;
    let mut w = Wire { method: "POST".into(), target: "/echo".into(), auth: vec![h], form: None, chunk: 0 };
    if cx.flag() {
        w.auth.insert(0, b"OAuth".to_vec());
    }
    rejected(cx, ep, &w, NOW, "a made-up header")
}
fn bodies(cx: &mut Ctx, max: usize) -> Verdict {
    const FRAG: &[&str] = &["oauth_consumer_key", "oauth_signature=", "oauth_signature_method=HMAC-SHA1", "&", "=", "%", "%f", "%FF", "+", "client", "oauth_timestamp=1", "oauth_nonce=", "é", "\0", "oauth_token=token", "A"];
    let n = cx.pick(max + 1);
    let mut s = String::new();
    if cx.flag() {
        s += "oauth_consumer_key=client&oauth_signature_method=HMAC-SHA1&oauth_timestamp=1700000000&oauth_nonce=n&oauth_token=token&oauth_signature=";
    }
    for _ in 0..n {
        s += *cx.of(FRAG);
    }
    let ep = Ep::Echo;
    let mut w = Wire { method: "POST".into(), target: "/echo".into(), auth: vec![], form: None, chunk: 0 };
    if cx.flag() {
        if s.contains('\0') || s.contains('é') {
            return Ok(());
        }
        w.target = format!("/echo?{}", s);
    } else {
        w.form = Some(s.into_bytes());
    }
    rejected(cx, ep, &w, NOW, "a made-up body")
}

// ---------------------------------------------------------------- recorded findings

fn probe_plaintext(_: &mut Ctx) -> Verdict {
    let mut c = Client::new(Ep::Echo, Carry::Header, true);
    c.client.1 = "wrong".into();
    let (code, _) = c.wire().send(Ep::Echo, NOW)?;
    ensure!(code != 200, "finding: a PLAINTEXT request signed with the client secret \"wrong\" is answered with 200");
    Ok(())
}
fn probe_overflow(_: &mut Ctx) -> Verdict {
    let mut c = Client::new(Ep::Echo, Carry::Header, false);
    c.timestamp = Some(u64::MAX);
    match c.wire().send(Ep::Echo, NOW) {
        Err(e) if e.contains("attempt to add with overflow") && e.contains("handler.rs") => Err("finding: oauth_timestamp 18446744073709551615 crashes the server (attempt to add with overflow)".into()),
        Err(e) => Err(e),
        Ok(_) => Ok(()),
    }
}
fn probe_empty(_: &mut Ctx) -> Verdict {
    let mut c = Client::new(Ep::Echo, Carry::Header, false);
    c.callback = Some("".into());
    let (code, _) = c.wire().send(Ep::Echo, NOW)?;
    ensure!(code != 400, "finding: the correctly signed header with oauth_callback=\"\" is answered with 400");
    Ok(())
}
fn probe_order(_: &mut Ctx) -> Verdict {
    let mut c = Client::new(Ep::Echo, Carry::Form, false);
    c.params = vec![("k".into(), "a".into()), ("k".into(), "é".into())];
    let (code, _) = c.wire().send(Ep::Echo, NOW)?;
    ensure!(code != 401, "finding: the correctly signed request with k=a and k=é is answered with 401");
    Ok(())
}

struct Discard;
impl log::Log for Discard {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        std::hint::black_box(r.args().to_string());
    }
    fn flush(&self) {}
}

pub fn c22(r: &mut Runner) {
    static LOG: Discard = Discard;
    let _ = log::set_logger(&LOG);
    log::set_max_level(log::LevelFilter::Trace);
    r.assumptions.push("the HTTP layer below the handlers (hyper) delivers requests intact; transport failures inside a body are not explored".into());
    r.assumptions.push("PLAINTEXT signs nothing but the secrets: changes of other parts are not expected to be noticed".into());
    let k = r.by(3, 4);
    r.scenario("requests", "requests made with the library: endpoint x carrier x signature method x method, path, parameters, options", k, requests);
    let blocks: &'static [(u32, u32)] = r.by(&[(0, 0x17f), (0x2000, 0x203f), (0xd7c0, 0xe03f), (0xff00, 0xffff), (0x1f600, 0x1f63f), (0x10ffc0, 0x10ffff)], &[(0, 0xffff), (0x1f000, 0x1ffff), (0x10ff00, 0x10ffff)]);
    r.scenario("values", "every character in parameter values and nonces", 0, move |cx| values(cx, blocks));
    r.scenario("wide-texts", "the wide corpus in parameter values and nonces", 0, wide_texts);
    let n = r.by(300, 600);
    r.scenario("lengths", "values, nonces of every length and every number of parameters", 0, move |cx| lengths(cx, n));
    r.scenario("tampered", "every single change of a signed message", 0, tampered);
    r.scenario("signatures", "every wrong character and length of the signature", 0, signatures);
    let k = r.by(3, 5);
    r.scenario("impostors", "well-signed messages of somebody else: identifiers, secrets, verifier, callback, time", k, impostors);
    r.scenario("timestamps", "every age around the limit", 0, timestamps);
    r.scenario("bad-protocol", "well-signed messages with invalid protocol parameters", 0, bad_protocol);
    let n = r.by(5, 6);
    r.scenario("headers", "every header made of up to n fragments", 0, move |cx| headers(cx, n));
    r.scenario("bodies", "every form and query made of up to n fragments", 0, move |cx| bodies(cx, n));
    more(r);
    r.probe("finding-plaintext", "a wrong PLAINTEXT signature", probe_plaintext);
    r.probe("finding-overflow", "a timestamp near 2^64", probe_overflow);
    r.probe("finding-empty", "an empty value in the header", probe_empty);
    r.probe("finding-order", "decoded order differs from encoded order", probe_order);
}

// ---------------------------------------------------------------- everything the signing harnesses enumerate, sent to the server

use crate::common::{self, Case, Kind};

const OF_CARRY: [(Carry, Kind); 3] = [(Carry::Header, Kind::Header), (Carry::Form, Kind::Form), (Carry::Query, Kind::Query)];
/// Makes a case of the signing harnesses one that the server expects.
fn fit(c: &mut Case, ep: Ep) -> bool {
    let s = |x: &str| x.to_string();
    let b = Client::new(ep, Carry::Header, false);
    c.ck = b.client.0;
    c.cs = b.client.1;
    c.token = b.token;
    c.verifier = b.verifier;
    if ep == Ep::Temp {
        c.callback = b.callback;
    }
    if c.callback.as_deref() == Some("") && c.kind == Kind::Header || c.nonce.as_deref() == Some("") {
        return false; // a recorded finding
    }
    c.timestamp = c.timestamp.map(|t| t.max(NOW)).filter(|t| *t < u64::MAX - 30);
    if c.method == "CONNECT" && c.kind == Kind::Query {
        return false;
    }
    // The path of the URI, on the server's origin.
    let path = match c.uri.text.splitn(4, '/').nth(3) {
        Some(p) => format!("/{}", p),
        None => s("/"),
    };
    c.uri.text = format!("{}{}", ORIGIN, path);
    http::Uri::builder().path_and_query(&*path).build().map_or(false, |u| u.path() == path)
}
fn deliver(cx: &mut Ctx, c: &Case, ep: Ep, out: &str) -> Verdict {
    let (carry, _) = OF_CARRY[common::KINDS.iter().position(|k| *k == c.kind).unwrap()];
    let seen = common::dissect(c, out, common::Sig::Hmac)?;
    let mut all: Vec<Pair> = seen.proto.clone();
    all.push(("oauth_signature".into(), seen.signature));
    all.extend(c.pairs());
    let path = c.uri.text[ORIGIN.len()..].to_string();
    let mut w = Wire { method: c.method.clone(), target: path.clone(), auth: vec![], form: None, chunk: 0 };
    match carry {
        Carry::Header => {
            w.auth.push(out.as_bytes().to_vec());
            // The parameters go where they do not change the path.
            if c.params.len() % 2 == 1 {
                w.target = oauth::to_query(path, &c.request());
            } else {
                w.form = Some(oauth::to_form(&c.request()).into_bytes());
            }
        }
        Carry::Form => w.form = Some(out.as_bytes().to_vec()),
        Carry::Query => w.target = out[ORIGIN.len()..].to_string(),
    }
    if w.target.len() >= u16::MAX as usize {
        return Ok(()); // more than an HTTP request can carry
    }
    accepted(cx, ep, &w, NOW, &all, true)
}
fn from_case(cx: &mut Ctx, make: impl Fn(&mut Ctx, Kind) -> Case) -> Verdict {
    let (_, kind) = *cx.of(&OF_CARRY);
    let mut c = make(cx, kind);
    if !fit(&mut c, Ep::Echo) {
        return Ok(());
    }
    env::set(Some(vec![(NOW as i64, 0)]), Some(env::Entropy::Script { head: vec![], seed: 7 }));
    let r = deliver(cx, &c, Ep::Echo, &c.run(oauth::HMAC_SHA1));
    env::clear();
    r
}
/// Every entry point of the library.
fn entries(cx: &mut Ctx) -> Verdict {
    let (_, kind) = *cx.of(&OF_CARRY);
    let ep = *cx.of(&EPS);
    let m = cx.pick(crate::c08::M9.len());
    let mut c = common::options_parts(cx, kind);
    c.method = crate::c08::M9[m].into();
    if !fit(&mut c, ep) {
        return Ok(());
    }
    c.nonce = Some("n".into());
    c.timestamp = Some(NOW);
    for (what, out) in crate::c08::all_entries(&c, Some(m), oauth::HMAC_SHA1) {
        deliver(cx, &c, ep, &out).map_err(|e| format!("{}: {}", what, e))?;
    }
    Ok(())
}
/// Automatic nonces made of every pattern of random bytes, and automatic timestamps at every kind of time.
fn automatic(cx: &mut Ctx) -> Verdict {
    let (_, kind) = *cx.of(&OF_CARRY);
    let mut c = Case::basic(kind);
    c.uri.text += "/echo";
    fit(&mut c, Ep::Echo);
    c.nonce = None;
    let now = *cx.of(&[NOW, 1, 2, 59, 1000, u32::MAX as u64, u32::MAX as u64 + 1, 99_999_999_999]);
    c.timestamp = None;
    let fill = *cx.of(&[0u8, 0xff, 0xfb, 0x3e, 0x55]);
    let mut head = vec![fill; 9];
    let at = cx.pick(9);
    head[at] = cx.pick(256) as u8;
    let sub = *cx.of(&[0, 1, 499_999_999, 500_000_000, 999_999_999]);
    env::set(Some(vec![(now as i64, sub)]), Some(env::Entropy::Script { head, seed: 7 }));
    let out = c.run(oauth::HMAC_SHA1);
    let seen = common::dissect(&c, &out, common::Sig::Hmac)?;
    let mut all = seen.proto.clone();
    all.push(("oauth_signature".into(), seen.signature));
    let mut w = Wire { method: c.method.clone(), target: c.uri.text[ORIGIN.len()..].into(), auth: vec![], form: None, chunk: 0 };
    match kind {
        Kind::Header => w.auth.push(out.into_bytes()),
        Kind::Form => w.form = Some(out.into_bytes()),
        Kind::Query => w.target = out[ORIGIN.len()..].into(),
    }
    let r = accepted(cx, Ep::Echo, &w, now, &all, true);
    env::clear();
    r
}
pub fn more(r: &mut Runner) {
    let k = r.by(2, 3);
    r.scenario("case-dims", "the dimensions of the signing harness, sent to the server", k, |cx| from_case(cx, common::any_case));
    r.scenario("case-options", "methods x options x parameters", 0, |cx| from_case(cx, common::options_case));
    let k = r.by(2, 3);
    r.scenario("case-relations", "texts that are equal to, or a beginning or end of, one another", k, |cx| from_case(cx, common::relations_case));
    let n = r.by(150, 600);
    r.scenario("case-lengths", "every length of every field", 0, move |cx| from_case(cx, |cx, k| common::length_case(cx, k, n)));
    r.scenario("case-texts", "the wide corpus at every place a text can be", 0, |cx| from_case(cx, common::text_case));
    r.scenario("case-names", "the corpus of names", 0, |cx| from_case(cx, common::name_case));
    r.scenario("case-counts", "every number of parameters, in all ways of writing them", 0, move |cx| from_case(cx, |cx, k| common::count_case(cx, k, n)));
    r.scenario("entries", "every entry point of the library x endpoint x method x options", 0, entries);
    r.scenario("automatic", "automatic nonces and timestamps", 0, automatic);
}
