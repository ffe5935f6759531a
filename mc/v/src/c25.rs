//! C25: the example client, whose requests are checked by the reference implementation and answered
//! by a scripted server or by the example server.
use crate::common::*;
use crate::request::SendRequest;
use crate::{auth, handler};
use futures::future::{FutureExt, LocalBoxFuture};
use http::header::{AUTHORIZATION, CONTENT_TYPE};
use hyper::Body;
use mccore::refimpl::{parse_form, pct};
use mccore::*;
use oauth_credentials::{Credentials, Token};
use std::cell::RefCell;
use std::rc::Rc;
use std::task::{Context, Poll};
use tower_service::Service;

const NOW: i64 = 1_700_000_000;
const ORIGIN: &str = "http://127.0.0.1:8080";

/// A request as it goes over the wire.
#[derive(Clone, Debug)]
struct Sent {
    method: String,
    uri: String,
    auth: Vec<Vec<u8>>,
    content_type: Vec<Vec<u8>>,
    body: Vec<u8>,
}
type Log = Rc<RefCell<Vec<Sent>>>;
/// What answers the requests.
#[derive(Clone)]
enum Peer {
    /// Always the same body.
    Says(Vec<u8>),
    Server,
}
/// A connection that keeps what is sent.
#[derive(Clone)]
struct Http(Log, Peer);
impl Service<http::Request<Body>> for Http {
    type Response = http::Response<Body>;
    type Error = hyper::Error;
    type Future = LocalBoxFuture<'static, Result<http::Response<Body>, hyper::Error>>;
    fn poll_ready(&mut self, _: &mut Context<'_>) -> Poll<Result<(), hyper::Error>> {
        Poll::Ready(Ok(()))
    }
    fn call(&mut self, req: http::Request<Body>) -> Self::Future {
        let (log, peer) = (self.0.clone(), self.1.clone());
        async move {
            let (parts, body) = req.into_parts();
            let body = hyper::body::to_bytes(body).await?.to_vec();
            let all = |k| parts.headers.get_all(k).iter().map(|v| v.as_bytes().to_vec()).collect();
            log.borrow_mut().push(Sent {
                method: parts.method.to_string(),
                uri: parts.uri.to_string(),
                auth: all(AUTHORIZATION),
                content_type: all(CONTENT_TYPE),
                body: body.clone(),
            });
            let mut res = match peer {
                Peer::Says(text) => http::Response::new(Body::from(text)),
                Peer::Server => {
                    let path = parts.uri.path().to_string();
                    let req = http::Request::from_parts(parts, Body::from(body));
                    match &*path {
                        "/echo" => handler::echo(req).await,
                        "/request_temp_credentials" => handler::post_request_temp_credentials(req).await,
                        _ => handler::post_request_token(req).await,
                    }
                }
            };
            // Whole bodies and bodies in pieces are the same.
            let b = hyper::body::to_bytes(std::mem::take(res.body_mut())).await?.to_vec();
            let pieces: Vec<Result<bytes::Bytes, std::io::Error>> = b.chunks(3).map(|c| Ok(bytes::Bytes::copy_from_slice(c))).collect();
            *res.body_mut() = Body::wrap_stream(futures::stream::iter(pieces));
            Ok(res)
        }
        .boxed_local()
    }
}
fn run<T>(f: impl std::future::Future<Output = T>) -> Result<T, String> {
    env::set(Some(vec![(NOW, 0)]), Some(env::Entropy::Script { head: vec![], seed: 3 }));
    let r = catch(move || futures::executor::block_on(f));
    env::clear();
    r
}

/// Checks that a request is what a server expects of `c`.
fn check(c: &Case, s: &Sent) -> Verdict {
    ensure_eq!(s.method, c.method, "method of {:?}", s);
    ensure!(s.auth.len() == 1, "{} Authorization headers in {:?}", s.auth.len(), s);
    let h = std::str::from_utf8(&s.auth[0]).map_err(|e| e.to_string())?;
    let seen = verify(c, h, Sig::Hmac)?;
    let t = NOW.to_string();
    ensure!(seen.proto.iter().any(|p| p.0 == "oauth_timestamp" && p.1 == t), "timestamp in {:?}", s);
    let (base, query) = match s.uri.split_once('?') {
        Some((b, q)) => (b, q),
        None => (&*s.uri, ""),
    };
    ensure_eq!(base, &*c.uri.text, "URI of {:?}", s);
    let body = std::str::from_utf8(&s.body).map_err(|e| e.to_string())?;
    let mut got = vec![];
    for x in [query, body] {
        if !x.is_empty() {
            got.extend(parse_form(x)?);
        }
    }
    got.sort();
    let mut want = c.pairs();
    want.sort();
    ensure_eq!(got, want, "parameters of {:?}", s);
    if c.method == "POST" {
        ensure!(query.is_empty(), "a query in {:?}", s);
    } else {
        ensure!(body.is_empty(), "a body in {:?}", s);
    }
    if !body.is_empty() {
        ensure!(s.content_type == [b"application/x-www-form-urlencoded".to_vec()], "type of {:?}", s);
    }
    Ok(())
}
fn one(log: &Log) -> Result<Sent, String> {
    let l = log.borrow();
    ensure!(l.len() == 1, "{} requests were sent", l.len());
    Ok(l[0].clone())
}

request! {
    GET "http://127.0.0.1:8080/echo";
    #[derive(oauth::Request)]
    pub struct Get['a] { a: &'a str, oauth_o: Option<&'a str>, z: &'a str, }

    POST "http://127.0.0.1:8080/echo";
    #[derive(oauth::Request)]
    pub struct Post['a] { a: &'a str, oauth_o: Option<&'a str>, z: &'a str, }

    // Names next to those of the protocol.
    PATCH "https://example.com/y";
    #[derive(oauth::Request)]
    pub struct Names['a] {
        a: &'a str,
        oauth: Option<&'a str>,
        oauth_: Option<&'a str>,
        oauth_callbac: Option<&'a str>,
        oauth_callback_: Option<&'a str>,
        oauth_consumer_kex: Option<&'a str>,
        oauth_nonc: Option<&'a str>,
        oauth_nonce_: Option<&'a str>,
        oauth_signature_: Option<&'a str>,
        oauth_signature_method_: Option<&'a str>,
        oauth_timestamp_: Option<&'a str>,
        oauth_token_: Option<&'a str>,
        oauth_verifies: Option<&'a str>,
        oauth_version_: Option<&'a str>,
        oauti: Option<&'a str>,
    }

    PUT "http://127.0.0.1:8080/a/b~c";
    #[derive(oauth::Request)]
    pub struct Put['a] { a: &'a str, oauth_o: Option<&'a str>, z: &'a str, }

    DELETE "https://example.com/x";
    #[derive(oauth::Request)]
    pub struct Delete['a] { a: &'a str, oauth_o: Option<&'a str>, z: &'a str, }

    HEAD "https://example.com:444/";
    #[derive(oauth::Request)]
    pub struct Head['a] { a: &'a str, oauth_o: Option<&'a str>, z: &'a str, }

    GET "http://127.0.0.1:8080/echo";
    #[derive(oauth::Request)]
    pub struct GetNothing {}

    POST "http://127.0.0.1:8080/echo";
    #[derive(oauth::Request)]
    pub struct PostNothing {}
}

/// Sends request `which` of the above and returns the status and body.
fn send(which: usize, t: &Token<&str>, v: [Option<&str>; 3], http: Http) -> Result<(u16, Vec<u8>), String> {
    let a = v[0].unwrap_or("");
    let (oauth_o, z) = (v[1], v[2].unwrap_or(""));
    run(async move {
        let res = match which {
            0 => Get { a, oauth_o, z }.send(t, http).await,
            1 => Post { a, oauth_o, z }.send(t, http).await,
            2 => Put { a, oauth_o, z }.send(t, http).await,
            3 => Delete { a, oauth_o, z }.send(t, http).await,
            4 => Head { a, oauth_o, z }.send(t, http).await,
            5 => GetNothing {}.send(t, http).await,
            _ => SendRequest::send(&PostNothing {}, t, http).await,
        }
        .unwrap();
        (res.status().as_u16(), hyper::body::to_bytes(res.into_body()).await.unwrap().to_vec())
    })
}
fn case_of(which: usize, t: &Token<&str>, v: [Option<&str>; 3]) -> Case {
    let mut c = Case::basic(Kind::Header);
    c.nonce = None;
    c.timestamp = None;
    c.ck = t.client.identifier.into();
    c.cs = t.client.secret.into();
    c.token = Some((t.token.identifier.into(), t.token.secret.into()));
    let (m, u) = [("GET", "http://127.0.0.1:8080/echo"), ("POST", "http://127.0.0.1:8080/echo"), ("PUT", "http://127.0.0.1:8080/a/b~c"), ("DELETE", "https://example.com/x"), ("HEAD", "https://example.com:444/")][if which > 4 { which - 5 } else { which }];
    c.method = m.into();
    c.uri = val(u);
    if which < 5 {
        c.params.push(p("a", v[0].unwrap_or("")));
        if let Some(x) = v[1] {
            c.params.push(p("oauth_o", x));
        }
        c.params.push(p("z", v[2].unwrap_or("")));
    }
    c
}
const CLIENT: Credentials<&str> = Credentials { identifier: "client", secret: "client_secret" };
const TOKEN: Credentials<&str> = Credentials { identifier: "token", secret: "token_secret" };
fn endpoint(path: &str) -> Case {
    let mut c = Case::basic(Kind::Header);
    c.nonce = None;
    c.timestamp = None;
    c.ck = CLIENT.identifier.into();
    c.cs = CLIENT.secret.into();
    c.token = None;
    c.uri = val(&format!("{}{}", ORIGIN, path));
    c
}
fn text(cx: &mut Ctx) -> String {
    if cx.quick() {
        texts::few(cx)
    } else {
        texts::any(cx)
    }
}
/// A response with credentials, as different servers write it.
fn response(cx: &mut Ctx, id: &str, secret: &str) -> Vec<u8> {
    let enc = |s: &str, plus: bool| if plus { form_urlencoded::byte_serialize(s.as_bytes()).collect::<String>() } else { pct(s) };
    let plus = cx.flag();
    let mut v = vec![format!("oauth_token={}", enc(id, plus)), format!("oauth_token_secret={}", enc(secret, plus))];
    match cx.pick(4) {
        0 => {}
        1 => v.reverse(),
        2 => v.push("oauth_callback_confirmed=true".into()),
        _ => {
            v.insert(0, "user_id=%31".into());
            v.insert(2, "oauth_token_secre=x".into());
        }
    }
    v.join("&").into_bytes()
}

pub fn c25(rn: &mut Runner) {
    rn.assumptions.push("the client's modules are run over an in-process connection instead of sockets; its `main` is not".into());
    rn.scenario("requests", "every request of the request! macro with every text of the corpus as a field or credential: what is sent is what is signed", 0, |cx| {
        let which = cx.pick(7);
        let place = cx.pick(8);
        let t = text(cx);
        let mut v = [Some("1"), None, Some("z")];
        let mut tok = Token { client: CLIENT, token: TOKEN };
        match place {
            0..=2 => v[place] = Some(&*t),
            3 => v = [Some(&*t); 3],
            4 => tok.client.identifier = &t,
            5 => tok.client.secret = &t,
            6 => tok.token.identifier = &t,
            _ => tok.token.secret = &t,
        }
        if which > 4 && place < 4 {
            return Ok(());
        }
        let log = Log::default();
        send(which, &tok, v, Http(log.clone(), Peer::Says(vec![])))?;
        let s = one(&log)?;
        cx.state(&(which, &s.uri, &s.body, place));
        check(&case_of(which, &tok, v), &s)
    });
    rn.scenario("lengths", "values and credentials of every length up to a bound", 0, |cx| {
        let which = cx.pick(2);
        let place = cx.pick(5);
        let n = cx.pick(if cx.quick() { 280 } else { 5000 });
        let t = ["a", " ", "é"][cx.pick(3)].repeat(n);
        let mut v = [Some("1"), None, Some("z")];
        let mut tok = Token { client: CLIENT, token: TOKEN };
        match place {
            0 => v[0] = Some(&*t),
            1 => tok.client.identifier = &t,
            2 => tok.client.secret = &t,
            3 => tok.token.identifier = &t,
            _ => tok.token.secret = &t,
        }
        let log = Log::default();
        send(which, &tok, v, Http(log.clone(), Peer::Says(vec![])))?;
        let s = one(&log)?;
        cx.state(&(which, place, n, &t[..t.len().min(2)]));
        check(&case_of(which, &tok, v), &s)
    });
    rn.scenario("names", "requests with parameters that are named almost like those of the protocol, in every combination of few of them", 3, |cx| {
        const N: &[&str] = &["oauth", "oauth_", "oauth_callbac", "oauth_callback_", "oauth_consumer_kex", "oauth_nonc", "oauth_nonce_", "oauth_signature_", "oauth_signature_method_", "oauth_timestamp_", "oauth_token_", "oauth_verifies", "oauth_version_", "oauti"];
        let v: Vec<Option<&str>> = N.iter().map(|_| [None, Some("x y"), Some("")][cx.dev(3)]).collect();
        let r = Names {
            a: "1",
            oauth: v[0],
            oauth_: v[1],
            oauth_callbac: v[2],
            oauth_callback_: v[3],
            oauth_consumer_kex: v[4],
            oauth_nonc: v[5],
            oauth_nonce_: v[6],
            oauth_signature_: v[7],
            oauth_signature_method_: v[8],
            oauth_timestamp_: v[9],
            oauth_token_: v[10],
            oauth_verifies: v[11],
            oauth_version_: v[12],
            oauti: v[13],
        };
        let tok = Token { client: CLIENT, token: TOKEN };
        let log = Log::default();
        let http = Http(log.clone(), Peer::Says(vec![]));
        run(async move { r.send(&tok, http).await.unwrap() })?;
        let s = one(&log)?;
        let mut c = case_of(0, &Token { client: CLIENT, token: TOKEN }, [None; 3]);
        c.method = "PATCH".into();
        c.uri = val("https://example.com/y");
        c.params = vec![p("a", "1")];
        c.params.extend(N.iter().zip(&v).filter_map(|(n, v)| v.map(|v| p(n, v))));
        cx.state(&v);
        check(&c, &s)
    });
    let bound = 2;
    rn.scenario("requests-pairs", "requests with texts of the corpus in several places at once", bound, |cx| {
        let which = cx.pick(5);
        let id = texts::word(cx, "ck");
        let mut w = |plain| texts::word(cx, plain);
        let tok = Token { client: Credentials { identifier: id, secret: w("cs") }, token: Credentials { identifier: w("tk"), secret: w("ts") } };
        let v = [Some(w("1")), Some(w("o")), Some(w("z"))];
        let log = Log::default();
        send(which, &tok, v, Http(log.clone(), Peer::Says(vec![])))?;
        let s = one(&log)?;
        cx.state(&(which, &s.uri, &s.body, id, tok.client.secret, tok.token.identifier, tok.token.secret));
        check(&case_of(which, &tok, v), &s)
    });
    rn.scenario("echo", "requests of every pair of values against the example server, which answers with what it was sent", 0, |cx| {
        let which = cx.pick(2);
        const V: &[&str] = &["", "1", "a b", "+", "%41", "&", "=", "é", "😀", "\0", "~", "\"", "ＰＯＳＴ", "a&oauth_token=x"];
        let v = [Some(*cx.of(V)), [None, Some("x y"), Some("")][cx.pick(3)], Some(*cx.of(V))];
        let tok = Token { client: CLIENT, token: TOKEN };
        let log = Log::default();
        let (code, body) = send(which, &tok, v, Http(log.clone(), Peer::Server))?;
        let s = one(&log)?;
        let c = case_of(which, &tok, v);
        check(&c, &s)?;
        ensure!(code == 200, "{:?} is answered with {}", s, code);
        let got: Vec<(String, String)> = form_urlencoded::parse(&body).into_owned().collect();
        for p in c.pairs() {
            ensure!(got.contains(&p), "{:?} is missing from the answer {:?} to {:?}", p, got, s);
        }
        cx.state(&(which, v));
        Ok(())
    });
    rn.scenario("temporary", "requests of temporary credentials with every callback and client, and every response", 0, |cx| {
        let t = text(cx);
        let mut client = CLIENT;
        let (mut callback, mut id, mut secret) = ("oob", "id", "secret");
        match cx.pick(5) {
            0 => callback = &t,
            1 => client.identifier = &t,
            2 => client.secret = &t,
            3 => id = &t,
            _ => secret = &t,
        }
        let log = Log::default();
        let http = Http(log.clone(), Peer::Says(response(cx, id, secret)));
        let got = run(async { auth::temporary_credentials(&client, callback, http).await })?;
        let s = one(&log)?;
        cx.state(&(callback, client.identifier, client.secret, id, secret));
        ensure_eq!((got.identifier(), got.secret()), (id, secret), "credentials in the response to {:?}", s);
        let mut c = endpoint("/request_temp_credentials");
        c.ck = client.identifier.into();
        c.cs = client.secret.into();
        c.callback = Some(callback.into());
        check(&c, &s)
    });
    rn.scenario("token", "requests of token credentials with every verifier and temporary credentials, and every response", 0, |cx| {
        let t = text(cx);
        let (mut client, mut temp) = (CLIENT, Credentials { identifier: "tid", secret: "tsec" });
        let (mut verifier, mut id, mut secret) = ("v", "id", "secret");
        match cx.pick(7) {
            0 => verifier = &t,
            1 => client.identifier = &t,
            2 => client.secret = &t,
            3 => temp.identifier = &t,
            4 => temp.secret = &t,
            5 => id = &t,
            _ => secret = &t,
        }
        let log = Log::default();
        let http = Http(log.clone(), Peer::Says(response(cx, id, secret)));
        let got = run(async { auth::token_credentials(&client, &temp, verifier, http).await })?;
        let s = one(&log)?;
        cx.state(&(verifier, client.identifier, client.secret, temp.identifier, temp.secret, id, secret));
        ensure_eq!((got.identifier(), got.secret()), (id, secret), "credentials in the response to {:?}", s);
        let mut c = endpoint("/request_token");
        c.ck = client.identifier.into();
        c.cs = client.secret.into();
        c.token = Some((temp.identifier.into(), temp.secret.into()));
        c.verifier = Some(verifier.into());
        check(&c, &s)
    });
    rn.scenario("responses", "responses with one or two more parts, of names like those looked for, in any place: the credentials are the right ones", 0, |cx| {
        const LIKE: &[&str] = &["", "oauth_", "token", "x_oauth_token", "xoauth_token_secret", "oauth_token_", "oauth_token_secret_", "oauth_token2", "OAUTH_TOKEN", "oauth-token", "oauth_token%20", "%20oauth_token", "oauth_token%00", "token_secret", "identifier", "secret", "oauth_tokensecret", "_oauth_token", "oauth.token"];
        let mut v = vec![["oauth_token=id", "%6Fauth_token=id"][cx.pick(2)].to_string(), "oauth_token_secret=secret".into()];
        if cx.flag() {
            v.reverse();
        }
        for _ in 0..1 + cx.pick(2) {
            let p = format!("{}{}", cx.of(LIKE), ["=z", "=", ""][cx.pick(3)]);
            let at = cx.pick(v.len() + 1);
            v.insert(at, p);
        }
        let body = v.join("&");
        let http = Http(Log::default(), Peer::Says(body.clone().into_bytes()));
        let temporary = cx.flag();
        let got = run(async {
            if temporary {
                auth::temporary_credentials(&CLIENT, "oob", http).await
            } else {
                auth::token_credentials(&CLIENT, &TOKEN, "v", http).await
            }
        })?;
        cx.state(&(&body, temporary));
        ensure_eq!((got.identifier(), got.secret()), ("id", "secret"), "credentials in the response {:?}", body);
        Ok(())
    });
    rn.scenario("bad-responses", "responses without exactly one of each part are never taken for credentials", 0, |cx| {
        const PARTS: &[&str] = &["oauth_token=a", "oauth_token_secret=b", "oauth_token", "oauth_token_secret", "oauth_tokens=c", "x=y", "x_oauth_token=d", "oauth_token_=e", ""];
        let n = cx.pick(5);
        let v: Vec<&str> = (0..n).map(|_| *cx.of(PARTS)).collect();
        let body = v.join("&");
        let is = |k: &str| v.iter().filter(|p| p.split('=').next() == Some(k)).count();
        let get = |k: &str| v.iter().find(|p| p.split('=').next() == Some(k)).map(|p| p.split('=').nth(1).unwrap_or(""));
        let good = is("oauth_token") == 1 && is("oauth_token_secret") == 1;
        let http = Http(Log::default(), Peer::Says(body.clone().into_bytes()));
        let temporary = cx.flag();
        let got = run(async {
            if temporary {
                auth::temporary_credentials(&CLIENT, "oob", http).await
            } else {
                auth::token_credentials(&CLIENT, &TOKEN, "v", http).await
            }
        });
        cx.state(&(&body, temporary));
        ensure_eq!(got.is_ok(), good, "response {:?} gave {:?}", body, got);
        if let Ok(c) = got {
            ensure_eq!((Some(c.identifier()), Some(c.secret())), (get("oauth_token"), get("oauth_token_secret")), "response {:?}", body);
        }
        Ok(())
    });
    rn.scenario("flow", "the whole flow against the example server, with API requests in every order up to a depth", 0, |cx| {
        let n = cx.pick(if cx.quick() { 4 } else { 6 });
        let ops: Vec<usize> = (0..n).map(|_| [0, 1, 5, 6][cx.pick(4)]).collect();
        let log = Log::default();
        let http = Http(log.clone(), Peer::Server);
        let temp = run(async { auth::temporary_credentials(&CLIENT, "oob", http.clone()).await })?;
        let tok = run(async { auth::token_credentials(&CLIENT, &temp, "verifier", http.clone()).await })?;
        let tok = Token { client: CLIENT, token: tok };
        let tok = Token { client: tok.client, token: Credentials { identifier: &*tok.token.identifier, secret: &*tok.token.secret } };
        for o in &ops {
            let v = [Some("x"), None, Some("y z")];
            let (code, body) = send(*o, &tok, v, http.clone())?;
            ensure!(code == 200, "request {} of {:?} is answered with {}", o, ops, code);
            check(&case_of(*o, &tok, v), log.borrow().last().unwrap())?;
            let _ = body;
            cx.state(&(o, &ops));
        }
        ensure_eq!(log.borrow().len(), 2 + ops.len(), "requests sent in {:?}", ops);
        Ok(())
    });
}
