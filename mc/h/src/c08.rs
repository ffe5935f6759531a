//! C08: entry points agree; a builder's output depends only on its last state.
use crate::common::*;
use mccore::*;
use oauth::serializer::{auth, Authorizer, Serializer};
use oauth::signature_method::SignatureMethod;
use oauth::{Builder, Credentials, Request, Token};
use oauth1_request as oauth;
use std::fmt::Display;
use std::num::NonZeroU64;

pub const M9: [&str; 9] = ["GET", "PUT", "POST", "DELETE", "OPTIONS", "HEAD", "CONNECT", "PATCH", "TRACE"];

fn shorthand<SM: SignatureMethod + Clone, U: Display>(b: &Builder<'_, SM, &str, &str>, m: usize, u: U, r: &SpecReq) -> String {
    match m {
        0 => b.get(u, r),
        1 => b.put(u, r),
        2 => b.post(u, r),
        3 => b.delete(u, r),
        4 => b.options(u, r),
        5 => b.head(u, r),
        6 => b.connect(u, r),
        7 => b.patch(u, r),
        _ => b.trace(u, r),
    }
}
fn form_shorthand<SM: SignatureMethod + Clone, U: Display>(b: &Builder<'_, SM, &str, &str>, m: usize, u: U, r: &SpecReq) -> Option<String> {
    Some(match m {
        1 => b.put_form(u, r),
        2 => b.post_form(u, r),
        4 => b.options_form(u, r),
        7 => b.patch_form(u, r),
        _ => return None,
    })
}
fn query_shorthand<SM: SignatureMethod + Clone>(b: &Builder<'_, SM, &str, &str>, m: usize, u: String, r: &SpecReq) -> String {
    match m {
        0 => b.get_query(u, r),
        1 => b.put_query(u, r),
        2 => b.post_query(u, r),
        3 => b.delete_query(u, r),
        4 => b.options_query(u, r),
        5 => b.head_query(u, r),
        6 => b.connect_query(u, r),
        7 => b.patch_query(u, r),
        _ => b.trace_query(u, r),
    }
}
fn free<SM: SignatureMethod>(m: usize, u: &str, r: &SpecReq, t: &Token<&str, &str>, sm: SM) -> String {
    match m {
        0 => oauth::get(u, r, t, sm),
        1 => oauth::put(u, r, t, sm),
        2 => oauth::post(u, r, t, sm),
        3 => oauth::delete(u, r, t, sm),
        4 => oauth::options(u, r, t, sm),
        5 => oauth::head(u, r, t, sm),
        6 => oauth::connect(u, r, t, sm),
        7 => oauth::patch(u, r, t, sm),
        _ => oauth::trace(u, r, t, sm),
    }
}

fn low_options(c: &Case) -> auth::Options<'_> {
    let mut o = auth::Options::new();
    o.callback(c.callback.as_deref());
    o.verifier(c.verifier.as_deref());
    o.nonce(c.nonce.as_deref());
    o.timestamp(c.timestamp.map(|t| NonZeroU64::new(t).unwrap()));
    o.version(c.version);
    o
}

const PREFIX: &str = "kept=é&?";

/// Every entry point that can produce this case: (name, output).
pub fn all_entries<SM: SignatureMethod + Clone>(c: &Case, m: Option<usize>, sm: SM) -> Vec<(&'static str, String)>
where
    SM::Sign: Clone,
{
    let b = c.builder(sm.clone());
    let req = c.request();
    let u = &c.uri;
    let mt = &*c.method;
    let client = Credentials::new(&*c.ck, &*c.cs);
    let token = c.token.as_ref().map(|(a, b)| Credentials::new(&**a, &**b));
    let o = low_options(c);
    let mut v: Vec<(&'static str, String)> = vec![];
    // Drives a serializer by hand, slot by slot, cloning it halfway.
    fn by_hand<S: Serializer + Clone>(mut s: S, req: &SpecReq, clone_at: usize) -> S::Output {
        let mut next = 0;
        for (i, p) in req.0.iter().enumerate() {
            if i == clone_at {
                s = s.clone();
            }
            while next < 8 && SLOTS[next] < &*p.key {
                slot(&mut s, next);
                next += 1;
            }
            if p.encoded {
                s.serialize_parameter_encoded(&p.key, &p.val);
            } else {
                s.serialize_parameter(&p.key, p.val.clone());
            }
        }
        for i in next..8 {
            if i == 7 {
                s = s.clone();
            }
            slot(&mut s, i);
        }
        s.end()
    }
    match c.kind {
        Kind::Header => {
            v.push(("authorize", b.authorize(mt, u, &req)));
            if let Some(m) = m {
                v.push(("shorthand", shorthand(&b, m, u, &req)));
            }
            v.push(("authorize (by-value URI)", b.authorize(mt, u.clone(), &req)));
            v.push(("authorize (string URI)", b.authorize(mt, &u.text, &&req)));
            v.push(("authorize (format_args URI)", b.authorize(mt, format_args!("{}", u), &Some(&req))));
            let x = b.authorize_with_buf(String::from(PREFIX), mt, u, &req);
            v.push(("authorize_with_buf", x.strip_prefix(PREFIX).unwrap_or("buffer contents lost").into()));
            v.push(("authorize_with_buf (other buffer type)", b.authorize_with_buf(Pieces::default(), mt, u, &req).to_string()));
            let mut s = String::from(PREFIX);
            b.authorize_with_buf(&mut s, mt, u, &req);
            v.push(("authorize_with_buf (&mut String)", s.strip_prefix(PREFIX).unwrap_or("buffer contents lost").into()));
            v.push(("into_authorization", b.clone().into_authorization(mt, u, &req)));
            v.push(("into_authorization_with_buf", b.clone().into_authorization_with_buf(String::new(), mt, u, &req)));
            let x = b.clone().into_authorization_with_buf(String::from(PREFIX), mt, u, &req);
            v.push(("into_authorization_with_buf (prefix)", x.strip_prefix(PREFIX).unwrap_or("buffer contents lost").into()));
            v.push(("Authorizer::authorization", req.serialize(Authorizer::authorization(mt, u, client, token, &o, sm.clone()))));
            v.push(("Authorizer::authorization_with_buf", req.serialize(Authorizer::authorization_with_buf(Pieces::default(), mt, u, client, token, &o, sm.clone())).to_string()));
            for k in 0..=req.0.len() {
                v.push(("Authorizer by hand", by_hand(Authorizer::authorization(mt, u, client, token, &o, sm.clone()), &req, k)));
            }
            v.push(("authorize again", b.authorize(mt, u, &req)));
        }
        Kind::Form => {
            v.push(("to_form", b.to_form(mt, u, &req)));
            if let Some(x) = m.and_then(|m| form_shorthand(&b, m, u, &req)) {
                v.push(("form shorthand", x));
            }
            v.push(("to_form (string URI)", b.to_form(mt, &u.text, &&req)));
            let x = b.to_form_with_buf(String::from(PREFIX), mt, u, &req);
            v.push(("to_form_with_buf", x.strip_prefix(PREFIX).unwrap_or("buffer contents lost").into()));
            v.push(("to_form_with_buf (other buffer type)", b.to_form_with_buf(Pieces::default(), mt, u, &req).to_string()));
            v.push(("into_form", b.clone().into_form(mt, u, &req)));
            let x = b.clone().into_form_with_buf(String::from(PREFIX), mt, u, &req);
            v.push(("into_form_with_buf", x.strip_prefix(PREFIX).unwrap_or("buffer contents lost").into()));
            v.push(("Authorizer::form", req.serialize(Authorizer::form(mt, u, client, token, &o, sm.clone()))));
            v.push(("Authorizer::form_with_buf", req.serialize(Authorizer::form_with_buf(Pieces::default(), mt, u, client, token, &o, sm.clone())).to_string()));
            for k in 0..=req.0.len() {
                v.push(("Authorizer by hand", by_hand(Authorizer::form(mt, u, client, token, &o, sm.clone()), &req, k)));
            }
        }
        Kind::Query => {
            let t = &u.text;
            v.push(("to_query", b.to_query(mt, t.clone(), &req)));
            if let Some(m) = m {
                v.push(("query shorthand", query_shorthand(&b, m, t.clone(), &req)));
            }
            v.push(("to_query (other buffer type)", b.to_query(mt, Pieces(vec![t.clone()]), &&req).to_string()));
            v.push(("to_query (split buffer)", b.to_query(mt, Pieces(t.chars().map(|c| c.to_string()).collect()), &req).to_string()));
            v.push(("into_query", b.clone().into_query(mt, t.clone(), &req)));
            v.push(("Authorizer::query", req.serialize(Authorizer::query(mt, t.clone(), client, token, &o, sm.clone()))));
            for k in 0..=req.0.len() {
                v.push(("Authorizer by hand", by_hand(Authorizer::query(mt, t.clone(), client, token, &o, sm.clone()), &req, k)));
            }
        }
    }
    v
}

pub fn c08(r: &mut Runner) {
    let k = r.by(2, 3);
    r.scenario("entry-points", "all entry points of each kind x 9 standard and custom methods, over all combinations of at most `bound` departures of the request", k, move |cx| {
        let kind = *cx.of(&KINDS);
        let m = cx.pick(10);
        let mut c = if cx.quick() { small_case(cx, kind) } else { any_case(cx, kind) };
        c.nonce.get_or_insert("n".into());
        c.timestamp.get_or_insert(7);
        let m = if m < 9 {
            c.method = M9[m].into();
            Some(m)
        } else {
            c.method = (*cx.of(&["X-CUSTOM", "A&B", "REPORT"])).into();
            None
        };
        let sig = *cx.of(&[Sig::Hmac, Sig::Plain]);
        let v = match sig {
            Sig::Hmac => all_entries(&c, m, oauth::HMAC_SHA1),
            _ => all_entries(&c, m, oauth::PLAINTEXT),
        };
        let first = &v[0];
        cx.state(&first.1);
        cx.note(|| format!("{} entry points for {:?} => {}", v.len(), c, first.1));
        verify(&c, &first.1, sig)?;
        for (name, out) in &v[1..] {
            ensure_eq!(out, &first.1, "`{}` differs from `{}` for {:?}", name, first.0, c);
        }
        Ok(())
    });
    r.scenario("wide-texts", "all entry points of each kind over the wide corpus at every place of a request", 0, move |cx| {
        let kind = *cx.of(&KINDS);
        let mut c = Case::basic(kind);
        let field = cx.pick(FIELDS);
        let t = texts::few(cx);
        place(&mut c, field, &t);
        let m = field % 9;
        c.method = M9[m].into();
        let (v, sig) = if t.len() % 2 == 0 { (all_entries(&c, Some(m), oauth::HMAC_SHA1), Sig::Hmac) } else { (all_entries(&c, Some(m), oauth::PLAINTEXT), Sig::Plain) };
        let first = &v[0];
        cx.state(&first.1);
        verify(&c, &first.1, sig)?;
        for (name, out) in &v[1..] {
            ensure_eq!(out, &first.1, "`{}` differs from `{}` for {:?}", name, first.0, c);
        }
        Ok(())
    });
    let k = r.by(2, 3);
    r.scenario("relations", "all entry points of each kind over texts that are equal to, or a beginning or end of, one another", k, move |cx| {
        let kind = *cx.of(&KINDS);
        let mut c = relations_case(cx, kind);
        let m = (c.ck.len() + c.cs.len()) % 9;
        c.method = M9[m].into();
        let (v, sig) = if c.version { (all_entries(&c, Some(m), oauth::HMAC_SHA1), Sig::Hmac) } else { (all_entries(&c, Some(m), oauth::PLAINTEXT), Sig::Plain) };
        let first = &v[0];
        cx.state(&first.1);
        verify(&c, &first.1, sig)?;
        for (name, out) in &v[1..] {
            ensure_eq!(out, &first.1, "`{}` differs from `{}` for {:?}", name, first.0, c);
        }
        Ok(())
    });
    r.scenario("names-and-lengths", "all entry points of each kind over the corpus of parameter names, and every length of every text", 0, move |cx| {
        let kind = *cx.of(&KINDS);
        let mut c = if cx.flag() { name_case(cx, kind) } else { length_case(cx, kind, 100) };
        let m = c.params.len() % 9;
        c.method = M9[m].into();
        let v = all_entries(&c, Some(m), oauth::HMAC_SHA1);
        let first = &v[0];
        cx.state(&first.1);
        verify(&c, &first.1, Sig::Hmac)?;
        for (name, out) in &v[1..] {
            ensure_eq!(out, &first.1, "`{}` differs from `{}` for {:?}", name, first.0, c);
        }
        Ok(())
    });
    r.scenario("shorthand-methods", "each shorthand signs with the method in its name and passes everything to the signer", 0, move |cx| {
        let kind = *cx.of(&KINDS);
        let m = cx.pick(9);
        let mut c = Case::basic(kind);
        c.method = M9[m].into();
        c.params.push(p("a", "b c"));
        let s = full_spy(SPY);
        let b = c.builder(s.clone());
        let req = c.request();
        let _ = match kind {
            Kind::Header => Some(shorthand(&b, m, &c.uri, &req)),
            Kind::Form => form_shorthand(&b, m, &c.uri, &req),
            Kind::Query => Some(query_shorthand(&b, m, c.uri.text.clone(), &req)),
        };
        let log = s.0.borrow();
        if log.is_empty() {
            return Ok(());
        }
        cx.state(&*log);
        ensure_eq!(log[0], Ev::SignWith("cs".into(), Some("ts".into())), "secrets given to the signature method");
        let methods: Vec<Ev> = log.iter().filter(|e| matches!(e, Ev::Method(_))).cloned().collect();
        ensure_eq!(methods, vec![Ev::Method(M9[m].into())], "method signed by the {:?} shorthand for {}", kind, M9[m]);
        Ok(())
    });
    r.scenario("free-functions", "the free functions x methods x credentials x requests, with automatic nonce and timestamp", 0, move |cx| {
        let m = cx.pick(10);
        let mut c = Case::basic(Kind::Header);
        c.nonce = None;
        c.timestamp = None;
        c.ck = (*cx.of(&TEXTS[..12])).into();
        c.token.as_mut().unwrap().0 = (*cx.of(&TEXTS[..6])).into();
        if cx.flag() {
            c.params = vec![p("a", "é"), param("z", "&", Split::Whole, true)];
        }
        let req = c.request();
        let sig = *cx.of(&[Sig::Hmac, Sig::Plain]);
        macro_rules! go {
            ($sm:expr, $t:expr) => {
                if m < 9 {
                    c.method = M9[m].into();
                    free(m, &c.uri.text, &req, $t, $sm)
                } else {
                    c.method = "X".into();
                    oauth::authorize("X", &c.uri, &req, $t, $sm)
                }
            };
        }
        let (tk, ts) = c.token.clone().unwrap();
        let (ck, cs) = (c.ck.clone(), c.cs.clone());
        let t = Token::<&str, &str>::from_parts(&ck, &cs, &tk, &ts);
        let out = match sig {
            Sig::Hmac => go!(oauth::HMAC_SHA1, &t),
            _ => go!(oauth::PLAINTEXT, &t),
        };
        cx.state(&fp(&c));
        verify(&c, &out, sig)?;
        // Owned token through the builder.
        let own = t.map(String::from);
        let out = Builder::with_token(own, oauth::HMAC_SHA1).authorize(&c.method, &c.uri, &req);
        verify(&c, &out, Sig::Hmac)?;
        Ok(())
    });
    let depth = r.by(4, 5);
    r.scenario("builder-histories", "every history of setter calls, signings, clones and reuses up to a depth; every signing checked against a model of the last values", 0, move |cx| {
        let mut b: Builder<'_, _, &str, &str> = Builder::new(Credentials::new("ck", "cs"), oauth::HMAC_SHA1);
        let mut c = Case::basic(Kind::Header);
        c.token = None;
        c.nonce = None;
        c.timestamp = None;
        c.params = vec![p("oauth_o", "v")];
        let mut stash: Option<(Builder<'_, _, &str, &str>, Case)> = None;
        let (nz1, nz2) = (NonZeroU64::new(1), NonZeroU64::new(99));
        let n = cx.pick(depth + 1);
        for _ in 0..n {
            let op = cx.pick(21);
            cx.note(|| format!("op {}", op));
            match op {
                0 => { b.callback("cb1"); c.callback = Some("cb1".into()) }
                1 => { b.callback(Some("c&2")); c.callback = Some("c&2".into()) }
                2 => { b.callback(None); c.callback = None }
                3 => { b.verifier("v1"); c.verifier = Some("v1".into()) }
                4 => { b.verifier(Some("")); c.verifier = Some("".into()) }
                5 => { b.verifier(None); c.verifier = None }
                6 => { b.nonce("n1"); c.nonce = Some("n1".into()) }
                7 => { b.nonce(Some("n 2")); c.nonce = Some("n 2".into()) }
                8 => { b.nonce(None); c.nonce = None }
                9 => { b.timestamp(nz1.unwrap()); c.timestamp = Some(1) }
                10 => { b.timestamp(nz2); c.timestamp = Some(99) }
                11 => { b.timestamp(None); c.timestamp = None }
                12 => { b.version(true); c.version = true }
                13 => { b.version(false); c.version = false }
                14 => { b.token(Credentials::new("t1", "s1")); c.token = Some(("t1".into(), "s1".into())) }
                15 => { b.token(Some(Credentials::new("t 2", "s&2"))); c.token = Some(("t 2".into(), "s&2".into())) }
                16 => { b.token(None); c.token = None }
                17 => { c.kind = Kind::Header; verify(&c, &b.authorize(&c.method, &c.uri, &c.request()), Sig::Hmac)?; }
                18 => { c.kind = Kind::Query; verify(&c, &b.to_query(&c.method, c.uri.text.clone(), &c.request()), Sig::Hmac)?; }
                // Continue with the clone; the original goes to the stash.
                19 => { let d = b.clone(); stash = Some((std::mem::replace(&mut b, d), c.clone())) }
                // Swap with the stash.
                _ => if let Some(s) = &mut stash { std::mem::swap(&mut s.0, &mut b); std::mem::swap(&mut s.1, &mut c) },
            }
        }
        for kind in [Kind::Header, Kind::Form] {
            c.kind = kind;
            let out = match kind {
                Kind::Header => b.authorize(&c.method, &c.uri, &c.request()),
                _ => b.to_form(&c.method, &c.uri, &c.request()),
            };
            cx.state(&abstract_of(&c, &out));
            verify(&c, &out, Sig::Hmac)?;
        }
        if let Some((b, mut c)) = stash {
            c.kind = Kind::Header;
            verify(&c, &b.into_authorization(&c.method, &c.uri, &c.request()), Sig::Hmac)?;
        }
        Ok(())
    });
    let depth = r.by(4, 5);
    r.scenario("options-histories", "the same for the low-level options", 0, move |cx| {
        let mut o = if cx.flag() { auth::Options::default() } else { auth::Options::new() };
        let mut c = Case::basic(Kind::Header);
        c.nonce = None;
        c.timestamp = None;
        let n = cx.pick(depth + 1);
        for _ in 0..n {
            match cx.pick(15) {
                0 => { o.callback("cb1"); c.callback = Some("cb1".into()) }
                1 => { o.callback(Some("c&2")); c.callback = Some("c&2".into()) }
                2 => { o.callback(None); c.callback = None }
                3 => { o.verifier("v1"); c.verifier = Some("v1".into()) }
                4 => { o.verifier(None); c.verifier = None }
                5 => { o.nonce("n1"); c.nonce = Some("n1".into()) }
                6 => { o.nonce(Some("n 2")); c.nonce = Some("n 2".into()) }
                7 => { o.nonce(None); c.nonce = None }
                8 => { o.timestamp(NonZeroU64::new(5)); c.timestamp = Some(5) }
                9 => { o.timestamp(NonZeroU64::new(6).unwrap()); c.timestamp = Some(6) }
                10 => { o.timestamp(None); c.timestamp = None }
                11 => { o.version(true); c.version = true }
                12 => { o.version(false); c.version = false }
                13 => { o = o.clone() }
                _ => {
                    let a = Authorizer::authorization(&c.method, &c.uri, Credentials::new("ck", "cs"), Some(Credentials::new("tk", "ts")), &o, oauth::HMAC_SHA1);
                    verify(&c, &().serialize(a), Sig::Hmac)?;
                }
            }
        }
        let a = Authorizer::authorization(&c.method, &c.uri, Credentials::new("ck", "cs"), Some(Credentials::new("tk", "ts")), &o, oauth::HMAC_SHA1);
        let out = ().serialize(a);
        cx.state(&abstract_of(&c, &out));
        verify(&c, &out, Sig::Hmac)?;
        Ok(())
    });
}

/// A smaller alphabet than `any_case`.
pub fn small_case(cx: &mut Ctx, kind: Kind) -> Case {
    let mut c = Case::basic(kind);
    c.uri.text = (*cx.devof(&URIS[..8])).into();
    if kind != Kind::Query {
        c.uri.split = *cx.devof(SPLITS);
    }
    c.ck = (*cx.devof(&TEXTS[..16])).into();
    c.cs = (*cx.devof(&TEXTS[..16])).into();
    match cx.dev(17) {
        0 => {}
        1 => c.token = None,
        i => c.token = Some((TEXTS[i].into(), TEXTS[i - 1].into())),
    }
    let opt = |cx: &mut Ctx| match cx.dev(12) {
        0 => None,
        i => Some(TEXTS[i - 1].to_string()),
    };
    c.callback = opt(cx);
    c.verifier = opt(cx);
    c.nonce = Some((*cx.devof(&TEXTS[..14])).into());
    c.timestamp = Some(*cx.devof(&[1234567890, 1, u64::MAX]));
    c.version = cx.dflag();
    let n = *cx.devof(&[1usize, 0, 2, 3]);
    for i in 0..n {
        let key = if i == 0 { *cx.devof(&KEYS[..20]) } else { ["b", "oauth_token_x", "z"][i] };
        let text = if i == 0 { *cx.devof(&TEXTS[..16]) } else { "v" };
        let split = if i == 0 { *cx.devof(SPLITS) } else { Split::Whole };
        c.params.push(param(key, text, split, cx.dflag()));
    }
    c
}
