//! C07: RSA-SHA1 signatures; C17: Debug output of the RSA types.

use crate::common::*;
use mccore::refimpl as r;
use mccore::*;
use oauth1_request as oauth;
use oauth::serializer::auth::{self, Authorizer};
use oauth::serializer::Serializer;
use oauth::signature_method::{rsa_sha1_06 as m06, rsa_sha1_09 as m09, Sign, SignatureMethod};
use oauth::{Builder, Credentials, HMAC_SHA1};
use std::num::NonZeroU64;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::OnceLock;

pub const FILES: &[(&str, &[u8])] = &[
    ("512", include_bytes!("../keys/r512.p8")),
    ("1024", include_bytes!("../keys/r1024.p8")),
    ("368", include_bytes!("../keys/s368.p8")),
    ("369", include_bytes!("../keys/s369.p8")),
    ("376", include_bytes!("../keys/s376.p8")),
    ("384", include_bytes!("../keys/s384.p8")),
    ("520", include_bytes!("../keys/s520.p8")),
    ("536", include_bytes!("../keys/s536.p8")),
    ("768", include_bytes!("../keys/r768.p8")),
    ("1023", include_bytes!("../keys/r1023.p8")),
    ("1025", include_bytes!("../keys/r1025.p8")),
    ("1031", include_bytes!("../keys/r1031.p8")),
    ("2048", include_bytes!("../keys/r2048.p8")),
    ("e=3", include_bytes!("../keys/e3.p8")),
    ("e=5", include_bytes!("../keys/e5.p8")),
    ("e=17", include_bytes!("../keys/e17.p8")),
    ("3072", include_bytes!("../keys/r3072.p8")),
    ("4096", include_bytes!("../keys/r4096.p8")),
];

#[derive(Clone)]
struct Key {
    name: &'static str,
    n: Vec<u8>,
    e: Vec<u8>,
    k06: m06::RsaPrivateKey,
    k09: m09::RsaPrivateKey,
}

/// The numbers of the public half, read from the DER file independently of the RSA libraries.
fn public(der: &[u8]) -> (Vec<u8>, Vec<u8>) {
    fn tlv(b: &[u8]) -> (u8, &[u8], &[u8]) {
        let (mut len, mut at) = (b[1] as usize, 2);
        if len >= 128 {
            let k = len & 127;
            len = b[2..2 + k].iter().fold(0, |a, &x| a << 8 | x as usize);
            at += k;
        }
        (b[0], &b[at..at + len], &b[at + len..])
    }
    let (_, outer, _) = tlv(der);
    let (_, _, rest) = tlv(outer); // version
    let (_, _, rest) = tlv(rest); // algorithm
    let (t, octets, _) = tlv(rest);
    assert_eq!(t, 4);
    let (_, seq, _) = tlv(octets);
    let (_, _, rest) = tlv(seq); // version
    let (_, n, rest) = tlv(rest);
    let (_, e, _) = tlv(rest);
    let strip = |b: &[u8]| b.iter().copied().skip_while(|&x| x == 0).collect();
    (strip(n), strip(e))
}

fn keys() -> &'static [Key] {
    static KEYS: OnceLock<Vec<Key>> = OnceLock::new();
    KEYS.get_or_init(|| {
        FILES
            .iter()
            .map(|&(name, der)| {
                let (n, e) = public(der);
                Key {
                    name,
                    n,
                    e,
                    k06: <m06::RsaPrivateKey as m06::DecodePrivateKey>::from_pkcs8_der(der).unwrap(),
                    k09: <m09::RsaPrivateKey as m09::DecodePrivateKey>::from_pkcs8_der(der).unwrap(),
                }
            })
            .collect()
    })
}

const SIG: Sig = Sig::Other("RSA-SHA1");

/// Every way to hand a key to the library.
const WAYS: usize = 10;
fn sign(c: &Case, k: &Key, way: usize) -> String {
    match way {
        0 => c.run(AsRef::<m09::RsaSha1>::as_ref(&k.k09)),
        1 => c.run(AsRef::<m06::RsaSha1>::as_ref(&k.k06)),
        2 => c.run(m09::RsaSha1::new(k.k09.clone())),
        3 => c.run(m06::RsaSha1::new(k.k06.clone())),
        4 => c.run(&m09::RsaSha1::from(k.k09.clone())),
        5 => c.run(&m06::RsaSha1::from(k.k06.clone())),
        6 => c.run(either::Either::<m09::RsaSha1, oauth::HmacSha1>::Left(k.k09.clone().into())),
        7 => c.run(either::Either::<oauth::HmacSha1, &m06::RsaSha1>::Right(k.k06.as_ref())),
        // Without a builder and by consuming one.
        8 => {
            let cl = Credentials::new(&*c.ck, &*c.cs);
            let tk = c.token.as_ref().map(|(a, b)| Credentials::new(&**a, &**b));
            let mut o = auth::Options::new();
            o.callback(c.callback.as_deref()).verifier(c.verifier.as_deref()).nonce(c.nonce.as_deref());
            o.timestamp(c.timestamp.and_then(NonZeroU64::new)).version(c.version);
            let sm = m09::RsaSha1::new(k.k09.clone());
            match c.kind {
                Kind::Header => oauth::Request::serialize(&c.request(), Authorizer::<m09::RsaSha1>::authorization(&c.method, &c.uri, cl, tk, &o, sm)),
                Kind::Form => oauth::Request::serialize(&c.request(), Authorizer::<m09::RsaSha1>::form(&c.method, &c.uri, cl, tk, &o, sm)),
                Kind::Query => oauth::Request::serialize(&c.request(), Authorizer::<m09::RsaSha1, String>::query(&c.method, c.uri.text.clone(), cl, tk, &o, sm)),
            }
        }
        _ => {
            let b = c.builder(m06::RsaSha1::new(k.k06.clone()));
            match c.kind {
                Kind::Header => b.consume(&c.method, &c.uri, &c.request()),
                Kind::Form => b.into_form(&c.method, &c.uri, &c.request()),
                Kind::Query => b.into_query(&c.method, c.uri.text.clone(), &c.request()),
            }
        }
    }
}
trait Consume {
    fn consume(self, method: &str, uri: &Val, r: &SpecReq) -> String;
}
impl<SM: SignatureMethod> Consume for Builder<'_, SM, &str, &str> {
    fn consume(self, method: &str, uri: &Val, r: &SpecReq) -> String {
        self.into_authorization(method, uri, r)
    }
}

fn verify_rsa(c: &Case, k: &Key, out: &str) -> Result<String, String> {
    let seen = dissect(c, out, SIG)?;
    let base = c.base_string(&seen.proto);
    let sig = r::unb64(&seen.signature).ok_or_else(|| format!("oauth_signature {:?} is not Base64", seen.signature))?;
    ensure_eq!(r::b64(&sig), seen.signature, "oauth_signature is not canonical Base64");
    r::rsa_sha1_verify(&k.n, &k.e, base.as_bytes(), &sig).map_err(|e| format!("{} (key {}, base string {:?}, signature {:?})", e, k.name, base, seen.signature))?;
    Ok(seen.signature)
}

/// All ways agree, and verify.
fn check(cx: &mut Ctx, c: &Case, k: &Key, ways: &[usize]) -> Verdict {
    let mut first: Option<String> = None;
    for &w in ways {
        let out = sign(c, k, w);
        cx.note(|| format!("way {}: {}", w, out));
        let sig = verify_rsa(c, k, &out)?;
        if c.nonce.is_some() && c.timestamp.is_some() {
            match &first {
                Some(f) => ensure_eq!(&sig, f, "way {} of passing key {} gives another signature than way {}", w, k.name, ways[0]),
                None => first = Some(sig),
            }
        }
    }
    cx.state(&abstract_of(c, first.as_deref().unwrap_or("")));
    Ok(())
}

pub fn c07(rn: &mut Runner) {
    keys();
    rn.assumptions.push("keys are too small to sign with SHA-1 below 368 bits; such keys are out of the property's domain".into());
    let k = rn.by(2, 3);
    let few = rn.by(&[0usize, 1][..], &[0, 1, 2, 3][..]);
    rn.scenario("dims", "all combinations of at most `bound` departures from a plain request over every dimension, both RSA versions", k, |cx| {
        let kind = *cx.of(&KINDS);
        let c = any_case(cx, kind);
        check(cx, &c, &keys()[0], few)
    });
    rn.scenario("options", "full product: methods x 2^6 optional parts x parameters, one way of passing the key after the other", 0, |cx| {
        let kind = *cx.of(&KINDS);
        let c = options_case(cx, kind);
        let w = fp(&c) as usize % WAYS;
        check(cx, &c, &keys()[3], &[0, w])
    });
    rn.scenario("relations", "texts that are equal to, or a beginning or end of, one another", 1, |cx| {
        let kind = *cx.of(&KINDS);
        let c = relations_case(cx, kind);
        check(cx, &c, &keys()[0], &[0])
    });
    rn.scenario("wide-texts", "the wide corpus at every place of a request", 0, |cx| {
        let mut c = Case::basic(Kind::Header);
        let field = cx.pick(FIELDS);
        c.kind = KINDS[field % 3];
        let t = texts::few(cx);
        place(&mut c, field, &t);
        check(cx, &c, &keys()[0], &[t.len() % 2])
    });
    let nk = FILES.len();
    rn.scenario("keys", "every key (size, exponent) x every way of passing it x output kind x request", 0, move |cx| {
        let k = &keys()[cx.pick(nk)];
        let kind = *cx.of(&KINDS);
        let mut c = Case::basic(kind);
        let n = cx.pick(3);
        c.nonce = Some(["n", "another nonce é", ""][n].into());
        if n > 0 {
            c.params = vec![p("a", "&"), p("z", "é")];
            c.version = true;
        }
        let all: Vec<usize> = (0..WAYS).collect();
        check(cx, &c, k, &all)
    });
    rn.scenario("same-place", "signings with one key after the other at the same place in memory, and again with the first", 0, |cx| {
        let kind = *cx.of(&KINDS);
        let c = Case::basic(kind);
        let (i, j) = (cx.pick(3), cx.pick(3));
        let way = cx.pick(WAYS);
        let mut k = keys()[[0, 1, 6][i]].clone();
        for step in [i, j, i] {
            let next = &keys()[[0, 1, 6][step]];
            k.name = next.name;
            k.n.clone_from(&next.n);
            k.e.clone_from(&next.e);
            k.k06 = next.k06.clone();
            k.k09 = next.k09.clone();
            let s = verify_rsa(&c, &k, &sign(&c, &k, way))?;
            cx.state(&(kind, way, s));
        }
        Ok(())
    });
    rn.scenario("secrets", "every pair of secrets, present and absent: the signature does not change", 0, |cx| {
        let kind = *cx.of(&KINDS);
        let k = &keys()[[0, 4][cx.pick(2)]];
        let w = cx.pick(WAYS);
        let mut c = Case::basic(kind);
        c.cs = "s".into();
        c.token.as_mut().unwrap().1 = "t".into();
        let a = verify_rsa(&c, k, &sign(&c, k, w))?;
        c.cs = (*cx.of(TEXTS)).into();
        let t = *cx.of(&["", "t", "&", "é", "s&t", "0123456789012345678901234567890123456789012345678901234567890123456789"]);
        c.token.as_mut().unwrap().1 = t.into();
        let b = verify_rsa(&c, k, &sign(&c, k, w))?;
        cx.state(&(kind, k.name, &c.cs, t));
        ensure_eq!(a, b, "the signature depends on the secrets {:?} and {:?} (key {})", c.cs, t, k.name);
        Ok(())
    });
    let max = rn.by(300, 1200);
    static SHORT: AtomicU64 = AtomicU64::new(0);
    rn.scenario("lengths", "base strings of every length (SHA-1 block boundaries), short and long writes", 0, move |cx| {
        let kind = *cx.of(&KINDS);
        let mut c = Case::basic(kind);
        let n = cx.pick(max + 1);
        c.params = vec![param("k", &"x".repeat(n), *cx.of(&[Split::Whole, Split::Strs]), false)];
        check(cx, &c, &keys()[2], &[0, 1])
    });
    let many = rn.by(6000, 60000);
    rn.scenario("small-signatures", "consecutive nonces, so that signatures with leading zero bytes occur", 0, move |cx| {
        let mut c = Case::basic(Kind::Header);
        c.nonce = Some(format!("{}", cx.pick(many)));
        let k = &keys()[[2, 6][cx.pick(2)]];
        let sig = verify_rsa(&c, k, &sign(&c, k, 0))?;
        let b = r::unb64(&sig).unwrap();
        if b[0] == 0 {
            SHORT.fetch_add(1, Ordering::Relaxed);
        }
        cx.state(&sig);
        ensure_eq!(verify_rsa(&c, k, &sign(&c, k, 1))?, sig, "the RSA versions disagree");
        Ok(())
    });
    if SHORT.load(Ordering::Relaxed) > 0 {
        rn.assumptions.push(format!("{} signatures with a leading zero byte occurred in small-signatures", SHORT.load(Ordering::Relaxed)));
    }
    let depth = rn.by(4, 5);
    rn.scenario("by-hand", "signers driven by hand: every sequence of calls up to the depth; signature over the concatenation", 0, move |cx| {
        let k = &keys()[0];
        let calls: Vec<usize> = {
            let n = 1 + cx.pick(depth);
            (0..n).map(|_| cx.pick(12)).collect()
        };
        // `uri` and `parameter` take text that is already encoded; the method name is encoded here.
        let mut want = String::new();
        for &i in &calls {
            want += match i {
                0 => "GET&",
                1 => "X%26Y&",
                2 => "http%3A%2F%2Fe%2F&",
                3 => "k%3Dv%2520w",
                4 => "a%3D",
                5 => "%26",
                6 => "oauth_callback%3Dcb",
                7 => "oauth_consumer_key%3Dck",
                8 => "oauth_nonce%3Dnn",
                9 => "oauth_signature_method%3DRSA-SHA1",
                10 => "oauth_timestamp%3D18446744073709551615",
                _ => "oauth_token%3Dtk",
            };
        }
        fn drive<S: Sign>(mut s: S, calls: &[usize]) -> String
        where
            S: Clone,
        {
            for &i in calls {
                // A clone is as good as the original.
                if i % 3 == 0 {
                    s = s.clone();
                }
                match i {
                    0 => s.request_method("GET"),
                    1 => s.request_method("X&Y"),
                    2 => s.uri("http%3A%2F%2Fe%2F"),
                    3 => s.parameter("k", "v%2520w"),
                    4 => s.parameter("a", ""),
                    5 => s.delimiter(),
                    6 => s.callback("cb"),
                    7 => s.consumer_key("ck"),
                    8 => s.nonce("nn"),
                    9 => s.signature_method(),
                    10 => s.timestamp(u64::MAX),
                    _ => s.token("tk"),
                }
            }
            s.end().to_string()
        }
        let outs = [
            drive(AsRef::<m09::RsaSha1>::as_ref(&k.k09).sign_with("a", Some("b")), &calls),
            drive(AsRef::<m06::RsaSha1>::as_ref(&k.k06).sign_with("", None), &calls),
            drive(m09::RsaSha1::new(k.k09.clone()).sign_with("é", None), &calls),
            drive(m06::RsaSha1::new(k.k06.clone()).sign_with("", Some("")), &calls),
        ];
        cx.state(&want);
        for o in &outs {
            ensure_eq!(o, &outs[0], "signers disagree over {:?}", calls);
        }
        let plain = r::unpct(&outs[0]).map_err(|e| format!("displayed signature: {}", e))?;
        let raw = r::unb64(&plain).ok_or("not Base64")?;
        r::rsa_sha1_verify(&k.n, &k.e, want.as_bytes(), &raw).map_err(|e| format!("{}: {:?} for calls {:?}", e, outs[0], calls))
    });
}

/// `{:?}` and variants of every RSA-related value.
fn views(k: &Key, what: usize, at: usize, secrets: (&str, &str)) -> Vec<String> {
    fn d<T: std::fmt::Debug>(x: &T) -> Vec<String> {
        vec![format!("{:?}", x), format!("{:#?}", x), format!("{:x?}", x), format!("{:#X?}", x), format!("{:9.3?}", x), format!("{:+?}", x), format!("{:-?}", x), format!("{:#010?}", x), format!("{:?}", Some(x)), format!("{:?}", [x])]
    }
    fn s<SM: SignatureMethod>(sm: SM, at: usize, secrets: (&str, &str)) -> Vec<String>
    where
        SM::Sign: std::fmt::Debug,
    {
        let mut x = sm.sign_with(secrets.0, Some(secrets.1));
        if at > 0 {
            x.request_method("GET");
        }
        if at > 1 {
            x.uri("http%3A%2F%2Fe%2F");
        }
        if at > 2 {
            x.parameter("k", "v");
        }
        d(&x)
    }
    fn b<'a, SM: SignatureMethod + std::fmt::Debug>(sm: SM, secrets: (&'a str, &'a str)) -> Vec<String> {
        let mut b = Builder::<_, &str, &str>::new(Credentials::new("id", secrets.0), sm);
        b.token(Credentials::new("tk", secrets.1)).nonce("n").timestamp(NonZeroU64::new(1));
        d(&b)
    }
    fn z<SM: SignatureMethod + std::fmt::Debug>(sm: SM, at: usize, secrets: (&str, &str)) -> Vec<String>
    where
        SM::Sign: std::fmt::Debug,
    {
        let mut o = auth::Options::new();
        o.nonce("n").timestamp(NonZeroU64::new(1));
        let mut x = Authorizer::<SM>::authorization("GET", "http://e/", Credentials::new("id", secrets.0), Some(Credentials::new("tk", secrets.1)), &o, sm);
        if at > 0 {
            x.serialize_parameter("a", "v");
        }
        if at > 1 {
            x.serialize_oauth_consumer_key();
        }
        if at > 2 {
            x.serialize_oauth_nonce();
        }
        d(&x)
    }
    let (r6, r9) = (AsRef::<m06::RsaSha1>::as_ref(&k.k06), AsRef::<m09::RsaSha1>::as_ref(&k.k09));
    match what {
        0 => d(r6),
        1 => d(r9),
        2 => s(r6, at, secrets),
        3 => s(r9, at, secrets),
        4 => s(r6.clone(), at, secrets),
        5 => s(r9.clone(), at, secrets),
        6 => b(r6, secrets),
        7 => b(r9.clone(), secrets),
        8 => z(r6, at, secrets),
        9 => z(r9.clone(), at, secrets),
        10 => z(either::Either::<_, oauth::HmacSha1>::Left(r9), at, secrets),
        _ => b(either::Either::<oauth::HmacSha1, _>::Right(r6.clone()), secrets),
    }
}

pub fn c17(rn: &mut Runner) {
    keys();
    let _ = HMAC_SHA1;
    rn.scenario("rsa-views", "every public value involving an RSA key at every point x formats x keys x secrets: no digit of the private key, no secret", 0, |cx| {
        let what = cx.pick(12);
        let at = cx.pick(4);
        let a = views(&keys()[0], what, at, ("client-secret", "token-secret"));
        let other = &keys()[[1usize, 12, 13][cx.pick(3)]];
        let b = views(other, what, at, (["secret-client", ""][cx.pick(2)], "secret-token"));
        for (x, y) in a.iter().zip(&b) {
            cx.state(x);
            ensure_eq!(x, y, "{{:?}} (value {}) depends on the private key or a secret", what);
            ensure!(!x.contains("-secret"), "{{:?}} (value {}) shows a secret: {}", what, x);
        }
        Ok(())
    });
}
