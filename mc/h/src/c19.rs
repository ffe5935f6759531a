//! C19 / C20: conversions of credentials; concurrent, nested and interleaved signings.
use crate::common::*;
use mccore::*;
use oauth::serializer::{auth, Authorizer, Serializer, Urlencoder};
use oauth::signature_method::{Plaintext, Sign, SignatureMethod, HMAC_SHA1};
use oauth::{Builder, Credentials, Token};
use oauth1_request as oauth;
use std::cell::{Cell, RefCell};
use std::collections::HashSet;
use std::fmt::{self, Display, Write};
use std::num::NonZeroU64;

// ---------------------------------------------------------------------------------------------
// C19

/// String types that credentials are made of.
trait Txt: AsRef<str> + Clone + fmt::Debug + 'static {
    const NAME: &'static str;
    fn mk(s: &str) -> Self;
}
impl Txt for String {
    const NAME: &'static str = "String";
    fn mk(s: &str) -> Self {
        s.into()
    }
}
impl Txt for Box<str> {
    const NAME: &'static str = "Box<str>";
    fn mk(s: &str) -> Self {
        s.into()
    }
}
impl Txt for &'static str {
    const NAME: &'static str = "&str";
    fn mk(s: &str) -> Self {
        thread_local! {
            static INTERNED: RefCell<HashSet<&'static str>> = RefCell::default();
        }
        INTERNED.with(|i| {
            let mut i = i.borrow_mut();
            if let Some(x) = i.get(s) {
                return *x;
            }
            let x: &'static str = Box::leak(s.to_string().into_boxed_str());
            i.insert(x);
            x
        })
    }
}

/// What a token must contain: client identifier, client secret, token identifier, token secret.
type Model = [String; 4];

fn parts(c: Credentials<&str>, t: Credentials<&str>) -> Model {
    [c.identifier.into(), c.secret.into(), t.identifier.into(), t.secret.into()]
}

fn look<C: Txt, T: Txt>(t: &Token<C, T>, m: &Model) -> Verdict {
    let what = format!("Token<{}, {}>", C::NAME, T::NAME);
    let fields: Model = [
        t.client.identifier.as_ref().into(),
        t.client.secret.as_ref().into(),
        t.token.identifier.as_ref().into(),
        t.token.secret.as_ref().into(),
    ];
    ensure_eq!(&fields, m, "fields of {}", what);
    ensure_eq!(&parts(t.client(), t.token()), m, "accessors of {}", what);
    let acc: Model = [
        t.client.identifier().into(),
        t.client.secret().into(),
        t.token.identifier().into(),
        t.token.secret().into(),
    ];
    ensure_eq!(&acc, m, "accessors of the credentials in {}", what);
    let r: Token<&str> = t.as_ref();
    ensure_eq!(&parts(r.client, r.token), m, "as_ref of {}", what);
    let r: Token<&str> = Token::from(t);
    ensure_eq!(&parts(r.client, r.token), m, "From<&Token> of {}", what);
    let r: Token<&str, &str> = Token::from_ref(&t.client, &t.token);
    ensure_eq!(&parts(r.client, r.token), m, "from_ref of {}", what);
    let (c, d): (Credentials<&str>, Credentials<&str>) = (t.client.as_ref(), (&t.token).into());
    ensure_eq!(&parts(c, d), m, "as_ref and From of the credentials in {}", what);
    let copy = c;
    ensure_eq!(&parts(copy, d), m, "copies of the credentials in {}", what);
    let k = t.clone();
    ensure_eq!(&parts(k.client(), k.token()), m, "clone of {}", what);
    Ok(())
}

fn signs_same<C: Txt, T: Txt>(t: &Token<C, T>, m: &Model) -> Verdict {
    let mut c = Case::basic(Kind::Header);
    c.ck = m[0].clone();
    c.cs = m[1].clone();
    c.token = Some((m[2].clone(), m[3].clone()));
    let req = c.request();
    let want = c.run(HMAC_SHA1);
    verify(&c, &want, Sig::Hmac)?;
    let nonce = c.nonce.clone().unwrap();
    let mut b = Builder::with_token(t.clone(), HMAC_SHA1);
    b.nonce(&*nonce).timestamp(NonZeroU64::new(c.timestamp.unwrap()));
    ensure_eq!(b.authorize(&c.method, &c.uri, &req), want, "signing with the converted token");
    let mut b = Builder::with_token(t.as_ref(), HMAC_SHA1);
    b.nonce(&*nonce).timestamp(NonZeroU64::new(c.timestamp.unwrap()));
    ensure_eq!(b.authorize(&c.method, &c.uri, &req), want, "signing with the borrowed token");
    let mut b = Builder::<_, C, T>::new(t.client.clone(), HMAC_SHA1);
    b.token(t.token.clone()).nonce(&*nonce).timestamp(NonZeroU64::new(c.timestamp.unwrap()));
    ensure_eq!(b.into_authorization(&c.method, &c.uri, &req), want, "signing with the credentials of the token");
    if cfg!(feature = "std") {
        c.nonce = None;
        c.timestamp = None;
        verify(&c, &oauth::authorize(&c.method, &c.uri, &req, t, HMAC_SHA1), Sig::Hmac).map_err(|e| format!("free function: {}", e))?;
    }
    Ok(())
}

const OPS: usize = 22;

fn go<C: Txt, T: Txt>(cx: &mut Ctx, n: usize, t: Token<C, T>, m: Model, path: &mut Vec<usize>) -> Verdict {
    look(&t, &m).map_err(|e| format!("after {:?}: {}", path, e))?;
    cx.state(&(C::NAME, T::NAME, &m));
    if n == 0 {
        return signs_same(&t, &m).map_err(|e| format!("after {:?}: {}", path, e));
    }
    let op = cx.pick(OPS);
    path.push(op);
    let calls = RefCell::new(Vec::<String>::new());
    macro_rules! f {
        ($to:ty, $suffix:expr) => {
            |x| {
                let x: &str = AsRef::<str>::as_ref(&x);
                calls.borrow_mut().push(x.to_string());
                <$to>::mk(&format!("{}{}", x, $suffix))
            }
        };
    }
    let mut next = m.clone();
    let mut sent = |next: &mut Model, which: &[usize], suffix: &str| -> Verdict {
        let mut want: Vec<String> = which.iter().map(|&i| m[i].clone()).collect();
        let mut got = calls.borrow().clone();
        want.sort();
        got.sort();
        ensure_eq!(got, want, "texts a mapping was applied to");
        for &i in which {
            next[i].push_str(suffix);
        }
        Ok(())
    };
    macro_rules! then {
        ($t:expr, $which:expr, $suffix:expr) => {{
            let t = $t;
            sent(&mut next, &$which, $suffix).map_err(|e| format!("after {:?}: {}", path, e))?;
            go(cx, n - 1, t, next, path)
        }};
    }
    let leak = |t: &Token<C, T>| -> Token<&'static str> {
        let r = t.as_ref();
        Token {
            client: Credentials {
                identifier: <&str>::mk(r.client.identifier),
                secret: <&str>::mk(r.client.secret),
            },
            token: Credentials {
                identifier: <&str>::mk(r.token.identifier),
                secret: <&str>::mk(r.token.secret),
            },
        }
    };
    match op {
        0 => then!(t.map_client(f!(String, "+")), [0, 1], "+"),
        1 => then!(t.map_client(f!(&'static str, "é")), [0, 1], "é"),
        2 => then!(t.map_client(f!(Box<str>, "")), [0, 1], ""),
        3 => then!(t.map_token(f!(String, "-")), [2, 3], "-"),
        4 => then!(t.map_token(f!(&'static str, "&")), [2, 3], "&"),
        5 => then!(t.map_token(f!(Box<str>, "")), [2, 3], ""),
        // Mappings of both parts, where the types are the same.
        6 => then!(
            t.map_client(|x| String::mk(x.as_ref()))
                .map_token(|x| String::mk(x.as_ref()))
                .map(f!(&'static str, "*")),
            [0, 1, 2, 3],
            "*"
        ),
        7 => then!(leak(&t).map(f!(String, "/")), [0, 1, 2, 3], "/"),
        8 => then!(leak(&t).map(f!(Box<str>, "")), [0, 1, 2, 3], ""),
        9 => then!(Token::new(t.client, t.token), [], ""),
        10 => then!(
            Token::from_parts(t.client.identifier, t.client.secret, t.token.identifier, t.token.secret),
            [],
            ""
        ),
        11 => then!(
            Token::new(
                Credentials::new(t.client.identifier, t.client.secret),
                Credentials::new(t.token.identifier, t.token.secret)
            ),
            [],
            ""
        ),
        12 => then!(leak(&t), [], ""),
        13 => then!(t.clone(), [], ""),
        14 => then!(
            Token {
                client: t.client.map(f!(String, "<")),
                token: t.token
            },
            [0, 1],
            "<"
        ),
        15 => then!(
            Token {
                client: t.client,
                token: t.token.map(f!(Box<str>, ">"))
            },
            [2, 3],
            ">"
        ),
        // A function that is not the same for each call.
        16 => {
            let k = Cell::new(0);
            let t = t.map_client(|x| {
                k.set(k.get() + 1);
                String::mk(x.as_ref())
            });
            ensure_eq!(k.get(), 2, "calls made by map_client");
            go(cx, n - 1, t, next, path)
        }
        17 => {
            let k = Cell::new(0);
            let t = t.map_token(|x| {
                k.set(k.get() + 1);
                String::mk(x.as_ref())
            });
            ensure_eq!(k.get(), 2, "calls made by map_token");
            go(cx, n - 1, t, next, path)
        }
        // Exchange the two pairs on purpose.
        18 => {
            let m = [m[2].clone(), m[3].clone(), m[0].clone(), m[1].clone()];
            go(cx, n - 1, Token::new(t.token, t.client), m, path)
        }
        19 => {
            let m = [m[1].clone(), m[0].clone(), m[2].clone(), m[3].clone()];
            go(cx, n - 1, Token::new(Credentials::new(t.client.secret, t.client.identifier), t.token), m, path)
        }
        20 => {
            let k = Token::from_ref(&t.client, &t.token);
            let t = Token::<String, String>::from_parts(
                String::mk(k.client.identifier),
                String::mk(k.client.secret),
                String::mk(k.token.identifier),
                String::mk(k.token.secret),
            );
            go(cx, n - 1, t, next, path)
        }
        _ => {
            let k: Token<&str> = (&t).into();
            let t = k.map(Box::<str>::mk);
            go(cx, n - 1, t, next, path)
        }
    }
}

pub fn c19(rn: &mut Runner) {
    let depth = rn.by(3, 4);
    rn.scenario(
        "conversion-chains",
        "every chain of conversions over three string types, with all views compared after each step and a signing at the end",
        1,
        move |cx| {
            let texts: [&str; 4] = *cx.devof(&[
                ["ck", "cs", "tk", "ts"],
                ["", "", "", ""],
                ["same", "same", "same", "same"],
                ["é&", "%20", "\"", "=\0"],
                ["oauth_token", "oauth_token_secret", "identifier", "secret"],
            ]);
            let m: Model = texts.map(String::from);
            let n = cx.pick(depth + 1);
            let mut path = vec![];
            match cx.pick(4) {
                0 => go(
                    cx,
                    n,
                    Token::<String, String>::from_parts(String::mk(&m[0]), String::mk(&m[1]), String::mk(&m[2]), String::mk(&m[3])),
                    m,
                    &mut path,
                ),
                1 => go(
                    cx,
                    n,
                    Token::new(
                        Credentials::new(<&'static str>::mk(&m[0]), <&'static str>::mk(&m[1])),
                        Credentials::new(String::mk(&m[2]), String::mk(&m[3])),
                    ),
                    m,
                    &mut path,
                ),
                2 => go(
                    cx,
                    n,
                    Token {
                        client: Credentials {
                            identifier: Box::<str>::mk(&m[0]),
                            secret: Box::<str>::mk(&m[1]),
                        },
                        token: Credentials {
                            identifier: <&'static str>::mk(&m[2]),
                            secret: <&'static str>::mk(&m[3]),
                        },
                    },
                    m,
                    &mut path,
                ),
                _ => go(
                    cx,
                    n,
                    Token::<&'static str, &'static str>::from_parts(
                        <&'static str>::mk(&m[0]),
                        <&'static str>::mk(&m[1]),
                        <&'static str>::mk(&m[2]),
                        <&'static str>::mk(&m[3]),
                    ),
                    m,
                    &mut path,
                ),
            }
        },
    );
    rn.scenario("texts", "all four texts over the text corpus, pairwise", 2, |cx| {
        let m: Model = [
            (*cx.devof(TEXTS)).into(),
            (*cx.devof(TEXTS)).into(),
            (*cx.devof(TEXTS)).into(),
            (*cx.devof(TEXTS)).into(),
        ];
        let t = Token::<String, Box<str>>::from_parts(String::mk(&m[0]), String::mk(&m[1]), Box::<str>::mk(&m[2]), Box::<str>::mk(&m[3]));
        cx.state(&m);
        look(&t, &m)?;
        signs_same(&t, &m)?;
        let c = Credentials::new(m[0].clone(), m[1].clone()).map(|s| s.into_boxed_str());
        ensure_eq!((c.identifier(), c.secret()), (&*m[0], &*m[1]), "mapped credentials");
        Ok(())
    });
    rn.scenario("wide-texts", "the wide corpus as each of the four texts and as all of them, through every view and mapping", 0, |cx| {
        let place = cx.pick(5);
        let t = texts::any(cx);
        let mut m: Model = ["ck", "cs", "tk", "ts"].map(String::from);
        for (i, x) in m.iter_mut().enumerate() {
            if place == i || place == 4 {
                x.clone_from(&t);
            }
        }
        cx.state(&m);
        let mk = |s: &str| String::mk(s);
        let a = Token::<String, Box<str>>::from_parts(mk(&m[0]), mk(&m[1]), Box::<str>::mk(&m[2]), Box::<str>::mk(&m[3]));
        look(&a, &m)?;
        signs_same(&a, &m)?;
        let b = Token::new(Credentials::new(mk(&m[0]), mk(&m[1])), Credentials::new(mk(&m[2]), mk(&m[3])));
        look(&b, &m)?;
        look(&b.clone().map_client(String::into_boxed_str), &m)?;
        look(&b.clone().map_token(String::into_boxed_str), &m)?;
        look(&b.as_ref().map(String::from), &m)?;
        look(&b.map(String::into_boxed_str), &m)
    });
}

// ---------------------------------------------------------------------------------------------
// C20

thread_local! {
    /// Set by a hook that wants the callback it runs in to return an error.
    static FAIL: Cell<bool> = const { Cell::new(false) };
}
fn failing() -> fmt::Result {
    if FAIL.with(|f| f.replace(false)) {
        Err(fmt::Error)
    } else {
        Ok(())
    }
}

/// A text whose `Display` runs `hook` between characters.
struct Hooked<'a, F: Fn()> {
    text: &'a str,
    every: usize,
    hook: F,
}
impl<F: Fn()> Display for Hooked<'_, F> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        for (i, c) in self.text.chars().enumerate() {
            if i % self.every == 0 {
                (self.hook)();
                failing()?;
            }
            f.write_char(c)?;
        }
        Ok(())
    }
}
struct HookReq<'a, F: Fn() + Copy> {
    params: &'a [Param],
    every: usize,
    hook: F,
    between: bool,
}
impl<F: Fn() + Copy> oauth::Request for HookReq<'_, F> {
    fn serialize<S: Serializer>(&self, mut s: S) -> S::Output {
        let mut next = 0;
        for p in self.params {
            while next < 8 && SLOTS[next] < &*p.key {
                slot(&mut s, next);
                next += 1;
            }
            let v = Hooked {
                text: &p.val.text,
                every: self.every,
                hook: self.hook,
            };
            if p.encoded {
                s.serialize_parameter_encoded(&p.key, v);
            } else {
                s.serialize_parameter(&p.key, v);
            }
            if self.between {
                (self.hook)();
            }
        }
        for i in next..8 {
            slot(&mut s, i);
            if self.between {
                (self.hook)();
            }
        }
        s.end()
    }
}
/// Wraps a method so that `hook` runs in every callback.
#[derive(Clone, Copy)]
struct HookMethod<SM, F>(SM, F);
struct HookSign<S, F>(S, F);
impl<SM: SignatureMethod, F: Fn() + Copy> SignatureMethod for HookMethod<SM, F> {
    type Sign = HookSign<SM::Sign, F>;
    fn sign_with(self, c: &str, t: Option<&str>) -> Self::Sign {
        (self.1)();
        HookSign(self.0.sign_with(c, t), self.1)
    }
}
impl<S: Sign, F: Fn() + Copy> Sign for HookSign<S, F> {
    type Signature = S::Signature;
    fn get_signature_method_name(&self) -> &'static str {
        self.0.get_signature_method_name()
    }
    fn request_method(&mut self, m: &str) {
        (self.1)();
        self.0.request_method(m);
        (self.1)();
    }
    fn uri<T: Display>(&mut self, u: T) {
        (self.1)();
        self.0.uri(u);
        (self.1)();
    }
    fn parameter<V: Display>(&mut self, k: &str, v: V) {
        (self.1)();
        self.0.parameter(k, v);
        (self.1)();
    }
    fn delimiter(&mut self) {
        (self.1)();
        self.0.delimiter();
    }
    fn end(self) -> S::Signature {
        (self.1)();
        let s = self.0.end();
        (self.1)();
        s
    }
}
/// A sink that runs `hook` on every write.
#[derive(Clone)]
struct HookSink<F>(String, F);
impl<F: Fn()> Write for HookSink<F> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        (self.1)();
        failing()?;
        self.0.push_str(s);
        Ok(())
    }
}
impl<F> Display for HookSink<F> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}

/// Runs a signing whose every foreign callback runs `hook`. `places`: 1 values, 2 URI, 4 signer,
/// 8 sink, 16 between serializer calls.
fn hooked<F: Fn() + Copy>(c: &Case, b: &Builder<'_, oauth::HmacSha1, &str, &str>, plain: bool, places: u8, every: usize, hook: F) -> String {
    let on = |bit: u8| {
        let go = places & bit != 0;
        move || {
            if go {
                hook()
            }
        }
    };
    let req_sorted = c.request();
    let hv = on(1);
    let between = places & 16 != 0;
    let hook_any = move || {
        // Values and the gaps between calls share one closure.
        hook()
    };
    let uri = Hooked {
        text: &c.uri.text,
        every,
        hook: on(2),
    };
    let sink = HookSink(if c.kind == Kind::Query { c.uri.text.clone() } else { String::new() }, on(8));
    macro_rules! with {
        ($b:expr) => {{
            macro_rules! req {
                ($r:expr) => {
                    match c.kind {
                        Kind::Header => $b.authorize_with_buf(sink, &c.method, &uri, &$r).0,
                        Kind::Form => $b.to_form_with_buf(sink, &c.method, &uri, &$r).0,
                        Kind::Query => $b.to_query(&c.method, sink, &$r).0,
                    }
                };
            }
            if between {
                req!(HookReq {
                    params: &req_sorted.0,
                    every,
                    hook: hook_any,
                    between: true
                })
            } else {
                req!(HookReq {
                    params: &req_sorted.0,
                    every,
                    hook: hv,
                    between: false
                })
            }
        }};
    }
    if places & 4 == 0 && !plain {
        // The builder as it is shared.
        with!(b)
    } else if plain {
        with!(c.builder(HookMethod(Plaintext::new2(), on(4))))
    } else {
        with!(c.builder(HookMethod(HMAC_SHA1, on(4))))
    }
}

/// `Plaintext` that is `Copy`.
#[derive(Clone, Copy)]
struct P;
impl SignatureMethod for P {
    type Sign = <Plaintext as SignatureMethod>::Sign;
    fn sign_with(self, c: &str, t: Option<&str>) -> Self::Sign {
        Plaintext::new().sign_with(c, t)
    }
}
trait New2 {
    fn new2() -> P;
}
impl New2 for Plaintext {
    fn new2() -> P {
        P
    }
}

const TEXT_FIELDS: usize = 11;
fn text_of(c: &mut Case, i: usize) -> &mut String {
    match i {
        0 => &mut c.ck,
        1 => &mut c.cs,
        2 => &mut c.token.as_mut().unwrap().0,
        3 => &mut c.token.as_mut().unwrap().1,
        4 => c.callback.as_mut().unwrap(),
        5 => c.verifier.as_mut().unwrap(),
        6 => c.nonce.as_mut().unwrap(),
        7 => &mut c.params[0].plain,
        8 => &mut c.params[0].key,
        9 => &mut c.method,
        _ => &mut c.uri.text,
    }
}
/// Replaces a text without moving it, if it fits.
fn overwrite(c: &mut Case, i: usize, t: &str) {
    if i == 7 || i == 8 {
        let (mut key, mut value) = (c.params[0].key.clone(), c.params[0].plain.clone());
        *(if i == 7 { &mut value } else { &mut key }) = if i == 7 { t.into() } else { t.chars().filter(|c| c.is_ascii_alphanumeric()).collect() };
        c.params[0] = p(&key, &value);
        return;
    }
    // Methods are upper-case tokens, and URIs have no query.
    let t: String = if i == 9 { t.chars().filter(|c| c.is_ascii_graphic() && *c != '"' && *c != '=').collect() } else { t.into() };
    let x = text_of(c, i);
    x.clear();
    x.push_str(&t);
}
fn case_for(i: usize) -> Case {
    let kind = KINDS[i % 3];
    let mut c = Case::basic(kind);
    c.uri.text = ["http://a/é", "http://b/xyz", "http://c/"][i % 3].into();
    c.nonce = Some(format!("nonce{}", i));
    c.timestamp = Some(1000 + i as u64);
    c.params = match i % 3 {
        0 => vec![p("a", "x é"), param("z", "&", Split::Whole, true)],
        1 => vec![p("b", "yy"), p("oauth_o", "/"), p("oauth_token_", "")],
        _ => vec![p("oauth_d", "%"), p("zz", "w")],
    };
    if i % 2 == 1 {
        c.callback = Some("cb".into());
        c.version = true;
    }
    c
}

struct Shared<T>(T);
// Only one thread runs at a time, at the scheduler's points.
unsafe impl<T> Sync for Shared<T> {}
unsafe impl<T> Send for Shared<T> {}
impl<T> Shared<T> {
    fn get(&self) -> &T {
        &self.0
    }
}

/// Whether a type can be shared between threads, decided without requiring it.
struct IsSync<T>(std::marker::PhantomData<T>);
trait NotSync {
    fn is(&self) -> bool {
        false
    }
}
impl<T> NotSync for &IsSync<T> {}
trait YesSync {
    fn is(&self) -> bool;
}
impl<T: Sync + Send> YesSync for IsSync<T> {
    fn is(&self) -> bool {
        true
    }
}

/// Two threads that sign with one shared builder take their options from it.
fn shared_case(kind: Kind, i: usize) -> Case {
    let mut c = case_for(i);
    c.kind = kind;
    c.nonce = Some("shared".into());
    c.timestamp = Some(77);
    c.callback = None;
    c.version = false;
    c
}

/// A serializer driven in steps.
trait Steps {
    fn step(&mut self, i: usize) -> bool;
    fn fork(&self) -> Box<dyn Steps>;
    fn finish(self: Box<Self>) -> String;
    fn len(&self) -> usize;
    fn at(&self) -> usize;
}
struct Drive<S: Serializer> {
    s: Option<S>,
    params: Vec<Param>,
    at: usize,
}
impl<S: Serializer + Clone + 'static> Steps for Drive<S>
where
    S::Output: Into<String>,
{
    fn step(&mut self, _: usize) -> bool {
        let s = self.s.as_mut().unwrap();
        let ps = &self.params;
        // The merged sequence of parameters and slots.
        let mut seq: Vec<(&str, Result<usize, &Param>)> = SLOTS.iter().enumerate().map(|(i, k)| (*k, Ok(i))).collect();
        seq.extend(ps.iter().map(|p| (&*p.key, Err(p))));
        seq.sort_by(|a, b| a.0.cmp(b.0));
        match seq[self.at].1 {
            Ok(i) => slot(s, i),
            Err(p) if p.encoded => s.serialize_parameter_encoded(&p.key, &p.val),
            Err(p) => s.serialize_parameter(&p.key, &p.val),
        }
        self.at += 1;
        self.at < seq.len()
    }
    fn fork(&self) -> Box<dyn Steps> {
        Box::new(Drive {
            s: self.s.clone(),
            params: self.params.clone(),
            at: self.at,
        })
    }
    fn finish(mut self: Box<Self>) -> String {
        while self.at < self.len() {
            self.step(0);
        }
        self.s.take().unwrap().end().into()
    }
    fn len(&self) -> usize {
        8 + self.params.len()
    }
    fn at(&self) -> usize {
        self.at
    }
}
fn start(i: usize) -> (Box<dyn Steps>, Case, Sig) {
    let c = case_for(i);
    let params = c.request().0;
    let o: &'static auth::Options<'static> = {
        thread_local! {
            static O: RefCell<Vec<Option<&'static auth::Options<'static>>>> = const { RefCell::new(Vec::new()) };
        }
        O.with(|o| {
            let mut o = o.borrow_mut();
            while o.len() <= i {
                o.push(None);
            }
            *o[i].get_or_insert_with(|| {
                let c: &'static Case = Box::leak(Box::new(case_for(i)));
                let mut x = auth::Options::new();
                x.callback(c.callback.as_deref()).verifier(c.verifier.as_deref()).nonce(c.nonce.as_deref());
                x.timestamp(c.timestamp.and_then(NonZeroU64::new)).version(c.version);
                Box::leak(Box::new(x))
            })
        })
    };
    let cl = Credentials::new("ck", "cs");
    let tk = Some(Credentials::new("tk", "ts"));
    let u = c.uri.text.clone();
    let m = "POST";
    macro_rules! d {
        ($s:expr) => {
            Box::new(Drive { s: Some($s), params, at: 0 }) as Box<dyn Steps>
        };
    }
    let plain = i >= 3;
    let s = match (c.kind, plain) {
        (Kind::Header, false) => d!(Authorizer::<_>::authorization(m, &u, cl, tk, o, HMAC_SHA1)),
        (Kind::Form, false) => d!(Authorizer::<_>::form(m, &u, cl, tk, o, HMAC_SHA1)),
        (Kind::Query, false) => d!(Authorizer::<_, String>::query(m, u, cl, tk, o, HMAC_SHA1)),
        (Kind::Header, true) => d!(Authorizer::<_>::authorization(m, &u, cl, tk, o, Plaintext::new())),
        (Kind::Form, true) => d!(Authorizer::<_>::form(m, &u, cl, tk, o, Plaintext::new())),
        (Kind::Query, true) => d!(Authorizer::<_, String>::query(m, u, cl, tk, o, Plaintext::new())),
    };
    (s, c, if plain { Sig::Plain } else { Sig::Hmac })
}

/// A value that panics while it is formatted.
#[derive(Clone)]
struct Boom;
impl Display for Boom {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("partial é")?;
        panic!("Boom")
    }
}

pub fn c20(rn: &mut Runner) {
    rn.assumptions.push("threads are scheduled at every foreign callback (Display, signer, sink, request) and between operations; code of the library between two callbacks is one step, data races inside such a step are excluded by Rust's type system".into());
    for n in [2, 3] {
        let k = if n == 2 { rn.by(2, 3) } else { rn.by(1, 2) };
        let name = if n == 2 { "two-threads" } else { "three-threads" };
        rn.scenario(
            name,
            "threads on one shared builder, preempted in value, URI, signer, sink and request callbacks: every schedule with a bounded number of preemptions",
            k,
            move |cx| {
                type B = Builder<'static, oauth::HmacSha1, &'static str, &'static str>;
                ensure!((&IsSync::<B>(std::marker::PhantomData)).is(), "a builder cannot be shared between threads");
                let ka = cx.pick(3);
                let places = [1u8 | 16, 2 | 8, 4, 1 | 8][cx.pick(4)];
                let plain = cx.dflag();
                let cases: Vec<Case> = (0..n).map(|i| shared_case(KINDS[(ka + i) % 3], i)).collect();
                let base = cases[0].clone();
                let b = Shared(base.builder(HMAC_SHA1));
                let every = if n == 2 { 2 } else { 4 };
                let bodies: Vec<Box<dyn FnOnce() -> Vec<String> + Send + '_>> = cases
                    .iter()
                    .map(|c| {
                        let b = &b;
                        Box::new(move || {
                            let first = hooked(c, b.get(), plain, places, every, sched::point);
                            sched::point();
                            vec![first, hooked(c, b.get(), plain, 0, 1, || ())]
                        }) as Box<dyn FnOnce() -> Vec<String> + Send + '_>
                    })
                    .collect();
                let (res, schedule) = sched::run(cx, bodies);
                cx.state(&schedule);
                cx.note(|| format!("{:?} => {:?}", schedule, res));
                for (i, (c, r)) in cases.iter().zip(res).enumerate() {
                    for out in r.map_err(|e| format!("thread {} under schedule {:?}: {}", i, schedule, e))? {
                        verify(c, &out, if plain { Sig::Plain } else { Sig::Hmac })
                            .map_err(|e| format!("thread {} under schedule {:?}: {}", i, schedule, e))?;
                        ensure_eq!(
                            out,
                            if plain { c.run(Plaintext::new()) } else { c.run(HMAC_SHA1) },
                            "thread {} under schedule {:?}",
                            i,
                            schedule
                        );
                    }
                }
                Ok(())
            },
        );
    }
    rn.scenario(
        "nested",
        "signings nested in each other's callbacks to a depth of three, x where they are nested x kinds x methods",
        0,
        |cx| {
            let kinds: Vec<usize> = (0..3).map(|_| cx.pick(3)).collect();
            let plains = [cx.flag(), cx.flag(), cx.flag()];
            let p0 = [1u8, 2, 4, 8, 16, 31][cx.pick(6)];
            let p1 = [1u8, 4, 31][cx.pick(3)];
            let cases: Vec<Case> = kinds.iter().enumerate().map(|(i, &k)| Case { kind: KINDS[k], ..case_for(i) }).collect();
            let want: Vec<String> = (0..3)
                .map(|i| if plains[i] { cases[i].run(Plaintext::new()) } else { cases[i].run(HMAC_SHA1) })
                .collect();
            for i in 0..3 {
                verify(&cases[i], &want[i], if plains[i] { Sig::Plain } else { Sig::Hmac })?;
            }
            let bs: Vec<_> = cases.iter().map(|c| c.builder(HMAC_SHA1)).collect();
            let bad = RefCell::new(None);
            let check = |i: usize, out: String| {
                if out != want[i] && bad.borrow().is_none() {
                    *bad.borrow_mut() = Some(format!("nested signing {}: {:?} instead of {:?}", i, out, want[i]));
                }
            };
            let inner = || check(2, hooked(&cases[2], &bs[2], plains[2], 0, 1, || ()));
            let budget = Cell::new(0);
            let middle = || {
                if budget.get() < 6 {
                    budget.set(budget.get() + 1);
                    check(1, hooked(&cases[1], &bs[1], plains[1], p1, 2, &inner));
                    // A serializer that is abandoned in the middle.
                    let mut u = Urlencoder::form();
                    u.serialize_parameter("k", "v");
                }
            };
            check(0, hooked(&cases[0], &bs[0], plains[0], p0, 2, &middle));
            cx.state(&(&kinds, plains, p0, p1));
            let r = bad.borrow().clone();
            r.map_or(Ok(()), Err)
        },
    );
    let k = rn.by(2, 4);
    rn.scenario("switching", "2 or 3 serializers advanced in turns in one thread, cloned or abandoned at any step: every interleaving with a bounded number of switches, clones and abandonments", k, |cx| {
        let n = 2 + cx.pick(2);
        let which: Vec<usize> = (0..n).map(|i| if i < 2 { cx.pick(6) } else { 2 }).collect();
        let mut live: Vec<(usize, Box<dyn Steps>)> = which.iter().map(|&w| (w, start(w).0)).collect();
        let mut cur = 0;
        let mut done = 0;
        while !live.is_empty() {
            cur = cur.min(live.len() - 1);
            let (w, s) = &mut live[cur];
            let w = *w;
            if s.at() == s.len() {
                let (w, s) = live.remove(cur);
                let (_, c, sig) = start(w);
                let out = s.finish();
                verify(&c, &out, sig).map_err(|e| format!("serializer {} of {:?}: {}", w, which, e))?;
                ensure_eq!(out, if sig == Sig::Hmac { c.run(HMAC_SHA1) } else { c.run(Plaintext::new()) }, "serializer {} of {:?}", w, which);
                done += 1;
                continue;
            }
            s.step(0);
            cx.state(&(&which, done, live.iter().map(|x| x.1.at()).collect::<Vec<_>>()));
            match cx.dev(4 + n) {
                0 => {}
                1 => {
                    let f = live[cur].1.fork();
                    live.push((w, f));
                }
                2 => {
                    live.remove(cur);
                }
                3 => {
                    // A panic of this one: an out-of-order name (in debug builds), then abandoned.
                    let (_, s) = live.remove(cur);
                    let _ = catch(move || {
                        let mut d = s;
                        d.step(0);
                        panic!("abandoned");
                    });
                }
                i => cur = (cur + i - 3) % live.len(),
            }
        }
        Ok(())
    });
    let depth = rn.by(4, 6);
    rn.scenario(
        "after-failures",
        "sequences of failing, abandoned and good operations: the good ones are right",
        0,
        move |cx| {
            let n = 1 + cx.pick(depth);
            let ops: Vec<usize> = (0..n).map(|_| cx.pick(8)).collect();
            for (i, &o) in ops.iter().enumerate() {
                let c = case_for(o % 3);
                let b = c.builder(HMAC_SHA1);
                match o {
                    0..=2 => {
                        let out = catch(|| c.run(HMAC_SHA1)).map_err(|e| format!("operation {} of {:?}: {}", i, ops, e))?;
                        verify(&c, &out, Sig::Hmac).map_err(|e| format!("operation {} of {:?}: {}", i, ops, e))?;
                        let out = catch(|| c.run(Plaintext::new())).map_err(|e| format!("operation {} of {:?}: {}", i, ops, e))?;
                        verify(&c, &out, Sig::Plain).map_err(|e| format!("operation {} of {:?}: {}", i, ops, e))?;
                    }
                    3 => {
                        let _ = catch(|| b.authorize("GET", Boom, &c.request()));
                    }
                    4 => {
                        let _ = catch(|| {
                            b.to_form(
                                "GET",
                                "http://e/",
                                &oauth::request::AssertSorted::new(vec![("a", Boom)].into_iter().map(|(k, _)| (k, Boom2))),
                            )
                        });
                    }
                    5 => {
                        let (mut s, ..) = start(o % 3);
                        s.step(0);
                        s.step(0);
                        drop(s);
                    }
                    6 => {
                        let _ = catch(|| b.authorize("GET", "http://e/?q", &()));
                    }
                    _ => {
                        let mut u = Urlencoder::query("http://e/".to_string());
                        let _ = catch(|| u.serialize_parameter("a", Boom));
                        // The same serializer goes on after the panic.
                        let _ = catch(|| u.serialize_parameter("b", "x"));
                    }
                }
                cx.state(&ops[..=i]);
            }
            Ok(())
        },
    );
    let reps = rn.by(vec![1usize, 2, 70, 300, 1100], vec![1, 2, 70, 300, 1100, 5000]);
    rn.scenario(
        "every-failure",
        "the n-th foreign callback of a signing panics or fails, for every n, the signing repeated so some number of times: signings afterwards, in all output kinds and nested ones too, are right",
        0,
        move |cx| {
            let i = cx.pick(6);
            let (kind, plain) = (KINDS[i % 3], i >= 3);
            let places = [1u8, 2, 4, 8, 16][cx.pick(5)];
            let error = places & (1 | 2 | 8) != 0 && cx.flag();
            let mut c = case_for(i);
            c.kind = kind;
            let b = c.builder(HMAC_SHA1);
            let total = {
                let n = Cell::new(0);
                let out = hooked(&c, &b, plain, places, 1, || n.set(n.get() + 1));
                verify(&c, &out, if plain { Sig::Plain } else { Sig::Hmac })?;
                n.get()
            };
            if total == 0 {
                return Ok(());
            }
            let at = cx.pick(total);
            let reps = *cx.of(&reps);
            let elsewhere = cx.flag();
            for _ in 0..reps {
                let n = Cell::new(0);
                let hook = || {
                    n.set(n.get() + 1);
                    if n.get() == at + 1 {
                        if error {
                            FAIL.with(|f| f.set(true));
                        } else {
                            std::panic::panic_any(0u8);
                        }
                    }
                };
                let r = catch(|| hooked(&c, &b, plain, places, 1, hook));
                FAIL.with(|f| f.set(false));
                ensure!(r.is_err(), "callback {} of {:?} failed, and {:?} was returned", at, places, r);
            }
            cx.state(&(i, places, error, at));
            let check = || -> Verdict {
                for kind in KINDS {
                    let c = Case { kind, ..c.clone() };
                    let out = catch(|| c.run(HMAC_SHA1)).map_err(|e| format!("after {} failures at callback {}: {}", reps, at, e))?;
                    verify(&c, &out, Sig::Hmac).map_err(|e| format!("after {} failures at callback {}: {}", reps, at, e))?;
                    let out = catch(|| c.run(Plaintext::new())).map_err(|e| format!("after {} failures at callback {}: {}", reps, at, e))?;
                    verify(&c, &out, Sig::Plain).map_err(|e| format!("after {} failures at callback {}: {}", reps, at, e))?;
                }
                let out = catch(|| hooked(&c, &b, plain, 31, 2, || { c.run(HMAC_SHA1); })).map_err(|e| format!("nested after {} failures at callback {}: {}", reps, at, e))?;
                verify(&c, &out, if plain { Sig::Plain } else { Sig::Hmac }).map(drop)
            };
            if elsewhere {
                std::thread::scope(|s| s.spawn(check).join().unwrap_or_else(|_| Err("panicked".into())))
            } else {
                check()
            }
        },
    );
    let long = rn.by(140_000usize, 5_000_000);
    rn.scenario("long-history", "a long sequence of signings (of one request, or of different ones in turns) in one thread: every one gives what the first of its kind gave", 0, move |cx| {
        let i = cx.pick(8);
        let mut want: Vec<Option<String>> = vec![None; 6];
        for k in 0..long {
            let j = match i {
                0..=5 => i,
                6 => k % 6,
                _ => (k / 7 + k / 1000) % 6,
            };
            let c = case_for(j);
            let out = if j >= 3 { c.run(Plaintext::new()) } else { c.run(HMAC_SHA1) };
            match &want[j] {
                Some(w) => ensure_eq!(&out, w, "signing {} of kind {}", k, j),
                None => {
                    verify(&c, &out, if j >= 3 { Sig::Plain } else { Sig::Hmac })?;
                    want[j] = Some(out);
                }
            }
        }
        cx.state(&i);
        Ok(())
    });
    let depths = rn.by(40, 200);
    rn.scenario("deep-nesting", "signings nested in a value, URI, signer callback or sink write of each other to every depth up to a bound", 0, move |cx| {
        let depth = 1 + cx.pick(depths);
        let places = [1u8, 2, 4, 8][cx.pick(4)];
        let i = cx.pick(6);
        fn go(depth: usize, places: u8, i: usize) -> Verdict {
            let c = case_for(i);
            let b = c.builder(HMAC_SHA1);
            let bad = RefCell::new(None);
            let first = Cell::new(true);
            let out = hooked(&c, &b, i >= 3, places, 1, || {
                if depth > 0 && first.replace(false) {
                    *bad.borrow_mut() = go(depth - 1, places, (i + 1) % 6).err();
                }
            });
            if let Some(e) = bad.into_inner() {
                return Err(e);
            }
            verify(&c, &out, if i >= 3 { Sig::Plain } else { Sig::Hmac }).map(drop).map_err(|e| format!("{} levels above the innermost: {}", depth, e))
        }
        cx.state(&(depth, places, i));
        go(depth, places, i)
    });
    let many = rn.by(vec![2usize, 3, 33, 70], vec![2, 3, 33, 70, 300, 600]);
    rn.scenario_serial("all-inside", "many threads all inside the same callback of a signing at once", 0, move |cx| {
        let n = *cx.of(&many);
        let i = cx.pick(6);
        let places = [1u8, 2, 4, 8][cx.pick(4)];
        let at = cx.pick(3);
        let barrier = std::sync::Barrier::new(n);
        let outs: Vec<Result<Verdict, String>> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..n)
                .map(|_| {
                    let barrier = &barrier;
                    s.spawn(move || {
                        let c = case_for(i);
                        let b = c.builder(HMAC_SHA1);
                        let k = Cell::new(0);
                        let waited = Cell::new(false);
                        let r = catch(|| {
                            hooked(&c, &b, i >= 3, places, 1, || {
                                k.set(k.get() + 1);
                                if k.get() == at + 1 {
                                    waited.set(true);
                                    barrier.wait();
                                }
                            })
                        });
                        if !waited.get() {
                            barrier.wait();
                        }
                        r.map(|out| verify(&c, &out, if i >= 3 { Sig::Plain } else { Sig::Hmac }).map(drop))
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        cx.state(&(n, i, places, at));
        for o in outs {
            o??;
        }
        Ok(())
    });
    rn.scenario(
        "same-place",
        "three signings of texts that are overwritten in place between them: every pair of texts x which characters change x lengths",
        0,
        |cx| {
            let kind = *cx.of(&KINDS);
            let plain = cx.flag();
            let f = cx.pick(TEXT_FIELDS);
            let g = f + cx.pick(TEXT_FIELDS - f);
            let len = *cx.of(&[1usize, 8, 70]);
            let variant = |v: usize, letter: u8| {
                let mut t = vec![letter; len];
                match v {
                    0 => {}
                    1 => t[0] = b'X',
                    2 => t[len - 1] = b'Y',
                    _ => t[len / 2] = b'Z',
                }
                String::from_utf8(t).unwrap()
            };
            let mut c = Case::basic(kind);
            c.callback = Some("cb".into());
            c.verifier = Some("ve".into());
            c.params = vec![p("k", "v")];
            // No buffer moves later on.
            for i in 0..TEXT_FIELDS {
                text_of(&mut c, i).reserve(100);
            }
            for step in 0..3 {
                let (x, y) = if step == 0 { (0, 0) } else { (cx.pick(4), if f == g { 0 } else { cx.pick(4) }) };
                overwrite(&mut c, f, &variant(x, b'A'));
                if f != g {
                    overwrite(&mut c, g, &variant(y, b'B'));
                }
                let out = if plain { c.run(Plaintext::new()) } else { c.run(HMAC_SHA1) };
                verify(&c, &out, if plain { Sig::Plain } else { Sig::Hmac }).map_err(|e| format!("signing {}: {}", step, e))?;
                cx.state(&out);
            }
            Ok(())
        },
    );
    rn.scenario(
        "shifted",
        "two signings in which characters have moved from the end of one text to the beginning of another",
        0,
        |cx| {
            let kind = *cx.of(&KINDS);
            let plain = cx.flag();
            let f = cx.pick(TEXT_FIELDS);
            let g = cx.pick(TEXT_FIELDS);
            if f == g {
                return Ok(());
            }
            let whole = *cx.of(&["A&B%26C", "A%26B&C", "AA", "A=B", "A\"\0B"]);
            let mut c = Case::basic(kind);
            c.callback = Some("cb".into());
            c.verifier = Some("ve".into());
            c.params = vec![p("k", "v")];
            for step in 0..2 {
                let at = cx.pick(whole.len() + 1);
                overwrite(&mut c, f, &whole[..at]);
                overwrite(&mut c, g, &whole[at..]);
                for (i, t) in [(9, "POST"), (10, "u")] {
                    if text_of(&mut c, i).is_empty() {
                        overwrite(&mut c, i, t);
                    }
                }
                let out = if plain { c.run(Plaintext::new()) } else { c.run(HMAC_SHA1) };
                verify(&c, &out, if plain { Sig::Plain } else { Sig::Hmac }).map_err(|e| format!("signing {}: {}", step, e))?;
                cx.state(&out);
            }
            Ok(())
        },
    );
    rn.scenario(
        "clones",
        "a serializer cloned after every step: original and clone continue with different parameters, in both orders",
        0,
        |cx| {
            let w = cx.pick(6);
            let (mut s, c, sig) = start(w);
            let at = cx.pick(s.len() + 1);
            for _ in 0..at {
                s.step(0);
            }
            let f = s.fork();
            let g = f.fork();
            let orders = cx.pick(3);
            let outs = match orders {
                0 => vec![s.finish(), f.finish(), g.finish()],
                1 => vec![g.finish(), s.finish(), f.finish()],
                _ => {
                    drop(s);
                    vec![f.finish(), g.finish()]
                }
            };
            cx.state(&(w, at, orders));
            for out in &outs {
                verify(&c, out, sig)?;
                ensure_eq!(out, &outs[0], "clones of serializer {} at step {}", w, at);
            }
            Ok(())
        },
    );
    rn.scenario(
        "diverging-clones",
        "clones continued with different remaining parameters each equal a serializer run alone",
        0,
        |cx| {
            let kind = *cx.of(&KINDS);
            let plain = cx.flag();
            let at = cx.pick(9);
            let order = cx.flag();
            let mut base = Case::basic(kind);
            base.callback = Some("cb".into());
            base.verifier = Some("v".into());
            base.version = true;
            base.params = vec![p("a", "é")];
            let mut o = auth::Options::new();
            o.callback(base.callback.as_deref())
                .verifier(base.verifier.as_deref())
                .nonce(base.nonce.as_deref());
            o.timestamp(base.timestamp.and_then(NonZeroU64::new)).version(true);
            let tails = [
                [p("z", "1"), p("zz", "long long long long long long long long long long long long long long")],
                [p("z", "2"), p("zzz", "")],
            ];
            fn run<SM: SignatureMethod + Clone>(c: &Case, o: &auth::Options<'_>, sm: SM, at: usize, order: bool, tails: &[[Param; 2]; 2]) -> [String; 2]
            where
                SM::Sign: Clone,
            {
                let cl = Credentials::new(&*c.ck, &*c.cs);
                let tk = c.token.as_ref().map(|(a, b)| Credentials::new(&**a, &**b));
                let mut s = match c.kind {
                    Kind::Header => Authorizer::<SM>::authorization(&c.method, &c.uri, cl, tk, o, sm),
                    Kind::Form => Authorizer::<SM>::form(&c.method, &c.uri, cl, tk, o, sm),
                    Kind::Query => Authorizer::<SM>::query(&c.method, c.uri.text.clone(), cl, tk, o, sm),
                };
                s.serialize_parameter("a", "é");
                for i in 0..at {
                    slot(&mut s, i);
                }
                let mut t = s.clone();
                // One step each in turns.
                let mut all = [Some(&mut s), Some(&mut t)];
                for i in at..8 {
                    for j in if order { [0, 1] } else { [1, 0] } {
                        slot(*all[j].as_mut().unwrap(), i);
                    }
                }
                for i in 0..2 {
                    for j in if order { [0, 1] } else { [1, 0] } {
                        all[j].as_mut().unwrap().serialize_parameter(&tails[j][i].key, &tails[j][i].val);
                    }
                }
                if order {
                    let a = s.end();
                    [a, t.end()]
                } else {
                    let b = t.end();
                    [s.end(), b]
                }
            }
            let outs = if plain {
                run(&base, &o, P, at, order, &tails)
            } else {
                run(&base, &o, HMAC_SHA1, at, order, &tails)
            };
            for (out, tail) in outs.iter().zip(&tails) {
                let mut c = base.clone();
                c.params.extend(tail.iter().cloned());
                cx.state(out);
                verify(&c, out, if plain { Sig::Plain } else { Sig::Hmac })?;
            }
            Ok(())
        },
    );
}
#[derive(Clone)]
struct Boom2;
impl Display for Boom2 {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        Boom.fmt(f)
    }
}
