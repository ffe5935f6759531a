//! Shared vocabulary of the harnesses: inputs, requests, signers and the output oracle.
use mccore::refimpl::{self as r, Pair};
use mccore::*;
use oauth1_request as oauth;
use oauth::serializer::Serializer;
use oauth::signature_method::{Sign, SignatureMethod};
use std::cell::RefCell;
use std::fmt::{self, Display, Write};
use std::num::NonZeroU64;
use std::rc::Rc;

/// Texts that exercise every class of character and every shape of escape.
pub const TEXTS: &[&str] = &[
    "a", "", " ", "\"", ",", "&", "=", "%", "+", "-._~", "/:?#[]@!$'()*;", "é", "🦀", "\0", "\n\r\t", "%2F", "%25", "\u{7f}", "\u{80}",
    "\\", "a b&c=d%", "A1z9", "<>^`{|}", "oauth_token=\"x\", oauth_nonce=\"y\"", "日本語 ひらがな", "a&", "&a", "\u{10ffff}\u{e000}",
    "0123456789012345678901234567890123456789012345678901234567890123456789",
];
pub const METHODS: &[&str] = &[
    "GET", "POST", "PUT", "DELETE", "OPTIONS", "HEAD", "CONNECT", "PATCH", "TRACE", "PROPFIND", "X-CUSTOM", "A_B.C~D", "M&M", "A%B", "Q!#$'*+^`|",
    "get", "Patch", "mkCol&z%", "UPDATEREDIRECTREF", "x",
];
pub const URIS: &[&str] = &[
    "https://example.com/r", "http://example.com/", "https://example.com:8443/a/b/c.json", "http://example.com/a%20b/%E3%81%82",
    "http://example.com/;v=1,2/a'b(c)*d!e", "http://example.com/a+b&c=d@e:f", "http://[::1]/x", "http://xn--zckzah.example/~user/-._", "http://example.com/é日🦀",
    "http://example.com/0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789",
    "http://example.com/a\"b<c>d\\e^f`g{h|i}", "",
];

/// How a value's `Display` splits its text into writes.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Split {
    Whole,
    /// `write_str` of one character at a time
    Strs,
    /// `write_char`
    Chars,
    /// nested `write!`
    Fmt,
    /// cut after character i iff bit i; odd pieces through `write_char`/`write_fmt`
    Mask(u64),
    /// `write_str` with empty writes around every piece
    Empties,
    /// `f.pad` (honours the formatter's flags like `str` does)
    Pad,
    /// writes something else if any formatting flag is given
    Flags,
}
pub const SPLITS: &[Split] =
    &[Split::Whole, Split::Strs, Split::Chars, Split::Fmt, Split::Mask(0b0101_1010_0110), Split::Empties, Split::Pad, Split::Flags];

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Val {
    pub text: String,
    pub split: Split,
}
pub fn val(s: &str) -> Val {
    Val { text: s.into(), split: Split::Whole }
}
impl Display for Val {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let t = &*self.text;
        match self.split {
            Split::Whole => f.write_str(t),
            Split::Strs => t.chars().try_for_each(|c| f.write_str(c.encode_utf8(&mut [0; 4]))),
            Split::Chars => t.chars().try_for_each(|c| f.write_char(c)),
            Split::Fmt => write!(f, "{}{}", format_args!("{}", &t[..0]), format_args!("{}", t)),
            Split::Pad => f.pad(t),
            Split::Flags => {
                let flags = f.alternate() || f.sign_plus() || f.sign_minus() || f.sign_aware_zero_pad() || f.width().is_some() || f.precision().is_some() || f.align().is_some();
                f.write_str(if flags { "FLAGS" } else { t })
            }
            Split::Empties => {
                f.write_str("")?;
                t.chars().try_for_each(|c| {
                    f.write_str(c.encode_utf8(&mut [0; 4]))?;
                    f.write_str("")
                })
            }
            Split::Mask(m) => {
                let mut piece = String::new();
                let mut n = 0;
                let flush = |f: &mut fmt::Formatter<'_>, p: &mut String, n: &mut u32| {
                    let mut cs = p.chars();
                    let r = match (cs.next(), cs.next()) {
                        (Some(c), None) if *n % 2 == 1 => f.write_char(c),
                        _ if *n % 3 == 2 => f.write_fmt(format_args!("{}", p)),
                        _ => f.write_str(p),
                    };
                    p.clear();
                    *n += 1;
                    r
                };
                for (i, c) in t.chars().enumerate() {
                    piece.push(c);
                    if m >> (i % 64) & 1 == 1 {
                        flush(f, &mut piece, &mut n)?;
                    }
                }
                if !piece.is_empty() {
                    flush(f, &mut piece, &mut n)?;
                }
                Ok(())
            }
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Param {
    pub key: String,
    pub val: Val,
    /// The value is the percent-encoded form of `plain`.
    pub encoded: bool,
    pub plain: String,
}
pub fn param(key: &str, text: &str, split: Split, encoded: bool) -> Param {
    let t = if encoded { r::pct(text) } else { text.into() };
    Param { key: key.into(), val: Val { text: t, split }, encoded, plain: text.into() }
}
pub fn p(key: &str, text: &str) -> Param {
    param(key, text, Split::Whole, false)
}

pub const SLOTS: [&str; 8] = [
    "oauth_callback", "oauth_consumer_key", "oauth_nonce", "oauth_signature_method", "oauth_timestamp", "oauth_token", "oauth_verifier", "oauth_version",
];
pub fn slot<S: Serializer>(s: &mut S, i: usize) {
    match i {
        0 => s.serialize_oauth_callback(),
        1 => s.serialize_oauth_consumer_key(),
        2 => s.serialize_oauth_nonce(),
        3 => s.serialize_oauth_signature_method(),
        4 => s.serialize_oauth_timestamp(),
        5 => s.serialize_oauth_token(),
        6 => s.serialize_oauth_verifier(),
        _ => s.serialize_oauth_version(),
    }
}

/// A user-written `Request`: serializes its parameters and the protocol slots in merged order.
#[derive(Clone, Debug, Default)]
pub struct SpecReq(pub Vec<Param>);
impl SpecReq {
    /// Sorts in RFC order.
    pub fn sorted(mut v: Vec<Param>) -> SpecReq {
        v.sort_by(|a, b| (a.key.as_bytes(), r::pct(&a.plain)).cmp(&(b.key.as_bytes(), r::pct(&b.plain))));
        SpecReq(v)
    }
    pub fn pairs(&self) -> Vec<Pair> {
        self.0.iter().map(|p| (p.key.clone(), p.plain.clone())).collect()
    }
}
impl oauth::Request for SpecReq {
    fn serialize<S: Serializer>(&self, mut s: S) -> S::Output {
        let mut next = 0;
        for p in &self.0 {
            while next < 8 && SLOTS[next] < &*p.key {
                slot(&mut s, next);
                next += 1;
            }
            if p.encoded {
                s.serialize_parameter_encoded(&p.key, &p.val);
            } else {
                s.serialize_parameter(&p.key, &p.val);
            }
        }
        for i in next..8 {
            slot(&mut s, i);
        }
        s.end()
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Header,
    Form,
    Query,
}
pub const KINDS: [Kind; 3] = [Kind::Header, Kind::Form, Kind::Query];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Sig {
    Hmac,
    Plain,
    /// Checked by the caller.
    Other(&'static str),
}

/// Everything that defines one signing operation.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Case {
    pub kind: Kind,
    pub method: String,
    pub uri: Val,
    pub ck: String,
    pub cs: String,
    pub token: Option<(String, String)>,
    pub callback: Option<String>,
    pub verifier: Option<String>,
    pub nonce: Option<String>,
    pub timestamp: Option<u64>,
    pub version: bool,
    pub params: Vec<Param>,
}
impl Case {
    pub fn basic(kind: Kind) -> Case {
        Case {
            kind,
            method: "POST".into(),
            uri: val("https://example.com/r"),
            ck: "ck".into(),
            cs: "cs".into(),
            token: Some(("tk".into(), "ts".into())),
            callback: None,
            verifier: None,
            nonce: Some("nonce".into()),
            timestamp: Some(1234567890),
            version: false,
            params: vec![],
        }
    }
    pub fn builder<'a, SM: SignatureMethod>(&'a self, sm: SM) -> oauth::Builder<'a, SM, &'a str, &'a str> {
        let mut b = oauth::Builder::new(oauth::Credentials::new(&*self.ck, &*self.cs), sm);
        b.token(self.token.as_ref().map(|(a, b)| oauth::Credentials::new(&**a, &**b)));
        b.callback(self.callback.as_deref()).verifier(self.verifier.as_deref()).nonce(self.nonce.as_deref());
        b.timestamp(self.timestamp.map(|t| NonZeroU64::new(t).unwrap())).version(self.version);
        b
    }
    pub fn request(&self) -> SpecReq {
        SpecReq::sorted(self.params.clone())
    }
    pub fn pairs(&self) -> Vec<Pair> {
        self.params.iter().map(|p| (p.key.clone(), p.plain.clone())).collect()
    }
    /// Signs through the builder.
    #[cfg(any(feature = "std", feature = "alloc"))]
    pub fn run<SM: SignatureMethod + Clone>(&self, sm: SM) -> String {
        let b = self.builder(sm);
        match self.kind {
            Kind::Header => b.authorize(&self.method, &self.uri, &self.request()),
            Kind::Form => b.to_form(&self.method, &self.uri, &self.request()),
            Kind::Query => b.to_query(&self.method, self.uri.text.clone(), &self.request()),
        }
    }
    /// The protocol parameters a request must carry, without nonce/timestamp when automatic.
    pub fn expected_oauth(&self, method_name: &str) -> Vec<Pair> {
        let mut v: Vec<Pair> = vec![];
        let mut add = |k: &str, x: Option<String>| {
            if let Some(x) = x {
                v.push((k.into(), x))
            }
        };
        add("oauth_callback", self.callback.clone());
        add("oauth_consumer_key", Some(self.ck.clone()));
        add("oauth_nonce", self.nonce.clone());
        add("oauth_signature_method", Some(method_name.into()));
        add("oauth_timestamp", self.timestamp.map(|t| t.to_string()));
        add("oauth_token", self.token.as_ref().map(|t| t.0.clone()));
        add("oauth_verifier", self.verifier.clone());
        add("oauth_version", self.version.then(|| "1.0".into()));
        v
    }
    pub fn token_secret(&self) -> Option<&str> {
        self.token.as_ref().map(|t| &*t.1)
    }
    /// The RFC 5849 base string for the request carrying the protocol parameters `proto`.
    pub fn base_string(&self, proto: &[Pair]) -> String {
        let mut all = self.pairs();
        all.extend(proto.iter().cloned());
        r::base_string(&self.method, &self.uri.text, &all)
    }
    pub fn name(&self, sig: Sig) -> &'static str {
        match sig {
            Sig::Hmac => "HMAC-SHA1",
            Sig::Plain => "PLAINTEXT",
            Sig::Other(n) => n,
        }
    }
}

/// The transmitted parts of an output, as a server would see them.
#[derive(Debug, Clone)]
pub struct Seen {
    /// Protocol parameters without the signature, sorted.
    pub proto: Vec<Pair>,
    pub signature: String,
}

/// Splits an output into its parts exactly as a server would; checks syntax and exact contents.
pub fn dissect(c: &Case, out: &str, sig: Sig) -> Result<Seen, String> {
    let pairs = match c.kind {
        Kind::Header => r::parse_header(out)?,
        Kind::Form => r::parse_form(out)?,
        Kind::Query => {
            let rest = out.strip_prefix(&*c.uri.text).ok_or_else(|| format!("query output {:?} does not start with the URI {:?}", out, c.uri.text))?;
            let rest = rest.strip_prefix('?').ok_or_else(|| format!("query output {:?} has no `?` after the URI", out))?;
            r::parse_form(rest)?
        }
    };
    let tail = if c.kind == Kind::Query { &out[c.uri.text.len()..] } else { out };
    ensure!(tail.is_ascii(), "output is not ASCII: {:?}", out);
    let (sigs, rest): (Vec<Pair>, Vec<Pair>) = pairs.into_iter().partition(|p| p.0 == "oauth_signature");
    ensure!(sigs.len() == 1, "{} oauth_signature parameters in {:?}", sigs.len(), out);
    let mut expected = c.expected_oauth(c.name(sig));
    let mut got = rest;
    let mut auto: Vec<Pair> = vec![];
    if c.nonce.is_none() {
        let i = got.iter().position(|p| p.0 == "oauth_nonce").ok_or_else(|| format!("no oauth_nonce in {:?}", out))?;
        let n = got.remove(i);
        ensure!(!n.1.is_empty() && n.1.bytes().all(r::is_unreserved), "automatic nonce {:?} is empty or not URI-safe", n.1);
        auto.push(n);
    }
    if c.timestamp.is_none() {
        let i = got.iter().position(|p| p.0 == "oauth_timestamp").ok_or_else(|| format!("no oauth_timestamp in {:?}", out))?;
        let t = got.remove(i);
        ensure!(t.1.bytes().all(|b| b.is_ascii_digit()) && t.1.parse::<u64>().map_or(false, |x| x > 0 && x.to_string() == t.1), "automatic timestamp {:?}", t.1);
        auto.push(t);
    }
    if c.kind != Kind::Header {
        expected.extend(c.pairs());
    }
    expected.sort();
    got.sort();
    ensure_eq!(got, expected, "parameters transmitted in {:?}", out);
    let mut proto: Vec<Pair> = c.expected_oauth(c.name(sig));
    proto.extend(auto);
    proto.sort();
    Ok(Seen { proto, signature: sigs[0].1.clone() })
}

/// Full check of an output: contents and signature.
pub fn verify(c: &Case, out: &str, sig: Sig) -> Result<Seen, String> {
    let seen = dissect(c, out, sig)?;
    match sig {
        Sig::Hmac => {
            let base = c.base_string(&seen.proto);
            let want = r::hmac_signature(&base, &c.cs, c.token_secret());
            ensure_eq!(seen.signature, want, "oauth_signature in {:?} does not verify over {:?}", out, base);
        }
        Sig::Plain => {
            ensure_eq!(seen.signature, r::signing_key(&c.cs, c.token_secret()), "PLAINTEXT oauth_signature in {:?}", out);
        }
        Sig::Other(_) => {}
    }
    Ok(seen)
}

/// An abstract of an output that does not depend on automatic values, for state fingerprints.
pub fn abstract_of(c: &Case, out: &str) -> u64 {
    if c.nonce.is_some() && c.timestamp.is_some() {
        fp(out)
    } else {
        fp(c)
    }
}

/// A buffer that keeps pieces and displays them one by one.
#[derive(Clone, Debug, Default)]
pub struct Pieces(pub Vec<String>);
impl std::fmt::Write for Pieces {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0.push(s.into());
        Ok(())
    }
}
impl std::fmt::Display for Pieces {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.iter().try_for_each(|s| f.write_str(s))
    }
}

// ---------------------------------------------------------------------------------------------
// Spy signers

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ev {
    SignWith(String, Option<String>),
    Method(String),
    Uri(String),
    Param(String, String),
    Delim,
    Callback(String),
    ConsumerKey(String),
    Nonce(String),
    SigMethod,
    Timestamp(u64),
    Token(String),
    Verifier(String),
    Version,
    End,
}

impl Ev {
    /// The piece of the signature base string the call stands for.
    pub fn text(&self, name: &str) -> String {
        match self {
            Ev::SignWith(..) | Ev::End => String::new(),
            Ev::Method(m) => format!("{}&", r::pct(&m.to_ascii_uppercase())),
            Ev::Uri(u) => format!("{}&", u),
            Ev::Param(k, v) => format!("{}%3D{}", k, v),
            Ev::Delim => "%26".into(),
            Ev::Callback(v) => format!("oauth_callback%3D{}", v),
            Ev::ConsumerKey(v) => format!("oauth_consumer_key%3D{}", v),
            Ev::Nonce(v) => format!("oauth_nonce%3D{}", v),
            Ev::SigMethod => format!("oauth_signature_method%3D{}", name),
            Ev::Timestamp(v) => format!("oauth_timestamp%3D{}", v),
            Ev::Token(v) => format!("oauth_token%3D{}", v),
            Ev::Verifier(v) => format!("oauth_verifier%3D{}", v),
            Ev::Version => "oauth_version%3D1.0".into(),
        }
    }
}

pub type Log = Rc<RefCell<Vec<Ev>>>;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct SpyCfg {
    pub name: &'static str,
    pub nonce: bool,
    pub timestamp: bool,
    pub signature: &'static str,
}
pub const SPY: SpyCfg = SpyCfg { name: "SPY", nonce: true, timestamp: true, signature: "sig" };

/// A signer overriding nothing optional.
#[derive(Clone, Debug)]
pub struct Spy(pub Log, pub SpyCfg);
/// A signer overriding every operation.
#[derive(Clone, Debug)]
pub struct FullSpy(pub Log, pub SpyCfg);

pub fn spy(cfg: SpyCfg) -> Spy {
    Spy(Log::default(), cfg)
}
pub fn full_spy(cfg: SpyCfg) -> FullSpy {
    FullSpy(Log::default(), cfg)
}

macro_rules! spy_common {
    () => {
        type Signature = &'static str;
        fn get_signature_method_name(&self) -> &'static str {
            self.1.name
        }
        fn request_method(&mut self, method: &str) {
            self.0.borrow_mut().push(Ev::Method(method.into()));
        }
        fn uri<T: Display>(&mut self, uri: T) {
            let s = uri.to_string();
            self.0.borrow_mut().push(Ev::Uri(s));
        }
        fn parameter<V: Display>(&mut self, k: &str, v: V) {
            let s = v.to_string();
            self.0.borrow_mut().push(Ev::Param(k.into(), s));
        }
        fn delimiter(&mut self) {
            self.0.borrow_mut().push(Ev::Delim);
        }
        fn end(self) -> &'static str {
            self.0.borrow_mut().push(Ev::End);
            self.1.signature
        }
        fn use_nonce(&self) -> bool {
            self.1.nonce
        }
        fn use_timestamp(&self) -> bool {
            self.1.timestamp
        }
    };
}
impl SignatureMethod for Spy {
    type Sign = Spy;
    fn sign_with(self, c: &str, t: Option<&str>) -> Spy {
        self.0.borrow_mut().push(Ev::SignWith(c.into(), t.map(Into::into)));
        self
    }
}
impl SignatureMethod for FullSpy {
    type Sign = FullSpy;
    fn sign_with(self, c: &str, t: Option<&str>) -> FullSpy {
        self.0.borrow_mut().push(Ev::SignWith(c.into(), t.map(Into::into)));
        self
    }
}
impl Sign for Spy {
    spy_common!();
}
macro_rules! ov {
    ($($f:ident $e:ident)*) => { $(fn $f<V: Display>(&mut self, v: V) { let s = v.to_string(); self.0.borrow_mut().push(Ev::$e(s)); })* };
}
impl Sign for FullSpy {
    spy_common!();
    ov!(callback Callback consumer_key ConsumerKey nonce Nonce token Token verifier Verifier);
    fn signature_method(&mut self) {
        self.0.borrow_mut().push(Ev::SigMethod);
    }
    fn timestamp(&mut self, t: u64) {
        self.0.borrow_mut().push(Ev::Timestamp(t));
    }
    fn version(&mut self) {
        self.0.borrow_mut().push(Ev::Version);
    }
}

/// Concatenation of what a signer was fed.
pub fn fed(log: &Log, name: &str) -> String {
    log.borrow().iter().map(|e| e.text(name)).collect()
}

/// Keys around the protocol parameter names (every prefix relation and ordering gap), none of
/// which is itself a name emitted by the library.
pub const KEYS: &[&str] = &[
    "b", "", "-", "0", "A", "Z", "_", "a", "aa", "n", "o", "oauth", "oauth-", "oauth_", "oauth_a", "oauth_c", "oauth_callbac", "oauth_callback2",
    "oauth_callback_", "oauth_consumer", "oauth_consumer_key.", "oauth_consumer_keyz", "oauth_n", "oauth_nonce-", "oauth_nonces", "oauth_s", "oauth_signature_methoc",
    "oauth_signature_method_", "oauth_sz", "oauth_timestamp0", "oauth_tj", "oauth_toke", "oauth_tokens", "oauth_u", "oauth_verifies", "oauth_versioo", "oauth_version~", "oauth_z", "oauth~",
    "p", "z", "~", "oauth_C", "OAUTH_TOKEN", "oauth_tokem", "oauth_token_", "oauth_versio",
];

// ---------------------------------------------------------------------------------------------
// Requests

/// Every dimension of a signing operation, each departure from a plain request being a deviation.
pub fn any_case(cx: &mut Ctx, kind: Kind) -> Case {
    let mut c = Case::basic(kind);
    c.method = (*cx.devof(METHODS)).into();
    c.uri.text = (*cx.devof(URIS)).into();
    if kind != Kind::Query {
        c.uri.split = *cx.devof(SPLITS);
    }
    c.ck = (*cx.devof(TEXTS)).into();
    c.cs = (*cx.devof(TEXTS)).into();
    if cx.dflag() {
        c.token = None;
    } else {
        c.token = Some(((*cx.devof(TEXTS)).into(), (*cx.devof(TEXTS)).into()));
    }
    let opt = |cx: &mut Ctx| match cx.dev(TEXTS.len() + 1) {
        0 => None,
        i => Some(TEXTS[i - 1].to_string()),
    };
    c.callback = opt(cx);
    c.verifier = opt(cx);
    c.nonce = match cx.dev(TEXTS.len() + 1) {
        0 => Some("nonce".into()),
        1 => None,
        i => Some(TEXTS[i - 1].into()),
    };
    c.timestamp = match cx.dev(7) {
        0 => Some(1234567890),
        1 => AUTOMATIC,
        2 => Some(1),
        3 => Some(u64::MAX),
        4 => Some(9),
        5 => Some(10_000_000_000),
        _ => Some(1 << 63),
    };
    c.version = cx.dflag();
    let n = *cx.devof(&[1usize, 0, 2, 3, 5]);
    for i in 0..n {
        let key = if i == 0 { *cx.devof(KEYS) } else { ["b", "oauth_token_x", "z", "b", "oauth_"][i] };
        let text = if i < 2 { *cx.devof(TEXTS) } else { "v" };
        let split = if i == 0 { *cx.devof(SPLITS) } else { Split::Whole };
        let enc = if i < 2 { cx.dflag() } else { false };
        c.params.push(param(key, text, split, enc));
    }
    c
}

/// No timestamp, where there is a clock to make one from.
pub const AUTOMATIC: Option<u64> = if cfg!(feature = "std") { None } else { Some(77) };

/// All 2^6 option combinations x all methods x parameters at each place relative to oauth_*.
pub fn options_case(cx: &mut Ctx, kind: Kind) -> Case {
    let method = *cx.of(METHODS);
    let mut c = options_parts(cx, kind);
    c.method = method.into();
    c
}
/// The same with one method.
pub fn options_parts(cx: &mut Ctx, kind: Kind) -> Case {
    let mut c = Case::basic(kind);
    if cx.flag() {
        c.callback = Some("http://cb/?a=b&c".into());
    }
    if cx.flag() {
        c.verifier = Some("v e".into());
    }
    if cx.flag() {
        c.nonce = None;
    }
    if cx.flag() {
        c.timestamp = AUTOMATIC;
    }
    if cx.flag() {
        c.version = true;
    }
    if cx.flag() {
        c.token = None;
    }
    for (k, v) in [("a", "1 2"), ("oauth_o", "&"), ("z", "é")] {
        if cx.flag() {
            c.params.push(param(k, v, Split::Whole, k == "oauth_o"));
        }
    }
    c
}

/// Lengths: each text field takes every length in a range, in three character classes.
pub fn length_case(cx: &mut Ctx, kind: Kind, max: usize) -> Case {
    let mut c = Case::basic(kind);
    let unit = *cx.of(&["x", "&", "é"]);
    let field = cx.pick(14);
    const LARGE: [usize; 10] = [511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 65536];
    let n = cx.pick(max + 1 + LARGE.len());
    let n = if n <= max { n } else { LARGE[n - max - 1] };
    let t = unit.repeat(n);
    match field {
        0 => c.ck = t,
        1 => c.cs = t,
        2 => c.token.as_mut().unwrap().0 = t,
        3 => c.token.as_mut().unwrap().1 = t,
        4 => c.callback = Some(t),
        5 => c.verifier = Some(t),
        6 => c.nonce = Some(t),
        7 => c.uri.text.push_str(&t),
        8 => c.params.push(p("k", &t)),
        9 => c.params.push(param("k", &t, Split::Whole, true)),
        // Names, also with a common prefix of that length.
        10 => c.params.push(p(&name_of(unit, n), "v")),
        11 => c.params.extend(["b", "", "a"].iter().map(|x| p(&format!("{}{}", name_of(unit, n), x), x))),
        // Values of one name with a common prefix of that length.
        12 => c.params.extend(["~", "", "\u{e9}", "a"].iter().map(|x| p("k", &format!("{}{}", t, x)))),
        _ => c.method = format!("X{}", ["X", "&", "!"][unit.len() % 3].repeat(n)),
    }
    c
}
fn name_of(unit: &str, n: usize) -> String {
    match unit {
        "x" => "x".repeat(n),
        "&" => format!("oauth_t{}", "o".repeat(n)),
        _ => format!("a{}", "~".repeat(n)),
    }
}
/// Texts that are equal to one another, or prefixes of one another: every way (of at most `bound`
/// identifications) of sharing one text among the places a text can be.
pub fn relations_case(cx: &mut Ctx, kind: Kind) -> Case {
    let mut c = Case::basic(kind);
    let style = cx.pick(4);
    let (callback, verifier, token) = (cx.flag(), cx.flag(), cx.flag());
    c.version = token != verifier;
    let mut used = 0;
    // Names and a secret first, as they are URI-safe in any style.
    let texts: Vec<String> = (0..10)
        .map(|_| {
            // Fresh, or the same as an earlier one.
            let i = match cx.dev(used + 1) {
                0 => {
                    used += 1;
                    used - 1
                }
                j => j - 1,
            };
            match style {
                0 => format!("{}{}", ["p", "qq", "r_", "S", "t~", "u0", "vv.", "w", "y-", "x"][i], i),
                // Each the beginning of the next.
                1 => "oauth_x~x-x.x"[..i + 4].into(),
                // Each the end of the next.
                2 => "x_.-a~9Zzz"[9 - i..].into(),
                // What the request consists of anyway.
                _ => ["1.0", "1234567890", "POST", "HMAC-SHA1", "oauth_d", "0", "a", "nonce", "OAuth", "example.com"][i].into(),
            }
        })
        .collect();
    c.params.push(p(&texts[0], &texts[1]));
    c.params.push(p("k", &texts[2]));
    c.ck = texts[3].clone();
    c.cs = texts[4].clone();
    c.nonce = Some(texts[5].clone());
    c.token = if token { Some((texts[6].clone(), texts[7].clone())) } else { None };
    c.callback = if callback { Some(texts[8].clone()) } else { None };
    c.verifier = if verifier { Some(texts[9].clone()) } else { None };
    c
}
/// Every name of the corpus of names, among other parameters.
pub fn name_case(cx: &mut Ctx, kind: Kind) -> Case {
    let mut c = Case::basic(kind);
    let name = texts::name(cx);
    match cx.pick(4) {
        0 => c.params.push(p(name, "v")),
        1 => c.params.push(param(name, "\u{e9} ", Split::Chars, true)),
        2 => {
            c.params.extend([p(name, "/"), p("b", ""), p("oauth_d", "x"), p(name, ""), p("z", "1")]);
            c.version = true;
            c.token = None;
        }
        _ => {
            c.params.extend([p(name, "%"), p("oauth_o", "1"), p(name, "a")]);
            c.callback = Some(name.into());
            c.verifier = Some("v".into());
        }
    }
    c
}

pub const FIELDS: usize = 15;
/// Puts a text in one of the places a text can be.
pub fn place(c: &mut Case, field: usize, t: &str) {
    let t = t.to_string();
    match field {
        0 => c.ck = t,
        1 => c.cs = t,
        2 => c.token.as_mut().unwrap().0 = t,
        3 => c.token.as_mut().unwrap().1 = t,
        4 => c.callback = Some(t),
        5 => c.verifier = Some(t),
        6 => c.nonce = Some(t),
        7 => c.params.push(p("k", &t)),
        8 => c.params.push(param("oauth_o", &t, Split::Chars, false)),
        9 => c.params.push(param("a", &t, Split::Whole, true)),
        // Between other things.
        10 => {
            c.callback = Some(t.clone());
            c.verifier = Some(t.clone());
            c.params.push(p("z", &t));
        }
        11 => {
            c.cs = t.clone();
            c.token = None;
        }
        12 => c.params.extend([p("a", &t), p("a", ""), p("oauth_x", &t), p("z", &t)]),
        13 => {
            c.method = t.chars().filter(|c| c.is_ascii_alphanumeric() || "!#$%&'*+-.^_`|~".contains(*c)).collect();
            if c.method.is_empty() {
                c.method.push('M');
            }
        }
        // Texts a URI may contain.
        _ => c.uri.text.push_str(&t.replace('?', "")),
    }
}
/// Every text of the wide corpus in every place.
pub fn text_case(cx: &mut Ctx, kind: Kind) -> Case {
    let mut c = Case::basic(kind);
    let field = cx.pick(FIELDS);
    let t = texts::any(cx);
    place(&mut c, field, &t);
    c
}
/// Pairs of words in pairs of places.
pub fn words_case(cx: &mut Ctx, kind: Kind) -> Case {
    let mut c = Case::basic(kind);
    for field in [0, 1, 2, 3, 4, 5, 6, 7, 8, 13, 14] {
        let t = texts::word(cx, "");
        if !t.is_empty() {
            place(&mut c, field, t);
        }
    }
    c
}

/// Number of parameters.
pub fn count_case(cx: &mut Ctx, kind: Kind, max: usize) -> Case {
    let mut c = Case::basic(kind);
    let n = cx.pick(max + 4);
    let n = if n <= max { n } else { [1023, 4097, 65540][n - max - 1] };
    for i in 0..n {
        let k = match i % 4 {
            0 => format!("k{}", i),
            1 => "same".into(),
            2 => format!("oauth_{}", (b'a' + (i % 26) as u8) as char),
            _ => format!("z{}", i % 7),
        };
        c.params.push(param(&k, TEXTS[i % TEXTS.len()], SPLITS[i % SPLITS.len()], i % 5 == 0));
    }
    c
}
