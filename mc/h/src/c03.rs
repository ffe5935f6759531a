//! C03: percent-encoding. C04: order. C05: HMAC key. C06: PLAINTEXT.
use crate::common::*;
use mccore::refimpl as r;
use mccore::*;
use oauth1_request as oauth;
use oauth::signature_method::{Plaintext, Sign, SignatureMethod};

/// Where a text enters the library.
const PLACES: &[&str] = &["value", "encoded", "uri", "callback", "verifier", "nonce", "ck", "token", "cs", "ts"];

fn put(c: &mut Case, place: usize, text: &str, split: Split) {
    let t = text.to_string();
    match PLACES[place] {
        "value" => c.params.push(param("k", text, split, false)),
        "encoded" => c.params.push(param("k", text, split, true)),
        "uri" => c.uri = Val { text: t.replace('?', ""), split },
        "callback" => c.callback = Some(t),
        "verifier" => c.verifier = Some(t),
        "nonce" => c.nonce = Some(t),
        "ck" => c.ck = t,
        "token" => c.token.as_mut().unwrap().0 = t,
        "cs" => c.cs = t,
        _ => c.token.as_mut().unwrap().1 = t,
    }
}

/// Checks a case with a recording signer (the exact text fed to the signature), with HMAC-SHA1 and
/// with PLAINTEXT.
pub fn check_all(cx: &mut Ctx, c: &Case) -> Verdict {
    let s = spy(SPY);
    let out = c.run(s.clone());
    let seen = dissect(c, &out, Sig::Other("SPY"))?;
    ensure_eq!(fed(&s.0, "SPY"), c.base_string(&seen.proto), "signature base string fed to the signer for {:?}", c);
    let out = c.run(oauth::HMAC_SHA1);
    cx.state(&out);
    cx.note(|| format!("{:?} => {}", c, out));
    verify(c, &out, Sig::Hmac)?;
    let out = c.run(oauth::PLAINTEXT);
    verify(c, &out, Sig::Plain)?;
    Ok(())
}

pub fn c03(r: &mut Runner) {
    // Every Unicode scalar value, in blocks.
    let block: u32 = r.by(128, 64);
    let blocks = (0x110000 / block) as usize;
    r.scenario("code-points", "every Unicode scalar value, at every place a text can enter, one block of consecutive code points per text; each way of writing for values and URIs", 0, move |cx| {
        let place = cx.pick(PLACES.len());
        let split = if place < 3 { *cx.of(SPLITS) } else { Split::Whole };
        // Which kind of output alternates with the block; ASCII and Latin blocks see all three.
        let b = cx.pick(blocks) as u32;
        let kind = if b * block < 0x800 { *cx.of(&KINDS) } else { KINDS[(b % 3) as usize] };
        let text: String = (b * block..(b + 1) * block).filter_map(char::from_u32).collect();
        let split = if kind == Kind::Query && place == 2 { Split::Whole } else { split };
        let mut c = Case::basic(kind);
        put(&mut c, place, &text, split);
        check_all(cx, &c)
    });
    // Every single ASCII / Latin-1 character alone and every pair of ASCII characters.
    r.scenario("pairs", "every text of one or two ASCII characters at every place", 0, move |cx| {
        let a = cx.pick(128) as u8 as char;
        let b = cx.pick(129);
        let mut text = a.to_string();
        if b < 128 {
            text.push(b as u8 as char);
        }
        let place = cx.pick(PLACES.len());
        let mut c = Case::basic(KINDS[(a as usize + b) % 3]);
        put(&mut c, place, &text, Split::Whole);
        check_all(cx, &c)
    });
    r.scenario("triples", "every text of three ASCII characters as a value", 0, move |cx| {
        let text: String = (0..3).map(|_| cx.pick(128) as u8 as char).collect();
        let mut c = Case::basic(KINDS[text.bytes().map(usize::from).sum::<usize>() % 3]);
        put(&mut c, 0, &text, Split::Whole);
        check_all(cx, &c)
    });
    let max = r.by(700, 4200);
    r.scenario("chunks", "an odd character after every number of characters of each class, around every plausible size of a buffer", 0, move |cx| {
        const LARGE: [usize; 12] = [1022, 1023, 1024, 1025, 2047, 2048, 4094, 4095, 4096, 8191, 8192, 65535];
        let unit = *cx.of(&["x", "&", "é", "🦀"]);
        let odd = *cx.of(&["a", "%", "é", "日", "🦀"]);
        let n = cx.pick(max + LARGE.len());
        let n = if n < max { n } else { LARGE[n - max] };
        let text = format!("{}{}{}", unit.repeat(n), odd, ["", "z", "é~"][n % 3]);
        let place = cx.pick(3);
        let mut c = Case::basic(KINDS[n % 3]);
        put(&mut c, place, &text, Split::Whole);
        check_all(cx, &c)
    });
    // Every way of splitting short texts into writes.
    let alphabet: &'static [&'static str] = &["a", "%", "é", "~", "🦀"];
    let n = r.by(5, 7);
    let al = r.by(4, 5);
    r.scenario("splits", "every text up to a length over {unreserved, reserved, 2-byte, tilde, 4-byte} x every way of cutting it into writes (write_str, write_char, write_fmt)", 0, move |cx| {
        let len = cx.pick(n + 1);
        let mut text = String::new();
        for _ in 0..len {
            text.push_str(alphabet[cx.pick(al)]);
        }
        let mask = cx.pick(1 << len.max(1)) as u64;
        let place = cx.pick(3);
        let kind = KINDS[(len + place + mask as usize) % 3];
        let mut c = Case::basic(kind);
        put(&mut c, place, &text, if kind == Kind::Query && place == 2 { Split::Whole } else { Split::Mask(mask) });
        let s = spy(SPY);
        let out = c.run(s.clone());
        cx.state(&out);
        let seen = dissect(&c, &out, Sig::Other("SPY"))?;
        ensure_eq!(fed(&s.0, "SPY"), c.base_string(&seen.proto), "signature base string fed to the signer for {:?}", c);
        verify(&c, &c.run(oauth::HMAC_SHA1), Sig::Hmac)?;
        Ok(())
    });
    // Run lengths: encoders copy runs of unreserved characters at once.
    let n = r.by(40, 140);
    r.scenario("runs", "every run length of unreserved characters before, between and after reserved ones", 0, move |cx| {
        let (a, b) = (cx.pick(n), cx.pick(n));
        let sep = *cx.of(&["&", "é", "&&", " a "]);
        let text = format!("{}{}{}", "x".repeat(a), sep, "Z".repeat(b));
        let mut c = Case::basic(KINDS[(a + b) % 3]);
        put(&mut c, 0, &text, *cx.of(&[Split::Whole, Split::Chars]));
        check_all(cx, &c)
    });
    // Typed values: whatever a Display implementation writes.
    r.scenario("typed", "values of standard types (integers, floats, bool, char, strings, format_args, network addresses, nested wrappers)", 0, move |cx| {
        use std::fmt::Display;
        let ip: std::net::IpAddr = "2001:db8::1".parse().unwrap();
        let sock: std::net::SocketAddr = "[::1]:80".parse().unwrap();
        let owned = String::from("a b");
        let boxed: Box<str> = "é&".into();
        let cow: std::borrow::Cow<'_, str> = "%".into();
        let vals: Vec<Box<dyn Display + '_>> = vec![
            Box::new(0u8), Box::new(u8::MAX), Box::new(i8::MIN), Box::new(u16::MAX), Box::new(i32::MIN), Box::new(u64::MAX), Box::new(i64::MIN), Box::new(u128::MAX),
            Box::new(i128::MIN), Box::new(usize::MAX), Box::new(1.5f32), Box::new(-0.0f64), Box::new(1e300f64), Box::new(f64::NAN), Box::new(f64::NEG_INFINITY),
            Box::new(true), Box::new('&'), Box::new('🦀'), Box::new(&owned), Box::new(owned.clone()), Box::new(&boxed), Box::new(cow), Box::new(ip), Box::new(sock),
            Box::new(format!("{:>5}", 1)), Box::new(std::num::NonZeroU64::MAX), Box::new(std::num::Wrapping(3)), Box::new(std::rc::Rc::new("rc/")), Box::new(std::path::Path::new("/a b").display().to_string()),
        ];
        let i = cx.pick(vals.len());
        let kind = *cx.of(&KINDS);
        let v: &dyn Display = &*vals[i];
        let mut c = Case::basic(kind);
        c.params.push(p("k", &v.to_string()));
        let req = oauth::request::AssertSorted::new([("k", v)]);
        let b = c.builder(oauth::HMAC_SHA1);
        let out = match kind {
            Kind::Header => b.authorize(&c.method, &c.uri, &req),
            Kind::Form => b.to_form(&c.method, &c.uri, &req),
            Kind::Query => b.to_query(&c.method, c.uri.text.clone(), &req),
        };
        cx.state(&out);
        verify(&c, &out, Sig::Hmac)?;
        ensure_eq!(oauth::to_form(&req), format!("k={}", r::pct(&v.to_string())), "form of a typed value");
        Ok(())
    });
}

// ------------------------------------------------------------------------------------------------

/// Values whose raw, numeric and encoded orders all differ.
pub const ORDER_VALUES: &[&str] = &["", "a", "A", "0", "10", "9", "~", "z", "!", "é", "b&c", "b", "%", "-", "{"];

pub fn c04(r: &mut Runner) {
    // User-written requests in merged order, AssertSorted and ParameterList.
    let (n, nk, nv) = (r.by(3, 4), r.by(KEYS.len(), 24), r.by(4, 6));
    r.scenario("sets", "every multiset of parameters (names clustered around the protocol names, values whose raw and encoded orders differ) x optional protocol parameters, through ParameterList, AssertSorted and a hand-written request", 0, move |cx| {
        let mut params = vec![];
        let len = cx.pick(n + 1);
        let mut lo = 0;
        for i in 0..len {
            // Multisets: keys in non-descending alphabet position.
            let span = if len == n { nk.min(16) } else { nk };
            if lo >= span {
                lo = span - 1;
            }
            let k = lo + cx.pick(span - lo);
            lo = k;
            // Spread over the alphabet for the longest lists.
            let key = if len == n { KEYS[(k * 3) % KEYS.len()] } else { KEYS[k] };
            let vals = if len >= n { 2 } else { nv };
            params.push(p(key, ORDER_VALUES[[1, 6, 9, 8, 12, 0][(cx.pick(vals) + i) % 6]]));
        }
        let flags = cx.pick(4);
        let mut c = Case::basic(KINDS[cx.pick(3)]);
        if flags & 1 != 0 {
            c.callback = Some("cb".into());
            c.version = true;
        }
        if flags & 2 != 0 {
            c.verifier = Some("v".into());
            c.token = None;
        }
        c.params = params;
        order_check(cx, &c)
    });
    r.scenario("dup-values", "every sequence of values under one name, in every position relative to the protocol names", 0, move |cx| {
        let key = *cx.of(&["a", "oauth_n", "oauth_tokem", "z"]);
        let len = cx.pick(r_len(cx) + 1);
        let mut c = Case::basic(KINDS[len % 3]);
        for _ in 0..len {
            c.params.push(p(key, cx.of(ORDER_VALUES)));
        }
        order_check(cx, &c)
    });
    r.scenario("absent-names", "names equal to protocol parameters the request does not carry", 0, move |cx| {
        let mut c = Case::basic(*cx.of(&KINDS));
        c.token = None;
        for k in ["oauth_callback", "oauth_token", "oauth_verifier", "oauth_version"] {
            for _ in 0..cx.pick(3) {
                c.params.push(p(k, ORDER_VALUES[cx.pick(3)]));
            }
        }
        order_check(cx, &c)
    });
    r.scenario("names", "every name of the corpus of parameter names among other parameters", 0, |cx| {
        let kind = *cx.of(&KINDS);
        let mut c = name_case(cx, kind);
        for p in &mut c.params {
            p.val.text = p.plain.clone();
            p.encoded = false;
        }
        order_check(cx, &c)
    });
    r.scenario("value-pairs", "every pair of values of at most one character (all of ASCII and some longer), bare, after a common character, and one a prefix of the other", 0, |cx| {
        let mut chars: Vec<String> = vec![String::new()];
        chars.extend((0..0x80u8).map(|b| char::from(b).to_string()));
        chars.extend(["\u{80}", "\u{e9}", "\u{7ff}", "\u{800}", "\u{ffff}", "\u{10000}", "\u{10ffff}"].map(String::from));
        let (x, y) = (cx.of(&chars).clone(), cx.of(&chars).clone());
        let mut c = Case::basic(Kind::Header);
        let (x, y) = match cx.pick(5) {
            0 => (x, y),
            4 => {
                let z: &str = if cx.quick() { *cx.of(&[" ", "\u{1}", "-", "~", "0", "%", "&"]) } else { &**cx.of(&chars) };
                (x + z, y)
            }
            1 => (x.clone(), x + &y),
            2 => (y.clone() + &x, y),
            _ => (format!("a{}b", x), format!("a{}", y)),
        };
        c.params = vec![p("k", &x), p("k", &y)];
        order_check(cx, &c)
    });
    let max = r.by(300, 1200);
    r.scenario("common-prefixes", "names, and values of one name, that share a prefix of every length", 0, move |cx| {
        let unit = *cx.of(&["x", "&", "~", "\u{e9}", "oauth_"]);
        // (fmt-cmp takes quadratic time.)
        let n = cx.pick(max + 4);
        let n = if n <= max { n } else { [1023, 1024, 2048][n - max - 1] };
        let t = unit.repeat(n);
        let names = cx.flag();
        let swap = cx.flag();
        let tails = *cx.of(&[["b", "a"], ["", "a"], ["~", "\u{e9}"], ["Z", "a"], ["-", "%"], ["aaaaaaaaaaaaaaaab", "aaaaaaaaaaaaaaaaa"]]);
        let mut c = Case::basic(Kind::Header);
        for i in [swap as usize, !swap as usize] {
            if names {
                let t = format!("{}{}", t, tails[i]).replace('&', "-").replace('\u{e9}', "_").replace('%', "0");
                c.params.push(p(&t, "v"));
            } else {
                c.params.push(p("k", &format!("{}{}", t, tails[i])));
            }
        }
        order_check(cx, &c)
    });
    let max = r.by(300, 600);
    r.scenario("long-lists", "every list length, several interleavings of the names", 0, move |cx| {
        let len = cx.pick(max + 1);
        let step = *cx.of(&[1usize, 3, 7, 11]);
        let mut c = Case::basic(Kind::Header);
        for i in 0..len {
            c.params.push(p(KEYS[(i * step) % KEYS.len()], ORDER_VALUES[(i * 5 + i / 7) % ORDER_VALUES.len()]));
        }
        order_check(cx, &c)
    });
}

fn r_len(cx: &Ctx) -> usize {
    if cx.quick() {
        4
    } else {
        5
    }
}

/// The signer gets every parameter once, in normalized order, whichever request type carries them.
pub fn order_check(cx: &mut Ctx, c: &Case) -> Verdict {
    use oauth::request::{AssertSorted, ParameterList};
    let raw: Vec<(String, String)> = c.pairs();
    let sorted = c.request();
    let list = ParameterList::<_, _>::new(raw.clone());
    let run = |req: &dyn Fn(Spy) -> String| {
        let s = spy(SPY);
        let out = req(s.clone());
        (out, s)
    };
    let go = |b: oauth::Builder<'_, Spy, &str, &str>, which: usize| -> String {
        macro_rules! k {
            ($r:expr) => {
                match c.kind {
                    Kind::Header => b.authorize(&c.method, &c.uri, $r),
                    Kind::Form => b.to_form(&c.method, &c.uri, $r),
                    Kind::Query => b.to_query(&c.method, c.uri.text.clone(), $r),
                }
            };
        }
        match which {
            0 => k!(&sorted),
            1 => k!(&AssertSorted::new(sorted.0.iter().map(|p| (&p.key, &p.plain)))),
            _ => k!(&list),
        }
    };
    let mut first: Option<String> = None;
    for which in 0..3 {
        let (out, s) = run(&|s| go(c.builder(s), which));
        let seen = dissect(c, &out, Sig::Other("SPY"))?;
        let name = ["hand-written request", "AssertSorted", "ParameterList"][which];
        ensure_eq!(fed(&s.0, "SPY"), c.base_string(&seen.proto), "base string through {} for {:?}", name, raw);
        if let Some(f) = &first {
            ensure_eq!(&out, f, "output through {} differs", name);
        } else {
            cx.state(&(&out, fed(&s.0, "SPY")));
            cx.note(|| format!("{:?} => {}", raw, fed(&s.0, "SPY")));
            first = Some(out);
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------

const UNITS: &[&str] = &["k", "&", "é", "🦀", "a/", "~-"];

pub fn c05(r: &mut Runner) {
    let (a, b) = (r.by(150, 300), r.by(150, 300));
    r.scenario("lengths", "client secret lengths x token secret lengths (or no token) x character classes: keys below, at and above the hash block", 0, move |cx| {
        let unit = *cx.of(&UNITS[..2]);
        let unit2 = *cx.of(&UNITS[..2]);
        let cs = unit.repeat(cx.pick(a));
        let ts = match cx.pick(b + 1) {
            0 => None,
            i => Some(unit2.repeat(i - 1)),
        };
        key_check(cx, &cs, ts.as_deref())
    });
    r.scenario("mixed", "each mixture of units up to a length, then padding around the block size", 0, move |cx| {
        let mut s = [String::new(), String::new()];
        for t in s.iter_mut() {
            for _ in 0..cx.pick(3) {
                t.push_str(cx.of(UNITS));
            }
            let pad = *cx.of(&[0usize, 1, 19, 20, 21, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 127, 128]);
            t.push_str(&"p".repeat(pad));
        }
        let ts = if cx.flag() { None } else { Some(&*s[1]) };
        key_check(cx, &s[0], ts)
    });
    r.scenario("texts", "all pairs of secrets from the text alphabet, every kind of output", 0, move |cx| {
        let mut c = Case::basic(*cx.of(&KINDS));
        c.cs = (*cx.of(TEXTS)).into();
        match cx.pick(TEXTS.len() + 1) {
            0 => c.token = None,
            i => c.token.as_mut().unwrap().1 = TEXTS[i - 1].into(),
        }
        let out = c.run(oauth::HMAC_SHA1);
        cx.state(&out);
        verify(&c, &out, Sig::Hmac)?;
        Ok(())
    });
    r.scenario("wide-texts", "the wide corpus as client secret, token secret or both, with and without a token", 0, move |cx| {
        let place = cx.pick(4);
        let t = texts::any(cx);
        match place {
            0 => key_check(cx, &t, None),
            1 => key_check(cx, &t, Some("t")),
            2 => key_check(cx, "c", Some(&t)),
            _ => key_check(cx, &t, Some(&t)),
        }
    });
    r.scenario("huge", "very long secrets", 0, move |cx| {
        let n = *cx.of(&[255usize, 256, 257, 1000, 4095, 4096, 65535, 65536, 1 << 20]);
        let unit = *cx.of(UNITS);
        let (cs, ts) = if cx.flag() { (unit.repeat(n), None) } else { (String::new(), Some(unit.repeat(n))) };
        key_check(cx, &cs, ts.as_deref())
    });
    let max = r.by(600, 3000);
    r.scenario("messages", "every length of message, fed in different pieces", 0, move |cx| {
        let n = cx.pick(max);
        let cut = *cx.of(&[0usize, 1, 2, 3]);
        let text = "m".repeat(n);
        let mut s = oauth::HMAC_SHA1.sign_with("c", Some("t"));
        s.request_method("GET");
        s.uri(Val { text: "u".into(), split: Split::Whole });
        let mask = [0, u64::MAX, 0x8080_8080_8080_8080, 0x1111_2222_4444_8001][cut];
        s.parameter("k", Val { text: text.clone(), split: Split::Mask(mask) });
        s.delimiter();
        s.parameter("l", "");
        let sig = s.end().to_string();
        cx.state(&sig);
        ensure_eq!(sig, r::pct(&r::hmac_signature(&format!("GET&u&k%3D{}%26l%3D", text), "c", Some("t"))), "signature of a {}-byte message", n);
        Ok(())
    });
}

/// Signs directly with the signature method and through a header.
fn key_check(cx: &mut Ctx, cs: &str, ts: Option<&str>) -> Verdict {
    let mut s = oauth::HMAC_SHA1.sign_with(cs, ts);
    s.request_method("GET");
    s.uri("http%3A%2F%2Fe%2F");
    s.parameter("a", "b");
    let sig = s.end().to_string();
    cx.state(&sig);
    cx.note(|| format!("secrets {:?} {:?} => {}", cs, ts, sig));
    let want = r::hmac_signature("GET&http%3A%2F%2Fe%2F&a%3Db", cs, ts);
    ensure_eq!(sig, r::pct(&want), "HMAC-SHA1 under client secret {:?} and token secret {:?}", cs, ts);
    Ok(())
}

// ------------------------------------------------------------------------------------------------

/// A caller's buffer type for PLAINTEXT: fixed capacity, no allocation.
#[derive(Clone)]
pub struct Fixed<const N: usize>(pub [u8; N], pub usize);
impl<const N: usize> Default for Fixed<N> {
    fn default() -> Self {
        Fixed([0; N], 0)
    }
}
impl<const N: usize> std::fmt::Write for Fixed<N> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let e = self.1 + s.len();
        self.0.get_mut(self.1..e).ok_or(std::fmt::Error)?.copy_from_slice(s.as_bytes());
        self.1 = e;
        Ok(())
    }
}
impl<const N: usize> std::fmt::Display for Fixed<N> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(std::str::from_utf8(&self.0[..self.1]).unwrap())
    }
}
pub fn c06(r: &mut Runner) {
    let k = r.by(2, 3);
    r.scenario("dims", "all combinations of at most `bound` departures from a plain request over every dimension, for each kind of output", k, move |cx| {
        let kind = *cx.of(&KINDS);
        let c = any_case(cx, kind);
        let out = c.run(oauth::PLAINTEXT);
        cx.state(&abstract_of(&c, &out));
        cx.note(|| format!("{:?} => {}", c, out));
        verify(&c, &out, Sig::Plain)?;
        Ok(())
    });
    let k = r.by(2, 3);
    r.scenario("relations", "texts that are equal to, or a beginning or end of, one another", k, move |cx| {
        let kind = *cx.of(&KINDS);
        let c = relations_case(cx, kind);
        let out = c.run(oauth::PLAINTEXT);
        cx.state(&out);
        verify(&c, &out, Sig::Plain)?;
        Ok(())
    });
    r.scenario("secrets", "all pairs of secrets from the text alphabet x every kind of output x buffer type", 0, move |cx| {
        let mut c = Case::basic(*cx.of(&KINDS));
        c.cs = (*cx.of(TEXTS)).into();
        match cx.pick(TEXTS.len() + 1) {
            0 => c.token = None,
            i => c.token.as_mut().unwrap().1 = TEXTS[i - 1].into(),
        }
        let out = match cx.pick(4) {
            0 => c.run(oauth::PLAINTEXT),
            1 => c.run(Plaintext::<Fixed<4096>>::with_buf()),
            2 => c.run(Plaintext::<Pieces>::default()),
            _ => c.run(Plaintext::<String>::with_buf()),
        };
        cx.state(&out);
        verify(&c, &out, Sig::Plain)?;
        Ok(())
    });
    r.scenario("wide-texts", "the wide corpus as client secret, token secret or both, with and without a token; then at every other place", 0, move |cx| {
        let field = cx.pick(FIELDS + 1);
        let t = texts::any(cx);
        let mut c = Case::basic(if field == 1 || field > 10 { Kind::Header } else { KINDS[field % 3] });
        if field < FIELDS {
            place(&mut c, field, &t);
        } else {
            place(&mut c, 1, &t);
            place(&mut c, 3, &t);
        }
        let out = c.run(oauth::PLAINTEXT);
        cx.state(&out);
        verify(&c, &out, Sig::Plain)?;
        Ok(())
    });
    let max = r.by(300, 2000);
    r.scenario("lengths", "every length of either secret in three character classes", 0, move |cx| {
        let t = cx.of(&["s", "%", "é"]).repeat(cx.pick(max));
        let mut c = Case::basic(*cx.of(&KINDS));
        if cx.flag() {
            c.cs = t;
        } else {
            c.token.as_mut().unwrap().1 = t;
        }
        let out = c.run(oauth::PLAINTEXT);
        cx.state(&out);
        verify(&c, &out, Sig::Plain)?;
        Ok(())
    });
    r.scenario("sign-calls", "the signature does not depend on any sequence of calls made on the signer", 0, move |cx| {
        let cs = *cx.of(&["cs", "a&b", ""]);
        let ts = *cx.of(&[None, Some("ts"), Some("%"), Some("")]);
        let mut s = oauth::PLAINTEXT.sign_with(cs, ts);
        let n = cx.pick(4);
        for _ in 0..n {
            match cx.pick(13) {
                0 => s.request_method("GET"),
                1 => s.uri("http"),
                2 => s.parameter("k", "v"),
                3 => s.delimiter(),
                4 => s.callback("c"),
                5 => s.consumer_key("c"),
                6 => s.nonce("n"),
                7 => s.signature_method(),
                8 => s.timestamp(1),
                9 => s.token("t"),
                10 => s.verifier("v"),
                11 => s.version(),
                _ => s = s.clone(),
            }
        }
        ensure!(s.use_nonce() && s.use_timestamp(), "PLAINTEXT opts out of nonce or timestamp");
        let sig = s.end().to_string();
        cx.state(&sig);
        ensure_eq!(r::unpct(&sig)?, r::signing_key(cs, ts), "PLAINTEXT signature of {:?}/{:?}", cs, ts);
        Ok(())
    });
}
