//! C26: run under an interpreter that stops at undefined behaviour (Miri).
#[allow(dead_code, unused_imports)]
#[path = "../../h/src/common.rs"]
mod common;
#[allow(dead_code, unused_imports)]
#[path = "../../h/src/c15.rs"]
mod c15;

use common::*;
use mccore::refimpl as r;
use mccore::*;
use oauth::request::ParameterList;
use oauth::serializer::auth::{self, Authorizer};
use oauth::serializer::{Recorder, Serializer};
use oauth::signature_method::{rsa_sha1_06 as m06, rsa_sha1_09 as m09, Plaintext, Sign, SignatureMethod, HMAC_SHA1};
use oauth::{Builder, Credentials, Request, Token};
use oauth1_request as oauth;
use std::cell::Cell;
use std::fmt::{self, Debug, Display, Write};
use std::sync::OnceLock;

/// Executions are shared out among processes by their first choice.
fn mine(cx: &mut Ctx, n: usize) -> Option<usize> {
    static SHARD: OnceLock<(usize, usize)> = OnceLock::new();
    let (k, of) = *SHARD.get_or_init(|| {
        let s = std::env::var("MC_SHARD").unwrap_or("0/1".into());
        let (k, of) = s.split_once('/').unwrap();
        (k.parse().unwrap(), of.parse().unwrap())
    });
    (k < n).then(|| cx.pick((n - k).div_ceil(of)) * of + k)
}

/// Text that came as a `str` really is one.
fn sound(s: &str) {
    assert!(std::str::from_utf8(s.as_bytes()).is_ok(), "a string slice is not valid UTF-8: {:x?}", s.as_bytes());
}
/// A sink that looks at the pieces.
#[derive(Clone, Debug, Default)]
struct Sink(String);
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        sound(s);
        self.0.push_str(s);
        Ok(())
    }
}
impl Display for Sink {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
/// A method that looks at everything it is given. Its signature is the base string.
#[derive(Clone, Debug, Default)]
struct Watch(Sink);
impl SignatureMethod for Watch {
    type Sign = Watch;
    fn sign_with(self, c: &str, t: Option<&str>) -> Watch {
        sound(c);
        t.map(sound);
        self
    }
}
impl Sign for Watch {
    type Signature = String;
    fn get_signature_method_name(&self) -> &'static str {
        "WATCH"
    }
    fn request_method(&mut self, m: &str) {
        write!(self.0, "{}&", m).unwrap();
    }
    fn uri<T: Display>(&mut self, u: T) {
        write!(self.0, "{}&", u).unwrap();
    }
    fn parameter<V: Display>(&mut self, k: &str, v: V) {
        write!(self.0, "{}%3D{}", k, v).unwrap();
    }
    fn delimiter(&mut self) {
        write!(self.0, "%26").unwrap();
    }
    fn end(self) -> String {
        let s = &self.0 .0;
        r::pct(s)
    }
}

/// Runs a case with sinks that look at the pieces.
fn with_sink<SM: SignatureMethod + Clone>(c: &Case, sm: SM) -> String {
    let b = c.builder(sm);
    let q = c.request();
    match c.kind {
        Kind::Header => b.authorize_with_buf(Sink::default(), &c.method, &c.uri, &q).0,
        Kind::Form => b.to_form_with_buf(Sink::default(), &c.method, &c.uri, &q).0,
        Kind::Query => b.to_query(&c.method, Sink(c.uri.text.clone()), &q).0,
    }
}
fn check(c: &Case, method: usize) -> Verdict {
    let out = match method {
        0 => with_sink(c, Watch::default()),
        1 => with_sink(c, Plaintext::<String>::with_buf()),
        2 => with_sink(c, HMAC_SHA1),
        3 => with_sink(c, either::Either::<Watch, Plaintext>::Left(Watch::default())),
        _ => with_sink(c, either::Either::<Watch, Plaintext>::Right(Plaintext::new())),
    };
    sound(&out);
    match method {
        0 | 3 => {
            let seen = dissect(c, &out, Sig::Other("WATCH"))?;
            ensure_eq!(seen.signature, c.base_string(&seen.proto), "base string of {:?}", out);
        }
        2 => {
            verify(c, &out, Sig::Hmac)?;
        }
        _ => {
            verify(c, &out, Sig::Plain)?;
        }
    }
    Ok(())
}


const REPS: [char; 8] = ['a', ' ', '%', '~', '\0', 'é', '日', '😀'];
fn texts_upto(n: usize) -> Vec<String> {
    let mut all = vec![String::new()];
    let mut last = all.clone();
    for _ in 0..n {
        last = last.iter().flat_map(|s| REPS.iter().map(move |c| format!("{}{}", s, c))).collect();
        all.extend(last.clone());
    }
    all
}
/// Puts a text at one of nine places.
fn put(c: &mut Case, place: usize, t: &str, split: Split) {
    match place {
        0 => c.params = vec![param("a", t, split, false)],
        1 => c.params = vec![param("oauth_o", t, split, true), param("z", t, split, false)],
        2 => c.uri = Val { text: format!("http://e/{}", t), split },
        3 => c.callback = Some(t.into()),
        4 => c.verifier = Some(t.into()),
        5 => c.ck = t.into(),
        6 => c.cs = t.into(),
        7 => c.token = Some((t.into(), t.into())),
        _ => c.nonce = Some(t.into()),
    }
}
const PLACES: usize = 9;

/// A value that panics at its n-th formatting.
struct Bomb(Cell<usize>);
impl Display for Bomb {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let n = self.0.get();
        self.0.set(n.wrapping_sub(1));
        f.write_str("é&")?;
        assert!(n != 0, "bomb");
        f.write_char('~')
    }
}
/// A value that owns memory, is counted, and panics when a fuse common to several has burnt.
struct Fused<'a> {
    text: Box<str>,
    fuse: &'a Cell<isize>,
    alive: &'a Cell<isize>,
}
impl<'a> Fused<'a> {
    fn new(text: &str, fuse: &'a Cell<isize>, alive: &'a Cell<isize>) -> Self {
        alive.set(alive.get() + 1);
        Fused { text: text.into(), fuse, alive }
    }
}
impl Drop for Fused<'_> {
    fn drop(&mut self) {
        self.alive.set(self.alive.get() - 1);
    }
}
impl Display for Fused<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.text[..1.max(self.text.len() - 1)])?;
        if self.fuse.get() > 0 {
            self.fuse.set(self.fuse.get() - 1);
            assert!(self.fuse.get() != 0, "burnt");
        }
        f.write_str(&self.text[1.max(self.text.len() - 1)..])
    }
}
/// A value that signs another request while it is written.
struct Nested;
impl Display for Nested {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("é")?;
        let c = Case::basic(Kind::Form);
        f.write_str(&c.builder(Plaintext::<String>::with_buf()).to_form("GET", "http://e/", &ParameterList::new([("k", "v ")])))
    }
}
struct One<'a, D>(&'a D);
impl<D: Display> Request for One<'_, D> {
    fn serialize<S: Serializer>(&self, mut s: S) -> S::Output {
        s.serialize_parameter("a", self.0);
        for i in 0..8 {
            slot(&mut s, i);
        }
        s.end()
    }
}
#[derive(oauth::Request)]
struct Derived<'a> {
    a: &'a str,
    #[oauth1(skip_if = str::is_empty, fmt = str_fmt)]
    b: &'a str,
    oauth_o: Option<u32>,
    #[oauth1(encoded, rename = "z~")]
    z: &'a str,
}
fn str_fmt(s: &str, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    write!(f, "<{}>", s)
}

/// Something a thread does with what it shares with others.
fn op(i: usize, b: &Builder<'_, Plaintext, &str, &str>, h: &Builder<'_, oauth::HmacSha1, &str, &str>, l: &ParameterList<&str, &str, [(&'static str, &'static str); 2], (&'static str, &'static str)>, t: &Token) -> String {
    match i {
        0 => b.authorize("GET", "http://e/é", l),
        1 => h.to_form("POST", "http://e/", l),
        2 => h.to_query("PUT", "http://e/x".to_string(), &Derived { a: "é", b: "b", oauth_o: Some(1), z: "%20" }),
        // With a nonce and a time of its own.
        3 => oauth::get("http://e/", l, t, Plaintext::<String>::with_buf()),
        4 => {
            let r = l.serialize(Recorder::new());
            assert!(r == l.serialize(Recorder::new()));
            format!("{:?}", r)
        }
        5 => oauth::to_form(l) + &oauth::to_query("http://e/é".into(), l) + &format!("{:?} {:?}", t, b),
        _ => serde_json::to_string(&t.token).unwrap() + t.as_ref().map(String::from).client().secret(),
    }
}
const OPS: usize = 7;

/// The key of 368 bits.
fn keys() -> (m06::RsaPrivateKey, m09::RsaPrivateKey) {
    let der = include_bytes!("s368.p8");
    (<m06::RsaPrivateKey as m06::DecodePrivateKey>::from_pkcs8_der(der).unwrap(), <m09::RsaPrivateKey as m09::DecodePrivateKey>::from_pkcs8_der(der).unwrap())
}

pub fn c26(rn: &mut Runner) {
    let miri = cfg!(miri);
    if miri {
        rn.assumptions.push("undefined behaviour is what Miri takes for it (stacked borrows; data races by happens-before, which does not depend on the schedule)".into());
    }
    let quick = rn.quick();
    let by = |q: usize, t: usize| if quick { q } else { t };
    let texts = texts_upto(if miri { by(1, 2) } else { by(4, 5) });
    rn.scenario("texts", "all short texts over the classes of characters x places x ways of writing x methods: what signers and sinks are given are valid strings, and the result is right", 0, |cx| {
        let Some(i) = mine(cx, texts.len() * PLACES) else { return Ok(()) };
        let (t, place) = (&*texts[i / PLACES], i % PLACES);
        let split = if place < 3 { [Split::Whole, Split::Chars, Split::Mask(0b10)][cx.pick(3)] } else { Split::Whole };
        let mut c = Case::basic(if miri { KINDS[i % 3] } else { KINDS[cx.pick(3)] });
        put(&mut c, place, t, split);
        let method = if miri { [0, 1][cx.pick(2)] } else { cx.pick(5) };
        cx.state(&(i, split, c.kind, method));
        check(&c, method)
    });
    // All ASCII, and the ends of each length of encoding.
    let mut chars: Vec<char> = (0..0x80u8).map(char::from).collect();
    chars.extend(['\u{80}', '\u{bf}', '\u{c0}', '\u{ff}', '\u{7ff}', '\u{800}', '\u{fff}', '\u{d7ff}', '\u{e000}', '\u{ffff}', '\u{10000}', '\u{3ffff}', '\u{40000}', '\u{10ffff}']);
    if !miri {
        chars = ('\0'..=if rn.quick() { '\u{ffff}' } else { char::MAX }).collect();
    }
    rn.scenario("characters", "every character (under Miri: of ASCII and at the ends of each length of encoding) as a value", 0, |cx| {
        let Some(i) = mine(cx, chars.len()) else { return Ok(()) };
        let mut c = Case::basic(Kind::Form);
        put(&mut c, 0, &format!("a{}b", chars[i]), Split::Whole);
        cx.state(&i);
        check(&c, 0)
    });
    let n = if miri { by(20, 70) } else { by(300, 3000) };
    rn.scenario("lengths", "every length of runs of plain and reserved characters", 0, |cx| {
        let Some(i) = mine(cx, n * 3) else { return Ok(()) };
        let mut c = Case::basic(Kind::Header);
        put(&mut c, 0, &["a", "é", "a%"][i % 3].repeat(i / 3), Split::Whole);
        cx.state(&i);
        check(&c, if miri { 0 } else { cx.pick(3) })
    });
    rn.scenario("entry-points", "every entry point", 0, |cx| {
        let Some(i) = mine(cx, c15::ENTRIES) else { return Ok(()) };
        let mut c = Case::basic(Kind::Header);
        c.params = vec![p("a", "é%"), p("oauth_o", "~")];
        c.callback = Some("http://é/".into());
        let out = match cx.pick(3) {
            0 => c15::entry(i, &c, Plaintext::<String>::with_buf()),
            1 => c15::entry(i, &c, HMAC_SHA1),
            _ => c15::entry(i, &c, either::Either::<Watch, Plaintext>::Left(Watch::default())),
        };
        out.iter().for_each(|s| sound(s));
        // Times and nonces differ from run to run.
        cx.state(&(i, out.is_some()));
        Ok(())
    });
    let k = by(2, 3);
    rn.scenario("lists", "parameter lists of every short history, signed", 0, |cx| {
        const P: [(&str, &str); 4] = [("a", "é"), ("a", "~"), ("oauth_o", "\0"), ("", "😀")];
        let Some(i) = mine(cx, 16) else { return Ok(()) };
        let mut l = ParameterList::new(if i / 4 == 0 { vec![] } else { vec![P[i / 4], P[i % 4]] });
        let ext: Vec<_> = (0..cx.pick(k + 1)).map(|_| *cx.of(&P)).collect();
        l.extend(ext.iter().copied());
        let c = Case::basic(Kind::Form);
        let out = c.builder(Watch::default()).to_form_with_buf(Sink::default(), "GET", "http://e/", &l).0;
        let again = ParameterList::<_, _, Vec<_>>::from_sorted(AsRef::<[(&str, &str)]>::as_ref(&l).to_vec()).ok_or("not sorted")?;
        ensure!(again.iter().eq(l.iter()), "iteration");
        let joined: ParameterList<_, _, Vec<_>> = AsRef::<[(&str, &str)]>::as_ref(&l).iter().rev().copied().collect();
        ensure_eq!(c.builder(Watch::default()).to_form("GET", "http://e/", &joined), out, "lists");
        cx.state(&(i, &ext, out));
        Ok(())
    });
    let by_len = by(3, 4);
    rn.scenario("lists-interrupted", "lists made, extended, sorted and written with values that own memory and panic at any point: no value is lost, doubled or dropped twice", 0, |cx| {
        let Some(i) = mine(cx, 4 * by_len) else { return Ok(()) };
        let vals: Vec<usize> = (0..=i / 4).map(|_| cx.pick(if miri { 2 } else { 3 })).collect();
        let same_key = cx.flag();
        let at = cx.pick(1 + 2 * vals.len() * if miri { 1 } else { 2 });
        let (fuse, alive) = (Cell::new(0), Cell::new(0isize));
        let pairs: Vec<(String, Fused)> = vals.iter().enumerate().map(|(j, v)| (if same_key { "a".into() } else { format!("k{}", v) }, Fused::new(&format!("{}{}", ["é", "b", "~"][*v], j), &fuse, &alive))).collect();
        let mut want: Vec<String> = pairs.iter().map(|(_, v)| v.text.to_string()).collect();
        want.sort();
        let holds = |l: &mut dyn Iterator<Item = &(String, Fused)>| {
            let mut have: Vec<String> = l.map(|(_, v)| v.text.to_string()).collect();
            have.sort();
            have
        };
        let arm = |n: usize| fuse.set(n as isize + 1);
        let done;
        match i % 4 {
            0 => {
                arm(at);
                done = catch(|| drop(ParameterList::new(pairs))).is_ok();
            }
            1 => {
                // The list is still there after the panic.
                let mut l = ParameterList::<_, _, Vec<_>>::default();
                let half = vals.len() / 2;
                let mut it = pairs.into_iter();
                l.extend(it.by_ref().take(half));
                let before = holds(&mut l.iter());
                arm(at);
                done = catch(|| l.extend(it)).is_ok();
                fuse.set(0);
                let have = holds(&mut l.iter());
                ensure!(have.len() == alive.get() as usize && have.windows(2).all(|w| w[0] != w[1]), "{:?} in the list after the panic, {} values", have, alive.get());
                ensure!(want.iter().all(|v| have.contains(v) || !done && !before.contains(v)), "{:?} of {:?} left", have, want);
                l.extend(vec![]);
                ensure_eq!(holds(&mut l.into_inner().iter()), have, "the list extended again");
            }
            2 => {
                let mut l = pairs;
                arm(at);
                done = catch(|| ParameterList::from(&mut l[..]).iter().count()).is_ok();
                fuse.set(0);
                ensure_eq!(holds(&mut l.iter()), want, "the slice after the panic");
            }
            _ => {
                let l = ParameterList::new(pairs);
                arm(at);
                let b = Case::basic(KINDS[1]);
                done = catch(|| b.builder(Watch::default()).to_form("GET", "http://e/", &l)).is_ok();
                fuse.set(0);
                ensure_eq!(holds(&mut l.iter()), want, "the list after the signing");
            }
        }
        ensure_eq!(alive.get(), 0, "values that are left");
        cx.state(&(i, &vals, same_key, at, done));
        Ok(())
    });
    rn.scenario("derived", "derived requests through every kind of output", 0, |cx| {
        let Some(i) = mine(cx, 24) else { return Ok(()) };
        let d = Derived { a: ["é", "%"][i % 2], b: ["", "😀"][i / 2 % 2], oauth_o: if i / 4 % 2 == 0 { None } else { Some(7) }, z: "%7F" };
        let mut c = Case::basic(KINDS[i / 8]);
        c.params = vec![p("a", d.a), p("z~", "\x7f")];
        c.params.extend((!d.b.is_empty()).then(|| p("b", "<😀>")));
        c.params.extend(d.oauth_o.map(|_| p("oauth_o", "7")));
        let b = c.builder(HMAC_SHA1);
        let out = match c.kind {
            Kind::Header => b.authorize(&c.method, &c.uri, &d),
            Kind::Form => b.to_form(&c.method, &c.uri, &d),
            Kind::Query => b.to_query(&c.method, c.uri.text.clone(), &d),
        };
        cx.state(&out);
        verify(&c, &out, Sig::Hmac).map(|_| ())
    });
    rn.scenario("interrupted", "values that panic or sign within signings, after which signing goes on; serializers cloned and abandoned", 0, |cx| {
        let Some(i) = mine(cx, 24) else { return Ok(()) };
        let c = Case::basic(KINDS[i % 3]);
        let b = c.builder(HMAC_SHA1);
        match i / 3 {
            n @ 0..=3 => {
                let bomb = Bomb(Cell::new(n));
                let r = catch(|| match c.kind {
                    Kind::Header => b.authorize("GET", "http://e/", &One(&bomb)),
                    Kind::Form => b.to_form("GET", "http://e/", &One(&bomb)),
                    Kind::Query => b.to_query("GET", "http://e/".to_string(), &One(&bomb)),
                });
                cx.state(&(i, r.is_ok()));
            }
            4 | 5 => {
                let out = b.to_form("GET", "http://e/", &One(&Nested));
                sound(&out);
                cx.state(&out);
            }
            n => {
                let opts = auth::Options::new();
                let mut a = Authorizer::authorization("GET", "http://e/", Credentials::new("ck", "cs"), None, &opts, Plaintext::<String>::with_buf());
                for s in 0..n {
                    slot(&mut a, s);
                }
                let mut other = a.clone();
                drop(a);
                for s in n..8 {
                    slot(&mut other, s);
                }
                let out = other.end();
                sound(&out);
                cx.state(&i);
            }
        }
        check(&c, 2)
    });
    // Each pair in Miri, which notices a race in whatever order the threads run; and three at once.
    rn.scenario("threads", "pairs of operations at the same time in threads that share builders, lists and credentials: no data races", 0, |cx| {
        let Some(i) = mine(cx, OPS * OPS + OPS) else { return Ok(()) };
        let ops = if i < OPS * OPS { vec![i / OPS, i % OPS] } else { vec![i - OPS * OPS; 3] };
        let c = Case::basic(Kind::Header);
        let (b, h) = (c.builder(Plaintext::new()), c.builder(HMAC_SHA1));
        let l = ParameterList::new([("a", "é"), ("b", "%")]);
        let t = Token::from_parts("ck", "cs", "tk", "ts").map(String::from);
        let alone: Vec<String> = ops.iter().map(|&o| op(o, &b, &h, &l, &t)).collect();
        let outs: Vec<String> = std::thread::scope(|s| {
            let (b, h, l, t) = (&b, &h, &l, &t);
            let js: Vec<_> = ops.iter().map(|&o| s.spawn(move || op(o, b, h, l, t))).collect();
            js.into_iter().map(|j| j.join().unwrap()).collect()
        });
        for ((o, x), y) in ops.iter().zip(&alone).zip(&outs) {
            ensure!(*o == 3 || x == y, "operation {} gave {:?} alone and {:?} with others", o, x, y);
        }
        cx.state(&ops);
        Ok(())
    });
    rn.scenario("credentials", "conversions, views and serde of credentials of every short text", 0, |cx| {
        let Some(i) = mine(cx, REPS.len() * REPS.len()) else { return Ok(()) };
        let (x, y) = (REPS[i / REPS.len()].to_string(), REPS[i % REPS.len()].to_string());
        let t = Token::new(Credentials::new(x.clone(), y.clone()), Credentials::new(y.clone().into_boxed_str(), x.clone().into_boxed_str()));
        let t = t.map_client(String::into_boxed_str).map(String::from);
        let json = serde_json::to_string(&t.token).map_err(|e| e.to_string())?;
        let back: Credentials = serde_json::from_str(&json).map_err(|e| e.to_string())?;
        let owned: Credentials = serde_json::from_slice(&serde_json::to_vec(&t.client).unwrap()).map_err(|e| e.to_string())?;
        ensure!((back.identifier(), back.secret()) == (&*y, &*x) && (owned.identifier(), owned.secret()) == (&*x, &*y), "{:?} came back as {:?} {:?}", t, back, owned);
        let r = t.as_ref();
        for s in [r.client().identifier(), r.client().secret(), r.token().identifier(), r.token().secret(), &*format!("{:?}{:#?}", t, r)] {
            sound(s);
        }
        cx.state(&json);
        Ok(())
    });
    rn.scenario("rsa", "both implementations of RSA-SHA1, with keys passed by value and by reference", 0, |cx| {
        let Some(i) = mine(cx, 5) else { return Ok(()) };
        if miri && cx.quick() && i != 4 {
            return Ok(());
        }
        let (k06, k09) = keys();
        if i == 4 {
            // Signing takes Miri half a minute.
            let (a, b) = (AsRef::<m06::RsaSha1>::as_ref(&k06), AsRef::<m09::RsaSha1>::as_ref(&k09));
            let mut s = (a.sign_with("", None), b.sign_with("", None), a.clone().sign_with("", None));
            s.0.request_method("GET");
            s.1.uri("http://e/");
            sound(&format!("{:?} {:?} {:?}", s, a, b));
            cx.state(&i);
            return Ok(());
        }
        let c = Case::basic(Kind::Header);
        fn go<SM: SignatureMethod + Clone>(c: &Case, sm: SM) -> String {
            c.run(sm)
        }
        let out = match i {
            0 => go(&c, AsRef::<m06::RsaSha1>::as_ref(&k06)),
            1 => go(&c, AsRef::<m09::RsaSha1>::as_ref(&k09)),
            2 => go(&c, m06::RsaSha1::new(k06)),
            _ => go(&c, m09::RsaSha1::new(k09)),
        };
        sound(&out);
        cx.state(&out);
        Ok(())
    });
}

fn main() {
    mccore::main(&[("C26", c26)]);
}
