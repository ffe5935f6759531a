//! C15 / C16 / C17: misuse detection, failing sinks and values, `Debug` output.
use crate::common::*;
use mccore::refimpl as r;
use mccore::*;
use oauth::request::{AssertSorted, ParameterList};
use oauth::serializer::{auth, Authorizer, Serializer, Urlencoder};
use oauth::signature_method::{Plaintext, Sign, SignatureMethod, HMAC_SHA1};
use oauth::{Credentials, Request, Token};
use oauth1_request as oauth;
use std::cell::Cell;
use std::fmt::{self, Debug, Display, Write};
use std::num::NonZeroU64;
use std::rc::Rc;

fn low_options(c: &Case) -> auth::Options<'_> {
    let mut o = auth::Options::new();
    o.callback(c.callback.as_deref()).verifier(c.verifier.as_deref()).nonce(c.nonce.as_deref());
    o.timestamp(c.timestamp.and_then(NonZeroU64::new)).version(c.version);
    o
}
fn creds(c: &Case) -> (Credentials<&str>, Option<Credentials<&str>>) {
    (Credentials::new(&*c.ck, &*c.cs), c.token.as_ref().map(|(a, b)| Credentials::new(&**a, &**b)))
}

/// A URI buffer whose `Display` splits its text.
#[derive(Clone, Debug)]
struct UriBuf(Val);
impl Display for UriBuf {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        Display::fmt(&self.0, f)
    }
}
impl Write for UriBuf {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0.text.push_str(s);
        Ok(())
    }
}

pub const ENTRIES: usize = 55;
/// Every signing entry point, run for its effect. `None`: no such entry.
pub fn entry<SM: SignatureMethod + Clone>(i: usize, c: &Case, sm: SM) -> Option<String> {
    let b = c.builder(sm.clone());
    let (u, q, m) = (&c.uri, &c.request(), &*c.method);
    let w = || UriBuf(c.uri.clone());
    let t = Token::<&str, &str>::from_parts("ck", "cs", "tk", "ts");
    let o = low_options(c);
    let (cl, tk) = creds(c);
    let s = |x: UriBuf| x.to_string();
    fn hand<S: Serializer>(mut s: S) -> S::Output {
        for i in 0..8 {
            slot(&mut s, i);
        }
        s.end()
    }
    Some(match i {
        0 => b.authorize(m, u, q),
        1 => b.get(u, q),
        2 => b.put(u, q),
        3 => b.post(u, q),
        4 => b.delete(u, q),
        5 => b.options(u, q),
        6 => b.head(u, q),
        7 => b.connect(u, q),
        8 => b.patch(u, q),
        9 => b.trace(u, q),
        10 => b.to_form(m, u, q),
        11 => b.put_form(u, q),
        12 => b.post_form(u, q),
        13 => b.options_form(u, q),
        14 => b.patch_form(u, q),
        15 => s(b.to_query(m, w(), q)),
        16 => s(b.get_query(w(), q)),
        17 => s(b.put_query(w(), q)),
        18 => s(b.post_query(w(), q)),
        19 => s(b.delete_query(w(), q)),
        20 => s(b.options_query(w(), q)),
        21 => s(b.head_query(w(), q)),
        22 => s(b.connect_query(w(), q)),
        23 => s(b.patch_query(w(), q)),
        24 => s(b.trace_query(w(), q)),
        25 => b.authorize_with_buf(String::new(), m, u, q),
        26 => b.to_form_with_buf(String::new(), m, u, q),
        27 => b.into_authorization(m, u, q),
        28 => b.into_form(m, u, q),
        29 => s(b.into_query(m, w(), q)),
        30 => b.into_authorization_with_buf(String::new(), m, u, q),
        31 => b.into_form_with_buf(String::new(), m, u, q),
        32 => hand(Authorizer::<_>::authorization(m, u, cl, tk, &o, sm)),
        33 => hand(Authorizer::<_>::form(m, u, cl, tk, &o, sm)),
        34 => s(hand(Authorizer::<_, UriBuf>::query(m, w(), cl, tk, &o, sm))),
        35 => hand(Authorizer::authorization_with_buf(String::new(), m, u, cl, tk, &o, sm)),
        36 => hand(Authorizer::form_with_buf(String::new(), m, u, cl, tk, &o, sm)),
        // The free functions have no way to set the timestamp.
        _ if !cfg!(feature = "std") => return None,
        37 => oauth::get(u, q, &t, sm),
        38 => oauth::put(u, q, &t, sm),
        39 => oauth::post(u, q, &t, sm),
        40 => oauth::delete(u, q, &t, sm),
        41 => oauth::options(u, q, &t, sm),
        42 => oauth::head(u, q, &t, sm),
        43 => oauth::connect(u, q, &t, sm),
        44 => oauth::patch(u, q, &t, sm),
        45 => oauth::trace(u, q, &t, sm),
        46 => oauth::authorize(m, u, q, &t, sm),
        _ => return None,
    })
}

pub fn c15(rn: &mut Runner) {
    rn.assumptions.push("calling the slot of an absent protocol parameter out of order is left unspecified".into());
    const BASES: [&str; 6] = ["http://example.com/a", "é🦀/x", "", "http://e/％？", "http://e/%3F", "a"];
    if cfg!(debug_assertions) {
        rn.scenario("question-mark", "a `?` at every position of a URI x how its text is split into writes x every entry point x signature method", 0, |cx| {
            let base = *cx.of(&BASES);
            let mut cs: Vec<char> = base.chars().collect();
            let at = cx.pick(cs.len() + 1);
            cs.insert(at, '?');
            if cx.flag() {
                cs.push('?');
            }
            let split = match cx.pick(SPLITS.len() + 2) {
                i if i < SPLITS.len() => SPLITS[i],
                // The `?` alone in its write, or at the end of one.
                i if i == SPLITS.len() => Split::Mask(if at > 0 { 1 << (at - 1) | 1 << at } else { 1 }),
                _ => Split::Mask(1 << at),
            };
            let mut c = Case::basic(Kind::Header);
            c.uri = Val { text: cs.into_iter().collect(), split };
            let i = cx.pick(ENTRIES);
            if cx.flag() {
                c.params.push(p("a", "b"));
            }
            let which = cx.pick(3);
            let res = catch(|| match which {
                0 => entry(i, &c, HMAC_SHA1),
                1 => entry(i, &c, Plaintext::new()),
                _ => entry(i, &c, spy(SPY)),
            });
            cx.state(&(i, &c.uri));
            match res {
                Err(_) | Ok(None) => Ok(()),
                Ok(Some(o)) => Err(format!("entry point {} accepted the URI {:?} ({:?}): {:?}", i, c.uri.text, c.uri.split, o)),
            }
        });
        // Names out of order.
        let n = rn.by(3, 4);
        rn.scenario("misordered-names", "every sequence of names given to a signing serializer: it panics iff one is less than its predecessor", 1, move |cx| {
            const NAMES: [&str; 12] = ["a", "b", "oauth_a", "oauth_consumer_key", "oauth_d", "oauth_nonce", "oauth_o", "oauth_token", "oauth_u", "oauth_version~", "", "z"];
            let kind = *cx.of(&KINDS);
            let which = cx.pick(2);
            let len = cx.pick(n) + 1;
            // 0..12 parameters; then the slots.
            let ops: Vec<(usize, bool)> = (0..len).map(|_| (cx.pick(NAMES.len() + 8), cx.dflag())).collect();
            let mut c = Case::basic(kind);
            c.callback = Some("cb".into());
            c.verifier = Some("v".into());
            c.version = true;
            let o = low_options(&c);
            let (cl, tk) = creds(&c);
            fn go<SM: SignatureMethod>(c: &Case, o: &auth::Options<'_>, cl: Credentials<&str>, tk: Option<Credentials<&str>>, sm: SM, ops: &[(usize, bool)]) -> String
            where
                SM::Sign: Clone,
            {
                let mut s = match c.kind {
                    Kind::Header => Authorizer::<SM>::authorization(&c.method, &c.uri, cl, tk, o, sm),
                    Kind::Form => Authorizer::<SM>::form(&c.method, &c.uri, cl, tk, o, sm),
                    Kind::Query => Authorizer::<SM>::query(&c.method, c.uri.text.clone(), cl, tk, o, sm),
                };
                for &(op, enc) in ops {
                    if op >= NAMES.len() {
                        slot(&mut s, op - NAMES.len());
                    } else if enc {
                        s.serialize_parameter_encoded(NAMES[op], "x");
                    } else {
                        s.serialize_parameter(NAMES[op], "x");
                    }
                }
                s.end()
            }
            let res = catch(|| if which == 0 { go(&c, &o, cl, tk, HMAC_SHA1, &ops) } else { go(&c, &o, cl, tk, Plaintext::new(), &ops) });
            let names: Vec<&str> = ops.iter().map(|&(op, _)| if op < NAMES.len() { NAMES[op] } else { SLOTS[op - NAMES.len()] }).collect();
            let bad = names.windows(2).any(|w| w[0] > w[1]);
            cx.state(&(&names, res.is_ok()));
            ensure_eq!(res.is_err(), bad, "names {:?} => {:?}", names, res);
            Ok(())
        });
        rn.scenario("misordered-requests", "requests over unsorted iterators panic when signed", 0, |cx| {
            const NAMES: [&str; 7] = ["a", "b", "oauth_a", "oauth_nonce~", "oauth_token_", "oauth_z", "z"];
            let kind = *cx.of(&KINDS);
            let names: Vec<&str> = (0..3).map(|_| *cx.of(&NAMES)).collect();
            let c = Case::basic(kind);
            let req = AssertSorted::new(names.iter().map(|n| (n, "v")));
            let res = catch(|| match kind {
                Kind::Header => c.builder(HMAC_SHA1).authorize("GET", &c.uri, &req),
                Kind::Form => c.builder(HMAC_SHA1).to_form("GET", &c.uri, &req),
                Kind::Query => c.builder(HMAC_SHA1).to_query("GET", c.uri.text.clone(), &req),
            });
            cx.state(&names);
            ensure_eq!(res.is_err(), names.windows(2).any(|w| w[0] > w[1]), "AssertSorted over {:?} => {:?}", names, res);
            Ok(())
        });
    }
    rn.scenario("correct-uris", "URIs without `?` in every split through every entry point do not panic", 0, |cx| {
        let mut c = Case::basic(Kind::Header);
        let all: Vec<&str> = URIS.iter().chain(BASES.iter()).copied().collect();
        c.uri = Val { text: (*cx.of(&all)).into(), split: *cx.of(SPLITS) };
        let i = cx.pick(ENTRIES);
        let which = cx.pick(3);
        let res = catch(|| match which {
            0 => entry(i, &c, HMAC_SHA1),
            1 => entry(i, &c, Plaintext::new()),
            _ => entry(i, &c, spy(SPY)),
        });
        cx.state(&(i, &c.uri));
        ensure!(res.is_ok(), "entry point {} with the URI {:?} ({:?}): {:?}", i, c.uri.text, c.uri.split, res);
        Ok(())
    });
    rn.scenario("correct-names", "every non-descending sequence of names (equal ones, ones equal to absent protocol parameters) x every set of absent parameters: no panic, and a verifying result", 0, |cx| {
        let kind = *cx.of(&KINDS);
        let absent = cx.pick(8);
        let mut c = Case::basic(kind);
        let mut names: Vec<&str> = vec!["", "a", "oauth_a", "oauth_consumer_kez", "oauth_tokens", "oauth_versioo", "z"];
        if absent & 1 == 1 {
            c.token = None;
            names.push("oauth_token");
        }
        if absent & 2 == 0 {
            names.push("oauth_callback");
            names.push("oauth_verifier");
        } else {
            c.callback = Some("c".into());
            c.verifier = Some("v".into());
        }
        if absent & 4 == 0 {
            names.push("oauth_version");
        } else {
            c.version = true;
        }
        names.sort();
        let mut from = 0;
        for i in 0..3 {
            let k = cx.pick(names.len() - from + 1);
            if k == 0 {
                break;
            }
            from += k - 1;
            c.params.push(p(names[from], ["1", "2", "3"][i]));
        }
        let res = match cx.pick(2) {
            0 => catch(|| c.run(HMAC_SHA1)),
            _ => {
                let l: ParameterList<String, String> = c.pairs().into_iter().collect();
                let b = c.builder(HMAC_SHA1);
                catch(|| match kind {
                    Kind::Header => b.authorize(&c.method, &c.uri, &l),
                    Kind::Form => b.to_form(&c.method, &c.uri, &l),
                    Kind::Query => b.to_query(&c.method, c.uri.text.clone(), &l),
                })
            }
        };
        cx.state(&c);
        // The contents are checked by the general oracle, which knows such names as parameters.
        let out = res.map_err(|e| format!("{:?}: {}", c, e))?;
        verify(&c, &out, Sig::Hmac)?;
        Ok(())
    });
    rn.scenario("correct-use", "the space of all signing operations: no panic, and a verifying result", rn.by(2, 3), |cx| {
        let kind = *cx.of(&KINDS);
        let mut c = any_case(cx, kind);
        c.timestamp.get_or_insert(3);
        let out = catch(|| c.run(HMAC_SHA1)).map_err(|e| format!("{:?}: {}", c, e))?;
        cx.state(&abstract_of(&c, &out));
        verify(&c, &out, Sig::Hmac)?;
        let out = catch(|| c.run(Plaintext::new())).map_err(|e| format!("{:?}: {}", c, e))?;
        verify(&c, &out, Sig::Plain)?;
        Ok(())
    });
}

// ---------------------------------------------------------------------------------------------

/// How a sink fails.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Fault {
    /// Takes this many bytes; a write that does not fit is taken up to the limit, then an error.
    Cap(usize),
    /// Takes this many bytes; a write that does not fit is refused as a whole, later ones may fit.
    Refuse(usize),
    /// The n-th write fails once.
    Once(usize),
    /// The n-th write and all later ones fail.
    From(usize),
    Never,
}
#[derive(Clone, Debug)]
struct Sink {
    text: String,
    writes: usize,
    fault: Fault,
    failed: Rc<Cell<bool>>,
}
impl Sink {
    fn new(fault: Fault, failed: &Rc<Cell<bool>>) -> Sink {
        Sink { text: String::new(), writes: 0, fault, failed: failed.clone() }
    }
}
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let n = self.writes;
        self.writes += 1;
        let bad = match self.fault {
            Fault::Cap(c) => {
                if self.text.len() + s.len() > c {
                    let mut k = c - self.text.len().min(c);
                    while !s.is_char_boundary(k) {
                        k -= 1;
                    }
                    self.text.push_str(&s[..k]);
                    true
                } else {
                    false
                }
            }
            Fault::Refuse(c) => self.text.len() + s.len() > c,
            Fault::Once(k) => n == k,
            Fault::From(k) => n >= k,
            Fault::Never => false,
        };
        if bad {
            self.failed.set(true);
            return Err(fmt::Error);
        }
        self.text.push_str(s);
        Ok(())
    }
}
impl Display for Sink {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.text)
    }
}

/// A value or URI whose `Display` fails after so many characters, on its n-th formatting only or on
/// each.
#[derive(Clone, Debug)]
struct Flaky {
    text: String,
    after: usize,
    /// Fails on this formatting only (`usize::MAX`: on every one).
    on: usize,
    calls: Rc<Cell<usize>>,
    failed: Rc<Cell<bool>>,
}
impl Display for Flaky {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let n = self.calls.get();
        self.calls.set(n + 1);
        for (i, c) in self.text.chars().enumerate() {
            if i == self.after && (self.on == usize::MAX || self.on == n) {
                self.failed.set(true);
                return Err(fmt::Error);
            }
            f.write_char(c)?;
        }
        if self.after >= self.text.chars().count() && (self.on == usize::MAX || self.on == n) {
            self.failed.set(true);
            return Err(fmt::Error);
        }
        Ok(())
    }
}
struct FlakyReq<'a> {
    vals: Vec<(&'a str, &'a Flaky, bool)>,
}
impl Request for FlakyReq<'_> {
    fn serialize<S: Serializer>(&self, mut s: S) -> S::Output {
        let mut next = 0;
        for &(k, v, enc) in &self.vals {
            while next < 8 && SLOTS[next] < k {
                slot(&mut s, next);
                next += 1;
            }
            if enc {
                s.serialize_parameter_encoded(k, v);
            } else {
                s.serialize_parameter(k, v);
            }
        }
        for i in next..8 {
            slot(&mut s, i);
        }
        s.end()
    }
}

/// Signing and serializing operations that write into a caller's sink: 0..10.
fn into_sink<SM: SignatureMethod + Clone, U: Display, R: Request>(i: usize, c: &Case, sm: SM, sink: Sink, uri: U, q: &R) -> String {
    let b = c.builder(sm.clone());
    let o = low_options(c);
    let (cl, tk) = creds(c);
    match i {
        0 => b.authorize_with_buf(sink, &c.method, uri, q).text,
        1 => b.to_form_with_buf(sink, &c.method, uri, q).text,
        2 => b.to_query(&c.method, sink, q).text,
        3 => b.into_authorization_with_buf(sink, &c.method, uri, q).text,
        4 => b.into_form_with_buf(sink, &c.method, uri, q).text,
        5 => b.into_query(&c.method, sink, q).text,
        6 => q.serialize(Authorizer::authorization_with_buf(sink, &c.method, uri, cl, tk, &o, sm)).text,
        7 => q.serialize(Authorizer::form_with_buf(sink, &c.method, uri, cl, tk, &o, sm)).text,
        8 => q.serialize(Authorizer::query(&c.method, sink, cl, tk, &o, sm)).text,
        9 => q.serialize(Urlencoder::form_with_buf(sink)).text,
        _ => q.serialize(Urlencoder::query(sink)).text,
    }
}
/// The operations that own their buffer.
fn owned<SM: SignatureMethod + Clone, U: Display, R: Request>(i: usize, c: &Case, sm: SM, uri: U, q: &R) -> String {
    let b = c.builder(sm.clone());
    match i {
        0 => b.authorize(&c.method, uri, q),
        1 => b.to_form(&c.method, uri, q),
        2 => b.to_query(&c.method, c.uri.text.clone(), q),
        3 => b.into_authorization(&c.method, uri, q),
        4 => b.into_form(&c.method, uri, q),
        5 => b.into_query(&c.method, c.uri.text.clone(), q),
        6 => oauth::to_form(q),
        7 => oauth::to_query(c.uri.text.clone(), q),
        8 => b.post(uri, q),
        _ => b.post_form(uri, q),
    }
}

thread_local! {
    static CAP: Cell<usize> = const { Cell::new(0) };
}
/// A buffer for `PLAINTEXT` signatures of limited capacity.
#[derive(Clone, Debug)]
struct Capped(String, usize);
impl Default for Capped {
    fn default() -> Self {
        Capped(String::new(), CAP.with(Cell::get))
    }
}
impl Write for Capped {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        for c in s.chars() {
            if self.0.len() + c.len_utf8() > self.1 {
                return Err(fmt::Error);
            }
            self.0.push(c);
        }
        Ok(())
    }
}
impl Display for Capped {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}

/// A method that collects what it is given in a sink that may fail, and gives up when told so. Its
/// log has the kind of component, whether an error was returned and the text that arrived.
#[derive(Clone)]
struct Picky {
    sink: Sink,
    log: Rc<std::cell::RefCell<Vec<(&'static str, bool, String)>>>,
    failed: Rc<Cell<bool>>,
}
impl Picky {
    fn put(&mut self, what: &'static str, x: impl Display) {
        let start = self.sink.text.len();
        self.failed.set(false);
        let told = write!(self.sink, "{}", x).is_err();
        self.log.borrow_mut().push((what, told, self.sink.text[start..].to_string()));
        assert!(!told, "the signer's buffer failed");
    }
}
impl SignatureMethod for Picky {
    type Sign = Picky;
    fn sign_with(self, _: &str, _: Option<&str>) -> Picky {
        self
    }
}
impl Sign for Picky {
    type Signature = &'static str;
    fn get_signature_method_name(&self) -> &'static str {
        "PICKY"
    }
    fn request_method(&mut self, m: &str) {
        self.put("the method", m);
    }
    fn uri<T: Display>(&mut self, u: T) {
        self.put("the URI", u);
    }
    fn parameter<V: Display>(&mut self, k: &str, v: V) {
        self.put("a name", k);
        self.put("a value", v);
    }
    fn delimiter(&mut self) {
        self.put("a delimiter", "&");
    }
    fn end(self) -> &'static str {
        "ok"
    }
    fn callback<V: Display>(&mut self, v: V) {
        self.put("oauth_callback", v);
    }
    fn nonce<V: Display>(&mut self, v: V) {
        self.put("oauth_nonce", v);
    }
}

/// A method whose finalized value fails to format after so many characters.
#[derive(Clone)]
struct BadSig(usize);
struct BadText(usize);
impl Display for BadText {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        for (i, c) in "signature".chars().enumerate() {
            if i == self.0 {
                return Err(fmt::Error);
            }
            f.write_char(c)?;
        }
        Ok(())
    }
}
impl SignatureMethod for BadSig {
    type Sign = BadSig;
    fn sign_with(self, _: &str, _: Option<&str>) -> BadSig {
        self
    }
}
impl Sign for BadSig {
    type Signature = BadText;
    fn get_signature_method_name(&self) -> &'static str {
        "BAD"
    }
    fn request_method(&mut self, _: &str) {}
    fn uri<T: Display>(&mut self, _: T) {}
    fn parameter<V: Display>(&mut self, _: &str, _: V) {}
    fn delimiter(&mut self) {}
    fn end(self) -> BadText {
        BadText(self.0)
    }
}

fn rich_case() -> Case {
    let mut c = Case::basic(Kind::Header);
    c.uri.text = "http://e/é".into();
    c.callback = Some("http://cb/".into());
    c.verifier = Some("v&".into());
    c.version = true;
    c
}
/// A plain operation gives the right result, whatever failed before.
fn still_works() -> Verdict {
    for kind in KINDS {
        let mut c = Case::basic(kind);
        c.params = vec![p("a", "b c"), p("z", "é")];
        let out = catch(|| c.run(HMAC_SHA1)).map_err(|e| format!("after a failure: {}", e))?;
        verify(&c, &out, Sig::Hmac).map_err(|e| format!("after a failure: {}", e))?;
        let out = catch(|| c.run(Plaintext::new())).map_err(|e| format!("after a failure: {}", e))?;
        verify(&c, &out, Sig::Plain).map_err(|e| format!("after a failure: {}", e))?;
    }
    Ok(())
}

pub fn c16(rn: &mut Runner) {
    rn.assumptions.push("an operation that returns normally must have produced what it produces without any failure".into());
    rn.scenario("failing-sinks", "every byte capacity and every failing write (permanent and transient) x operation x method x request", 0, |cx| {
        let op = cx.pick(11);
        let which = cx.pick(2);
        let mut c = rich_case();
        match cx.pick(3) {
            0 => c.params = vec![param("a", "é b", Split::Chars, false), param("oauth_e", "x&", Split::Whole, true), p("z", "")],
            1 => {}
            _ => {
                c.token = None;
                c.version = false;
                c.params = vec![p("z", "v")];
            }
        }
        let q = c.request();
        let failed = Rc::new(Cell::new(false));
        let run = |f: Fault| {
            // Query operations start with the URI already in the sink.
            let mut s = Sink::new(f, &failed);
            if [2, 5, 8, 10].contains(&op) {
                s.text = c.uri.text.clone();
            }
            if which == 0 {
                into_sink(op, &c, HMAC_SHA1, s, &c.uri, &q)
            } else {
                into_sink(op, &c, Plaintext::new(), s, &c.uri, &q)
            }
        };
        let full = run(Fault::Never);
        let n = full.len();
        let fault = match cx.pick(4) {
            0 => Fault::Cap(cx.pick(n + 2)),
            1 => Fault::Refuse(cx.pick(n + 2)),
            2 => Fault::Once(cx.pick(n + 1)),
            _ => Fault::From(cx.pick(n + 1)),
        };
        let res = catch(|| run(fault));
        cx.state(&(op, which, fault, res.is_ok()));
        cx.note(|| format!("{:?} on {} of {} bytes => {:?}", fault, op, n, res));
        if let Ok(out) = &res {
            ensure_eq!(out, &full, "operation {} returned normally although the sink failed ({:?})", op, fault);
        } else {
            ensure!(failed.get(), "operation {} panicked without a failure: {:?}", op, res);
        }
        still_works()
    });
    rn.scenario("failing-values", "the Display of a value or of the URI fails after every character, on every or on the n-th formatting x operation x method", 0, |cx| {
        let op = cx.pick(21);
        let which = cx.pick(3);
        let c = rich_case();
        let failed = Rc::new(Cell::new(false));
        let mk = |text: &str, after: usize, on: usize| Flaky { text: text.into(), after, on, calls: Default::default(), failed: failed.clone() };
        let victim = cx.pick(4);
        let texts = ["é b&", "%C3%A9x", "", "http://e/é"];
        let encs = [false, true, false, false];
        let after = cx.pick(texts[victim].chars().count() + 1);
        let on = [usize::MAX, 0, 1, 2, 3, 4, 5, 6][cx.pick(8)];
        let at = cx.pick(2);
        let run = |fail: bool| {
            let fl: Vec<Flaky> = (0..4).map(|i| if fail && i == victim { mk(texts[i], after, on) } else { mk(texts[i], 99, 99) }).collect();
            let keys = [["a", "b", "c"], ["oauth_o", "z", "zz"]][at];
            let q = FlakyReq { vals: (0..3).map(|i| (keys[i], &fl[i], encs[i])).collect() };
            let u = &fl[3];
            let sink = || {
                let mut s = Sink::new(Fault::Never, &failed);
                if [2, 5, 8, 10].contains(&op) {
                    s.text = c.uri.text.clone();
                }
                s
            };
            match (op, which) {
                (0..=10, 0) => into_sink(op, &c, HMAC_SHA1, sink(), u, &q),
                (0..=10, 1) => into_sink(op, &c, Plaintext::new(), sink(), u, &q),
                (0..=10, _) => into_sink(op, &c, full_spy(SPY), sink(), u, &q),
                (_, 0) => owned(op - 11, &c, HMAC_SHA1, u, &q),
                (_, 1) => owned(op - 11, &c, Plaintext::new(), u, &q),
                _ => owned(op - 11, &c, full_spy(SPY), u, &q),
            }
        };
        let full = run(false);
        let res = catch(|| run(true));
        cx.state(&(op, which, victim, after, on, at, res.is_ok()));
        cx.note(|| format!("value {} fails after {} characters in operation {} => {:?}", victim, after, op, res));
        if let Ok(out) = &res {
            ensure_eq!(out, &full, "operation {} returned normally although value {} ({:?}) failed after {} characters (formatting {})", op, victim, texts[victim], after, on as isize);
        } else {
            ensure!(failed.get(), "operation {} panicked without a failure: {:?}", op, res);
        }
        still_works()
    });
    rn.scenario("failing-signers", "signers that collect what they are given in a buffer failing at every byte or write: each is told of the failure by what it formats", 0, |cx| {
        let kind = *cx.of(&KINDS);
        let texts = ["é b&", "=", "a~%2F", ""];
        let (k, v) = (cx.pick(4), cx.pick(4));
        let mut c = Case { kind, callback: Some(texts[k].into()), nonce: Some(format!("n{}", texts[v])), ..rich_case() };
        c.params = vec![param("a", texts[k], [Split::Whole, Split::Chars][cx.pick(2)], false), param("oauth_o", "x%26", Split::Whole, true), p("z", texts[v])];
        let run = |fault: Fault| {
            let log = Rc::new(std::cell::RefCell::new(vec![]));
            let failed = Rc::new(Cell::new(false));
            let r = catch(|| c.run(Picky { sink: Sink::new(fault, &failed), log: log.clone(), failed: failed.clone() }));
            let l = log.borrow().clone();
            (r, l)
        };
        let (full, log) = run(Fault::Never);
        let full = full?;
        let n: usize = log.iter().map(|x| x.2.len()).sum();
        let fault = match cx.pick(4) {
            0 => Fault::Cap(cx.pick(n + 2)),
            1 => Fault::Refuse(cx.pick(n + 2)),
            2 => Fault::Once(cx.pick(n + 1)),
            _ => Fault::From(cx.pick(n + 1)),
        };
        let (res, got) = run(fault);
        cx.state(&(kind, k, v, fault, res.is_ok()));
        for (i, (what, told, text)) in got.iter().enumerate() {
            ensure!(*told || log.get(i).is_some_and(|f| &f.2 == text), "a signer got {:?} for {} without any error, instead of {:?} ({:?})", text, what, log.get(i).map(|f| &f.2), fault);
        }
        if let Ok(out) = &res {
            ensure_eq!(out, &full, "the signer noticed no failure ({:?})", fault);
            ensure_eq!(got, log, "what the signer was fed ({:?})", fault);
        } else {
            ensure!(got.iter().any(|x| x.1), "panicked without a failure: {:?}", res);
        }
        still_works()
    });
    rn.scenario("failing-signatures", "signature buffers of every capacity, and finalized values failing after every character", 0, |cx| {
        let c = rich_case();
        let kind = *cx.of(&KINDS);
        let c = Case { kind, cs: "c&s é".into(), params: vec![p("a", "b")], ..c };
        if cx.flag() {
            let cap = cx.pick(64);
            CAP.with(|x| x.set(cap));
            let res = catch(|| c.run(Clonable));
            cx.state(&(kind, cap));
            match res {
                Ok(out) => {
                    verify(&c, &out, Sig::Plain).map_err(|e| format!("signature buffer of {} bytes: {}", cap, e))?;
                }
                Err(e) => ensure!(cap < 40, "signature buffer of {} bytes: {}", cap, e),
            }
        } else {
            let after = cx.pick(11);
            let res = catch(|| c.run(BadSig(after)));
            cx.state(&(kind, after));
            match res {
                Ok(out) => {
                    let seen = dissect(&c, &out, Sig::Other("BAD"))?;
                    ensure_eq!(seen.signature, "signature", "the finalized value failed after {} characters", after);
                }
                Err(e) => ensure!(after < 9, "a good finalized value: {}", e),
            }
        }
        still_works()
    });
    rn.scenario("failing-parameter-lists", "values of a list that fail while signing", 0, |cx| {
        let kind = *cx.of(&KINDS);
        let after = cx.pick(4);
        let on = [usize::MAX, 0, 1, 2, 3][cx.pick(5)];
        let victim = cx.pick(2);
        let c = Case { kind, ..rich_case() };
        let failed = Rc::new(Cell::new(false));
        let run = |fail: bool| {
            let mk = |t: &str, f: bool| Flaky { text: t.into(), after: if f { after } else { 99 }, on: if f { on } else { 99 }, calls: Default::default(), failed: failed.clone() };
            let l = AssertSorted::new(vec![("a", mk("é x", fail && victim == 0)), ("z", mk("yyy", fail && victim == 1))].into_iter());
            let b = c.builder(HMAC_SHA1);
            match kind {
                Kind::Header => b.authorize(&c.method, &c.uri, &l),
                Kind::Form => b.to_form(&c.method, &c.uri, &l),
                Kind::Query => b.to_query(&c.method, c.uri.text.clone(), &l),
            }
        };
        let full = run(false);
        let res = catch(|| run(true));
        cx.state(&(kind, after, on, victim, res.is_ok()));
        if let Ok(out) = &res {
            ensure_eq!(out, &full, "returned normally although value {} failed after {} characters", victim, after);
        } else {
            ensure!(failed.get(), "panicked without a failure: {:?}", res);
        }
        still_works()
    });
}
/// `Plaintext<Capped>`, which is not `Clone` by itself.
#[derive(Clone)]
struct Clonable;
impl SignatureMethod for Clonable {
    type Sign = <Plaintext<Capped> as SignatureMethod>::Sign;
    fn sign_with(self, c: &str, t: Option<&str>) -> Self::Sign {
        Plaintext::<Capped>::with_buf().sign_with(c, t)
    }
}

// ---------------------------------------------------------------------------------------------

/// Pairs of secrets of the same shape, none of which occurs in anything else.
const SECRETS: [[&str; 2]; 7] = [
    ["QzqXvK#jWy&7", "UgpLmR#tHs&4"],
    ["QQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQ", "WWWWWWWWWWWWWWWWWWWWWWWWWWWWWWWWWWWWWWWW"],
    ["é日Q\"\\", "è月W'/"],
    ["X7Q", "Y5W"],
    [
        "QxQyQzQxQyQzQxQyQzQxQyQzQxQyQzQxQyQzQxQyQzQxQyQzQxQyQzQxQyQzQxQyQzQxQyQz",
        "WxWyWzWxWyWzWxWyWzWxWyWzWxWyWzWxWyWzWxWyWzWxWyWzWxWyWzWxWyWzWxWyWzWxWyWz",
    ],
    ["Q", "W"],
    ["Q/+=%Q", "W/+=%W"],
];

fn forms_of(s: &str) -> Vec<String> {
    let mut v = vec![s.to_string(), r::pct(s), r::pct(&r::pct(s)), r::b64(s.as_bytes()), s.escape_debug().to_string(), s.escape_unicode().to_string()];
    v.push(s.chars().rev().collect());
    v.push(s.bytes().map(|b| format!("{:02x}", b)).collect());
    v.push(s.bytes().map(|b| format!("{:02X}", b)).collect());
    let list = |x: u8| s.bytes().map(|b| (b ^ x).to_string()).collect::<Vec<_>>().join(", ");
    v.extend([list(0), list(0x36), list(0x5c)]);
    v.push(s.bytes().map(|b| b.to_string()).collect::<Vec<_>>().join(",\n"));
    v
}

fn debug_all(x: &dyn Debug) -> Vec<String> {
    vec![format!("{:?}", x), format!("{:#?}", x), format!("{:x?}", x), format!("{:#X?}", x), format!("{:200?}", x), format!("{:.300?}", x), format!("{:+?}", x), format!("{:-?}", x), format!("{:#010?}", x), format!("{:<1.0?}", x)]
}

/// Formats the public values reachable in a signing process with these secrets; `what` picks one.
fn views(c: &Case, what: usize, at: usize) -> Vec<(&'static str, Vec<String>)> {
    let mut v: Vec<(&'static str, Vec<String>)> = vec![];
    let (cl, tk) = creds(c);
    macro_rules! add {
        ($name:expr, $x:expr) => {
            v.push(($name, debug_all(&$x)))
        };
    }
    fn stages<'a, S: Serializer + Clone + Debug>(name: &'static str, mut s: S, c: &Case, at: usize, v: &mut Vec<(&'static str, Vec<String>)>) {
        let q = c.request();
        let mut n = 0;
        let mut look = |s: &S, v: &mut Vec<(&'static str, Vec<String>)>| {
            if n == at {
                v.push((name, debug_all(s)));
                v.push((name, debug_all(&s.clone())));
                v.push((name, debug_all(&Some(s))));
            }
            n += 1;
        };
        look(&s, v);
        let mut next = 0;
        for p in &q.0 {
            while next < 8 && SLOTS[next] < &*p.key {
                slot(&mut s, next);
                look(&s, v);
                next += 1;
            }
            s.serialize_parameter(&p.key, &p.val);
            look(&s, v);
        }
        for i in next..8 {
            slot(&mut s, i);
            look(&s, v);
        }
    }
    fn sign_stages<S: Sign + Debug + Clone>(name: &'static str, mut s: S, at: usize, v: &mut Vec<(&'static str, Vec<String>)>) {
        for i in 0..14 {
            if i == at {
                v.push((name, debug_all(&s)));
                v.push((name, debug_all(&s.clone())));
            }
            match i {
                0 => s.request_method("GET"),
                1 => s.uri("http%3A%2F%2Fe%2F"),
                2 => s.parameter("a", "b"),
                3 => s.delimiter(),
                4 => s.callback("c"),
                5 => s.consumer_key("k"),
                6 => s.nonce("n"),
                7 => s.signature_method(),
                8 => s.timestamp(1),
                9 => s.token("t"),
                10 => s.verifier("v"),
                11 => s.version(),
                // More than a block of data.
                _ => s.parameter("long", "0123456789012345678901234567890123456789012345678901234567890123456789"),
            }
        }
    }
    let (cs, ts) = (&*c.cs, c.token_secret());
    let o = low_options(c);
    type Ei = either::Either<oauth::HmacSha1, Plaintext>;
    match what {
        0 => {
            add!("Credentials<&str>", cl);
            add!("Credentials<String>", cl.map(String::from));
            add!("Credentials<Box<str>>", cl.map(Box::<str>::from));
            add!("Credentials<Cow<str>>", cl.map(std::borrow::Cow::Borrowed));
            add!("Credentials<Rc<str>>", cl.map(Rc::<str>::from));
            add!("&Credentials", &cl);
            add!("Option<Credentials>", tk);
            add!("(Credentials, Vec<Credentials>)", (cl, vec![tk]));
            let t = Token::new(cl, tk.unwrap_or(cl));
            add!("Token", t);
            add!("Token<String>", t.map(String::from));
            add!("Token<String, &str>", t.map_client(String::from));
            add!("Token<&str, String>", t.map_token(String::from));
            add!("Token::as_ref", t.map(String::from).as_ref());
        }
        1 => {
            let mut b = c.builder(HMAC_SHA1);
            add!("Builder", b);
            add!("Builder (cloned)", b.clone());
            b.token(None);
            add!("Builder (without token)", b);
            add!("Builder<PLAINTEXT>", c.builder(Plaintext::new()).authorize("GET", "http://e/", &()).len().min(1));
            add!("Builder<String>", oauth::Builder::<_, String>::with_token(Token::new(cl, tk.unwrap_or(cl)).map(String::from), HMAC_SHA1));
            add!("Options", o);
            add!("HmacSha1", HMAC_SHA1);
            add!("Plaintext", Plaintext::new());
            add!("Builder<PLAINTEXT>", c.builder(Plaintext::new()));
            add!("Builder<Either>", c.builder(Ei::Left(HMAC_SHA1)));
        }
        2 => stages("Authorizer (header, HMAC-SHA1)", Authorizer::<_>::authorization("GET", "http://e/", cl, tk, &o, HMAC_SHA1), c, at, &mut v),
        3 => stages("Authorizer (form, HMAC-SHA1)", Authorizer::<_>::form("GET", "http://e/", cl, tk, &o, HMAC_SHA1), c, at, &mut v),
        4 => stages("Authorizer (query, HMAC-SHA1)", Authorizer::<_, String>::query("GET", "http://e/".into(), cl, tk, &o, HMAC_SHA1), c, at, &mut v),
        5 => stages("Authorizer (header, PLAINTEXT)", Authorizer::<_>::authorization("GET", "http://e/", cl, tk, &o, Plaintext::new()), c, at, &mut v),
        6 => stages("Authorizer (form, PLAINTEXT)", Authorizer::<_, _>::form_with_buf(Pieces::default(), "GET", "http://e/", cl, tk, &o, Plaintext::new()), c, at, &mut v),
        7 => stages("Authorizer (header, Either)", Authorizer::<_>::authorization("GET", "http://e/", cl, tk, &o, Ei::Right(Plaintext::new())), c, at, &mut v),
        8 => stages("Authorizer (header, Either)", Authorizer::<_>::authorization("GET", "http://e/", cl, tk, &o, Ei::Left(HMAC_SHA1)), c, at, &mut v),
        9 => sign_stages("HmacSha1Sign", HMAC_SHA1.sign_with(cs, ts), at, &mut v),
        10 => sign_stages("PlaintextSign", Plaintext::new().sign_with(cs, ts), at, &mut v),
        11 => sign_stages("Either<.., PlaintextSign>", Ei::Right(Plaintext::new()).sign_with(cs, ts), at, &mut v),
        12 => sign_stages("PlaintextSign<Pieces>", Plaintext::<Pieces>::with_buf().sign_with(cs, ts), at, &mut v),
        _ => {}
    }
    v
}

pub fn c17(rn: &mut Runner) {
    rn.assumptions.push("values that signing has already produced (finalized signatures, authorization strings) are outputs, not values of the library".into());
    rn.scenario("views", "every public value at every point of a signing process x formatting options x secrets: no secret in any form, and output that does not depend on the secrets", 0, |cx| {
        let what = cx.pick(13);
        let at = if what < 2 { 0 } else { cx.pick(14) };
        let s = *cx.of(&SECRETS);
        let t = *cx.of(&SECRETS);
        let has_token = cx.flag();
        let many = cx.flag();
        let mk = |i: usize, j: usize| {
            let mut c = Case::basic(Kind::Header);
            c.ck = "client-id".into();
            c.cs = s[i].into();
            c.token = has_token.then(|| ("token-id".into(), t[j].into()));
            if many {
                c.callback = Some("cb".into());
                c.verifier = Some("ver".into());
                c.version = true;
            }
            c.params = vec![p("a", "b"), p("oauth_e", ""), p("z", "z")];
            c
        };
        let a = mk(0, 0);
        let va = views(&a, what, at);
        for (i, j) in [(1, 0), (0, 1), (1, 1)] {
            for (x, y) in va.iter().zip(views(&mk(i, j), what, at)) {
                ensure_eq!(x.1, y.1, "{{:?}} of {} depends on a secret (client secret {:?}/{:?}, token secret {:?}/{:?})", x.0, s[0], s[i], t[0], t[j]);
            }
        }
        for (name, texts) in &va {
            for text in texts {
                cx.state(text);
                for secret in std::iter::once(s[0]).chain(has_token.then_some(t[0])) {
                    if secret.len() < 3 {
                        continue;
                    }
                    for f in forms_of(secret) {
                        ensure!(!text.contains(&f), "{{:?}} of {} contains the secret {:?} as {:?}: {}", name, secret, f, text);
                    }
                }
                if name.starts_with("Credentials") || name.starts_with("Token") {
                    ensure!(text.contains("client-id"), "{{:?}} of {} does not show the identifier: {}", name, text);
                }
                if name.starts_with("Token") && has_token {
                    ensure!(text.contains("token-id"), "{{:?}} of {} does not show the token's identifier: {}", name, text);
                }
            }
        }
        cx.note(|| format!("{:?}", va.first().map(|x| (x.0, &x.1[0]))));
        Ok(())
    });
}
