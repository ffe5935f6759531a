//! C18: `Credentials` as a serde value.
mccore::own_environment!();
mod tokens;

use mccore::*;
use oauth_credentials::Credentials;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use std::borrow::Cow;
use std::collections::HashMap;
use tokens::*;

const ID: &str = "oauth_token";
const SECRET: &str = "oauth_token_secret";

const TEXTS: &[&str] = &[
    "", "token", "secret", "a b", "%41", "\"", "\\", "\\u0041", "\n", "\0", "é", "€", "😀", "&=+;", "{}", "[1]", "null", "true", "12",
    "oauth_token", "oauth_token_secret", "\u{fffd}", "'''", "#", "\u{7f}", "\u{2028}",
];

/// What decides whether a value is acceptable for the type of the parts, and what it becomes.
trait Part<'de>: Deserialize<'de> + std::fmt::Debug + 'de {
    fn expect(v: &Val) -> Option<String>;
    fn show(&self) -> String {
        format!("{:?}", self)
    }
}
macro_rules! stringy {
    ($($t:ty),*) => { $(impl<'de> Part<'de> for $t {
        fn expect(v: &Val) -> Option<String> {
            match v { Val::Text(s, _) | Val::Newtype(s) => Some(format!("{:?}", s)), Val::Char(c) => Some(format!("{:?}", c.to_string())), Val::Bytes(b, _) => std::str::from_utf8(b).ok().map(|s| format!("{:?}", s)), _ => None }
        }
    })* };
}
stringy!(String, Box<str>, Cow<'static, str>);
impl<'de> Part<'de> for &'de str {
    fn expect(v: &Val) -> Option<String> {
        match v {
            Val::Text(s, Via::Borrowed) | Val::Newtype(s) => Some(format!("{:?}", s)),
            Val::Bytes(b, Via::Borrowed) => std::str::from_utf8(b).ok().map(|s| format!("{:?}", s)),
            _ => None,
        }
    }
}
impl<'de> Part<'de> for u32 {
    fn expect(v: &Val) -> Option<String> {
        match v {
            Val::U(n) if *n <= u32::MAX as u64 => Some(n.to_string()),
            Val::I(n) if *n >= 0 && *n <= u32::MAX as i64 => Some(n.to_string()),
            _ => None,
        }
    }
}
/// A missing member must not silently become `None`.
impl<'de> Part<'de> for Option<String> {
    fn expect(v: &Val) -> Option<String> {
        match v {
            Val::None | Val::Unit => Some("None".into()),
            Val::Some(s) => Some(format!("Some({:?})", s)),
            _ => None,
        }
    }
}
/// Accepts anything: misreadings cannot hide behind a type error.
impl<'de> Part<'de> for Any {
    fn expect(v: &Val) -> Option<String> {
        Some(if let Val::Newtype(s) = v { format!("{:?}", s) } else { v.canon() })
    }
    fn show(&self) -> String {
        self.0.clone()
    }
}
/// So does this one, without even looking (the content does not matter).
impl<'de> Part<'de> for serde::de::IgnoredAny {
    fn expect(_: &Val) -> Option<String> {
        Some("IgnoredAny".into())
    }
}
impl<'de> Part<'de> for () {
    fn expect(v: &Val) -> Option<String> {
        matches!(v, Val::Unit).then(|| "()".into())
    }
}

fn decode<'de, T: Part<'de>>(cx: &mut Ctx, s: &'de Script) -> Verdict {
    let log = Log::default();
    let got = catch(|| Credentials::<T>::deserialize(Toks { s, log: &log }));
    let got = match got {
        Ok(x) => x,
        Err(p) => return Err(format!("deserializing {:?} panicked: {}", s, p)),
    };
    if let Some(m) = log.misuse.borrow().as_ref() {
        return Err(format!("deserializing {:?}: {}", s, m));
    }
    let at = |k: &str| s.entries.iter().filter(move |e| e.0.text() == k.as_bytes()).collect::<Vec<_>>();
    let (ids, secrets) = (at(ID), at(SECRET));
    let want = if s.fail.is_some() || ids.len() != 1 || secrets.len() != 1 {
        None
    } else {
        match (T::expect(&ids[0].1), T::expect(&secrets[0].1)) {
            (Some(a), Some(b)) => Some((a, b)),
            _ => None,
        }
    };
    let got = got.map(|c| (c.identifier.show(), c.secret.show()));
    cx.state(&(ids.len(), secrets.len(), got.is_ok(), s.entries.len(), s.entries.iter().position(|e| e.0.text() == ID.as_bytes()), s.entries.iter().position(|e| e.0.text() == SECRET.as_bytes()), got.as_ref().ok()));
    cx.note(|| format!("{:?} as Credentials<{}> => {:?}", s, std::any::type_name::<T>(), got));
    match (&got, &want) {
        (Ok(g), Some(w)) => ensure_eq!(g, w, "Credentials<{}> from {:?}", std::any::type_name::<T>(), s),
        (Err(_), None) => {}
        (Ok(g), None) => return Err(format!("Credentials<{}> from {:?} must be an error, but gave {:?}", std::any::type_name::<T>(), s, g)),
        (Err(e), Some(w)) => return Err(format!("Credentials<{}> from {:?} must be {:?}, but failed: {}", std::any::type_name::<T>(), s, w, e.0)),
    }
    if let (Some(_), Err(e)) = (s.fail, &got) {
        // The error of the format arrives as it is, if nothing else went wrong earlier.
        if ids.len() <= 1 && secrets.len() <= 1 && s.entries.iter().all(|e| T::expect(&e.1).is_some()) {
            ensure_eq!(e.0, "injected", "error of the format for {:?}", s);
        }
    }
    if got.is_ok() {
        ensure_eq!(log.fed.get(), s.entries.len(), "entries read from {:?}", s);
    }
    // What a format is told to look for (formats that do not describe themselves select by it).
    if let Some(f) = log.fields.borrow().as_ref() {
        let mut f = f.to_vec();
        f.sort();
        ensure_eq!(f, vec![ID, SECRET], "field names announced to the format");
    }
    Ok(())
}

fn decode_as<'de>(cx: &mut Ctx, ty: usize, s: &'de Script) -> Verdict {
    match ty {
        0 => decode::<String>(cx, s),
        1 => decode::<Any>(cx, s),
        2 => decode::<&str>(cx, s),
        3 => decode::<Option<String>>(cx, s),
        4 => decode::<u32>(cx, s),
        5 => decode::<Cow<'static, str>>(cx, s),
        6 => decode::<Box<str>>(cx, s),
        7 => decode::<serde::de::IgnoredAny>(cx, s),
        _ => decode::<()>(cx, s),
    }
}
const TYPES: usize = 9;

const UNKNOWN: &[&[u8]] = &[
    b"oauth_callback_confirmed", b"", b"oauth_toke", b"oauth_token_", b"oauth_token_secre", b"oauth_token_secret_", b"OAUTH_TOKEN", b"Oauth_token", b"oauth_Token", b"oauth_token_Secret", b"oauth-token",
    b"oauthToken", b"oauth_token ", b" oauth_token", b"oauth_token\0", b"identifier", b"secret", b"token", b"oauth_secret", b"key", b"Identifier", b"Secret", b"0", b"1", b"oauth_tokens", b"oauth_tokenoauth_token_secret",
    b"oauth_token_secret\0", b"oauth\xc5_token", b"\xff", b"oauth_token\xff", b"oauth_verifier", b"oauth_token_identifier", b"x_oauth_token", "ｏauth_token".as_bytes(), "oauth_token\u{200b}".as_bytes(), b"oauth_token[]", b"$serde_json::private::RawValue",
];

fn key(cx: &mut Ctx, k: usize) -> Key {
    let bytes: &'static [u8] = match k {
        0 => ID.as_bytes(),
        1 => SECRET.as_bytes(),
        k => UNKNOWN[k - 2],
    };
    let utf8 = std::str::from_utf8(bytes).is_ok();
    let vias = if utf8 { &[KeyVia::Str, KeyVia::BorrowedStr, KeyVia::String, KeyVia::Bytes, KeyVia::BorrowedBytes, KeyVia::ByteBuf][..] } else { &[KeyVia::Bytes, KeyVia::BorrowedBytes, KeyVia::ByteBuf][..] };
    Key(bytes, *cx.devof(vias))
}

fn text_of(i: usize, k: usize) -> String {
    format!("v{}-{}", i, k)
}

/// All key sequences over {identifier, secret, other}, with the details (which other key, how the
/// keys are handed over, which values, which hint, where the format fails) as deviations.
fn sequences(cx: &mut Ctx, max: usize) -> Verdict {
    let n = cx.pick(max + 1);
    let mut entries = vec![];
    for i in 0..n {
        let k = match cx.pick(3) {
            2 => 2 + cx.dev(UNKNOWN.len()),
            k => k,
        };
        let key = key(cx, k);
        let value = val(cx, i, k);
        entries.push((key, value));
    }
    let fail = match cx.dev(2 * n + 2) {
        0 => None,
        f => Some(f - 1),
    };
    let hint = *cx.devof(&[None, Some(0), Some(1), Some(2), Some(usize::MAX)]);
    let human = !cx.dflag();
    let ty = cx.pick(TYPES);
    let s = Script { entries, fail, hint, human };
    decode_as(cx, ty, &s)
}

fn val(cx: &mut Ctx, i: usize, k: usize) -> Val {
    let t = text_of(i, k);
    match cx.dev(19) {
        0 => Val::Text(t, Via::Borrowed),
        1 => Val::Text(t, Via::Transient),
        2 => Val::Text(t, Via::Owned),
        3 => Val::U(7 + i as u64),
        4 => Val::U(u64::MAX),
        5 => Val::I(-7),
        6 => Val::F(1.5),
        7 => Val::Bool(true),
        8 => Val::Char('x'),
        9 => Val::None,
        10 => Val::Some(t),
        11 => Val::Unit,
        12 => Val::Newtype(t),
        13 => Val::Seq(vec![Val::Text(t, Via::Transient), Val::Unit]),
        14 => Val::Map(vec![(ID, Val::Text("inner-id".into(), Via::Borrowed)), (SECRET, Val::Text("inner-secret".into(), Via::Borrowed))]),
        15 => Val::Enum("oauth_token"),
        16 => Val::Bytes(vec![0xff, 0], Via::Transient),
        17 => Val::Bytes(b"ok".to_vec(), Via::Borrowed),
        _ => Val::Seq(vec![]),
    }
}

// ---------------------------------------------------------------- real formats

/// The same entries written as JSON / form / TOML text; keys may be written with escapes.
fn json_str(s: &str, escaped: bool) -> String {
    if !escaped {
        return serde_json::to_string(s).unwrap();
    }
    let mut o = String::from("\"");
    for u in s.encode_utf16() {
        o.push_str(&format!("\\u{:04x}", u));
    }
    o.push('"');
    o
}
fn form_str(s: &str, escaped: bool) -> String {
    s.bytes().map(|b| if !escaped && b.is_ascii_alphanumeric() || b == b'_' && !escaped { (b as char).to_string() } else { format!("%{:02X}", b) }).collect()
}

#[derive(Deserialize, Serialize, Debug)]
struct Flat<T> {
    #[serde(flatten)]
    credentials: Credentials<T>,
    #[serde(default)]
    oauth_callback_confirmed: Option<serde_json::Value>,
}
#[derive(Deserialize, Debug)]
#[serde(untagged)]
enum Untagged<T> {
    C(Credentials<T>),
}
#[derive(Deserialize, Debug)]
#[serde(tag = "kind")]
enum Tagged<T> {
    #[serde(rename = "c")]
    C(Credentials<T>),
}

fn parts<T: Clone>(c: &Credentials<T>) -> (T, T) {
    (c.identifier.clone(), c.secret.clone())
}

/// JSON documents: all key sequences x value shapes x ways of reading them.
fn json_docs(cx: &mut Ctx, max: usize) -> Verdict {
    const OTHER: &[&str] = &["oauth_callback_confirmed", "", "identifier", "secret", "oauth_token_", "OAUTH_TOKEN", "oauth_toke", "kind", "0"];
    const SHAPES: &[&str] = &["\"v\"", "1", "-1", "1.5", "1e400", "true", "null", "[]", "[[{}],null]", "{}", "{\"oauth_token\":\"a\",\"oauth_token_secret\":\"b\"}", "123456789012345678901234567890", "\"\\ud83d\\ude00\""];
    let n = cx.pick(max + 1);
    let mut doc = vec![];
    let mut vals: [Vec<String>; 2] = [vec![], vec![]];
    let mut other_confirmed = 0;
    let mut kinds = 0;
    let mut bad_shape = false;
    for i in 0..n {
        let k = cx.pick(3);
        let name = match k {
            0 => ID,
            1 => SECRET,
            _ => {
                let o = *cx.devof(OTHER);
                if o == "oauth_callback_confirmed" {
                    other_confirmed += 1;
                }
                if o == "kind" {
                    kinds += 1;
                }
                o
            }
        };
        let esc = cx.dflag();
        let v = match cx.dev(SHAPES.len() + 1) {
            0 => format!("\"t{}\"", i),
            j => SHAPES[j - 1].to_string(),
        };
        if v == "1e400" {
            bad_shape = true; // out of range for serde_json itself
        }
        if k < 2 {
            vals[k].push(v.clone());
        }
        doc.push(format!("{}:{}", json_str(name, esc), v));
    }
    let space = cx.dflag();
    let how = cx.pick(7);
    let tagged = how == 6;
    let mut text = if space { format!(" {{\n\t{} }}\r\n", doc.join(" ,\t")) } else { format!("{{{}}}", doc.join(",")) };
    if tagged {
        text = if doc.is_empty() { "{\"kind\":\"c\"}".into() } else { text.replacen('{', "{\"kind\":\"c\",", 1) };
    }
    // What each value is as a string on its own.
    let one = |v: &Vec<String>| if v.len() == 1 { serde_json::from_str::<String>(&v[0]).ok() } else { None };
    let want = match (one(&vals[0]), one(&vals[1])) {
        (Some(a), Some(b)) => Some((a, b)),
        _ => None,
    };
    let e = |x: serde_json::Error| x.to_string();
    let got = match how {
        0 => serde_json::from_str::<Credentials>(&text).map(|c| parts(&c)).map_err(e),
        1 => serde_json::from_slice::<Credentials>(text.as_bytes()).map(|c| parts(&c)).map_err(e),
        2 => serde_json::from_reader::<_, Credentials>(std::io::Cursor::new(text.as_bytes())).map(|c| parts(&c)).map_err(e),
        3 => {
            // A Value keeps only the last of equal keys: out of scope for duplicates.
            if vals.iter().any(|v| v.len() > 1) {
                return Ok(());
            }
            serde_json::from_str::<serde_json::Value>(&text).and_then(serde_json::from_value::<Credentials>).map(|c| parts(&c)).map_err(e)
        }
        4 => {
            if other_confirmed > 1 {
                return Ok(());
            }
            serde_json::from_str::<Flat<String>>(&text).map(|c| parts(&c.credentials)).map_err(e)
        }
        5 => serde_json::from_str::<Untagged<String>>(&text).map(|Untagged::C(c)| parts(&c)).map_err(e),
        _ => {
            if kinds > 0 {
                return Ok(());
            }
            serde_json::from_str::<Tagged<String>>(&text).map(|Tagged::C(c)| parts(&c)).map_err(e)
        }
    };
    cx.state(&(how, got.is_ok(), vals[0].len(), vals[1].len(), n));
    cx.note(|| format!("JSON {} ({}) => {:?}", text, how, got));
    if bad_shape {
        return Ok(()); // whether it is looked at depends on the way of reading
    }
    match (got, want) {
        (Ok(g), Some(w)) => ensure_eq!(g, w, "JSON {} read by way {}", text, how),
        (Err(_), None) => {}
        (g, w) => return Err(format!("JSON {} read by way {}\n  got:      {:?}\n  expected: {:?}", text, how, g, w)),
    }
    Ok(())
}

fn form_docs(cx: &mut Ctx, max: usize) -> Verdict {
    const OTHER: &[&str] = &["oauth_callback_confirmed", "", "identifier", "secret", "oauth_token_", "OAUTH_TOKEN", "oauth_toke"];
    let n = cx.pick(max + 1);
    let mut doc = vec![];
    let mut vals: [Vec<String>; 2] = [vec![], vec![]];
    for i in 0..n {
        let k = cx.pick(3);
        let name = match k {
            0 => ID,
            1 => SECRET,
            _ => *cx.devof(OTHER),
        };
        let esc = cx.dflag();
        let v = match cx.dev(TEXTS.len() + 1) {
            0 => format!("t{}", i),
            j => TEXTS[j - 1].to_string(),
        };
        let vesc = cx.dflag();
        if k < 2 {
            vals[k].push(v.clone());
        }
        doc.push(format!("{}={}", form_str(name, esc), form_str(&v, vesc)));
    }
    let text = doc.join("&");
    let want = if vals[0].len() == 1 && vals[1].len() == 1 { Some((vals[0][0].clone(), vals[1][0].clone())) } else { None };
    let how = cx.pick(4);
    let got = match how {
        0 => serde_urlencoded::from_str::<Credentials>(&text).map(|c| parts(&c)).map_err(|e| e.to_string()),
        1 => serde_urlencoded::from_bytes::<Credentials>(text.as_bytes()).map(|c| parts(&c)).map_err(|e| e.to_string()),
        2 => serde_urlencoded::from_reader::<Credentials, _>(std::io::Cursor::new(text.as_bytes())).map(|c| parts(&c)).map_err(|e| e.to_string()),
        _ => serde_urlencoded::from_str::<Credentials<Cow<str>>>(&text).map(|c| parts(&c)).map(|(a, b)| (a.into_owned(), b.into_owned())).map_err(|e| e.to_string()),
    };
    cx.state(&(how, got.is_ok(), vals[0].len(), vals[1].len(), n));
    cx.note(|| format!("form {} ({}) => {:?}", text, how, got));
    match (got, want) {
        (Ok(g), Some(w)) => ensure_eq!(g, w, "form {}", text),
        (Err(_), None) => {}
        (g, w) => return Err(format!("form {}\n  got:      {:?}\n  expected: {:?}", text, g, w)),
    }
    Ok(())
}

// ---------------------------------------------------------------- serializing

/// A part whose serialization is of any shape and may fail.
struct Out<'a>(&'a Val, bool);
impl Serialize for Out<'_> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if self.1 {
            return Err(serde::ser::Error::custom("injected"));
        }
        self.0.write(s)
    }
}

fn encode(cx: &mut Ctx) -> Verdict {
    let a = val(cx, 0, 0);
    let b = val(cx, 1, 1);
    let fa = cx.dflag();
    let fb = cx.dflag();
    // The n-th call of the format fails.
    let fail = match cx.dev(6) {
        0 => None,
        k => Some(k - 1),
    };
    let human = !cx.dflag();
    let c = Credentials { identifier: Out(&a, fa), secret: Out(&b, fb) };
    let rec = Rec::new(fail, human);
    let r = c.serialize(&rec);
    let calls = rec.calls.borrow().clone();
    cx.state(&(&calls, r.is_ok()));
    cx.note(|| format!("{:?}, {:?}, failing call {:?} => {:?} {:?}", a, b, fail, calls, r));
    let ok_calls = ["begin 2".to_string(), format!("{} = {}", ID, a.canon()), format!("{} = {}", SECRET, b.canon()), "end".to_string()];
    match &r {
        Ok(()) => {
            ensure!(!fa && !fb && fail.map_or(true, |f| f >= 4), "serializing succeeded although a part or the format failed: {:?}", calls);
            ensure_eq!(calls, ok_calls, "calls made to the format");
        }
        Err(e) => {
            ensure_eq!(e.0, "injected", "error of serializing {:?}, {:?}", a, b);
            ensure!(fa || fb || fail.map_or(false, |f| f < 4), "serializing failed although nothing did: {:?}", calls);
            ensure!(calls.len() < 4 && calls[..] == ok_calls[..calls.len()], "calls made to the format before the failure: {:?}", calls);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- round trips

fn same(how: &str, a: &str, b: &str, got: Result<(String, String), String>) -> Verdict {
    match got {
        Ok(g) => {
            ensure_eq!(g, (a.to_string(), b.to_string()), "round trip by {}", how);
            Ok(())
        }
        Err(e) => Err(format!("round trip of ({:?}, {:?}) by {} failed: {}", a, b, how, e)),
    }
}
fn es<E: std::fmt::Display>(e: E) -> String {
    e.to_string()
}
fn owned<T: AsRef<str>>(c: Credentials<T>) -> (String, String) {
    (c.identifier.as_ref().to_string(), c.secret.as_ref().to_string())
}

fn wire<T: Serialize + DeserializeOwned + AsRef<str> + From<&'static str>>(_: &T) {}

/// Serializes with every format and reads it again; the text itself is checked as well.
fn round(a: &str, b: &str) -> Verdict {
    let c = Credentials { identifier: a, secret: b };
    let o = Credentials { identifier: a.to_string(), secret: b.to_string() };
    let json = serde_json::to_string(&c).map_err(es)?;
    ensure_eq!(json, format!("{{{}:{},{}:{}}}", json_str(ID, false), json_str(a, false), json_str(SECRET, false), json_str(b, false)), "JSON text");
    ensure_eq!(serde_json::to_string(&o).map_err(es)?, json, "JSON text of owned strings");
    same("JSON", a, b, serde_json::from_str::<Credentials>(&json).map(owned).map_err(es))?;
    same("JSON Cow", a, b, serde_json::from_str::<Credentials<Cow<str>>>(&json).map(owned).map_err(es))?;
    same("JSON Box", a, b, serde_json::from_slice::<Credentials<Box<str>>>(json.as_bytes()).map(owned).map_err(es))?;
    let escaped = json.contains('\\');
    let borrowed = serde_json::from_str::<Credentials<&str>>(&json);
    ensure_eq!(borrowed.is_ok(), !escaped, "borrowing from {}", json);
    if let Ok(c) = borrowed {
        same("JSON &str", a, b, Ok(owned(c)))?;
    }
    let pretty = serde_json::to_vec_pretty(&c).map_err(es)?;
    same("pretty JSON", a, b, serde_json::from_reader::<_, Credentials>(&pretty[..]).map(owned).map_err(es))?;
    let value = serde_json::to_value(&c).map_err(es)?;
    ensure_eq!(value, serde_json::json!({ ID: a, SECRET: b }), "JSON value");
    same("JSON value by reference", a, b, Credentials::<&str>::deserialize(&value).map(owned).map_err(es))?;
    same("JSON value", a, b, serde_json::from_value::<Credentials>(value).map(owned).map_err(es))?;

    let form = serde_urlencoded::to_string(&c).map_err(es)?;
    same("form", a, b, serde_urlencoded::from_str::<Credentials>(&form).map(owned).map_err(es))?;
    let pairs: Vec<(String, String)> = serde_urlencoded::from_str(&form).map_err(es)?;
    ensure_eq!(pairs, vec![(ID.to_string(), a.to_string()), (SECRET.to_string(), b.to_string())], "form pairs");

    let flat = Flat { credentials: c, oauth_callback_confirmed: Some(serde_json::json!(true)) };
    let f = serde_json::to_string(&flat).map_err(es)?;
    ensure_eq!(f, format!("{},\"oauth_callback_confirmed\":true}}", &json[..json.len() - 1]), "flattened JSON");
    same("flattened JSON", a, b, serde_json::from_str::<Flat<String>>(&f).map(|x| owned(x.credentials)).map_err(es))?;
    same("JSON with another member", a, b, serde_json::from_str::<Credentials>(&f).map(owned).map_err(es))?;

    let t = toml::to_string(&c).map_err(es)?;
    same("TOML", a, b, toml::from_str::<Credentials>(&t).map(owned).map_err(es))?;
    let table: HashMap<String, String> = toml::from_str(&t).map_err(es)?;
    ensure_eq!(table, HashMap::from([(ID.to_string(), a.to_string()), (SECRET.to_string(), b.to_string())]), "TOML table");

    // serde's own map deserializer, in both orders.
    for rev in [false, true] {
        let mut e = vec![(ID, a), (SECRET, b)];
        if rev {
            e.reverse();
        }
        let d = serde::de::value::MapDeserializer::<_, serde::de::value::Error>::new(e.into_iter());
        same("MapDeserializer", a, b, Credentials::<String>::deserialize(d).map(owned).map_err(es))?;
    }
    // Credentials inside other values.
    let nested = HashMap::from([("x", vec![Some(c)])]);
    let n = serde_json::to_string(&nested).map_err(es)?;
    let mut n: HashMap<String, Vec<Option<Credentials>>> = serde_json::from_str(&n).map_err(es)?;
    same("nested JSON", a, b, Ok(owned(n.remove("x").unwrap().remove(0).unwrap())))?;
    Ok(())
}

fn round_trips(cx: &mut Ctx) -> Verdict {
    wire(&String::new());
    let a = *cx.of(TEXTS);
    let b = *cx.of(TEXTS);
    cx.state(&(a, b));
    cx.note(|| format!("{:?} {:?}", a, b));
    round(a, b)
}
fn wide_texts(cx: &mut Ctx) -> Verdict {
    let t = texts::any(cx);
    cx.state(&t);
    cx.note(|| format!("{:?}", t));
    round(&t, &t)
}
fn round_lengths(cx: &mut Ctx, max: usize) -> Verdict {
    let n = cx.pick(max + 1);
    let t = cx.of(&["a", "\u{e9}", "\"", " "]).repeat(n);
    let first = cx.flag();
    cx.state(&(&t, first));
    if first { round(&t, "s") } else { round("t", &t) }
}
fn round_chars(cx: &mut Ctx, blocks: &[(u32, u32)]) -> Verdict {
    let (lo, hi) = *cx.of(blocks);
    let hi_byte = cx.pick(((hi - lo) / 256 + 1) as usize) as u32;
    let low = cx.pick(256) as u32;
    let Some(c) = char::from_u32(lo + hi_byte * 256 + low) else { return Ok(()) };
    cx.state(&c);
    cx.note(|| format!("{:?}", c));
    let s = c.to_string();
    round(&s, &format!("x{}y", c))
}

pub fn c18(r: &mut Runner) {
    r.assumptions.push("formats hand over maps; serde_json, serde_urlencoded and toml themselves are trusted (their results for plain strings are the oracle)".into());
    let (n, k) = r.by((4, 2), (5, 3));
    r.scenario("sequences", "every sequence of identifier/secret/other keys; every other key, way of handing keys over, value shape, size hint and failing step as deviations; 9 types of parts", k, move |cx| sequences(cx, n));
    let n = r.by(5, 8);
    r.scenario("long", "longer sequences of plain keys", 0, move |cx| sequences(cx, n));
    r.scenario("encode", "every shape of the two parts, with failing parts and a format failing at every call", r.by(3, 6), encode);
    let (n, k) = r.by((4, 1), (4, 2));
    r.scenario("json", "JSON documents over the same sequences, with escaped keys, read in seven ways", k, move |cx| json_docs(cx, n));
    r.scenario("form", "form documents over the same sequences", k, move |cx| form_docs(cx, n));
    r.scenario("round-texts", "every pair of texts through every format", 0, round_trips);
    r.scenario("wide-texts", "the wide corpus as both parts through every format", 0, wide_texts);
    let n = r.by(600, 3000);
    r.scenario("round-lengths", "texts of every length through every format", 0, move |cx| round_lengths(cx, n));
    let blocks: &'static [(u32, u32)] = r.by(&[(0, 0x2ff), (0x2000, 0x20ff), (0xd700, 0xe0ff), (0xff00, 0xffff), (0x1f600, 0x1f6ff), (0x10ff00, 0x10ffff)], &[(0, 0x10ffff)]);
    r.scenario("round-chars", "every character of the listed blocks through every format", 0, move |cx| round_chars(cx, blocks));
}

fn main() {
    mccore::main(&[("C18", c18)]);
}
