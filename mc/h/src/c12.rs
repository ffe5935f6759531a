//! C12 / C21 / C23: unsigned serialization, the recorder, parameter lists.
use crate::common::*;
use mccore::refimpl as r;
use mccore::*;
use oauth::request::{AssertSorted, ParameterList};
use oauth::serializer::recorder::{Record, Recorder};
use oauth::serializer::{Serializer, SerializerExt, Urlencoder};
use oauth::Request;
use oauth1_request as oauth;
use std::borrow::Cow;
use std::collections::BTreeMap;
use std::fmt::{self, Display};
use std::iter::FromIterator;

/// One call on a serializer.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Param(String, String),
    Encoded(String, String),
    Slot(usize),
}
impl Op {
    fn key(&self) -> &str {
        match self {
            Op::Param(k, _) | Op::Encoded(k, _) => k,
            Op::Slot(i) => SLOTS[*i],
        }
    }
}

/// A serializer written by a user of the library.
#[derive(Clone, Debug, Default)]
pub struct Tape(pub Vec<Op>);
impl Serializer for Tape {
    type Output = Vec<Op>;
    fn serialize_parameter<V: Display>(&mut self, k: &str, v: V) {
        self.0.push(Op::Param(k.into(), v.to_string()));
    }
    fn serialize_parameter_encoded<V: Display>(&mut self, k: &str, v: V) {
        self.0.push(Op::Encoded(k.into(), v.to_string()));
    }
    fn serialize_oauth_callback(&mut self) {
        self.0.push(Op::Slot(0))
    }
    fn serialize_oauth_consumer_key(&mut self) {
        self.0.push(Op::Slot(1))
    }
    fn serialize_oauth_nonce(&mut self) {
        self.0.push(Op::Slot(2))
    }
    fn serialize_oauth_signature_method(&mut self) {
        self.0.push(Op::Slot(3))
    }
    fn serialize_oauth_timestamp(&mut self) {
        self.0.push(Op::Slot(4))
    }
    fn serialize_oauth_token(&mut self) {
        self.0.push(Op::Slot(5))
    }
    fn serialize_oauth_verifier(&mut self) {
        self.0.push(Op::Slot(6))
    }
    fn serialize_oauth_version(&mut self) {
        self.0.push(Op::Slot(7))
    }
    fn end(self) -> Vec<Op> {
        self.0
    }
}
/// A serializer for which the library's own no-op macro is used.
#[derive(Clone, Debug, Default)]
struct NoSlots(Vec<Op>);
impl Serializer for NoSlots {
    type Output = Vec<Op>;
    fn serialize_parameter<V: Display>(&mut self, k: &str, v: V) {
        self.0.push(Op::Param(k.into(), v.to_string()));
    }
    fn serialize_parameter_encoded<V: Display>(&mut self, k: &str, v: V) {
        self.0.push(Op::Encoded(k.into(), v.to_string()));
    }
    oauth::serializer::skip_serialize_oauth_parameters!();
    fn end(self) -> Vec<Op> {
        self.0
    }
}

fn from_record(x: &Record) -> Op {
    match x {
        Record::Parameter(k, v) => Op::Param(k.clone(), v.clone()),
        Record::ParameterEncoded(k, v) => Op::Encoded(k.clone(), v.clone()),
        Record::Callback => Op::Slot(0),
        Record::ConsumerKey => Op::Slot(1),
        Record::Nonce => Op::Slot(2),
        Record::SignatureMethod => Op::Slot(3),
        Record::Timestamp => Op::Slot(4),
        Record::Token => Op::Slot(5),
        Record::Verifier => Op::Slot(6),
        Record::Version => Op::Slot(7),
    }
}

/// Everything a request does to every kind of serializer, as comparable text.
fn all_serializers<R: Request + ?Sized>(q: &R) -> Vec<(&'static str, String)> {
    let c = Case::basic(Kind::Header);
    let b = c.builder(oauth::HMAC_SHA1);
    let log = full_spy(SPY);
    let sb = c.builder(log.clone());
    let mut v = vec![
        ("tape", format!("{:?}", q.serialize(Tape::default()))),
        ("noslots", format!("{:?}", q.serialize(NoSlots::default()))),
        ("recorder", format!("{:?}", q.serialize(Recorder::new()))),
        ("to_form", oauth::to_form(q)),
        ("to_query", oauth::to_query("http://e/".into(), q)),
        ("form", q.serialize(Urlencoder::form())),
        ("form_with_buf", q.serialize(Urlencoder::form_with_buf(Pieces::default())).to_string()),
        ("query", q.serialize(Urlencoder::query("http://e/".to_string()))),
        ("authorize", b.authorize("GET", "http://e/", q)),
        ("signed form", b.to_form("POST", "http://e/", q)),
        ("signed query", b.to_query("GET", "http://e/".to_string(), q)),
    ];
    sb.authorize("GET", "http://e/", q);
    v.push(("spy", format!("{:?}", log.0.borrow())));
    v
}
fn same(name: &str, got: Vec<(&'static str, String)>, want: &[(&'static str, String)]) -> Verdict {
    for (g, w) in got.iter().zip(want) {
        ensure_eq!(g.1, w.1, "{} serialized by {}", name, g.0);
    }
    Ok(())
}

fn form_of(params: &[(String, String)]) -> String {
    params.iter().map(|(k, v)| format!("{}={}", k, v)).collect::<Vec<_>>().join("&")
}

/// Each slot once and in order, everything in ascending name order, parameters exactly `params`.
fn well_formed(what: &str, ops: &[Op], params: &[Op]) -> Verdict {
    let slots: Vec<usize> = ops.iter().filter_map(|o| if let Op::Slot(i) = o { Some(*i) } else { None }).collect();
    ensure_eq!(slots, (0..8).collect::<Vec<_>>(), "protocol parameter slots offered by {}: {:?}", what, ops);
    let rest: Vec<Op> = ops.iter().filter(|o| !matches!(o, Op::Slot(_))).cloned().collect();
    ensure_eq!(rest, params, "parameters of {}", what);
    ensure!(ops.windows(2).all(|w| w[0].key() <= w[1].key()), "{} is out of order: {:?}", what, ops);
    Ok(())
}

/// Requests, unsigned, with a long text, a long name, or a name of the corpus.
fn names_and_lengths(cx: &mut Ctx, max: usize) -> SpecReq {
    let c = if cx.flag() { name_case(cx, Kind::Form) } else { length_case(cx, Kind::Form, max) };
    let mut ps = c.params;
    if let Some(p) = ps.first_mut() {
        p.val.split = *cx.of(SPLITS);
    }
    SpecReq(ps)
}

pub fn c12(rn: &mut Runner) {
    let k = rn.by(3, 4);
    rn.scenario("forms-and-queries", "requests of up to 4 parameters, every key/text/split/encoding by deviation: exact form and query text", k, |cx| {
        let n = *cx.of(&[1usize, 0, 2, 3, 4]);
        let mut ps = vec![];
        for i in 0..n {
            let key = if i == 0 { *cx.devof(KEYS) } else { *cx.devof(&["b", "oauth_token_x", "z", "b", "oauth_"]) };
            let text = *cx.devof(TEXTS);
            let split = *cx.devof(SPLITS);
            ps.push(param(key, text, split, cx.dflag()));
        }
        let req = SpecReq::sorted(ps);
        let want: Vec<(String, String)> = req.0.iter().map(|p| (p.key.clone(), r::pct(&p.plain))).collect();
        let form = form_of(&want);
        cx.state(&form);
        cx.note(|| format!("{:?} => {:?}", req, form));
        ensure_eq!(oauth::to_form(&req), form, "form of {:?}", req);
        let uri = (*cx.devof(URIS)).to_string();
        let query = if want.is_empty() { uri.clone() } else { format!("{}?{}", uri, form) };
        ensure_eq!(oauth::to_query(uri.clone(), &req), query, "query of {:?}", req);
        ensure_eq!(req.serialize(Urlencoder::form()), form, "Urlencoder::form of {:?}", req);
        ensure_eq!(req.serialize(Urlencoder::form_with_buf(uri.clone())), format!("{}{}", uri, form), "Urlencoder::form_with_buf keeps the buffer's contents");
        ensure_eq!(req.serialize(Urlencoder::form_with_buf(Pieces::default())).to_string(), form, "Urlencoder into another buffer type");
        let mut buf = uri.clone();
        req.serialize(Urlencoder::query(&mut buf));
        ensure_eq!(buf, query, "Urlencoder::query into &mut String");
        ensure_eq!(oauth::to_form(&req), form, "second serialization of the same request");
        Ok(())
    });
    rn.scenario("wide-texts", "the wide corpus as name, value, encoded value, and text before a form or query", 0, |cx| {
        let place = cx.pick(6);
        let t = texts::any(cx);
        let q = match place {
            // Names are written verbatim.
            0 => SpecReq(vec![param(&t, "v", Split::Whole, false)]),
            1 => SpecReq(vec![p("k", &t)]),
            2 => SpecReq(vec![p("a", &t), p("b", "x"), p("c", &t)]),
            3 => SpecReq(vec![param("oauth_", &t, Split::Chars, true), param("z", &t, Split::Strs, false)]),
            4 => SpecReq(vec![param("k", &t, Split::Pad, false)]),
            _ => SpecReq(vec![p("k", "v")]),
        };
        let want: Vec<(String, String)> = q.0.iter().map(|p| (p.key.clone(), r::pct(&p.plain))).collect();
        let form = form_of(&want);
        cx.state(&(place, &form));
        ensure_eq!(oauth::to_form(&q), form, "form of {:?}", q);
        let uri = if place == 5 { t } else { "http://e/".to_string() };
        ensure_eq!(oauth::to_query(uri.clone(), &q), format!("{}?{}", uri, form), "query of {:?}", q);
        ensure_eq!(q.serialize(Urlencoder::form_with_buf(uri.clone())), format!("{}{}", uri, form), "Urlencoder::form_with_buf keeps the buffer's contents");
        Ok(())
    });
    let max = rn.by(300, 3000);
    rn.scenario("names-and-lengths", "names of the corpus, and every length of values, encoded values, names and of the text before a form or query", 0, move |cx| {
        let q = names_and_lengths(cx, max);
        let uri = format!("http://e/{}", "e".repeat(match cx.pick(2) {
            0 => 0,
            _ => q.0.first().map_or(0, |p| p.plain.len() + p.key.len()),
        }));
        let want: Vec<(String, String)> = q.0.iter().map(|p| (p.key.clone(), r::pct(&p.plain))).collect();
        let form = form_of(&want);
        cx.state(&form);
        let query = if want.is_empty() { uri.clone() } else { format!("{}?{}", uri, form) };
        ensure_eq!(oauth::to_form(&q), form, "form of {:?}", q);
        ensure_eq!(oauth::to_query(uri.clone(), &q), query, "query of {:?}", q);
        ensure_eq!(q.serialize(Urlencoder::form_with_buf(uri.clone())), format!("{}{}", uri, form), "Urlencoder::form_with_buf keeps the buffer's contents");
        Ok(())
    });
    let depth = rn.by(4, 5);
    rn.scenario("urlencoder-operations", "every sequence of serializer operations on an Urlencoder, cloned at every point", 0, move |cx| {
        let n = cx.pick(depth + 1);
        let query = cx.flag();
        let start = *cx.of(&["", "http://e/?x", "é"]);
        let mut want = start.to_string();
        let mut s = if query { Urlencoder::query(start.to_string()) } else { Urlencoder::form_with_buf(start.to_string()) };
        let mut any = false;
        for _ in 0..n {
            let o = cx.pick(8);
            let (key, text) = [("a", "b c"), ("", ""), ("é", "%&="), ("z", "x")][o % 4];
            if o < 6 {
                if any {
                    want.push('&');
                } else if query {
                    want.push('?');
                }
                any = true;
                want.push_str(key);
                want.push('=');
            }
            match o {
                0..=3 => {
                    s.serialize_parameter(key, text);
                    want.push_str(&r::pct(text));
                }
                4..=5 => {
                    s.serialize_parameter_encoded(key, text);
                    want.push_str(text);
                }
                6 => {
                    s.serialize_oauth_parameters();
                }
                _ => {
                    let mut other = s.clone();
                    other.serialize_parameter("other", "clone");
                    other.end();
                }
            }
            cx.state(&s.clone().end());
            ensure_eq!(s.clone().end(), want, "urlencoded text so far");
        }
        ensure_eq!(s.end(), want, "urlencoded text");
        Ok(())
    });
    rn.scenario("wrappers", "&, &mut, Some and their nestings against the request itself; () and None against the empty request; every serializer", 1, |cx| {
        let mut ps = vec![];
        for _ in 0..cx.pick(4) {
            let key = *cx.of(&["a", "oauth_e", "oauth_token", "z"]);
            if cx.flag() {
                ps.push(param(key, "b c&", *cx.devof(SPLITS), cx.dflag()));
            } else {
                ps.push(p(key, ""));
            }
        }
        // `oauth_token` is emitted by the signing serializers, which the plain ones do not mind.
        ps.retain(|p| p.key != "oauth_token");
        let mut q = SpecReq::sorted(ps);
        let want = all_serializers(&q);
        cx.state(&want);
        same("&R", all_serializers(&&q), &want)?;
        same("&&R", all_serializers(&&&q), &want)?;
        let mut q2 = q.clone();
        same("&mut R", all_serializers(&&mut q2), &want)?;
        let mut q3 = &mut q2;
        same("&mut &mut R", all_serializers(&&mut q3), &want)?;
        same("Some(R)", all_serializers(&Some(q.clone())), &want)?;
        same("Some(&R)", all_serializers(&Some(&q)), &want)?;
        same("Some(&mut R)", all_serializers(&Some(&mut q)), &want)?;
        same("Some(Some(R))", all_serializers(&Some(Some(q.clone()))), &want)?;
        same("&Some(&Some(R))", all_serializers(&&Some(&Some(q.clone()))), &want)?;
        if q.0.is_empty() {
            same("()", all_serializers(&()), &want)?;
            same("&()", all_serializers(&&()), &want)?;
            same("&mut ()", all_serializers(&&mut ()), &want)?;
            same("Some(())", all_serializers(&Some(())), &want)?;
            same("None::<R>", all_serializers(&None::<SpecReq>), &want)?;
            same("None::<&R>", all_serializers(&None::<&SpecReq>), &want)?;
            same("Some(None)", all_serializers(&Some(None::<SpecReq>)), &want)?;
            same("&None::<()>", all_serializers(&&None::<()>), &want)?;
            same("empty AssertSorted", all_serializers(&AssertSorted::new(Vec::<(String, String)>::new())), &want)?;
            same("empty ParameterList", all_serializers(&ParameterList::<&str, &str>::default()), &want)?;
        }
        Ok(())
    });
    let n = rn.by(3, 4);
    rn.scenario("request-kinds", "AssertSorted over several iterators and ParameterList over several containers: parameters and slots for every multiset of keys around the protocol parameter names", 0, move |cx| {
        let mut keys: Vec<&str> = vec![];
        let mut from = 0;
        let mut ks: Vec<&str> = KEYS.iter().copied().chain(SLOTS).collect();
        ks.sort();
        for _ in 0..n {
            // 0 stops; keys are chosen in non-descending order.
            let c = cx.pick(ks.len() - from + 1);
            if c == 0 {
                break;
            }
            from += c - 1;
            keys.push(ks[from]);
        }
        let pairs: Vec<(&str, String)> = keys.iter().enumerate().map(|(i, k)| (*k, format!("{} é", i))).collect();
        let want: Vec<Op> = pairs.iter().map(|(k, v)| Op::Param((*k).into(), v.clone())).collect();
        let ops = AssertSorted::new(pairs.clone()).serialize(Tape::default());
        cx.state(&ops);
        well_formed("AssertSorted(Vec)", &ops, &want)?;
        let a = AssertSorted::new(pairs.iter().map(|(k, v)| (k.to_string(), v)));
        let first = a.serialize(Tape::default());
        well_formed("AssertSorted(map)", &first, &want)?;
        ensure_eq!(a.clone().serialize(Tape::default()), first, "AssertSorted serialized again");
        let m: BTreeMap<&str, &str> = pairs.iter().map(|(k, v)| (*k, &**v)).collect();
        let dedup: Vec<Op> = m.iter().map(|(k, v)| Op::Param(k.to_string(), v.to_string())).collect();
        well_formed("AssertSorted(BTreeMap)", &AssertSorted::new(&m).serialize(Tape::default()), &dedup)?;
        well_formed("ParameterList(Vec)", &ParameterList::new(pairs.clone()).serialize(Tape::default()), &want)?;
        let refs: Vec<&(&str, String)> = pairs.iter().rev().collect();
        well_formed("ParameterList(Vec of references)", &ParameterList::<_, _, _, _>::new(refs).serialize(Tape::default()), &want)?;
        let spec = SpecReq(pairs.iter().map(|(k, v)| p(k, v)).collect());
        well_formed("user request", &spec.serialize(Tape::default()), &want)?;
        let rec: Vec<Op> = AssertSorted::new(pairs.clone()).serialize(Recorder::new()).iter().map(from_record).collect();
        ensure_eq!(rec, ops, "recorder against a user-written serializer");
        Ok(())
    });
}

// ---------------------------------------------------------------------------------------------

/// Values whose `Display` differs in form only, or writes nothing at all.
struct Silent;
impl Display for Silent {
    fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result {
        Ok(())
    }
}

pub fn c21(rn: &mut Runner) {
    let depth = rn.by(4, 5);
    rn.scenario("operation-sequences", "every sequence of serializer operations, with the history compared after each and clones continued separately", 0, move |cx| {
        let n = cx.pick(depth + 1);
        let mut s = if cx.flag() { Recorder::new() } else { Recorder::default() };
        let mut model: Vec<Op> = vec![];
        let mut fork: Option<(Recorder, Vec<Op>)> = None;
        for i in 0..n {
            let o = cx.pick(16);
            let texts = ["x", "", "é&%", "x"];
            match o {
                0..=7 => {
                    slot(&mut s, o);
                    model.push(Op::Slot(o));
                }
                8..=10 => {
                    let k = ["k", "oauth_token", ""][o - 8];
                    s.serialize_parameter(k, Val { text: texts[i % 4].into(), split: SPLITS[i % SPLITS.len()] });
                    model.push(Op::Param(k.into(), texts[i % 4].into()));
                }
                11..=12 => {
                    let k = ["k", "é"][o - 11];
                    s.serialize_parameter_encoded(k, &Val { text: texts[i % 4].into(), split: SPLITS[(i + 3) % SPLITS.len()] });
                    model.push(Op::Encoded(k.into(), texts[i % 4].into()));
                }
                13 => {
                    s.serialize_parameter("n", Silent);
                    model.push(Op::Param("n".into(), String::new()));
                }
                14 => {
                    s.serialize_oauth_parameters();
                    model.extend((0..8).map(Op::Slot));
                }
                _ => fork = Some((s.clone(), model.clone())),
            }
            let h: Vec<Op> = s.history().iter().map(from_record).collect();
            cx.state(&h);
            ensure_eq!(h, model, "history after operation {}", i);
        }
        if let Some((f, m)) = fork {
            ensure_eq!(f == s, m == model, "comparison of two recorders with histories {:?} and {:?}", m, model);
            ensure_eq!(f.history().iter().map(from_record).collect::<Vec<_>>(), m, "history of the clone");
            ensure_eq!(f.end().iter().map(from_record).collect::<Vec<_>>(), m, "result of the clone");
        }
        ensure_eq!(s.end().iter().map(from_record).collect::<Vec<_>>(), model, "result");
        Ok(())
    });
    rn.scenario("record-pairs", "all pairs of records over kinds, names and values of different string types: equal iff same operation, name and formatted value", 0, |cx| {
        // Values: the type is picked separately from the text.
        const TX: [&str; 12] = ["", "a", "b", "ab", "ba", "é", "1", "10", "%", "x", "aa", "e\u{301}"];
        const KS: [&str; 6] = ["", "a", "ab", "b", "oauth_token", "A"];
        const KINDS_: usize = 10;
        let kinds = cx.pick(KINDS_ * KINDS_);
        let (k1, k2) = (kinds / KINDS_, kinds % KINDS_);
        let (n1, n2, t1, t2) = if k1 < 2 && k2 < 2 { (cx.pick(6), cx.pick(6), cx.pick(12), cx.pick(12)) } else { (0, 0, 0, 0) };
        fn mk<K, V>(kind: usize, k: K, v: V) -> Record<K, V> {
            match kind {
                0 => Record::Parameter(k, v),
                1 => Record::ParameterEncoded(k, v),
                2 => Record::Callback,
                3 => Record::ConsumerKey,
                4 => Record::Nonce,
                5 => Record::SignatureMethod,
                6 => Record::Timestamp,
                7 => Record::Token,
                8 => Record::Verifier,
                _ => Record::Version,
            }
        }
        let want = k1 == k2 && (k1 >= 2 || (KS[n1] == KS[n2] && TX[t1] == TX[t2]));
        cx.state(&(kinds, n1, n2, t1, t2));
        fn both<K: AsRef<str>, V: Display, K2: AsRef<str>, V2: Display>(a: &Record<K, V>, b: &Record<K2, V2>, want: bool, what: &str) -> Verdict {
            ensure_eq!(a == b, want, "{}: left to right", what);
            ensure_eq!(b == a, want, "{}: right to left", what);
            ensure_eq!(a != b, !want, "{}: !=", what);
            ensure!(a == a && b == b, "{}: not reflexive", what);
            Ok(())
        }
        let what = format!("kind {} {:?}={:?} and kind {} {:?}={:?}", k1, KS[n1], TX[t1], k2, KS[n2], TX[t2]);
        let a = mk(k1, KS[n1].to_string(), TX[t1].to_string());
        macro_rules! against {
            ($v2:expr) => {{
                both(&a, &mk(k2, KS[n2].to_string(), $v2), want, &what)?;
                both(&mk(k1, KS[n1], TX[t1]), &mk(k2, Cow::Borrowed(KS[n2]), $v2), want, &what)?;
                both(&mk(k1, Box::<str>::from(KS[n1]), Val { text: TX[t1].into(), split: Split::Chars }), &mk(k2, KS[n2], $v2), want, &what)?;
                both(&mk(k1, KS[n1], format_args!("{}", TX[t1])), &mk(k2, KS[n2], $v2), want, &what)?;
                if TX[t1].is_empty() {
                    both(&mk(k1, KS[n1], Silent), &mk(k2, KS[n2], $v2), want, &what)?;
                }
            }};
        }
        against!(TX[t2].to_string());
        against!(TX[t2]);
        against!(Cow::Borrowed(TX[t2]));
        for s in SPLITS {
            against!(Val { text: TX[t2].into(), split: *s });
        }
        against!(format_args!("{}", TX[t2]));
        if let Ok(x) = TX[t2].parse::<u64>() {
            against!(x);
        }
        if TX[t2].chars().count() == 1 {
            against!(TX[t2].chars().next().unwrap());
        }
        if TX[t2].is_empty() {
            against!(Silent);
            against!(format_args!(""));
        }
        Ok(())
    });
    rn.scenario("joined-records", "all pairs of records whose name and value are texts of up to two characters over a letter and one other character", 0, |cx| {
        let other = *cx.of(&['=', '&', ' ', ',', ':', ';', '"', '\'', '%', '-', '_', '.', '(', ')', '/', '\\', '\0', '\n', '\t', '|', '\u{1f}', '\u{e9}']);
        let texts: Vec<String> = ["", "a", "o", "aa", "ao", "oa", "oo"].iter().map(|t| t.replace('o', &other.to_string())).collect();
        let (k1, v1, k2, v2) = (cx.of(&texts).clone(), cx.of(&texts).clone(), cx.of(&texts).clone(), cx.of(&texts).clone());
        let encoded = cx.pick(3);
        cx.state(&(&k1, &v1, &k2, &v2, encoded));
        let want = k1 == k2 && v1 == v2;
        let (eq, qe) = match encoded {
            0 => {
                let (a, b) = (Record::Parameter(&k1, &v1), Record::Parameter(&k2, &v2));
                (a == b, b == a)
            }
            1 => {
                let (a, b) = (Record::ParameterEncoded(&k1, &v1), Record::ParameterEncoded(&k2, &v2));
                (a == b, b == a)
            }
            _ => {
                let (a, b) = (Record::Parameter(&k1, &v1), Record::ParameterEncoded(&k2, &v2));
                ensure!(a != b && b != a, "a plain and an encoded record are equal: {:?} {:?}", a, b);
                return Ok(());
            }
        };
        ensure!(eq == want && qe == want, "records of {:?}, {:?} and {:?}, {:?}: == gives {} and {}", k1, v1, k2, v2, eq, qe);
        Ok(())
    });
    rn.scenario("protocol-parameters", "the advertised list against what requests without parameters perform", 0, |cx| {
        let empty = Record::<String, String>::OAUTH_PARAMETERS;
        let v: Vec<Record> = match cx.pick(6) {
            0 => ().serialize(Recorder::new()),
            1 => None::<()>.serialize(Recorder::new()),
            2 => AssertSorted::new(Vec::<(String, String)>::new()).serialize(Recorder::new()),
            3 => ParameterList::<String, String>::default().serialize(Recorder::new()),
            4 => SpecReq::default().serialize(Recorder::new()),
            _ => {
                let mut s = Recorder::new();
                s.serialize_oauth_parameters();
                s.end()
            }
        };
        cx.state(&v.len());
        ensure_eq!(v.iter().map(from_record).collect::<Vec<_>>(), (0..8).map(Op::Slot).collect::<Vec<_>>(), "an empty request");
        ensure_eq!(empty.iter().map(from_record).collect::<Vec<_>>(), (0..8).map(Op::Slot).collect::<Vec<_>>(), "OAUTH_PARAMETERS");
        ensure!(v == empty, "OAUTH_PARAMETERS does not compare equal");
        ensure!(v == Record::<&str, u32>::OAUTH_PARAMETERS, "OAUTH_PARAMETERS of other types does not compare equal");
        Ok(())
    });
    rn.scenario("requests", "what the recorder reports about a request against the request", rn.by(3, 4), |cx| {
        let n = *cx.of(&[1usize, 0, 2, 3]);
        let mut ps = vec![];
        for i in 0..n {
            let key = if i == 0 { *cx.devof(KEYS) } else { *cx.devof(&["b", "oauth_token_x", "z", "b", "oauth_"]) };
            ps.push(param(key, *cx.devof(TEXTS), *cx.devof(SPLITS), cx.dflag()));
        }
        let q = SpecReq::sorted(ps);
        let got: Vec<Op> = q.serialize(Recorder::new()).iter().map(from_record).collect();
        cx.state(&got);
        ensure_eq!(got, q.serialize(Tape::default()), "recorder against a user-written serializer");
        Ok(())
    });
    let max = rn.by(300, 3000);
    rn.scenario("names-and-lengths", "names of the corpus, and every length of values, encoded values and names", 0, move |cx| {
        let q = names_and_lengths(cx, max);
        let got: Vec<Op> = q.serialize(Recorder::new()).iter().map(from_record).collect();
        cx.state(&got);
        ensure_eq!(got, q.serialize(Tape::default()), "recorder against a user-written serializer");
        Ok(())
    });
    rn.scenario("wide-texts", "the wide corpus as name, value, encoded value", 0, |cx| {
        let place = cx.pick(4);
        let t = texts::any(cx);
        let q = SpecReq(match place {
            0 => vec![param(&t, "v", Split::Whole, false)],
            1 => vec![p("k", &t), p("k", &t)],
            2 => vec![param("k", &t, Split::Whole, true)],
            _ => vec![p("a", "x"), param("k", &t, Split::Chars, false), param("oauth_o", &t, Split::Strs, true), p("z", &t)],
        });
        let got: Vec<Op> = q.serialize(Recorder::new()).iter().map(from_record).collect();
        cx.state(&got);
        ensure_eq!(got, q.serialize(Tape::default()), "recorder against a user-written serializer");
        Ok(())
    });
}

// ---------------------------------------------------------------------------------------------

/// A list element with an identity of its own.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
struct El {
    text: &'static str,
    how: u8,
    id: u32,
}
impl Display for El {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self.how {
            0 => f.write_str(self.text),
            1 => self.text.chars().try_for_each(|c| write!(f, "{}", c)),
            2 => {
                f.write_str("")?;
                f.write_str(self.text)?;
                f.write_str("")
            }
            _ => Ok(()),
        }
    }
}
type E = (&'static str, El);

/// A container written by a user.
#[derive(Clone, Debug, Default, PartialEq)]
struct Bag(std::collections::LinkedList<()>, Vec<E>);
impl AsRef<[E]> for Bag {
    fn as_ref(&self) -> &[E] {
        &self.1
    }
}
impl AsMut<[E]> for Bag {
    fn as_mut(&mut self) -> &mut [E] {
        &mut self.1
    }
}
impl Extend<E> for Bag {
    fn extend<I: IntoIterator<Item = E>>(&mut self, i: I) {
        // Puts new elements in front.
        for e in i {
            self.1.insert(0, e);
        }
    }
}
impl FromIterator<E> for Bag {
    fn from_iter<I: IntoIterator<Item = E>>(i: I) -> Self {
        Bag(Default::default(), i.into_iter().collect())
    }
}

fn rank(e: &E) -> (Vec<u8>, String) {
    (e.0.as_bytes().to_vec(), if e.1.how == 3 { String::new() } else { r::pct(e.1.text) })
}
fn in_order(es: &[E]) -> bool {
    es.windows(2).all(|w| rank(&w[0]) <= rank(&w[1]))
}
fn ids(es: &[E]) -> Vec<u32> {
    let mut v: Vec<u32> = es.iter().map(|e| e.1.id).collect();
    v.sort();
    v
}

/// All observations of a list against the elements put in.
fn list_ok<A: AsRef<[E]> + Clone>(l: &ParameterList<&'static str, El, A>, put: &[E]) -> Verdict
where
{
    let it: Vec<E> = l.iter().copied().collect();
    ensure_eq!(ids(&it), ids(put), "iterating {:?} does not give the elements put in", it);
    ensure!(it.iter().all(|e| put.contains(e)), "an element was altered");
    ensure!(in_order(&it), "not in order: {:?}", it);
    ensure_eq!(l.as_ref(), &it[..], "as_ref against iter");
    let ops = l.serialize(Tape::default());
    let want: Vec<Op> = it.iter().map(|e| Op::Param(e.0.into(), if e.1.how == 3 { String::new() } else { e.1.text.into() })).collect();
    well_formed("the list", &ops, &want)?;
    ensure_eq!(oauth::to_form(l), form_of(&it.iter().map(|e| (e.0.to_string(), rank(e).1)).collect::<Vec<_>>()), "form of the list");
    Ok(())
}

const UNIVERSE: [(&str, &str, u8); 12] = [
    ("b", "~", 0), ("b", "é", 1), ("a", "z", 0), ("", "", 0), ("b", "", 3), ("b", "/", 2), ("oauth_token", "x", 0), ("ba", "", 2), ("b", "0", 0), ("b", "", 0), ("oauth_nonce-", " ", 1), ("b", "~a", 2),
];
fn el(i: usize, id: u32) -> E {
    let (k, t, how) = UNIVERSE[i];
    (k, El { text: t, how, id })
}

pub fn c23(rn: &mut Runner) {
    rn.assumptions.push("operations return normally: an iterator or Display implementation that panics inside an operation may leave the list in any order".into());
    let (len, uni) = rn.by((4, 9), (5, 12));
    rn.scenario("construction", "every sequence of elements x every way of building a list x container type", 0, move |cx| {
        let n = cx.pick(len + 1);
        let es: Vec<E> = (0..n).map(|i| el(cx.pick(uni), i as u32)).collect();
        let sorted = in_order(&es);
        let mut ord = es.clone();
        ord.sort_by_key(rank);
        cx.state(&es);
        type L<A> = ParameterList<&'static str, El, A>;
        let l: L<Vec<E>> = ParameterList::new(es.clone());
        list_ok(&l, &es)?;
        let inner = l.into_inner();
        ensure_eq!(ids(&inner), ids(&es), "into_inner");
        ensure!(in_order(&inner), "into_inner is not in order: {:?}", inner);
        list_ok(&L::<Vec<E>>::from(es.clone()), &es).map_err(|e| format!("From: {}", e))?;
        list_ok(&es.iter().copied().collect::<L<Vec<E>>>(), &es).map_err(|e| format!("collect: {}", e))?;
        list_ok(&es.iter().copied().collect::<L<Bag>>(), &es).map_err(|e| format!("collect into Bag: {}", e))?;
        list_ok(&L::<Box<[E]>>::new(es.clone().into_boxed_slice()), &es).map_err(|e| format!("Box: {}", e))?;
        let mut d = L::<Vec<E>>::default();
        list_ok(&d, &[]).map_err(|e| format!("default: {}", e))?;
        d.extend(es.iter().copied());
        list_ok(&d, &es).map_err(|e| format!("default, then extend: {}", e))?;
        let mut d = L::<Bag>::default();
        for (i, e) in es.iter().enumerate() {
            d.extend(Some(*e));
            list_ok(&d, &es[..=i]).map_err(|e| format!("extended one by one: {}", e))?;
        }
        // In place.
        let mut own = es.clone();
        {
            let l = ParameterList::<&'static str, El, &mut [E], E>::new(&mut own[..]);
            let it: Vec<E> = l.iter().copied().collect();
            ensure!(in_order(&it) && ids(&it) == ids(&es), "a list over a mutable slice: {:?}", it);
        }
        ensure!(in_order(&own) && ids(&own) == ids(&es), "the slice after the list: {:?}", own);
        // References as elements.
        let refs: Vec<&E> = es.iter().collect();
        let l = ParameterList::<&'static str, El, Vec<&E>, &E>::new(refs.clone());
        let it: Vec<E> = l.iter().copied().collect();
        ensure!(in_order(&it) && ids(&it) == ids(&es), "a list of references: {:?}", it);
        // Checked construction.
        let chk = L::<Vec<E>>::from_sorted(es.clone());
        ensure_eq!(chk.is_some(), sorted, "from_sorted of {:?}", es);
        if let Some(l) = &chk {
            ensure_eq!(l.as_ref(), &es[..], "from_sorted changed the order");
            list_ok(l, &es)?;
            ensure_eq!(chk.clone_inner(), es, "from_sorted, then into_inner");
        }
        ensure_eq!(L::<&[E]>::from_sorted(&es[..]).is_some(), sorted, "from_sorted of a slice {:?}", es);
        ensure_eq!(L::<Bag>::from_sorted(Bag(Default::default(), es.clone())).is_some(), sorted, "from_sorted of another container {:?}", es);
        ensure_eq!(ParameterList::<&'static str, El, Vec<&E>, &E>::from_sorted(refs).is_some(), sorted, "from_sorted of references to {:?}", es);
        ensure!(L::<Vec<E>>::from_sorted(ord.clone()).is_some(), "from_sorted of the sorted {:?}", ord);
        if n == 3 {
            let arr = [es[0], es[1], es[2]];
            let l = ParameterList::<&'static str, El, [E; 3]>::new(arr);
            list_ok(&l, &es).map_err(|e| format!("array: {}", e))?;
        }
        Ok(())
    });
    let (depth, uni) = rn.by((4, 5), (5, 6));
    rn.scenario("histories", "every history of building and extending with batches of up to two elements", 0, move |cx| {
        let mut put: Vec<E> = vec![];
        let mut id = 0;
        let mut batch = |cx: &mut Ctx, max: usize| -> Vec<E> {
            (0..cx.pick(max + 1))
                .map(|_| {
                    id += 1;
                    el(cx.pick(uni), id)
                })
                .collect()
        };
        let start = batch(cx, 2);
        put.extend(&start);
        type L = ParameterList<&'static str, El, Vec<E>>;
        let mut l = match cx.pick(3) {
            0 => L::new(start),
            1 => start.into_iter().collect(),
            _ => match L::from_sorted(start.clone()) {
                Some(l) => l,
                None => L::from(start),
            },
        };
        list_ok(&l, &put)?;
        let n = depth - 2 - put.len().min(depth - 2);
        for _ in 0..n {
            let b = batch(cx, 2);
            put.extend(&b);
            if cx.flag() {
                l = L::from_sorted(l.into_inner()).ok_or("from_sorted refused what into_inner gave")?;
            }
            l.extend(b);
            cx.state(&l.iter().collect::<Vec<_>>());
            list_ok(&l, &put)?;
        }
        Ok(())
    });
    rn.scenario("long-lists", "lists of 0 to 70 elements: all rotations, reversals and single transpositions", 0, |cx| {
        let n = cx.pick(71);
        let mut es: Vec<E> = (0..n).map(|i| el([3, 2, 9, 8, 5, 1, 0, 11, 7, 10, 6][i * 11 / n.max(1)], i as u32)).collect();
        es.sort_by_key(rank);
        match cx.pick(3) {
            0 => es.rotate_left(cx.pick(n + 1)),
            1 => {
                es.reverse();
                es.rotate_left(cx.pick(n + 1));
            }
            _ if n > 1 => {
                let i = cx.pick(n);
                let j = cx.pick(n);
                es.swap(i, j);
            }
            _ => {}
        }
        cx.state(&es.iter().map(|e| e.1.id).collect::<Vec<_>>());
        let l = ParameterList::<&'static str, El>::new(es.clone());
        let it: Vec<E> = l.iter().copied().collect();
        ensure!(in_order(&it) && ids(&it) == ids(&es), "a list of {} elements: {:?}", n, it);
        ensure_eq!(ParameterList::<&'static str, El>::from_sorted(es.clone()).is_some(), in_order(&es), "from_sorted of {:?}", es);
        Ok(())
    });
    rn.scenario("values", "all pairs of values under one name: order of the encoded values", 0, |cx| {
        let a = *cx.of(TEXTS);
        let b = *cx.of(TEXTS);
        let sa = *cx.of(SPLITS);
        let sb = *cx.of(SPLITS);
        let x = ("k", Val { text: a.into(), split: sa });
        let y = ("k", Val { text: b.into(), split: sb });
        let (ea, eb) = (r::pct(a), r::pct(b));
        cx.state(&(a, b));
        let l = ParameterList::new(vec![x.clone(), y.clone()]);
        let got: Vec<String> = l.iter().map(|e| r::pct(&e.1.text)).collect();
        let mut want = vec![ea.clone(), eb.clone()];
        want.sort();
        ensure_eq!(got, want, "order of {:?} and {:?}", a, b);
        ensure_eq!(ParameterList::<_, _, _>::from_sorted(vec![x, y]).is_some(), ea <= eb, "from_sorted of {:?}, {:?}", a, b);
        // Numbers are compared by their text.
        Ok(())
    });
    rn.scenario("wide-values", "the wide corpus against several values under one name and as a name: order, and what is kept", 0, |cx| {
        let t = texts::few(cx);
        let other = (*cx.of(&["", "x", "%", "a", "~", "é", "xx", "0", "Z"])).to_string();
        let (x, y) = if cx.flag() { (("k".to_string(), t), ("k".to_string(), other)) } else { ((t, "v".to_string()), (other, "v".to_string())) };
        cx.state(&(&x, &y));
        let key = |e: &(String, String)| (e.0.clone(), r::pct(&e.1));
        let mut want = vec![x.clone(), y.clone()];
        want.sort_by_key(key);
        let sorted = key(&x) <= key(&y);
        let all = |l: &ParameterList<String, String>| l.iter().cloned().collect::<Vec<_>>();
        ensure_eq!(all(&ParameterList::new(vec![x.clone(), y.clone()])), want, "new");
        ensure_eq!(all(&ParameterList::from_iter([y.clone(), x.clone()])), want, "collected");
        let mut l = ParameterList::new(vec![x.clone()]);
        l.extend([y.clone()]);
        ensure_eq!(all(&l), want, "extended");
        ensure_eq!(ParameterList::<_, _, _>::from_sorted(vec![x, y]).is_some(), sorted, "from_sorted of {:?}", want);
        Ok(())
    });
    let max = rn.by(300, 1000);
    rn.scenario("common-prefixes", "names, and values of one name, that share a prefix of every length", 0, move |cx| {
        let unit = *cx.of(&["x", "&", "~", "\u{e9}", "oauth_"]);
        let n = cx.pick(max + 1);
        let [a, b] = *cx.of(&[["b", "a"], ["", "a"], ["~", "\u{e9}"], ["Z", "a"], ["-", "%"], ["/", "aa"]]);
        let t = unit.repeat(n);
        let (x, y) = (format!("{}{}", t, a), format!("{}{}", t, b));
        let (x, y) = if cx.flag() { (("k".to_string(), x), ("k".to_string(), y)) } else { ((x, "v".to_string()), (y, "v".to_string())) };
        cx.state(&(&x, &y));
        let key = |e: &(String, String)| (e.0.clone(), r::pct(&e.1));
        let mut want = vec![x.clone(), y.clone()];
        want.sort_by_key(key);
        for (i, j) in [(&x, &y), (&y, &x)] {
            let v = vec![i.clone(), j.clone()];
            let l: ParameterList<String, String> = ParameterList::new(v.clone());
            ensure_eq!(l.iter().cloned().collect::<Vec<_>>(), want, "new");
            let mut l: ParameterList<String, String> = ParameterList::new(vec![i.clone()]);
            l.extend([j.clone()]);
            ensure_eq!(l.into_inner(), want, "extended");
            ensure_eq!(ParameterList::<_, _, _>::from_sorted(v).is_some(), key(i) <= key(j), "from_sorted of {:?}, {:?}", i, j);
        }
        Ok(())
    });
    rn.scenario("names", "every name of the corpus among others", 0, move |cx| {
        let name = texts::name(cx).to_string();
        let at = cx.pick(6);
        let mut es: Vec<(String, String)> = ["a", "oauth_token", "oauth_tokem", "z", "M"].iter().map(|s| (s.to_string(), "\u{e9}".into())).collect();
        es.insert(at, (name.clone(), "~".into()));
        es.insert((at * 5) % 7, (name, "\u{e9}".into()));
        let mut want = es.clone();
        want.sort_by_key(|e| (e.0.clone(), r::pct(&e.1)));
        cx.state(&want);
        let l: ParameterList<String, String> = ParameterList::new(es.clone());
        ensure_eq!(l.iter().cloned().collect::<Vec<_>>(), want, "new");
        ensure_eq!(ParameterList::<_, _, _>::from_sorted(es.clone()).is_some(), es == want, "from_sorted of {:?}", es);
        ensure!(ParameterList::<_, _, _>::from_sorted(want.clone()).is_some(), "from_sorted of the sorted {:?}", want);
        Ok(())
    });
    rn.scenario("numbers", "numeric values are ordered as text", 0, |cx| {
        const N: [i64; 9] = [0, 1, 2, 9, 10, 19, 100, -1, -10];
        let es: Vec<(String, i64)> = (0..3).map(|_| ("n".to_string(), N[cx.pick(9)])).collect();
        let mut want: Vec<String> = es.iter().map(|e| r::pct(&e.1.to_string())).collect();
        want.sort();
        cx.state(&want);
        let l: ParameterList<String, i64> = es.into_iter().collect();
        ensure_eq!(l.iter().map(|e| e.1.to_string()).collect::<Vec<_>>(), want, "order of numbers");
        Ok(())
    });
}

trait CloneInner {
    fn clone_inner(&self) -> Vec<E>;
}
impl CloneInner for Option<ParameterList<&'static str, El, Vec<E>>> {
    fn clone_inner(&self) -> Vec<E> {
        self.as_ref().map_or(vec![], |l| l.as_ref().to_vec())
    }
}
