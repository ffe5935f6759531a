//! C09 / C10: automatic nonces and timestamps, with the clock and the entropy source scripted.
use crate::common::*;
use mccore::env::Entropy;
use mccore::refimpl as r;
use mccore::*;
use oauth::serializer::{auth, Authorizer, Serializer};
use oauth::signature_method::{Plaintext, HMAC_SHA1};
use oauth::{Builder, Credentials, Token};
use oauth1_request as oauth;
use std::collections::HashSet;
use std::num::NonZeroU64;

/// Whether the configuration has a per-thread generator seeded from system entropy, as opposed to
/// drawing from the system for each nonce.
const STD: bool = cfg!(feature = "std");

/// Runs `f` on a new OS thread with its own clock and entropy.
pub fn fresh<T: Send>(clock: Vec<(i64, i64)>, entropy: Entropy, f: impl FnOnce() -> T + Send) -> Result<T, String> {
    std::thread::scope(|s| {
        s.spawn(move || {
            env::set(Some(clock), Some(entropy));
            let r = catch(f);
            env::clear();
            r
        })
        .join()
        .unwrap()
    })
}
fn rng(seed: u64) -> Entropy {
    Entropy::Script { head: vec![], seed }
}
const T0: (i64, i64) = (1_600_000_000, 123_456_789);

fn auto_case(kind: Kind) -> Case {
    let mut c = Case::basic(kind);
    c.nonce = None;
    // Without the standard library there is no clock.
    c.timestamp = if STD { None } else { Some(9) };
    c
}
fn field<'a>(seen: &'a Seen, k: &str) -> &'a str {
    seen.proto.iter().find(|p| p.0 == k).map_or("", |p| &p.1)
}
/// Signs, verifies the output, and returns its nonce.
fn nonce_of(c: &Case, out: &str, sig: Sig) -> Result<String, String> {
    let seen = verify(c, out, sig)?;
    Ok(field(&seen, "oauth_nonce").to_string())
}
fn one_nonce(kind: Kind) -> Result<String, String> {
    let c = auto_case(kind);
    let out = c.run(HMAC_SHA1);
    nonce_of(&c, &out, Sig::Hmac)
}

pub fn c09(rn: &mut Runner) {
    rn.assumptions.push("the entropy source is the getrandom system call, which the harness answers per thread".into());
    rn.assumptions.push("entropy of generated nonces is measured over an enumerated set of entropy streams (marginal entropy of every bit position and of every pair), not over all 2^256 seeds".into());
    // Any history of signing operations on one builder, clones, and fresh threads: all nonces differ.
    let depth = rn.by(4, 6);
    rn.scenario("histories", "all sequences of signing operations (builder reuse, clones, consuming, free functions, hand-driven serializers cloned before the nonce, other threads) under one clock value", 0, move |cx| {
        let n = 1 + cx.pick(depth);
        let seed = cx.pick(2) as u64;
        let ops: Vec<usize> = (0..n).map(|_| cx.pick(10)).collect();
        let res = fresh(vec![T0], rng(seed), || -> Result<Vec<(String, bool)>, String> {
            let c = auto_case(Kind::Header);
            let cf = auto_case(Kind::Form);
            let cq = auto_case(Kind::Query);
            let mut b: Builder<'_, _, &str, &str> = c.builder(HMAC_SHA1);
            let mut explicit: Option<&'static str> = None;
            let mut out: Vec<(String, bool)> = vec![];
            for (i, &o) in ops.iter().enumerate() {
                let mut e = c.clone();
                let mut ef = cf.clone();
                let mut eq = cq.clone();
                for x in [&mut e, &mut ef, &mut eq] {
                    x.nonce = explicit.map(Into::into);
                }
                let is = explicit.is_some();
                let req = c.request();
                match o {
                    0 => out.push((nonce_of(&e, &b.authorize("POST", &c.uri, &req), Sig::Hmac)?, is)),
                    1 => out.push((nonce_of(&ef, &b.to_form("POST", &c.uri, &req), Sig::Hmac)?, is)),
                    2 => out.push((nonce_of(&eq, &b.to_query("POST", c.uri.text.clone(), &req), Sig::Hmac)?, is)),
                    3 => {
                        // A clone is used, then replaces the original.
                        let d = b.clone();
                        out.push((nonce_of(&e, &d.authorize("POST", &c.uri, &req), Sig::Hmac)?, is));
                        b = d;
                    }
                    4 => out.push((nonce_of(&e, &b.clone().into_authorization("POST", &c.uri, &req), Sig::Hmac)?, is)),
                    5 if !STD => {}
                    5 => {
                        let t = Token::<&str, &str>::from_parts("ck", "cs", "tk", "ts");
                        out.push((nonce_of(&c, &oauth::post(&c.uri, &req, &t, HMAC_SHA1), Sig::Hmac)?, false));
                    }
                    6 => {
                        let mut po = auth::Options::new();
                        po.nonce(None).timestamp(c.timestamp.and_then(NonZeroU64::new));
                        let cl = Credentials::new("ck", "cs");
                        let tk = Some(Credentials::new("tk", "ts"));
                        let mut s: Authorizer<'_, _> = Authorizer::authorization("POST", &c.uri, cl, tk, &po, HMAC_SHA1);
                        s.serialize_oauth_callback();
                        s.serialize_oauth_consumer_key();
                        let mut t = s.clone();
                        for i in 2..8 {
                            slot(&mut s, i);
                            slot(&mut t, i);
                        }
                        out.push((nonce_of(&c, &s.end(), Sig::Hmac)?, false));
                        out.push((nonce_of(&c, &t.end(), Sig::Hmac)?, false));
                    }
                    7 => {
                        explicit = Some(["explicit-nonce", "é&=", ""][i % 3]);
                        b.nonce(explicit);
                    }
                    8 => {
                        explicit = None;
                        b.nonce(None);
                    }
                    _ => {
                        // Another thread, with entropy of its own.
                        let (bb, ee) = (b.clone(), e.clone());
                        let x = fresh(vec![T0], rng(1000 + seed * 100 + i as u64), move || nonce_of(&ee, &bb.authorize("POST", "https://example.com/r", &()), Sig::Hmac))??;
                        out.push((x, is));
                    }
                }
            }
            Ok(out)
        });
        let nonces = res.map_err(|e| format!("{:?}: {}", ops, e))??;
        for x in &nonces {
            cx.state(x);
        }
        cx.note(|| format!("{:?} => {:?}", ops, nonces));
        let auto: Vec<&String> = nonces.iter().filter(|x| !x.1).map(|x| &x.0).collect();
        let set: HashSet<&String> = auto.iter().copied().collect();
        ensure_eq!(set.len(), auto.len(), "a nonce was repeated in {:?} by operations {:?}", nonces, ops);
        Ok(())
    });
    // Every context that could leak into the nonce: same entropy, different inputs; different
    // entropy, same inputs.
    rn.scenario("entropy-only", "different entropy gives different nonces under every clock; enough entropy is drawn before the first nonce", 1, |cx| {
        let kind = *cx.devof(&KINDS);
        let plain = cx.dflag();
        let clock = *cx.devof(&[T0, (0, 0), (-5, 0), (i64::MAX, 0), (1, 999_999_999), (1_600_000_001, 0)]);
        let mut c = auto_case(kind);
        if cx.dflag() {
            c.params = vec![p("a", "b"), p("z", "")];
        }
        let n = if cx.quick() { 64 } else { 512 };
        let mut all = HashSet::new();
        for seed in 0..n {
            let c = &c;
            let (o, used) = fresh(vec![clock], rng(seed), move || {
                let o = if plain { c.run(Plaintext::new()) } else { c.run(HMAC_SHA1) };
                (o, env::usage().2)
            })?;
            let x = nonce_of(c, &o, if plain { Sig::Plain } else { Sig::Hmac })?;
            cx.state(&x);
            ensure!(used >= 9, "only {} bytes of entropy were drawn from the system before nonce {:?}", used, x);
            ensure!(all.insert(x.clone()), "nonce {:?} came up twice under clock {:?} with different entropy", x, clock);
        }
        Ok(())
    });
    // Each bit of entropy matters.
    rn.scenario("bit-sensitivity", "flipping any one or two of the first bits of entropy changes the nonce", 0, |cx| {
        let seed = cx.pick(4) as u64;
        let kind = *cx.of(&KINDS);
        let bits: usize = if STD { 256 } else { 72 };
        let base: Vec<u8> = (0..bits / 8).map(|i| env::stream(seed + 99, i)).collect();
        let get = |head: &[u8]| fresh(vec![T0], Entropy::Script { head: head.to_vec(), seed: 5 }, move || one_nonce(kind)).and_then(|x| x);
        let reference = get(&base)?;
        let mut sensitive = 0;
        let mut seen = HashSet::new();
        seen.insert(reference.clone());
        for i in 0..bits {
            let mut h = base.clone();
            h[i / 8] ^= 1 << (i % 8);
            let x = get(&h)?;
            cx.state(&x);
            if x != reference {
                sensitive += 1;
            }
            if !STD {
                ensure!(seen.insert(x.clone()), "flipping bit {} of the entropy gives the nonce {:?} again", i, x);
                for j in 0..i {
                    let mut h = h.clone();
                    h[j / 8] ^= 1 << (j % 8);
                    let x = get(&h)?;
                    ensure!(seen.insert(x.clone()), "flipping bits {} and {} of the entropy gives the nonce {:?} again", i, j, x);
                }
            }
        }
        ensure!(sensitive >= 72, "only {} bits of the system's entropy influence the nonce", sensitive);
        Ok(())
    });
    // Leading zero bytes are the only special case of the encoding: all patterns of zero bytes.
    rn.scenario("special-draws", "entropy draws with every pattern of zero and all-ones bytes", 0, |cx| {
        let mask = cx.pick(512);
        let fill = *cx.of(&[0xffu8, 1, 0x80, 0x3f]);
        let head: Vec<u8> = (0..9).map(|i| if mask >> i & 1 == 1 { fill } else { 0 }).collect();
        let h2 = head.clone();
        let (a, b) = fresh(vec![T0], Entropy::Script { head, seed: 1 }, || (one_nonce(Kind::Header), one_nonce(Kind::Query)))?;
        let (a, b) = (a?, b?);
        cx.state(&a);
        ensure!(a != b, "nonce {:?} repeated", a);
        if !STD {
            // The draw itself must be recoverable from the nonce.
            static SEEN: std::sync::Mutex<Option<std::collections::HashMap<String, Vec<u8>>>> = std::sync::Mutex::new(None);
            let mut g = SEEN.lock().unwrap();
            let m = g.get_or_insert_with(Default::default);
            if let Some(o) = m.insert(a.clone(), h2.clone()) {
                ensure!(o == h2, "entropy {:?} and {:?} give the same nonce {:?}", o, h2, a);
            }
        }
        Ok(())
    });
    // The distribution over an enumerated set of entropy streams.
    let n = rn.by(1 << 14, 1 << 17);
    rn.scenario_serial("distribution", "bit-position entropies of the nonces (and of the xor of consecutive nonces) over an enumerated set of entropy streams", 0, move |cx| {
        let kind = *cx.of(&[Kind::Header, Kind::Form]);
        let mut firsts: Vec<Vec<u8>> = Vec::with_capacity(n);
        let mut xors: Vec<Vec<u8>> = Vec::with_capacity(n);
        let mut set = HashSet::new();
        let chunk = n / 8;
        let parts: Vec<Result<Vec<(String, String)>, String>> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..8)
                .map(|t| {
                    s.spawn(move || {
                        (t * chunk..(t + 1) * chunk)
                            .map(|seed| fresh(vec![T0], rng(seed as u64), move || Ok((one_nonce(kind)?, one_nonce(kind)?))).and_then(|x: Result<_, String>| x))
                            .collect()
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        let mut width = 0;
        let mut pairs = vec![];
        for p in parts {
            pairs.extend(p?);
        }
        for (a, b) in &pairs {
            ensure!(set.insert(a.clone()) && set.insert(b.clone()), "nonce repeated among {} streams: {:?} {:?}", n, a, b);
            width = width.max(a.len()).max(b.len());
        }
        // Characters aligned at the end, so that a trimmed prefix counts as absent characters.
        let pad = |s: &str| -> Vec<u8> { std::iter::repeat(0).take(width - s.len()).chain(s.bytes()).collect() };
        for (a, b) in &pairs {
            let (a, b) = (pad(a), pad(b));
            xors.push(a.iter().zip(&b).map(|(x, y)| x ^ y).collect());
            firsts.push(a);
        }
        let entropy = |rows: &[Vec<u8>], cols: &[usize]| -> f64 {
            let mut m: std::collections::HashMap<Vec<u8>, u32> = Default::default();
            for r in rows {
                *m.entry(cols.iter().map(|&c| r[c]).collect()).or_default() += 1;
            }
            let n = rows.len() as f64;
            let h: f64 = m.values().map(|&c| -(c as f64 / n) * (c as f64 / n).log2()).sum();
            // Miller-Madow correction.
            h + (m.len() as f64 - 1.0) / (2.0 * n * std::f64::consts::LN_2)
        };
        let single: Vec<f64> = (0..width).map(|c| entropy(&firsts, &[c])).collect();
        let total: f64 = single.iter().sum();
        cx.state(&set.len());
        cx.note(|| format!("{} streams: entropy by position {:?}, {:.2} bits in total", n, single.iter().map(|x| (x * 100.0).round() / 100.0).collect::<Vec<_>>(), total));
        ensure!(total > 71.0, "nonces carry at most {:.1} bits of entropy ({:?})", total, single);
        // Pairwise independence: a repeated or derived character would show.
        let mut dependent = 0.0f64;
        for i in 0..width {
            for j in 0..i {
                dependent += (single[i] + single[j] - entropy(&firsts, &[i, j])).max(0.0);
            }
        }
        ensure!(total - dependent > if n > 100_000 { 68.0 } else { 50.0 }, "nonce characters determine each other ({:.1} of {:.1} bits)", dependent, total);
        let x: f64 = (0..width).map(|c| entropy(&xors, &[c])).sum();
        ensure!(x > 60.0, "consecutive nonces differ by only {:.1} bits of entropy", x);
        Ok(())
    });
    // A generator of few bits of state repeats itself.
    let n = rn.by(1 << 20, 1 << 23);
    rn.scenario_serial("no-repetition", "long histories of signings in several threads: no two nonces are the same", 0, move |cx| {
        let streams = cx.pick(2);
        let parts: Vec<Result<Vec<u128>, String>> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..8u64)
                .map(|t| {
                    s.spawn(move || {
                        fresh(vec![T0], rng(1_000_000 + t + 8 * streams as u64), move || {
                            let c = auto_case(Kind::Header);
                            let b = c.builder(NoSign);
                            (0..n)
                                .map(|_| {
                                    let h = b.authorize_with_buf(Fixed::default(), "GET", "", &());
                                    let h = h.text();
                                    let at = h.find("oauth_nonce=\"").ok_or("no nonce")? + 13;
                                    let v = &h[at..at + h[at..].find('"').ok_or("bad header")?];
                                    ensure!(v.len() <= 16, "nonce {:?}", v);
                                    Ok(v.bytes().fold(0, |a, b| a << 8 | u128::from(b)))
                                })
                                .collect()
                        })
                        .and_then(|x: Result<_, String>| x)
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        let mut all = vec![];
        for p in parts {
            all.extend(p?);
        }
        all.sort_unstable();
        cx.state(&all.len());
        ensure!(all.windows(2).all(|w| w[0] != w[1]), "a nonce is repeated among {}", all.len());
        Ok(())
    });
    // A process that is split in two goes on with the same memory in both.
    #[cfg(unix)]
    rn.scenario_serial("forks", "signings before and after fork(2) in every process of every small tree of processes: no two nonces are the same", 0, |cx| {
        let before = cx.pick(if cx.quick() { 26 } else { 72 });
        let shape = cx.pick(SHAPES.len());
        let between = cx.pick(3);
        let all = fresh(vec![T0], rng(7), move || -> Result<Vec<String>, String> {
            let c = auto_case(Kind::Header);
            let b = c.builder(HMAC_SHA1);
            let sign = |n: usize| -> Result<Vec<String>, String> { (0..n).map(|_| nonce_of(&c, &b.authorize("POST", &c.uri, &c.request()), Sig::Hmac)).collect() };
            let mut all = sign(before)?;
            all.extend(tree(SHAPES[shape], 1, &|at| sign(if at == 0 { between } else { 24 }))?);
            Ok(all)
        })??;
        cx.state(&(before, shape, between, all.len()));
        let set: HashSet<&String> = all.iter().collect();
        let twice = all.iter().enumerate().find(|(i, x)| all[..*i].contains(x)).map(|x| x.1);
        ensure!(set.len() == all.len(), "{} nonces of {} come up more than once after a fork, e.g. {:?} ({} signings before it)", all.len() - set.len(), all.len(), twice, before);
        Ok(())
    });
    rn.scenario("no-entropy", "when the system's source fails, no nonce is made up", 0, |cx| {
        let kind = *cx.of(&KINDS);
        let plain = cx.flag();
        let c = auto_case(kind);
        let r = fresh(vec![T0], Entropy::Fail { after: 0 }, || if plain { c.run(Plaintext::new()) } else { c.run(HMAC_SHA1) });
        cx.state(&r.is_err());
        ensure!(r.is_err(), "signed {:?} without any entropy", r);
        // With an explicit nonce none is needed.
        let mut c = c.clone();
        c.nonce = Some("x".into());
        let o = fresh(vec![T0], Entropy::Fail { after: 0 }, || c.run(HMAC_SHA1)).map_err(|e| format!("explicit nonce: {}", e))?;
        verify(&c, &o, Sig::Hmac)?;
        Ok(())
    });
    rn.scenario("explicit", "explicit nonces of every text, verbatim and signed, whatever the entropy", 1, |cx| {
        let kind = *cx.of(&KINDS);
        let mut c = any_case(cx, kind);
        c.nonce = Some((*cx.of(TEXTS)).into());
        let seed = cx.pick(2) as u64;
        c.timestamp.get_or_insert(5);
        env::set(Some(vec![T0]), Some(rng(seed)));
        let o = catch(|| c.run(HMAC_SHA1));
        env::clear();
        let o = o?;
        cx.state(&o);
        verify(&c, &o, Sig::Hmac)?;
        Ok(())
    });
    let max = rn.by(600, 3000);
    rn.scenario("explicit-lengths", "explicit nonces of every length", 0, move |cx| {
        let mut c = Case::basic(*cx.of(&KINDS));
        let n = cx.pick(max + 4);
        let n = if n <= max { n } else { [4095, 4096, 65536][n - max - 1] };
        c.nonce = Some(cx.of(&["0", "a", "-", "=", "\u{e9}"]).repeat(n));
        let o = c.run(HMAC_SHA1);
        cx.state(&o);
        verify(&c, &o, Sig::Hmac)?;
        Ok(())
    });
    rn.scenario("explicit-texts", "explicit nonces over the wide corpus", 0, |cx| {
        let mut c = Case::basic(*cx.of(&KINDS));
        c.nonce = Some(texts::any(cx));
        let o = c.run(HMAC_SHA1);
        cx.state(&o);
        verify(&c, &o, Sig::Hmac)?;
        Ok(())
    });
}

/// Trees of processes: `(` forks a child that goes on with what is inside, then the parent goes on.
#[cfg(unix)]
const SHAPES: &[&str] = &["()", "()()", "(())", "(()())()", "()()()"];
#[cfg(unix)]
extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(status: i32) -> !;
}
/// The results of `f` in all processes of the tree. `f` is given 0 after every fork and 1 at the end.
#[cfg(unix)]
fn tree(shape: &str, id: u64, f: &dyn Fn(u8) -> Result<Vec<String>, String>) -> Result<Vec<String>, String> {
    use std::io::{Read, Write};
    let mut all = vec![];
    let mut children = vec![];
    let mut at = 0;
    while at < shape.len() {
        let mut depth = 0;
        let end = at + shape[at..].bytes().position(|b| {
            depth += if b == b'(' { 1 } else { -1 };
            depth == 0
        }).unwrap();
        let (mut rx, mut tx) = std::os::unix::net::UnixStream::pair().map_err(|e| e.to_string())?;
        let child_id = id * 10 + children.len() as u64;
        let pid = unsafe { fork() };
        ensure!(pid >= 0, "cannot fork");
        if pid == 0 {
            drop(rx);
            // The system gives every process values of its own.
            env::set(Some(vec![T0]), Some(rng(50_000 + child_id)));
            let r = catch(|| tree(&shape[at + 1..end], child_id, f)).and_then(|x| x);
            let text = match r {
                Ok(v) => v.iter().fold("ok".to_string(), |a, x| a + "\n" + x),
                Err(e) => format!("failed\n{}", e),
            };
            let done = tx.write_all(text.as_bytes()).is_ok();
            unsafe { _exit(if done { 0 } else { 1 }) }
        }
        drop(tx);
        children.push((pid, std::thread::spawn(move || {
            let mut s = String::new();
            rx.read_to_string(&mut s).map(|_| s)
        })));
        all.extend(f(0)?);
        at = end + 1;
    }
    all.extend(f(1)?);
    for (pid, t) in children {
        let s = t.join().unwrap().map_err(|e| e.to_string())?;
        let mut status = 0;
        ensure!(unsafe { waitpid(pid, &mut status, 0) } == pid && status == 0, "a child process ended with status {}", status);
        let mut lines = s.lines().map(String::from);
        ensure!(lines.next().as_deref() == Some("ok"), "in a child process: {}", s);
        all.extend(lines);
    }
    Ok(all)
}

/// A method whose signature is empty, to draw nonces cheaply.
#[derive(Clone, Copy)]
struct NoSign;
impl oauth::signature_method::SignatureMethod for NoSign {
    type Sign = NoSign;
    fn sign_with(self, _: &str, _: Option<&str>) -> NoSign {
        self
    }
}
impl oauth::signature_method::Sign for NoSign {
    type Signature = &'static str;
    fn get_signature_method_name(&self) -> &'static str {
        "N"
    }
    fn request_method(&mut self, _: &str) {}
    fn uri<T: std::fmt::Display>(&mut self, _: T) {}
    fn parameter<V: std::fmt::Display>(&mut self, _: &str, _: V) {}
    fn delimiter(&mut self) {}
    fn end(self) -> &'static str {
        ""
    }
}
/// A sink on the stack.
struct Fixed([u8; 256], usize);
impl Default for Fixed {
    fn default() -> Self {
        Fixed([0; 256], 0)
    }
}
impl Fixed {
    fn text(&self) -> &str {
        std::str::from_utf8(&self.0[..self.1]).unwrap()
    }
}
impl std::fmt::Write for Fixed {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0.get_mut(self.1..self.1 + s.len()).ok_or(std::fmt::Error)?.copy_from_slice(s.as_bytes());
        self.1 += s.len();
        Ok(())
    }
}

#[cfg(feature = "std")]
const CLOCKS: &[(i64, i64)] = &[
    T0, (0, 0), (0, 1), (0, 999_999_999), (1, 0), (1, 999_999_999), (2, 0), (-1, 0), (-1, 999_999_999), (-2, 500_000_000), (-1_000_000_000, 0), (i64::MIN, 0),
    (9, 999_999_999), (10, 0), (999_999_999, 999_999_999), (1_000_000_000, 0), (2_147_483_647, 0), (2_147_483_648, 0), (4_294_967_295, 999_999_999), (4_294_967_296, 0),
    (9_999_999_999, 0), (10_000_000_000, 0), (253_402_300_799, 0), (253_402_300_800, 0), (9_007_199_254_740_993, 0), (i64::MAX - 1, 0), (i64::MAX, 999_999_999),
    (1_699_999_999, 500_000_000), (1_699_999_999, 499_999_999),
];
#[cfg(feature = "std")]
fn as_timestamp(t: (i64, i64)) -> u64 {
    t.0.max(1) as u64
}

#[cfg(feature = "std")]
pub fn c10(rn: &mut Runner) {
    rn.assumptions.push("the wall clock is CLOCK_REALTIME, which the harness answers per thread".into());
    rn.assumptions.push("at clocks within or before the first second of the epoch any positive decimal integer not larger than 1 is accepted".into());
    fn ts_of(c: &Case, out: &str, sig: Sig) -> Result<u64, String> {
        Ok(field(&verify(c, out, sig)?, "oauth_timestamp").parse().unwrap())
    }
    // The clock between any two readings is unconstrained: readings are consumed one by one.
    rn.scenario("clock-values", "every clock value x every second reading (the clock moving during the call) x output kind x method", 1, |cx| {
        let kind = *cx.of(&KINDS);
        let plain = cx.flag();
        let i = cx.pick(CLOCKS.len());
        let script: Vec<(i64, i64)> = match cx.pick(CLOCKS.len() + 1) {
            0 => vec![CLOCKS[i]],
            j => vec![CLOCKS[i], CLOCKS[j - 1], T0, (77, 0), (78, 0), (79, 0), (80, 0)],
        };
        let mut c = auto_case(kind);
        c.nonce = cx.dflag().then(|| "n".into());
        if cx.dflag() {
            c.params = vec![p("a", "b"), p("z", "")];
        }
        if cx.dflag() {
            c.version = true;
        }
        env::set(Some(script.clone()), None);
        let out = catch(|| if plain { c.run(Plaintext::new()) } else { c.run(HMAC_SHA1) });
        let reads = env::usage().0;
        env::clear();
        let out = out.map_err(|e| format!("clock {:?}: {}", script, e))?;
        let t = ts_of(&c, &out, if plain { Sig::Plain } else { Sig::Hmac }).map_err(|e| format!("clock {:?}: {}", script, e))?;
        cx.state(&(t, reads));
        cx.note(|| format!("clock {:?} => {}", script, t));
        ensure!(reads > 0, "the clock was not consulted");
        let allowed: Vec<u64> = (0..reads).map(|k| as_timestamp(script[k.min(script.len() - 1)])).collect();
        ensure!(allowed.contains(&t), "oauth_timestamp {} is not the current time {:?} (clock {:?})", t, allowed, script);
        Ok(())
    });
    let depth = rn.by(5, 7);
    rn.scenario("histories", "sequences of operations with the clock at another value for each: only the clock of the signing call matters", 0, move |cx| {
        let n = 1 + cx.pick(depth);
        let ops: Vec<usize> = (0..n).map(|_| cx.pick(9)).collect();
        let at = |i: usize| [(50, 0), (1_600_000_000, 999_999_999), (3, 0), (1_600_000_000, 0), (1_500_000_000, 7), (0, 0), (5_000_000_000, 1), (1_600_000_001, 0)][i];
        let c = auto_case(Kind::Header);
        let mut e = [c.clone(), auto_case(Kind::Form), auto_case(Kind::Query)];
        for x in &mut e {
            x.nonce = Some("n".into());
        }
        let first = e[0].clone();
        env::set(Some(vec![(42, 0)]), None);
        let mut b: Builder<'_, _, &str, &str> = first.builder(HMAC_SHA1);
        let cn = e[0].clone();
        let res = (|| -> Verdict {
            for (i, &o) in ops.iter().enumerate() {
                let now = at(i);
                env::set_clock(vec![now]);
                let req = SpecReq::default();
                let mut want = [None, None];
                let u = &cn.uri;
                match o {
                    0 => want[0] = Some((ts_of(&e[0], &b.authorize("POST", u, &req), Sig::Hmac)?, e[0].timestamp)),
                    1 => want[0] = Some((ts_of(&e[1], &b.to_form("POST", u, &req), Sig::Hmac)?, e[0].timestamp)),
                    2 => want[0] = Some((ts_of(&e[2], &b.to_query("POST", u.text.clone(), &req), Sig::Hmac)?, e[0].timestamp)),
                    3 => {
                        let d = b.clone();
                        want[0] = Some((ts_of(&e[0], &d.into_authorization("POST", u, &req), Sig::Hmac)?, e[0].timestamp));
                    }
                    4 => b = b.clone(),
                    5 => {
                        b.timestamp(NonZeroU64::new(7));
                        e.iter_mut().for_each(|x| x.timestamp = Some(7));
                    }
                    6 => {
                        b.timestamp(None);
                        e.iter_mut().for_each(|x| x.timestamp = None);
                    }
                    7 => {
                        let t = Token::<&str, &str>::from_parts("ck", "cs", "tk", "ts");
                        want[0] = Some((ts_of(&c, &oauth::post(u, &req, &t, HMAC_SHA1), Sig::Hmac)?, None));
                    }
                    _ => {
                        // The serializer is created earlier than its timestamp slot is written.
                        env::set_clock(vec![(11, 0)]);
                        let mut po = auth::Options::new();
                        po.nonce("n").timestamp(e[0].timestamp.map(|t| NonZeroU64::new(t).unwrap()));
                        let mut s: Authorizer<'_, _> = Authorizer::authorization("POST", u, Credentials::new("ck", "cs"), Some(Credentials::new("tk", "ts")), &po, HMAC_SHA1);
                        env::set_clock(vec![now]);
                        let mut t = s.clone();
                        for i in 0..8 {
                            slot(&mut s, i);
                        }
                        let out = s.end();
                        let got = ts_of(&e[0], &out, Sig::Hmac)?;
                        ensure!(got == e[0].timestamp.unwrap_or(as_timestamp(now)) || (e[0].timestamp.is_none() && got == 11), "hand-driven serializer: {}", got);
                        for i in 0..8 {
                            slot(&mut t, i);
                        }
                        ts_of(&e[0], &t.end(), Sig::Hmac)?;
                    }
                }
                for (got, explicit) in want.iter().flatten() {
                    cx.state(&(ops[..i + 1].to_vec(), *got));
                    ensure_eq!(*got, explicit.unwrap_or(as_timestamp(now)), "timestamp of operation {} of {:?} with the clock at {:?}", i, ops, now);
                }
            }
            Ok(())
        })();
        env::clear();
        res
    });
    rn.scenario("explicit", "explicit timestamps verbatim under every clock", 1, |cx| {
        let kind = *cx.of(&KINDS);
        let clock = *cx.of(CLOCKS);
        let t = match cx.pick(4 + 64 + 64) {
            0 => 1,
            1 => u64::MAX,
            2 => 1234567890,
            3 => 10,
            i if i < 68 => 1u64 << (i - 4),
            i => (1u64 << (i - 68)).wrapping_sub(1).max(1),
        };
        let mut c = any_case(cx, kind);
        c.timestamp = Some(t);
        c.nonce.get_or_insert_with(|| "n".into());
        env::set(Some(vec![clock]), None);
        let out = catch(|| c.run(HMAC_SHA1));
        env::clear();
        let out = out?;
        cx.state(&(t, r::pct(&c.uri.text)));
        verify(&c, &out, Sig::Hmac)?;
        Ok(())
    });
}
