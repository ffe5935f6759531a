//! C01 / C02: signed headers, forms and queries carry exactly the request and verify.
use crate::common::*;
use mccore::*;
use oauth1_request as oauth;

fn check(cx: &mut Ctx, c: &Case) -> Verdict {
    let out = c.run(oauth::HMAC_SHA1);
    cx.state(&abstract_of(c, &out));
    cx.note(|| format!("{:?} => {}", c, out));
    verify(c, &out, Sig::Hmac)?;
    Ok(())
}

fn scenarios(r: &mut Runner, tag: &str, kind: Kind) {
    let k = r.by(3, 4);
    r.scenario(&format!("{}-dims", tag), "all combinations of at most `bound` departures from a plain request over every dimension (method, URI and its writes, ids, secrets, token, options, parameters)", k, move |cx| {
        let c = any_case(cx, kind);
        check(cx, &c)
    });
    r.scenario(&format!("{}-options", tag), "full product: 15 methods x 2^6 optional parts x parameters before/among/after oauth_*", 0, move |cx| {
        let c = options_case(cx, kind);
        check(cx, &c)
    });
    let max = r.by(300, 1200);
    r.scenario(&format!("{}-lengths", tag), "every length of every text field in three character classes", 0, move |cx| {
        let c = length_case(cx, kind, max);
        check(cx, &c)
    });
    r.scenario(&format!("{}-texts", tag), "the wide corpus (every character of the lower blocks in several surroundings; words with a meaning) at every place a text can be", 0, move |cx| {
        let c = text_case(cx, kind);
        check(cx, &c)
    });
    r.scenario(&format!("{}-names", tag), "every name of the corpus of parameter names (all of one or two characters, everything within one edit of a protocol name or a prefix of one, words)", 0, move |cx| {
        let c = name_case(cx, kind);
        check(cx, &c)
    });
    let k = r.by(2, 3);
    r.scenario(&format!("{}-words", tag), "combinations of words with a meaning", k, move |cx| {
        let c = words_case(cx, kind);
        check(cx, &c)
    });
    let k = r.by(3, 4);
    r.scenario(&format!("{}-relations", tag), "texts that are equal to, or a beginning or end of, one another, at all places a text can be", k, move |cx| {
        let c = relations_case(cx, kind);
        check(cx, &c)
    });
    let max = r.by(300, 1200);
    r.scenario(&format!("{}-counts", tag), "every number of request parameters", 0, move |cx| {
        let c = count_case(cx, kind, max);
        check(cx, &c)
    });
}

pub fn c01(r: &mut Runner) {
    scenarios(r, "header", Kind::Header);
}

pub fn c02(r: &mut Runner) {
    scenarios(r, "form", Kind::Form);
    scenarios(r, "query", Kind::Query);
}
