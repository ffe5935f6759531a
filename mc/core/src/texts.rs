//! A wide corpus of texts: every single character of the lower blocks in several surroundings, and
//! words that programs are tempted to treat specially.
use crate::{Ctx, Tier};
use std::sync::OnceLock;

const WORDS: &[&str] = &[
    // Words with a meaning somewhere in the protocol or in programming.
    "oob", "OOB", "Oob", "OAuth", "OAuth ", "OAUTH", "oauth_token", "oauth_nonce", "oauth_signature", "oauth_version", "oauth_", "oauth", "HMAC-SHA1", "PLAINTEXT",
    "RSA-SHA1", "SHA-1", "realm", "null", "NULL", "None", "none", "Some", "nil", "undefined", "NaN", "inf", "true", "false", "TRUE", "yes", "GET", "POST", "get", "anonymous",
    "default", "example", "test", "secret", "password", "consumer", "client", "token", "xn--e28h", "index.html", "base64", "utf-8", "application/x-www-form-urlencoded",
    // Numbers.
    "0", "00", "1", "1.0", "1.0a", "01", "-1", "+1", "1e3", "0x10", "1,000", "18446744073709551615", "18446744073709551616", "0.1", "1234567890", "9999999999",
    // Escapes, delimiters.
    "%", "%%", "%2", "%2f", "%2F", "%2525", "%252F", "%zz", "%e3%81%82", "%E3%81%82", "%00", "%0A", "%20", "%+", "+%20", "a+b", "a b", "a%20b", "a&b", "a=b", "a&b=c", "=", "==", "&&",
    "&=", "=&", ";", "a;b", ",", ", ", "a, b", "a,b", "\"a\"", "'a'", "\\\"", "\\", "\\n", "&amp;", "&#38;", "<a>", "{}", "{0}", "{:?}", "$1", "${a}", "#", "a#b", "?", "a?b", "??", "!!", "~~",
    "-", "--", "...", ".", "..", "../", "./", "/", "//", "/../", "*", "**", "a*b", "|", "`", "^", "@", ":", "::", "a:b", "[::1]", "()", "(a)", "http://example.com/", "https://example.com/?q=1#f",
    "http://a:b@c:80/", "HTTP://EXAMPLE.COM/", "myapp://callback", "urn:ietf:wg:oauth:2.0:oob", "mailto:a@b", "data:,",
    // Letters.
    "A", "Z", "AB", "Ab", "aB", "aBcD", "ABC", "abcdefghijklmnopqrstuvwxyz", "ABCDEFGHIJKLMNOPQRSTUVWXYZ", "0123456789", "ABCDEFabcdef0123456789",
    // Spaces.
    "", " ", "  ", "   ", " a", "a ", " a ", "a  b", "\ta", "a\t", "\na", "a\n", "a\r\n", "\r\n", "\n\n", "a\nb", "\u{a0}a", "a\u{a0}", "\u{3000}", "\u{200b}a", "a\u{2028}b",
    // Unicode.
    "\u{feff}", "\u{feff}a", "e\u{301}", "\u{e9}", "\u{1e9e}", "ß", "SS", "İ", "ı", "ſ", "K", "ﬁ", "fi", "Ω", "\u{2126}", "가", "각", "\u{1100}\u{1161}", "👨‍👩‍👧", "🇯🇵", "❤\u{fe0f}", "a\u{0}b", "\u{0}", "\u{0}\u{0}",
    "\u{202e}abc", "\u{fffd}", "\u{ffff}", "\u{10000}", "\u{10ffff}", "あいう", "ｆｕｌｌ", "１２３", "ДЖ", "אב", "\u{d7ff}\u{e000}", "\u{7f}\u{80}\u{7ff}\u{800}",
    // Encodings of secrets.
    "dGVzdA==", "dGVzdA", "a-b_c", "a+b/c==", "deadbeef", "DEADBEEF", "5f4dcc3b-5aa7-65d6-1d83-27deb882cf99",
];

fn chars(limit: u32) -> Vec<char> {
    let special = (0x2000..0x2070).chain([0x3000, 0x3001, 0xd7ff, 0xe000, 0xfe0f, 0xfeff, 0xff0b, 0xff5e, 0xfffd, 0xffff, 0x10000, 0x1f600, 0xe0001, 0x10ffff]);
    (0..limit).chain(special.filter(|&c| c >= limit)).filter_map(char::from_u32).collect()
}
const SHAPES: usize = 7;
fn shaped(c: char, shape: usize) -> String {
    match shape {
        0 => format!("{}", c),
        1 => format!("x{}", c),
        2 => format!("{}x", c),
        3 => format!("x{}y", c),
        4 => format!("{}{}", c, c),
        5 => format!(" {}", c),
        _ => format!("%{}", c),
    }
}

/// Every word of the corpus, then every character in every surrounding; the size depends on the
/// tier.
pub fn any(cx: &mut Ctx) -> String {
    static Q: OnceLock<Vec<char>> = OnceLock::new();
    static T: OnceLock<Vec<char>> = OnceLock::new();
    let cs = match cx.tier {
        Tier::Quick => Q.get_or_init(|| chars(0x3100)),
        Tier::Thorough => T.get_or_init(|| chars(0x11000)),
    };
    some(cx, cs)
}
/// The same with the characters below U+0180 only.
pub fn few(cx: &mut Ctx) -> String {
    static C: OnceLock<Vec<char>> = OnceLock::new();
    some(cx, C.get_or_init(|| chars(0x180)))
}
fn some(cx: &mut Ctx, cs: &[char]) -> String {
    let n = cx.pick(WORDS.len() + cs.len() * SHAPES);
    match WORDS.get(n) {
        Some(w) => w.to_string(),
        None => shaped(cs[(n - WORDS.len()) / SHAPES], (n - WORDS.len()) % SHAPES),
    }
}
/// Every word of the corpus, as a deviation from the first text.
pub fn word(cx: &mut Ctx, plain: &'static str) -> &'static str {
    match cx.dev(WORDS.len() + 1) {
        0 => plain,
        i => WORDS[i - 1],
    }
}

/// URI-safe words that are used as parameter names, or could be taken for protocol matters.
const NAMES: &[&str] = &[
    "realm", "Realm", "oauth_token_secret", "oauth_session_handle", "oauth_callback_confirmed", "oauth_body_hash", "oauth_problem", "oauth_error", "oauth_expires_in", "oauth_client_id",
    "oauth_signature_", "oauth_signatur", "oauth_signature_methods", "oauth_signature2", "xoauth_requestor_id", "xoauth_displayname", "x_auth_username", "x_auth_password", "x_auth_mode",
    "x_reverse_auth_target", "x_reverse_auth_parameters", "status", "q", "id", "file", "media", "format", "url", "uri", "callback", "consumer_key", "nonce", "signature", "signature_method",
    "timestamp", "token", "verifier", "version", "Oauth_token", "OAuth_token", "OAUTH_NONCE", "oauth_Token", "oauth-token", "oauth.token", "oauthtoken", "oauth__token", "_oauth_token", "key",
    "value", "method", "params", "a.b", "a-b", "a_b", "a~b", "0", "00", "1", "10", "2", "screen_name", "include_entities", "since_id", "max_id", "scope", "grant_type", "access_token", "code",
    "state", "page", "utf8", "_method", "__proto__", "constructor", "ID", "Id", "iD", "null", "None", "true", "o", "oa", "oau", "oauth", "oauth_", "oauth__", "OAuth",
];
pub const PROTOCOL: [&str; 8] = [
    "oauth_callback", "oauth_consumer_key", "oauth_nonce", "oauth_signature_method", "oauth_timestamp", "oauth_token", "oauth_verifier", "oauth_version",
];
const UNRESERVED: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~";
fn names() -> &'static [String] {
    static N: OnceLock<Vec<String>> = OnceLock::new();
    N.get_or_init(|| {
        let mut v: Vec<String> = NAMES.iter().map(|s| s.to_string()).collect();
        v.extend(WORDS.iter().filter(|w| !w.is_empty() && w.bytes().all(|b| UNRESERVED.contains(&b))).map(|w| w.to_string()));
        for &a in UNRESERVED {
            v.push(char::from(a).to_string());
            for &b in UNRESERVED {
                v.push(format!("{}{}", char::from(a), char::from(b)));
            }
        }
        for p in PROTOCOL.iter().chain(&["oauth_signature"]) {
            for i in 0..=p.len() {
                v.push(p[..i].into());
                v.push(p[i..].into());
                for &b in UNRESERVED {
                    let b = char::from(b);
                    v.push(format!("{}{}", &p[..i], b));
                    v.push(format!("{}{}{}", &p[..i], b, &p[i..]));
                    if i < p.len() {
                        v.push(format!("{}{}{}", &p[..i], b, &p[i + 1..]));
                    }
                }
            }
        }
        let mut seen = std::collections::HashSet::new();
        v.retain(|s| s != "oauth_signature" && !PROTOCOL.contains(&&**s) && seen.insert(s.clone()));
        v
    })
}
/// A URI-safe name of a request parameter that is not the name of a protocol parameter: words, all
/// names of one or two characters, and everything within one edit of a protocol parameter's name
/// or of a prefix of one.
pub fn name(cx: &mut Ctx) -> &'static str {
    let n = names();
    &n[cx.pick(n.len())]
}
