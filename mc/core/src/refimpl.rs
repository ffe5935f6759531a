//! A boring, independent reference for RFC 5849 / RFC 2104 / RFC 3174 / RFC 4648.
//! Shares no code with the crate under test.

pub type Pair = (String, String);

pub fn is_unreserved(b: u8) -> bool {
    b.is_ascii_uppercase() || b.is_ascii_lowercase() || b.is_ascii_digit() || b == b'-' || b == b'.' || b == b'_' || b == b'~'
}

/// RFC 5849 section 3.6.
pub fn pct(s: &str) -> String {
    const HEX: &[u8; 16] = b"0123456789ABCDEF";
    let mut out = String::with_capacity(s.len() * 3);
    for &b in s.as_bytes() {
        if is_unreserved(b) {
            out.push(b as char);
        } else {
            out.push('%');
            out.push(HEX[(b >> 4) as usize] as char);
            out.push(HEX[(b & 15) as usize] as char);
        }
    }
    out
}

/// Strict inverse of `pct`: only unreserved characters and upper-case escapes of bytes that need
/// escaping are accepted.
pub fn unpct(s: &str) -> Result<String, String> {
    let b = s.as_bytes();
    let mut out = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if is_unreserved(b[i]) {
            out.push(b[i]);
            i += 1;
        } else if b[i] == b'%' {
            let h = |c: Option<&u8>| match c {
                Some(&c @ b'0'..=b'9') => Ok(c - b'0'),
                Some(&c @ b'A'..=b'F') => Ok(c - b'A' + 10),
                _ => Err(format!("bad escape in {:?}", s)),
            };
            let v = h(b.get(i + 1))? * 16 + h(b.get(i + 2))?;
            if is_unreserved(v) {
                return Err(format!("needlessly escaped byte {:02X} in {:?}", v, s));
            }
            out.push(v);
            i += 3;
        } else {
            return Err(format!("byte {:02X} not allowed in encoded text {:?}", b[i], s));
        }
    }
    String::from_utf8(out).map_err(|_| format!("escapes in {:?} are not UTF-8", s))
}

/// RFC 5849 section 3.4.1. `params` are decoded names and values.
pub fn base_string(method: &str, uri: &str, params: &[Pair]) -> String {
    let mut enc: Vec<(String, String)> = params.iter().map(|(k, v)| (pct(k), pct(v))).collect();
    // Byte-wise order of encoded name, then of encoded value.
    enc.sort_by(|a, b| a.0.as_bytes().cmp(b.0.as_bytes()).then(a.1.as_bytes().cmp(b.1.as_bytes())));
    let norm: Vec<String> = enc.iter().map(|(k, v)| format!("{}={}", k, v)).collect();
    format!("{}&{}&{}", pct(&method.to_ascii_uppercase()), pct(uri), pct(&norm.join("&")))
}

pub fn signing_key(client_secret: &str, token_secret: Option<&str>) -> String {
    format!("{}&{}", pct(client_secret), pct(token_secret.unwrap_or("")))
}

pub fn hmac_signature(base: &str, client_secret: &str, token_secret: Option<&str>) -> String {
    b64(&hmac_sha1(signing_key(client_secret, token_secret).as_bytes(), base.as_bytes()))
}

pub fn sha1(data: &[u8]) -> [u8; 20] {
    let mut h: [u32; 5] = [0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0];
    let mut msg = data.to_vec();
    msg.push(0x80);
    while msg.len() % 64 != 56 {
        msg.push(0);
    }
    msg.extend_from_slice(&((data.len() as u64) * 8).to_be_bytes());
    for chunk in msg.chunks(64) {
        let mut w = [0u32; 80];
        for i in 0..16 {
            w[i] = u32::from_be_bytes([chunk[4 * i], chunk[4 * i + 1], chunk[4 * i + 2], chunk[4 * i + 3]]);
        }
        for i in 16..80 {
            w[i] = (w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16]).rotate_left(1);
        }
        let (mut a, mut b, mut c, mut d, mut e) = (h[0], h[1], h[2], h[3], h[4]);
        for (i, &wi) in w.iter().enumerate() {
            let (f, k) = match i / 20 {
                0 => ((b & c) | (!b & d), 0x5A827999),
                1 => (b ^ c ^ d, 0x6ED9EBA1),
                2 => ((b & c) | (b & d) | (c & d), 0x8F1BBCDC),
                _ => (b ^ c ^ d, 0xCA62C1D6u32),
            };
            let t = a.rotate_left(5).wrapping_add(f).wrapping_add(e).wrapping_add(k).wrapping_add(wi);
            e = d;
            d = c;
            c = b.rotate_left(30);
            b = a;
            a = t;
        }
        for (x, y) in h.iter_mut().zip([a, b, c, d, e]) {
            *x = x.wrapping_add(y);
        }
    }
    let mut out = [0; 20];
    for i in 0..5 {
        out[4 * i..4 * i + 4].copy_from_slice(&h[i].to_be_bytes());
    }
    out
}

pub fn hmac_sha1(key: &[u8], data: &[u8]) -> [u8; 20] {
    let mut k = [0u8; 64];
    if key.len() > 64 {
        k[..20].copy_from_slice(&sha1(key));
    } else {
        k[..key.len()].copy_from_slice(key);
    }
    let mut inner: Vec<u8> = k.iter().map(|b| b ^ 0x36).collect();
    inner.extend_from_slice(data);
    let mut outer: Vec<u8> = k.iter().map(|b| b ^ 0x5C).collect();
    outer.extend_from_slice(&sha1(&inner));
    sha1(&outer)
}

const B64: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

pub fn b64(data: &[u8]) -> String {
    let mut out = String::new();
    for c in data.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= c.len() {
                out.push(B64[(n >> (18 - 6 * i)) as usize & 63] as char);
            } else {
                out.push('=');
            }
        }
    }
    out
}

pub fn unb64(s: &str) -> Option<Vec<u8>> {
    let b = s.as_bytes();
    if b.len() % 4 != 0 {
        return None;
    }
    let mut out = Vec::new();
    for (ci, c) in b.chunks(4).enumerate() {
        let last = (ci + 1) * 4 == b.len();
        let pad = c.iter().rev().take_while(|&&x| x == b'=').count();
        if pad > 2 || (pad > 0 && !last) {
            return None;
        }
        let mut n = 0u32;
        for &x in &c[..4 - pad] {
            n = n << 6 | B64.iter().position(|&y| y == x)? as u32;
        }
        n <<= 6 * pad;
        out.extend_from_slice(&n.to_be_bytes()[1..4 - pad]);
    }
    Some(out)
}

/// Parses `OAuth k="v",k="v"`, returning decoded pairs in order of appearance.
pub fn parse_header(h: &str) -> Result<Vec<Pair>, String> {
    if !h.is_ascii() {
        return Err(format!("header is not ASCII: {:?}", h));
    }
    let rest = h.strip_prefix("OAuth ").ok_or_else(|| format!("header has no `OAuth ` scheme: {:?}", h))?;
    let mut out = Vec::new();
    for item in rest.split(',') {
        // RFC 7235 allows optional whitespace around the comma.
        let item = item.trim_matches(|c| c == ' ' || c == '\t');
        let (k, v) = item.split_once('=').ok_or_else(|| format!("auth-param {:?} has no `=` in {:?}", item, h))?;
        let v = v
            .strip_prefix('"')
            .and_then(|v| v.strip_suffix('"'))
            .ok_or_else(|| format!("auth-param {:?} is not quoted in {:?}", item, h))?;
        out.push((unpct(k)?, unpct(v)?));
    }
    Ok(out)
}

/// Parses `k=v&k=v`, returning decoded pairs in order of appearance.
pub fn parse_form(f: &str) -> Result<Vec<Pair>, String> {
    if f.is_empty() {
        return Ok(Vec::new());
    }
    f.split('&')
        .map(|item| {
            let (k, v) = item.split_once('=').ok_or_else(|| format!("pair {:?} has no `=` in {:?}", item, f))?;
            Ok((unpct(k)?, unpct(v)?))
        })
        .collect()
}

/// RSASSA-PKCS1-v1_5 verification with SHA-1 (RFC 8017 section 8.2.2), from the numbers of a public key.
pub fn rsa_sha1_verify(n: &[u8], e: &[u8], message: &[u8], sig: &[u8]) -> Result<(), String> {
    if sig.len() != n.len() {
        return Err(format!("signature has {} bytes, the modulus {}", sig.len(), n.len()));
    }
    let (nb, s) = (big(n), big(sig));
    if cmp_big(&s, &nb) != std::cmp::Ordering::Less {
        return Err("signature representative out of range".into());
    }
    // Square and multiply.
    let mut m = vec![1u32];
    for byte in e {
        for i in (0..8).rev() {
            m = rem_big(&mul_big(&m, &m), &nb);
            if byte >> i & 1 == 1 {
                m = rem_big(&mul_big(&m, &s), &nb);
            }
        }
    }
    const INFO: &[u8] = &[0x30, 0x21, 0x30, 0x09, 0x06, 0x05, 0x2b, 0x0e, 0x03, 0x02, 0x1a, 0x05, 0x00, 0x04, 0x14];
    let mut em = vec![0u8, 1];
    em.resize(n.len() - 1 - INFO.len() - 20, 0xff);
    em.push(0);
    em.extend(INFO);
    em.extend(sha1(message));
    if cmp_big(&m, &big(&em)) == std::cmp::Ordering::Equal {
        Ok(())
    } else {
        Err("signature does not verify".into())
    }
}
// Little-endian 32-bit limbs without leading zeros.
fn big(b: &[u8]) -> Vec<u32> {
    let mut v: Vec<u32> = b.rchunks(4).map(|c| c.iter().fold(0, |a, &x| a << 8 | x as u32)).collect();
    trim(&mut v);
    v
}
fn trim(v: &mut Vec<u32>) {
    while v.last() == Some(&0) {
        v.pop();
    }
}
fn cmp_big(a: &[u32], b: &[u32]) -> std::cmp::Ordering {
    a.len().cmp(&b.len()).then_with(|| a.iter().rev().cmp(b.iter().rev()))
}
fn mul_big(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut r = vec![0u32; a.len() + b.len()];
    for (i, &x) in a.iter().enumerate() {
        let mut c = 0u64;
        for (j, &y) in b.iter().enumerate() {
            let t = x as u64 * y as u64 + r[i + j] as u64 + c;
            r[i + j] = t as u32;
            c = t >> 32;
        }
        r[i + b.len()] = c as u32;
    }
    trim(&mut r);
    r
}
/// Knuth's algorithm D.
fn rem_big(a: &[u32], m: &[u32]) -> Vec<u32> {
    if cmp_big(a, m) == std::cmp::Ordering::Less {
        return a.to_vec();
    }
    let k = m.len();
    let s = m[k - 1].leading_zeros();
    let shl = |v: &[u32]| {
        let mut o: Vec<u32> = Vec::with_capacity(v.len() + 1);
        let mut c = 0u64;
        for &x in v {
            let t = (x as u64) << s | c;
            o.push(t as u32);
            c = t >> 32;
        }
        o.push(c as u32);
        o
    };
    let d = shl(m);
    let mut r = shl(a);
    let top = d[k - 1] as u64;
    let second = if k > 1 { d[k - 2] as u64 } else { 0 };
    for j in (0..r.len() - k).rev() {
        let num = (r[j + k] as u64) << 32 | r[j + k - 1] as u64;
        let (mut q, mut rest) = (num / top, num % top);
        while q >> 32 != 0 || k > 1 && q * second > (rest << 32 | r[j + k - 2] as u64) {
            q -= 1;
            rest += top;
            if rest >> 32 != 0 {
                break;
            }
        }
        let (mut borrow, mut carry) = (0i64, 0u64);
        for i in 0..=k {
            let p = q * d[i] as u64 + carry;
            carry = p >> 32;
            let t = r[j + i] as i64 - borrow - (p & 0xffff_ffff) as i64;
            r[j + i] = t as u32;
            borrow = (t < 0) as i64;
        }
        if borrow != 0 {
            let mut c = 0u64;
            for i in 0..=k {
                let t = r[j + i] as u64 + d[i] as u64 + c;
                r[j + i] = t as u32;
                c = t >> 32;
            }
        }
    }
    // Shift back.
    let mut o: Vec<u32> = (0..k).map(|i| if s == 0 { r[i] } else { r[i] >> s | r[i + 1] << (32 - s) }).collect();
    trim(&mut o);
    o
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn vectors() {
        assert_eq!(b64(&sha1(b"abc")), "qZk+NkcGgWq6PiVxeFDCbJzQ2J0=");
        let h = hmac_sha1(b"Jefe", b"what do ya want for nothing?");
        assert_eq!(h[..4], [0xef, 0xfc, 0xdf, 0x6a]);
        for n in 0..10u8 {
            let v: Vec<u8> = (0..n).collect();
            assert_eq!(unb64(&b64(&v)).unwrap(), v);
        }
        // RFC 5849 section 1.2.
        let p: Vec<Pair> = [
            ("file", "vacation.jpg"),
            ("size", "original"),
            ("oauth_consumer_key", "dpf43f3p2l4k3l03"),
            ("oauth_token", "nnch734d00sl2jdk"),
            ("oauth_signature_method", "HMAC-SHA1"),
            ("oauth_timestamp", "137131202"),
            ("oauth_nonce", "chapoH"),
        ]
        .iter()
        .map(|(a, b)| (a.to_string(), b.to_string()))
        .collect();
        let b = base_string("GET", "http://photos.example.net/photos", &p);
        assert_eq!(hmac_signature(&b, "kd94hf93k423kf44", Some("pfkkdhi9sl3r4s00")), "MdpQcU8iPSUjWoN/UDMsK2sui9I=");
        assert_eq!(unpct(&pct("é &")).unwrap(), "é &");
        assert!(unpct("%41").is_err() && unpct("%2f").is_err() && unpct("+").is_err());
    }
    #[test]
    fn rsa() {
        let hex = |s: &str| -> Vec<u8> { s.as_bytes().chunks(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap()).collect() };
        // Made with openssl.
        for (n, e, s) in [
            ("B1B2A452E0634D41FFC8C74D8EF43145D93A8FE17AB7B262FA44FD452AF42844987DE1522D55DC62087AE59A12BAEF1077B8895F7743D8E71D84EBA69B0E2483", &[1u8, 0, 1][..], "91efe2b163587e5621794229b05d2873b3d592eea87babefce2f108c933ba10ee08248b600b253ae3e16d011c0ae961cbb1873b119c4befba962f5844d1860f6"),
            ("C9E35124AAE2908696B4B15E0D8BE0C49C0B9BE0262C839D6A62F72E2DBA3FBFC77B1CEA040A3DC0C4480F12289A59E833B02133A1FE18DC87A1F57F2BF71BF46AA2C93B56CB8D42C715708CAC4E49D0D287646AB86DCEB80BC9A698853A7D6A605BA422B28FFCAF287DA3C880BC11D5F3364039C8EA9D4431048C7C962165A3", &[3], "17e4fb0bc6073cf5c428ef611942aaa6fbc50eef45ae220a800a9f9d2b6edec05a0e57f0cad015810f50aa2c6ab1e192e9624e15f5cff93c6b081fdb3e149bb93325ce79de039fcbe12a536632ea5803f0f3ab61c1431ddf76e58b989cdcb4cc09009debe52a609c627bca90280d3aac4e88662c6c9332af7517797a7fbb701f"),
        ] {
            let (n, mut s) = (hex(n), hex(s));
            rsa_sha1_verify(&n, e, b"abc", &s).unwrap();
            assert!(rsa_sha1_verify(&n, e, b"abd", &s).is_err());
            s[5] ^= 1;
            assert!(rsa_sha1_verify(&n, e, b"abc", &s).is_err());
            assert!(rsa_sha1_verify(&n, e, b"abc", &s[1..]).is_err());
        }
        // Division against shift-and-subtract, on operands that reach the correction steps.
        let words = [0u32, 1, 2, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff];
        for i in 0..7usize.pow(6) {
            let w = |k: u32| words[i / 7usize.pow(k) % 7];
            let (mut a, mut m) = (vec![w(0), w(1), w(2), w(3)], vec![w(4), w(5)]);
            trim(&mut a);
            trim(&mut m);
            if m.is_empty() {
                continue;
            }
            let n = |v: &[u32]| v.iter().rev().fold(0u128, |a, &x| a << 32 | x as u128);
            assert_eq!(n(&rem_big(&a, &m)), n(&a) % n(&m), "{:?} {:?}", a, m);
        }
    }
}
