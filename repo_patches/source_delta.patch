From 507e96a63f564e777d25b8f069be8663fd04d0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:59 +0000
Subject: [PATCH 01/17] fix: write request parameters in form/query authorizers

`Builder::to_form`/`to_query` (and the underlying `Authorizer`s) are documented
to write the `oauth_*` parameters "along with the other request parameters",
but the latter were only signed and never written to the output.
---
 oauth1-request/src/serializer/auth.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/oauth1-request/src/serializer/auth.rs b/oauth1-request/src/serializer/auth.rs
index 8b3ffc3..e7b55af 100644
--- a/oauth1-request/src/serializer/auth.rs
+++ b/oauth1-request/src/serializer/auth.rs
@@ -297,12 +297,18 @@ impl<'a, SM: SignatureMethod, W: Write> Serializer for Authorizer<'a, SM, W> {
 
     fn serialize_parameter<V: Display>(&mut self, key: &str, value: V) {
         self.check_dictionary_order(key);
+        if let Data::Urlencode(ref mut encoder) = self.data {
+            encoder.serialize_parameter(key, &value);
+        }
         self.sign_delimiter();
         self.sign.parameter(key, DoublePercentEncode(value));
     }
 
     fn serialize_parameter_encoded<V: Display>(&mut self, key: &str, value: V) {
         self.check_dictionary_order(key);
+        if let Data::Urlencode(ref mut encoder) = self.data {
+            encoder.serialize_parameter_encoded(key, &value);
+        }
         self.sign_delimiter();
         self.sign.parameter(key, PercentEncode(value));
     }
-- 
2.43.0


From c48e82dab156376fad5350eaef29fbd2e2118274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:59 +0000
Subject: [PATCH 02/17] fix: percent encode the `PLAINTEXT` signature

`Sign::end` must return the URL-encoded `oauth_signature`, but `PlaintextSign`
returned the raw signing key: its `&` split the form/query parameter in two and
a secret with a reserved character was decoded once too often by the server.
---
 oauth1-request/src/signature_method/plaintext.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/oauth1-request/src/signature_method/plaintext.rs b/oauth1-request/src/signature_method/plaintext.rs
index 169ff51..83b3b4d 100644
--- a/oauth1-request/src/signature_method/plaintext.rs
+++ b/oauth1-request/src/signature_method/plaintext.rs
@@ -6,6 +6,7 @@ use core::fmt::{self, Debug, Display, Formatter, Write};
 use core::marker::PhantomData;
 
 use super::{write_signing_key, Sign, SignatureMethod};
+use crate::util::PercentEncode;
 
 /// The `PLAINTEXT` signature method.
 pub struct Plaintext<
@@ -16,7 +17,8 @@ pub struct Plaintext<
 }
 
 cfg_type_param_hack! {
-    /// A `Sign` implementation that just returns the signing key used to construct it.
+    /// A `Sign` implementation that just returns the (URL-encoded) signing key used to construct
+    /// it.
     #[derive(Clone, Debug)]
     pub struct PlaintextSign<
         #[cfg(feature = "alloc")] W = alloc::string::String,
@@ -91,8 +93,18 @@ where
     type Sign = PlaintextSign<W>;
 
     fn sign_with(self, client_secret: &str, token_secret: Option<&str>) -> Self::Sign {
+        struct SigningKey<'a>(&'a str, Option<&'a str>);
+        impl<'a> Display for SigningKey<'a> {
+            fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
+                write_signing_key(f, self.0, self.1)
+            }
+        }
+
+        // The signing key is used as the `oauth_signature` parameter value as is, and `Sign::end`
+        // is required to return the URL-encoded representation of the value.
+        let key = PercentEncode(SigningKey(client_secret, token_secret));
         let mut signing_key = W::default();
-        write_signing_key(&mut signing_key, client_secret, token_secret).unwrap();
+        write!(signing_key, "{}", key).unwrap();
         PlaintextSign { signing_key }
     }
 }
-- 
2.43.0


From 581f1442a3fcbad30682c77de120a6638ff785c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:59 +0000
Subject: [PATCH 03/17] fix: sort same-named parameters by the encoded value

RFC 5849 section 3.4.1.3.2 sorts the parameters after percent encoding them.
Sorting by the raw value puts e.g. `0` before `:` (`%3A`), so a `ParameterList`
with both values under one key produced a wrong signature.
---
 oauth1-request/src/request.rs                | 4 ++--
 oauth1-request/src/request/parameter_list.rs | 7 +++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/oauth1-request/src/request.rs b/oauth1-request/src/request.rs
index c78477f..1cef001 100644
--- a/oauth1-request/src/request.rs
+++ b/oauth1-request/src/request.rs
@@ -32,8 +32,8 @@ pub trait Request {
 /// behavior of this wrapper is unspecified.
 ///
 /// Note that the required ordering is alphabetical ordering of `AsRef<str>` value of the key and
-/// `Display` representation of the value and does not necessarily match that of the one provided by
-/// the [`Ord`] trait, which may provide, for example, numerical ordering instead.
+/// percent encoded `Display` representation of the value and does not necessarily match that of the
+/// one provided by the [`Ord`] trait, which may provide, for example, numerical ordering instead.
 ///
 /// If you have a slice instead of an iterator, consider using [`ParameterList`], which guarantees
 /// the correct ordering.
diff --git a/oauth1-request/src/request/parameter_list.rs b/oauth1-request/src/request/parameter_list.rs
index 425b347..7e28e5f 100644
--- a/oauth1-request/src/request/parameter_list.rs
+++ b/oauth1-request/src/request/parameter_list.rs
@@ -8,10 +8,12 @@ use core::marker::PhantomData;
 
 use super::Request;
 use crate::serializer::Serializer;
+use crate::util::PercentEncode;
 
 /// A [`Request`] with dynamic list of key-value parameter pairs.
 ///
-/// This is like an array of `(K, V)` but the parameters are guaranteed to be sorted alphabetically.
+/// This is like an array of `(K, V)` but the parameters are guaranteed to be sorted alphabetically
+/// by the key and then by the percent encoded `Display` representation of the value.
 ///
 /// ## Example
 ///
@@ -240,7 +242,8 @@ where
     let (ref kr, ref vr) = *rhs.borrow();
     return inner(kl.as_ref(), vl, kr.as_ref(), vr);
     fn inner<V: Display>(kl: &str, vl: &V, kr: &str, vr: &V) -> Ordering {
-        (kl, fmt_cmp::Cmp(vl)).cmp(&(kr, fmt_cmp::Cmp(vr)))
+        // The parameters are sorted after being percent encoded (RFC 5849 section 3.4.1.3.2.).
+        (kl, fmt_cmp::Cmp(PercentEncode(vl))).cmp(&(kr, fmt_cmp::Cmp(PercentEncode(vr))))
     }
 }
 
-- 
2.43.0


From 6fa27585969499df8b3d1b26f04062ecdba3de52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:59 +0000
Subject: [PATCH 04/17] fix: delegate `Sign::consumer_key` in `Either`

A custom `Sign` that overrides `consumer_key` did not have the method called
when wrapped in `Either`.
---
 oauth1-request/src/signature_method/either.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/oauth1-request/src/signature_method/either.rs b/oauth1-request/src/signature_method/either.rs
index 67945b6..437794b 100644
--- a/oauth1-request/src/signature_method/either.rs
+++ b/oauth1-request/src/signature_method/either.rs
@@ -62,6 +62,7 @@ impl<L: Sign, R: Sign> Sign for Either<L, R> {
 
     delegate! {
         fn callback[V: Display](&mut self, value: V);
+        fn consumer_key[V: Display](&mut self, value: V);
         fn nonce[V: Display](&mut self, value: V);
         fn use_nonce(&self) -> bool;
         fn signature_method(&mut self);
-- 
2.43.0


From 57af6f03495150a2d9fba3fcf5b127236469aac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:59 +0000
Subject: [PATCH 05/17] fix: percent encode custom HTTP methods in the
 signature base string

RFC 5849 section 3.4.1.1: "If the request uses a custom HTTP method, it MUST be
encoded (Section 3.6)".
---
 oauth1-request/src/signature_method/digest_common.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/oauth1-request/src/signature_method/digest_common.rs b/oauth1-request/src/signature_method/digest_common.rs
index 07145fa..d63e8c9 100644
--- a/oauth1-request/src/signature_method/digest_common.rs
+++ b/oauth1-request/src/signature_method/digest_common.rs
@@ -3,7 +3,7 @@ use core::fmt::{self, Display, Formatter, Write};
 use base64::display::Base64Display;
 use digest::Update;
 
-use crate::util::PercentEncode;
+use crate::util::{percent_encode, PercentEncode};
 
 #[derive(Clone, Debug)]
 pub struct UpdateSign<U>(pub U);
@@ -14,8 +14,8 @@ struct UpdateWrite<'a, M>(&'a mut M);
 
 impl<U: Update> UpdateSign<U> {
     pub fn request_method(&mut self, method: &str) {
-        self.0.update(method.as_bytes());
-        self.0.update(b"&");
+        // Custom HTTP methods may contain reserved characters.
+        write!(UpdateWrite(&mut self.0), "{}&", percent_encode(method)).unwrap();
     }
 
     pub fn uri<T: Display>(&mut self, uri: T) {
-- 
2.43.0


From 65333986e64d462ebc00290d601c9cef3a88eb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:59 +0000
Subject: [PATCH 06/17] fix: never emit a zero `oauth_timestamp`

The timestamp MUST be a positive integer (RFC 5849 section 3.3.), but a clock
within the first second of the epoch produced `0`.
---
 oauth1-request/src/serializer/auth.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oauth1-request/src/serializer/auth.rs b/oauth1-request/src/serializer/auth.rs
index e7b55af..3e8e736 100644
--- a/oauth1-request/src/serializer/auth.rs
+++ b/oauth1-request/src/serializer/auth.rs
@@ -395,7 +395,8 @@ fn get_current_timestamp() -> u64 {
         } else if #[cfg(feature = "std")] {
             use std::time::{SystemTime, UNIX_EPOCH};
             match SystemTime::now().duration_since(UNIX_EPOCH) {
-                Ok(d) => d.as_secs(),
+                // The timestamp must be a positive integer.
+                Ok(d) => d.as_secs().max(1),
                 Err(_) => 1,
             }
         } else {
-- 
2.43.0


From bd6d46c971b0ffe325656ce9dc9591fffa0a8695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:49 +0000
Subject: [PATCH 07/17] fix: hide the signing key in the `Debug` output of
 `PlaintextSign`

---
 oauth1-request/src/signature_method/plaintext.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/oauth1-request/src/signature_method/plaintext.rs b/oauth1-request/src/signature_method/plaintext.rs
index 83b3b4d..a2e6ee6 100644
--- a/oauth1-request/src/signature_method/plaintext.rs
+++ b/oauth1-request/src/signature_method/plaintext.rs
@@ -19,7 +19,7 @@ pub struct Plaintext<
 cfg_type_param_hack! {
     /// A `Sign` implementation that just returns the (URL-encoded) signing key used to construct
     /// it.
-    #[derive(Clone, Debug)]
+    #[derive(Clone)]
     pub struct PlaintextSign<
         #[cfg(feature = "alloc")] W = alloc::string::String,
         #[cfg(not(feature = "alloc"))] W,
@@ -109,6 +109,15 @@ where
     }
 }
 
+// The signing key consists of the shared-secrets, which must not leak via the `Debug` output.
+impl<W> Debug for PlaintextSign<W> {
+    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
+        f.debug_struct("PlaintextSign")
+            .field("signing_key", &format_args!("<hidden>"))
+            .finish()
+    }
+}
+
 impl<W> Sign for PlaintextSign<W>
 where
     W: Display + Write,
-- 
2.43.0


From d17907428affb8b0608449e32f23f1f8ab5b3b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:58 +0000
Subject: [PATCH 08/17] fix: hide the private key in the `Debug` output of
 `RSA-SHA1` types

---
 .../src/signature_method/rsa_sha1.rs          | 25 ++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/oauth1-request/src/signature_method/rsa_sha1.rs b/oauth1-request/src/signature_method/rsa_sha1.rs
index 30d1cc4..71a77ec 100644
--- a/oauth1-request/src/signature_method/rsa_sha1.rs
+++ b/oauth1-request/src/signature_method/rsa_sha1.rs
@@ -6,7 +6,7 @@ pub use self::rsa::pkcs8::DecodePrivateKey;
 pub use self::rsa::RsaPrivateKey;
 
 use alloc::vec::Vec;
-use core::fmt::{self, Display, Formatter};
+use core::fmt::{self, Debug, Display, Formatter};
 
 use digest::Digest;
 use sha1::Sha1;
@@ -15,14 +15,14 @@ use super::digest_common::{Base64PercentEncodeDisplay, UpdateSign};
 use super::{Sign, SignatureMethod};
 
 /// The `RSA-SHA1` signature method.
-#[derive(Clone, Debug)]
+#[derive(Clone)]
 #[repr(transparent)]
 pub struct RsaSha1 {
     key: RsaPrivateKey,
 }
 
 /// A type that signs a signature base string with the RSA-SHA1 signature algorithm.
-#[derive(Clone, Debug)]
+#[derive(Clone)]
 pub struct RsaSha1Sign<K = RsaPrivateKey> {
     inner: UpdateSign<Sha1>,
     key: K,
@@ -40,6 +40,25 @@ impl RsaSha1 {
     }
 }
 
+// `RsaPrivateKey`'s `Debug` output contains the private key, so hide it.
+
+impl Debug for RsaSha1 {
+    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
+        f.debug_struct("RsaSha1")
+            .field("key", &format_args!("<hidden>"))
+            .finish()
+    }
+}
+
+impl<K> Debug for RsaSha1Sign<K> {
+    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
+        f.debug_struct("RsaSha1Sign")
+            .field("inner", &self.inner)
+            .field("key", &format_args!("<hidden>"))
+            .finish()
+    }
+}
+
 impl From<RsaPrivateKey> for RsaSha1 {
     fn from(key: RsaPrivateKey) -> Self {
         RsaSha1::new(key)
-- 
2.43.0


From 82544f091c526d579592179e0e2a9458fcdde744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:58 +0000
Subject: [PATCH 09/17] fix: support raw identifiers as field names in
 `#[derive(Request)]`

---
 oauth1-request-derive/src/field.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/oauth1-request-derive/src/field.rs b/oauth1-request-derive/src/field.rs
index 78f6a2c..3f38fcd 100644
--- a/oauth1-request-derive/src/field.rs
+++ b/oauth1-request-derive/src/field.rs
@@ -35,7 +35,7 @@ impl Field {
             attrs, ident, ty, ..
         } = field;
         let meta = FieldMeta::new(attrs, cx);
-        let ident = ident.unwrap().unraw();
+        let ident = ident.unwrap();
         Self { ident, ty, meta }
     }
 
@@ -62,7 +62,7 @@ impl<'a> Name<'a> {
     // `proc_macro` crate use `to_string` under the hood as of this writing.
     pub fn string_value(&self) -> String {
         match *self {
-            Name::Original(ident) => ident.to_string(),
+            Name::Original(ident) => ident.unraw().to_string(),
             Name::Renamed(lit) => lit.value(),
         }
     }
@@ -73,7 +73,7 @@ impl<'a> ToTokens for Name<'a> {
     fn to_tokens(&self, tokens: &mut TokenStream) {
         match *self {
             Name::Original(ident) => {
-                let mut lit = Literal::string(&ident.to_string());
+                let mut lit = Literal::string(&self.string_value());
                 lit.set_span(ident.span());
                 tokens.append(lit);
             }
-- 
2.43.0


From a910abf513128882b2a92a4cda52443822893708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:36 +0000
Subject: [PATCH 10/17] fix: do not count skipped fields as duplicate
 parameters in `#[derive(Request)]`

---
 oauth1-request-derive/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oauth1-request-derive/src/lib.rs b/oauth1-request-derive/src/lib.rs
index 50e4d65..ee61274 100644
--- a/oauth1-request-derive/src/lib.rs
+++ b/oauth1-request-derive/src/lib.rs
@@ -78,7 +78,9 @@ fn expand_derive_oauth1_authorize(input: DeriveInput) -> TokenStream {
         .collect();
 
     fields.sort_by_cached_key(|f| f.name().string_value());
-    fields.iter().fold(String::new(), |prev_name, f| {
+    // Skipped fields are not serialized and thus cannot conflict with other parameters.
+    let serialized = fields.iter().filter(|f| !f.meta.skip);
+    serialized.fold(String::new(), |prev_name, f| {
         let name = f.name();
         let (name, span) = (name.string_value(), name.span());
         if name == prev_name {
-- 
2.43.0


From 28f7ae660714f8932290273419b894bfa29b2800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:36 +0000
Subject: [PATCH 11/17] fix: reject non-ASCII parameter names in
 `#[derive(Request)]`

---
 oauth1-request-derive/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/oauth1-request-derive/src/lib.rs b/oauth1-request-derive/src/lib.rs
index ee61274..dea0aa3 100644
--- a/oauth1-request-derive/src/lib.rs
+++ b/oauth1-request-derive/src/lib.rs
@@ -86,6 +86,10 @@ fn expand_derive_oauth1_authorize(input: DeriveInput) -> TokenStream {
         if name == prev_name {
             cx.add_error_message(span, format!("duplicate parameter \"{}\"", name));
         }
+        // Field names are not percent encoded, but an identifier may contain non-ASCII characters.
+        if f.meta.rename.is_none() && !name.is_ascii() {
+            cx.add_error_message(span, "parameter name must be URI-safe");
+        }
         name
     });
 
-- 
2.43.0


From d63664a77c3622642270adbdf3afab06b79269c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:05 +0000
Subject: [PATCH 12/17] fix: never generate an empty nonce

---
 oauth1-request/src/serializer/auth.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oauth1-request/src/serializer/auth.rs b/oauth1-request/src/serializer/auth.rs
index 3e8e736..0730f9a 100644
--- a/oauth1-request/src/serializer/auth.rs
+++ b/oauth1-request/src/serializer/auth.rs
@@ -435,8 +435,8 @@ fn gen_nonce<'a, R: RngCore + CryptoRng>(buf: &'a mut [u8; NONCE_LEN], rng: &mut
     let mut rand = [0_u8; NONCE_LEN * 3 / 4];
     rng.fill_bytes(&mut rand);
 
-    // Trim leading zeroes to be stingy.
-    let i = rand.iter().position(|&b| b != 0).unwrap_or(rand.len());
+    // Trim leading zeroes to be stingy, but never make the nonce empty.
+    let i = rand.iter().position(|&b| b != 0).unwrap_or(rand.len() - 1);
     let rand = &rand[i..];
 
     let len = base64::engine::general_purpose::URL_SAFE_NO_PAD
-- 
2.43.0


From 4c43d041b861beca76c40edf91c04712a4543b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:50 +0000
Subject: [PATCH 13/17] fix: compare values that do not write anything
 correctly

`fmt_cmp::cmp` returns `Equal` whatever the right-hand side is if the left-hand side does not
write anything to the formatter, which put empty values at a wrong position of a `ParameterList`
and made `Record`s with different values equal.
---
 oauth1-request/src/request/parameter_list.rs |  5 +++--
 oauth1-request/src/serializer/recorder.rs    |  3 ++-
 oauth1-request/src/util.rs                   |  2 ++
 oauth1-request/src/util/cmp_display.rs       | 17 +++++++++++++++++
 4 files changed, 24 insertions(+), 3 deletions(-)
 create mode 100644 oauth1-request/src/util/cmp_display.rs

diff --git a/oauth1-request/src/request/parameter_list.rs b/oauth1-request/src/request/parameter_list.rs
index 7e28e5f..0bd7149 100644
--- a/oauth1-request/src/request/parameter_list.rs
+++ b/oauth1-request/src/request/parameter_list.rs
@@ -8,7 +8,7 @@ use core::marker::PhantomData;
 
 use super::Request;
 use crate::serializer::Serializer;
-use crate::util::PercentEncode;
+use crate::util::{cmp_display, PercentEncode};
 
 /// A [`Request`] with dynamic list of key-value parameter pairs.
 ///
@@ -243,7 +243,8 @@ where
     return inner(kl.as_ref(), vl, kr.as_ref(), vr);
     fn inner<V: Display>(kl: &str, vl: &V, kr: &str, vr: &V) -> Ordering {
         // The parameters are sorted after being percent encoded (RFC 5849 section 3.4.1.3.2.).
-        (kl, fmt_cmp::Cmp(PercentEncode(vl))).cmp(&(kr, fmt_cmp::Cmp(PercentEncode(vr))))
+        kl.cmp(kr)
+            .then_with(|| cmp_display(&PercentEncode(vl), &PercentEncode(vr)))
     }
 }
 
diff --git a/oauth1-request/src/serializer/recorder.rs b/oauth1-request/src/serializer/recorder.rs
index c4a958c..162f81d 100644
--- a/oauth1-request/src/serializer/recorder.rs
+++ b/oauth1-request/src/serializer/recorder.rs
@@ -9,6 +9,7 @@ use core::cmp::Ordering;
 use core::fmt::Display;
 
 use super::Serializer;
+use crate::util::cmp_display;
 
 /// A `Serializer` that records the history of operations done to itself.
 ///
@@ -184,7 +185,7 @@ where
             | (
                 &Record::ParameterEncoded(ref k1, ref v1),
                 &Record::ParameterEncoded(ref k2, ref v2),
-            ) => k1.as_ref() == k2.as_ref() && fmt_cmp::cmp(v1, v2) == Ordering::Equal,
+            ) => k1.as_ref() == k2.as_ref() && cmp_display(v1, v2) == Ordering::Equal,
             (&Record::Callback, &Record::Callback)
             | (&Record::ConsumerKey, &Record::ConsumerKey)
             | (&Record::Nonce, &Record::Nonce)
diff --git a/oauth1-request/src/util.rs b/oauth1-request/src/util.rs
index 3592217..9a5dcfe 100644
--- a/oauth1-request/src/util.rs
+++ b/oauth1-request/src/util.rs
@@ -1,6 +1,8 @@
+mod cmp_display;
 mod oauth_parameter;
 mod percent_encoding;
 
+pub use self::cmp_display::cmp_display;
 pub use self::oauth_parameter::OAuthParameter;
 pub use self::percent_encoding::{percent_encode, DoublePercentEncode, PercentEncode};
 
diff --git a/oauth1-request/src/util/cmp_display.rs b/oauth1-request/src/util/cmp_display.rs
new file mode 100644
index 0000000..590a924
--- /dev/null
+++ b/oauth1-request/src/util/cmp_display.rs
@@ -0,0 +1,17 @@
+use core::cmp::Ordering;
+use core::fmt::{self, Display, Formatter};
+
+/// Compares the `Display` representations of the arguments.
+pub fn cmp_display<T: Display, U: Display>(lhs: &T, rhs: &U) -> Ordering {
+    // `fmt_cmp::cmp` doesn't look at `rhs` if `lhs` doesn't write anything to the formatter
+    // and returns `Equal` in that case, so make sure that `lhs` writes something.
+    struct WriteAtLeastOnce<'a, T>(&'a T);
+    impl<'a, T: Display> Display for WriteAtLeastOnce<'a, T> {
+        fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
+            f.write_str("")?;
+            Display::fmt(self.0, f)
+        }
+    }
+
+    fmt_cmp::cmp(&WriteAtLeastOnce(lhs), rhs)
+}
-- 
2.43.0


From ff6164d39269848b613b6c246604b8cd8e001e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:04 +0000
Subject: [PATCH 14/17] fix: do not depend on prelude names in the helpers of
 `#[derive(Request)]`

---
 .../src/method_body/helper.rs                  | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/oauth1-request-derive/src/method_body/helper.rs b/oauth1-request-derive/src/method_body/helper.rs
index 0804b11..a90c740 100644
--- a/oauth1-request-derive/src/method_body/helper.rs
+++ b/oauth1-request-derive/src/method_body/helper.rs
@@ -33,14 +33,16 @@ macro_rules! def_tokens_inner {
 #[cfg(test)]
 struct DeriveRequestAssertion;
 
+// The items resolve at call site, where the names in the prelude may be shadowed.
+
 def_tokens! {FmtHelper;
     use ::core::fmt::{Display, Formatter, Result};
 
     struct Fmt<T, F>(T, F);
 
-    impl<T: Copy, F> Display for Fmt<T, F>
+    impl<T: ::core::marker::Copy, F> Display for Fmt<T, F>
     where
-        F: Fn(T, &mut Formatter<'_>) -> Result,
+        F: ::core::ops::Fn(T, &mut Formatter<'_>) -> Result,
     {
         fn fmt(&self, f: &mut Formatter<'_>) -> Result {
             self.1(self.0, f)
@@ -50,16 +52,16 @@ def_tokens! {FmtHelper;
     impl DeriveRequestAssertion {
         // The order of arguments is imoprtant here.
         // If you reverse the order, deref coercions won't work for `t` (see the test below).
-        fn fmt<'a, F, T: ?Sized>(&self, f: F, t: &'a T) -> Fmt<&'a T, F>
+        fn fmt<'a, F, T: ?::core::marker::Sized>(&self, f: F, t: &'a T) -> Fmt<&'a T, F>
         where
-            F: Fn(&T, &mut Formatter<'_>) -> Result,
+            F: ::core::ops::Fn(&T, &mut Formatter<'_>) -> Result,
         {
             Fmt(t, f)
         }
 
-        fn fmt_impls_fn<F, T: ?Sized>(&self, f: F) -> impl Fn(&T, &mut Formatter<'_>) -> Result
+        fn fmt_impls_fn<F, T: ?::core::marker::Sized>(&self, f: F) -> impl ::core::ops::Fn(&T, &mut Formatter<'_>) -> Result
         where
-            F: Fn(&T, &mut Formatter<'_>) -> Result,
+            F: ::core::ops::Fn(&T, &mut Formatter<'_>) -> Result,
         {
             f
         }
@@ -68,9 +70,9 @@ def_tokens! {FmtHelper;
 
 def_tokens! {SkipIfHelper;
     impl DeriveRequestAssertion {
-        fn skip_if_impls_fn<F, T: ?Sized>(&self, f: F) -> impl Fn(&T) -> bool
+        fn skip_if_impls_fn<F, T: ?::core::marker::Sized>(&self, f: F) -> impl ::core::ops::Fn(&T) -> ::core::primitive::bool
         where
-            F: Fn(&T) -> bool,
+            F: ::core::ops::Fn(&T) -> ::core::primitive::bool,
         {
             f
         }
-- 
2.43.0


From 7de82181bfc54e22c19b43040c901bf97aa31e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:06 +0000
Subject: [PATCH 15/17] fix: accept attribute values from macro fragments in
 `#[derive(Request)]`

---
 oauth1-request-derive/src/meta.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/oauth1-request-derive/src/meta.rs b/oauth1-request-derive/src/meta.rs
index 6bb3fb6..5cc9f45 100644
--- a/oauth1-request-derive/src/meta.rs
+++ b/oauth1-request-derive/src/meta.rs
@@ -198,7 +198,12 @@ impl Parse for Meta {
             Ok(Meta { path, kind })
         } else if input.peek(syn::Token![=]) {
             let _ = input.parse::<syn::Token![=]>().unwrap();
-            let kind = MetaKind::NameValue(input.parse()?);
+            let mut value = input.parse()?;
+            // Fragments that are interpolated through `macro_rules!` may be enclosed in a `Group`.
+            while let Expr::Group(group) = value {
+                value = *group.expr;
+            }
+            let kind = MetaKind::NameValue(value);
             Ok(Meta { path, kind })
         } else {
             let kind = MetaKind::Path;
-- 
2.43.0


From 608e15a40d2fc122ddb09512a13a9d19005dea29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:49 +0000
Subject: [PATCH 16/17] fix: sign the request method in uppercase

RFC 5849 section 3.4.1.1: the signature base string starts with "the HTTP
request method in uppercase". A custom method with lowercase letters was signed
as it is, which a conforming server rejects.
---
 oauth1-request/src/signature_method/digest_common.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/oauth1-request/src/signature_method/digest_common.rs b/oauth1-request/src/signature_method/digest_common.rs
index d63e8c9..80fbf9a 100644
--- a/oauth1-request/src/signature_method/digest_common.rs
+++ b/oauth1-request/src/signature_method/digest_common.rs
@@ -14,8 +14,14 @@ struct UpdateWrite<'a, M>(&'a mut M);
 
 impl<U: Update> UpdateSign<U> {
     pub fn request_method(&mut self, method: &str) {
-        // Custom HTTP methods may contain reserved characters.
-        write!(UpdateWrite(&mut self.0), "{}&", percent_encode(method)).unwrap();
+        // Custom HTTP methods may contain reserved characters and lowercase letters, but the method
+        // must be in uppercase in the signature base string (RFC 5849 section 3.4.1.1.).
+        for s in percent_encode(method) {
+            for b in s.as_bytes() {
+                self.0.update(&[b.to_ascii_uppercase()]);
+            }
+        }
+        self.0.update(b"&");
     }
 
     pub fn uri<T: Display>(&mut self, uri: T) {
-- 
2.43.0


From ac1d87915043d392e1ba46f879bb1ccda749e39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:01 +0000
Subject: [PATCH 17/17] fix: never repeat automatic nonces after a fork

---
 oauth1-request/src/serializer/auth.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/oauth1-request/src/serializer/auth.rs b/oauth1-request/src/serializer/auth.rs
index 0730f9a..7391ed2 100644
--- a/oauth1-request/src/serializer/auth.rs
+++ b/oauth1-request/src/serializer/auth.rs
@@ -411,13 +411,9 @@ fn get_current_timestamp() -> u64 {
 }
 
 fn get_rng() -> impl RngCore + CryptoRng {
-    cfg_if::cfg_if! {
-        if #[cfg(feature = "std")] {
-            thread_rng()
-        } else {
-            rand::rngs::OsRng
-        }
-    }
+    // The nonces must also be unique across processes. Note that `thread_rng()` keeps returning the
+    // same values in both of the processes for a while after a `fork`.
+    rand::rngs::OsRng
 }
 
 // This is worth 72 bits of entropy. The nonce is required to be unique across all requests with
-- 
2.43.0

