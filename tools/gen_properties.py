import json
R='oauth1-request/src/'
D='oauth1-request-derive/src/'
K='oauth-credentials/src/'
P=[]
def p(id,title,st,over,qt,why,files,mech,obs=None,state=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=None
    P.append(dict(id=id,title=title,statement=st,quantifier={"over":over,"text":qt},why_tests_cant=why,anchors=a))

p("C01","Every HMAC-SHA1 Authorization header verifies at an RFC 5849 server",
"For every HTTP method, query-less base URI, credentials, optional protocol parameters and request parameters, the produced `Authorization` value is `OAuth ` followed by a comma-separated list of `name=\"value\"` pairs in which each applicable `oauth_*` parameter appears exactly once, no inapplicable one and no request parameter appears, and every value contains only unreserved characters and `%XX` escapes that decode to exactly what the caller supplied. Recomputing the HMAC-SHA1 signature from scratch per RFC 5849 (method in upper case, base URI, header parameters minus the signature, plus the request parameters, keyed by both secrets) always gives the transmitted `oauth_signature`. Any credential, callback, verifier or nonce text, including quotes, commas, control characters and non-ASCII, can neither break the header's syntax nor change another parameter.",
["inputs"],"all methods x base URIs x credentials x 2^6 option combinations x parameter lists over Unicode strings",
"The tests pin four Twitter examples with one set of credentials, a fixed nonce and no callback/verifier; nothing recomputes a signature independently for other texts, option combinations or parameter lists.",
[R+"serializer/auth.rs",R+"signature_method/hmac_sha1.rs",R+"signature_method/digest_common.rs",R+"util/percent_encoding.rs",R+"lib.rs"],
[("Authorizer serializes each parameter into the header and the signer together",R+"serializer/auth.rs append_to_header!"),("base string fed incrementally to HMAC",R+"signature_method/digest_common.rs UpdateSign")],
["return value of authorize/get/post/..."])

p("C02","Signed form and query outputs carry every parameter once and verify",
"A form or query authorization contains every request parameter and every applicable `oauth_*` parameter exactly once, plus exactly one `oauth_signature`, as `&`-separated `name=value` pairs whose decoded contents equal what the caller supplied; the query variant is exactly the caller's base URI, one `?`, and that pair list. The signature recomputed per RFC 5849 from only the transmitted pairs, the method and the base URI always equals the transmitted one. Parameters serialized as already percent-encoded are transmitted and signed without being encoded again.",
["inputs"],"all methods x base URIs x credentials x option combinations x parameter lists (plain and pre-encoded) for both output kinds",
"No test of the repository looks at a form/query authorization that has request parameters, let alone verifies its signature.",
[R+"serializer/auth.rs",R+"serializer/urlencode.rs",R+"lib.rs"],
[("each parameter goes both to the url-encoder and to the signer",R+"serializer/auth.rs impl Serializer for Authorizer"),("delimiter state machine",R+"serializer/urlencode.rs Append")],
["return value of to_form/to_query/*_form/*_query"],
[("next_append","which delimiter precedes the next pair",R+"serializer/urlencode.rs")])

p("C03","Percent-encoding is exact for every Unicode text however it is written",
"Every text emitted or signed is percent-encoded exactly as RFC 5849 section 3.6 requires: ASCII letters, digits, `-`, `.`, `_`, `~` stay as they are and every other UTF-8 byte becomes `%` and two upper-case hex digits, once in the output and exactly once more in the signature base string. The result depends only on the text and not on how a value's `Display` implementation splits it into writes or which formatting trait methods it uses. Encoded output is always pure ASCII.",
["inputs"],"every Unicode scalar value, every short string over class representatives, every way of splitting a text into writes, in every position (values, identifiers, callback, verifier, nonce, URI)",
"The unit tests check the byte tables one byte at a time; run handling (unsafe slicing between reserved bytes), multi-byte characters, chunk boundaries and the single/double layers for whole strings are not enumerated.",
[R+"util/percent_encoding.rs",R+"serializer/urlencode.rs",R+"serializer/auth.rs"],
[("DoublePercentEncode run scanner",R+"util/percent_encoding.rs"),("PercentEncode adapter",R+"util/percent_encoding.rs")],
["unsigned and signed outputs, text handed to a signer"])

p("C04","Parameters are signed in RFC 5849 normalized order, merged with oauth_*",
"For every set of request parameters with URI-safe names, the parameters handed to the signature (request parameters and protocol parameters together) are in ascending byte order of encoded name and then of encoded value, each exactly once, duplicates of a name or of a whole pair included. A request parameter whose name sorts before, between, after, or shares a prefix with the protocol parameter names never displaces, drops or duplicates one of them.",
["inputs"],"all parameter multisets up to the bound over names clustered around each oauth_* name and values whose raw and encoded orders differ",
"The tests use a handful of names all far from the oauth_* names, and one list with a duplicate name.",
[R+"request.rs",R+"request/parameter_list.rs",R+"util/oauth_parameter.rs",R+"util.rs"],
[("next_param cursor merged with the sorted iterator",R+"request.rs impl Request for AssertSorted"),("sort by encoded pair",R+"request/parameter_list.rs cmp")],
["base string observed through a recording signer and through recomputed HMAC"],
[("next_param","next protocol parameter still to be emitted",R+"request.rs")])

p("C05","HMAC-SHA1 signing key is right for secrets of every length and content",
"The HMAC-SHA1 key is always the percent-encoded client secret, `&`, and the percent-encoded token secret (empty when there is no token), whatever the lengths and characters of the secrets, including empty secrets and keys below, at and above the 64-byte hash block size. The signature is the base64 of HMAC-SHA1 under that key over the signature base string.",
["inputs"],"all pairs of secret lengths up to the bound x content classes x token present/absent, and base strings of every length up to the bound",
"The only test of the key buffer feeds one constant byte at a time up to length 65; encoded multi-byte pieces that straddle the block boundary, and secrets as the caller gives them, are not enumerated.",
[R+"signature_method/hmac_sha1.rs",R+"signature_method.rs"],
[("SigningKey block buffer with digest fallback",R+"signature_method/hmac_sha1.rs SigningKey::write"),("write_signing_key",R+"signature_method.rs")],
["oauth_signature"],
[("SigningKey","key bytes so far, or running digest once longer than a block",R+"signature_method/hmac_sha1.rs")])

p("C06","PLAINTEXT signatures are exactly the two encoded secrets joined by &",
"With the PLAINTEXT method the decoded `oauth_signature` is always the percent-encoded client secret, `&`, and the percent-encoded token secret (empty when there is no token), and `oauth_signature_method` is `PLAINTEXT`. The transmitted value is percent-encoded once more so that it is syntactically safe in a header, form or query for every secret, and it does not depend on the method, URI, parameters, nonce, timestamp or the buffer type used.",
["inputs"],"all secrets over content classes and lengths x token present/absent x output kinds x buffer types x request shapes",
"No test observes a PLAINTEXT signature at all.",
[R+"signature_method/plaintext.rs",R+"signature_method.rs"],
[("PlaintextSign keeps the formatted key",R+"signature_method/plaintext.rs sign_with")],["oauth_signature"])

p("C07","RSA-SHA1 signatures verify and do not depend on the secrets",
"With the RSA-SHA1 method every transmitted signature is a valid RSASSA-PKCS1-v1_5 SHA-1 signature, under the public half of the configured key, of the RFC 5849 base string for the request, for every request and key size. It does not depend on the shared secrets, and it is identical whether the key is passed by value or by reference and whichever supported version of the RSA library provides it.",
["inputs","configurations"],"requests x option combinations x key sizes x owned/borrowed keys x both RSA back ends x output kinds",
"One known-answer test drives the signer by hand with one key; full requests, the by-value path and the two back ends' agreement are not checked.",
[R+"signature_method/rsa_sha1.rs",R+"signature_method/rsa_sha1_06.rs",R+"signature_method/rsa_sha1_09.rs"],
[("SHA-1 over the base string then PKCS#1 v1.5",R+"signature_method/rsa_sha1.rs Sign::end"),("borrowed key cast",R+"signature_method/rsa_sha1.rs AsRef")],["oauth_signature"])

p("C08","All entry points agree and a builder's output depends only on its last state",
"Every way of authorizing the same request (free functions, per-method shorthands, generic, consuming and caller-supplied-buffer variants, or driving the low-level serializer by hand) yields the same result for the same nonce and timestamp, each shorthand using the HTTP method in its name and a caller-supplied buffer keeping what it already held in front. For any history of setter calls, signings, clones and reuses, a builder's output is determined by the last value given to each setter: setting to none removes the parameter again, signing never changes the builder, and a clone never affects or is affected by its original.",
["histories","inputs"],"all setter/sign/clone histories up to the bound over two values per setter, and all entry points x methods x requests",
"The tests call each style once at most; shorthands are only covered in doctests for GET/POST and no test reuses, unsets or clones a builder.",
[R+"lib.rs",R+"serializer/auth.rs",R+"util.rs"],
[("Builder methods all construct an Authorizer",R+"lib.rs"),("options!/impl_setters! macros",R+"util.rs")],["returned strings"],
[("Builder","signature method, credentials and options",R+"lib.rs")])

p("C09","Automatic nonces are fresh, unpredictable and signed as sent",
"When no nonce is set, every signing operation (including repeated use of one builder, clones, other threads, forked processes, and any clock value) draws a new non-empty URI-safe nonce from the system's secure random source with at least 72 bits of entropy, so that no two requests share one and the nonce is not a function of time or inputs. The nonce transmitted is the nonce signed, and an explicitly set nonce is used verbatim instead.",
["histories","schedules","inputs"],"all histories of signings over entry points, clones, threads and forked processes up to the bound, under scripted clocks and entropy streams, plus long repetition histories",
"Tests always pin the nonce; nothing looks at generated ones, at their variety, or at histories of more than one signing.",
[R+"serializer/auth.rs"],
[("gen_nonce",R+"serializer/auth.rs"),("get_rng",R+"serializer/auth.rs")],["oauth_nonce"])

p("C10","Automatic timestamps are the current time, positive, and signed as sent",
"When no timestamp is set, `oauth_timestamp` is the whole number of seconds since the Unix epoch at the time of the signing call (not of builder creation or of an earlier signing), rendered as a plain positive decimal integer for every clock value, including far-future clocks, sub-second parts and clocks at or before the epoch. The timestamp transmitted is the timestamp signed, even if the clock moves during the call, and an explicitly set timestamp (any positive 64-bit value) is used verbatim without consulting the clock's value.",
["histories","inputs","fault_sequences"],"all clock histories up to the bound over boundary values, with the clock moving between any two readings, and all explicit boundary timestamps",
"Tests pin the timestamp; the real clock is read only incidentally and never scripted.",
[R+"serializer/auth.rs"],
[("get_current_timestamp",R+"serializer/auth.rs")],["oauth_timestamp"])

p("C11","Custom signature methods are driven by the documented call protocol",
"A user-defined signer receives the method, then the encoded URI, then each parameter of the base string once and in order through the operation dedicated to it (or the generic one), with exactly one delimiter between consecutive parameters, and is finalized exactly once; concatenating what it is given reproduces the RFC 5849 base string, and its declared name and finalized value are what is transmitted. A signer that opts out of the nonce or the timestamp gets and transmits neither, one that overrides an operation has its override called, and a run-time choice between two methods behaves exactly like the chosen one for every operation.",
["inputs","histories"],"all requests x options x opt-out combinations x overridden operations x wrapped (either) or direct, and all low-level serializer call sequences in order",
"The only custom signer in the tests prints its calls; opt-outs, overrides and the either-wrapper are never exercised.",
[R+"signature_method.rs",R+"signature_method/either.rs",R+"serializer/auth.rs"],
[("Sign trait provided methods",R+"signature_method.rs"),("delegate! for Either",R+"signature_method/either.rs"),("append_delim_to_sign",R+"serializer/auth.rs")],["calls received by a recording signer"],
[("append_delim_to_sign","whether a delimiter precedes the next parameter",R+"serializer/auth.rs")])

p("C12","Unsigned forms and queries list exactly the request's parameters",
"Serializing a request without signing yields exactly its parameters in order as `name=value` pairs joined by `&`, with values percent-encoded once and pre-encoded ones verbatim; the query variant is the URI followed by `?` and the pairs, or the URI alone when there are none. References, mutable references and `Some` of a request serialize exactly like the request, and `()` and `None` like a request with no parameters, for every serializer; every request kind offers each protocol-parameter slot exactly once and in order.",
["inputs"],"all parameter lists up to the bound over name and value alphabets x request wrappers x serializers",
"Doctests show two or three lists; empty lists, wrappers and slot accounting across serializers are not enumerated.",
[R+"lib.rs",R+"request.rs",R+"serializer/urlencode.rs",R+"serializer.rs"],
[("Urlencoder",R+"serializer/urlencode.rs"),("forwarding impls",R+"request.rs")],["returned strings, serializer call sequence"])

p("C13","Derived requests serialize exactly the declared parameters, in order",
"For every accepted struct definition, the derived implementation emits, in ascending name order with every protocol-parameter slot once in its sorted place, exactly the fields that are not skipped: under the renamed or field name, with the custom formatter or `Display`, encoded unless marked as encoded. A field marked skipped never appears, one with a skip condition appears iff the condition is false for its (unwrapped) value, and an optional field appears iff it has a value, with implicit detection for the plain option type and explicit override either way. Field types, generics, lifetimes, raw identifiers and names that collide with generated code do not change this.",
["programs","inputs"],"all struct definitions up to the bound over field names, types and attribute combinations, and all field values over small domains",
"The pass tests contain one struct per attribute; combinations of attributes, names around the oauth_* names and all value combinations are not covered.",
[D+"lib.rs",D+"field.rs",D+"meta.rs",D+"method_body.rs",D+"method_body/helper.rs",D+"util/oauth_parameter.rs"],
[("fields sorted by name at expansion",D+"lib.rs"),("MethodBody code generation",D+"method_body.rs")],["serializer call sequence of derived impls"])

p("C14","The derive accepts every valid definition and rejects every invalid one",
"A definition that would produce a malformed or ambiguous request (not a struct with named fields, two serialized fields with the same name, a name that is not URI-safe, unknown, duplicate, wrongly shaped or ill-typed attributes) is rejected at compile time with an error at the definition instead of being accepted with a different meaning. A definition using the documented attributes correctly in any combination compiles.",
["programs"],"all attribute lists up to the bound on fields and containers x item kinds",
"The UI tests list about thirty fixed invalid snippets and compare compiler messages; combinations and most valid uses are not covered.",
[D+"lib.rs",D+"meta.rs",D+"field.rs",D+"container.rs",D+"ctxt.rs"],
[("duplicate check over sorted names",D+"lib.rs"),("attribute parser",D+"meta.rs"),("UriSafe",D+"meta.rs")],["compiler verdict"])

p("C15","Debug builds detect misuse, and correct use never panics in any build",
"In debug builds a base URI containing a `?` anywhere, however its text is split into writes, makes every signing entry point panic instead of producing a wrong signature, and a parameter name out of order makes the signing serializer panic. Correct use, meaning query-less URIs and names in non-descending order including equal names and names between or equal to absent protocol parameters, never panics in debug or release builds.",
["inputs","histories","configurations"],"all positions and splits of `?` x entry points; all key sequences up to the bound through the low-level serializer; both build profiles",
"One should_panic test covers one misordered pair; the URI assertion and the absence of panics are untested.",
[R+"serializer/auth.rs"],
[("AssertNotContainQuestion",R+"serializer/auth.rs make_sign"),("check_dictionary_order",R+"serializer/auth.rs")],["panic or return"],
[("prev_key","last appended key (debug builds)",R+"serializer/auth.rs")])

p("C16","A failing sink or value never yields a silently truncated result",
"If the caller's output buffer stops accepting text at any point, or the `Display` of a value or URI fails at any point, no signing or serializing operation returns normally with output or a signature that omits part of the request: it either panics or everything was written completely. A failure in one operation does not affect the results of later operations.",
["fault_sequences"],"every byte capacity of the sink from 0 to the full length, every failing write call of a value, for all output kinds and entry points",
"No test uses a sink or a value that can fail.",
[R+"serializer/auth.rs",R+"serializer/urlencode.rs",R+"signature_method/plaintext.rs",R+"util/percent_encoding.rs",R+"signature_method/digest_common.rs"],
[("write! results unwrapped",R+"serializer/auth.rs"),("errors propagated by the encoders",R+"util/percent_encoding.rs")],["panic or returned buffer"])

p("C17","Debug output never reveals a secret",
"Formatting any public value of the library with `{:?}` or `{:#?}` never outputs a client secret, token secret, signing key or private key, in raw, percent-encoded or any other directly recoverable form: this covers credentials, tokens, builders, signature methods and signers or serializers at any point of a signing process. The identifiers, which are not secret, remain visible in credentials and tokens.",
["inputs","histories"],"all Debug-able public types x secrets over content classes x every intermediate state of a serializer x both formatting styles",
"No test formats anything with Debug.",
[K+"lib.rs",R+"lib.rs",R+"serializer/auth.rs",R+"signature_method/hmac_sha1.rs",R+"signature_method/plaintext.rs",R+"signature_method/rsa_sha1.rs"],
[("manual Debug with a hidden secret",K+"lib.rs"),("manual Debug for signers",R+"signature_method/plaintext.rs")],["Debug output"])

p("C18","Credentials (de)serialization follows the OAuth token response format",
"Serializing credentials emits exactly `oauth_token` (identifier) and `oauth_token_secret` (secret), and deserializing any map-shaped input that has each of the two keys exactly once yields those values whatever the order of keys and whichever unknown keys (with values of any shape) surround them. A missing or repeated key is an error, never a default or a silently chosen value. Serializing and deserializing again gives the same credentials for every text, in every self-describing format and for borrowed and owned strings.",
["inputs"],"all key sequences up to the bound over known, unknown and look-alike keys x value texts x formats (JSON, form, value tokens, str/bytes keys)",
"The tests are two doctest examples, in one key order with one unknown key.",
[K+"serde_imp.rs"],
[("Visitor::visit_map",K+"serde_imp.rs"),("Field identifier",K+"serde_imp.rs")],["serde calls and results"])

p("C19","Credential and token conversions never mix up or alter their parts",
"Every constructor, accessor, borrowing conversion and mapping of credentials and tokens preserves which text is the client identifier, client secret, token identifier and token secret, and mappings apply the function to exactly the parts they name, once each. No sequence of such conversions alters any part otherwise, and signing with a converted token equals signing with the original.",
["inputs","histories"],"all conversion chains up to the bound over four distinguishable texts and string types",
"Doctests only check that the conversions compile.",
[K+"lib.rs"],
[("Credentials/Token conversions",K+"lib.rs")],["accessor results"])

p("C20","Concurrent, nested and interleaved signings never influence each other",
"However the steps of several signing operations are interleaved (on different threads sharing a builder, nested inside a value's formatting code or a signer's callbacks, by switching between several serializers in one thread, or after a panic or abandoned serializer), each operation's result equals the one it gives when run alone. Serializers cloned part-way through continue independently from the same state.",
["schedules","histories"],"all interleavings of 2-3 signings at every user-visible step (value formatting, sink writes, signer callbacks, serializer calls) up to the preemption bound",
"All tests run one signing at a time to completion.",
[R+"serializer/auth.rs",R+"lib.rs",R+"signature_method/hmac_sha1.rs",R+"util/percent_encoding.rs"],
[("all signing state is owned by the serializer value",R+"serializer/auth.rs")],["results of all operations"])

p("C21","The recorder reports exactly the operations performed on it",
"For any sequence of serializer operations, the recorder returns one record per operation, in order, with the exact name and formatted value, and distinguishes plain from pre-encoded parameters. Records compare equal iff they describe the same operation with the same name and the same formatted value, whatever string types they hold, and the advertised list of protocol parameters matches what a request with no parameters performs.",
["histories","inputs"],"all operation sequences up to the bound over names and values; all pairs of records",
"The recorder is only used by doctests and derive tests on a few fixed sequences.",
[R+"serializer/recorder.rs",R+"serializer.rs"],
[("Recorder::history",R+"serializer/recorder.rs"),("Record::eq",R+"serializer/recorder.rs")],["returned records"])

p("C22","The example server accepts exactly correctly signed requests",
"The example server accepts a request made with this library for the expected client, token and verifier, whichever of header, form or query carries the protocol parameters and whatever the request parameters are, and echoes exactly the parameters sent. If any signed part (method, path, a parameter, the nonce or timestamp), the signature, either secret, an identifier or the verifier differs from what was signed or expected, or the timestamp is stale, it answers with a client error and never crashes.",
["inputs"],"requests over endpoints x signature methods x carriers x parameter lists, and every single-part mutation of each",
"The examples have no tests; they are only type-checked.",
["examples/src/server/handler.rs","examples/src/server/authorization.rs",R+"serializer/auth.rs"],
[("verify_and_then",  "examples/src/server/handler.rs"),("create_base_string","examples/src/server/handler.rs"),("auth-param grammar","examples/src/server/authorization.rs")],["HTTP status and body"])

p("C23","Parameter lists are always sorted and never lose an element",
"After any history of building a parameter list (from a container, by conversion, by collecting, by checked construction, empty) and extending it, iterating, borrowing or serializing it yields exactly the elements put in, as a multiset, in ascending order of name and then percent-encoded formatted value. Checked construction from a pre-sorted container succeeds if and only if the container is in that order, and then keeps it unchanged; unwrapping returns the same sorted elements.",
["histories","inputs"],"all construction/extension histories up to the bound over pairs with equal names, equal pairs, prefixes, and values whose numeric, raw and encoded orders differ, for several container and element types",
"One doctest and one unit test show single lists built in one way.",
[R+"request/parameter_list.rs"],
[("sort after every mutation",R+"request/parameter_list.rs new/extend"),("is_sorted_by",R+"request/parameter_list.rs from_sorted")],["iterated pairs and serialized text"],
[("list","the wrapped container, invariant: sorted",R+"request/parameter_list.rs")])

p("C24","Results are the same in every feature configuration and build profile",
"For the same request, credentials, nonce and timestamp, every API available in a configuration gives byte-identical results whether the library is built with the standard library, with allocation only or without allocation, with any set of optional features, in debug or release builds. Without the standard library, automatic nonces still come from the system's secure source and an unavailable clock causes a panic rather than a made-up timestamp.",
["configurations","inputs"],"feature configurations (std, alloc, neither; optional features) x build profiles x a fixed exhaustive request corpus",
"The test suite runs most tests only under the default features and only in debug builds, with no comparison across configurations.",
[R+"lib.rs",R+"serializer/auth.rs",R+"request/parameter_list.rs",R+"signature_method/plaintext.rs","oauth1-request/Cargo.toml"],
[("cfg-gated APIs and defaults",R+"lib.rs"),("cfg_if on clock and rng",R+"serializer/auth.rs")],["returned strings per configuration"])
p("C25","The example client sends what it signs and reads the credentials it is given",
"Every request of the example client (temporary credentials, token credentials, any resource request) carries a single Authorization header that verifies per RFC 5849 for the method, URI and parameters the server actually receives, with the client, token and verifier it was given. The credentials it takes from a response are exactly those the server encoded, whatever their text, the order of the pairs and unknown pairs, a response lacking any of them is an error and not taken for credentials, and the whole flow succeeds against the example server.",
["inputs","histories"],"requests over methods x parameter lists x credentials, all short response bodies up to the bound, and all call sequences of the flow against a recording server",
"The examples have no tests; they are only type-checked.",
["examples/src/client/auth.rs","examples/src/client/request.rs",R+"lib.rs"],
[("request helpers","examples/src/client/auth.rs"),("request! and body/query choice","examples/src/client/request.rs")],["requests received by the server, returned credentials"])
p("C26","Safe use never causes undefined behaviour or invalid strings",
"Whatever inputs, histories, sinks, signers and values safe code supplies - including ones that panic, fail or call back into the library, cloned and abandoned serializers, and builders, lists and credentials shared between threads - the library never reads or writes memory outside live objects, never drops a value twice or loses one, never races, and every string slice it hands to signers, sinks and callers is valid UTF-8. A parameter list that was being sorted, extended or written when a value panicked still holds each of its values exactly once.",
["inputs","histories","schedules"],"texts over the classes of characters x places x outputs x methods, all characters, lengths, entry points, list histories, panics at every formatting, and pairs of concurrent operations, executed natively and under an interpreter that detects undefined behaviour and data races",
"The library contains unsafe code (unchecked UTF-8, a pointer cast); no test runs under a memory checker, and an out-of-bounds read or race rarely changes a result.",
[R+"util/percent_encoding.rs",R+"signature_method/rsa_sha1.rs",R+"request/parameter_list.rs",R+"serializer/auth.rs"],
[("DoublePercentEncode, double_encode_byte",R+"util/percent_encoding.rs"),("AsRef<RsaSha1> for RsaPrivateKey",R+"signature_method/rsa_sha1.rs"),("sort, extend",R+"request/parameter_list.rs")],["Miri reports","string slices handed to signers and sinks","values left in lists after panics"])

open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
import subprocess
