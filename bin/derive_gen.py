"""Enumerates definitions for `#[derive(Request)]` and says what each must do (the reference model of the macro).

A definition is accepted or rejected (C14); an accepted one serializes to a known sequence for every
value (C13). The model is written from the documentation of the attributes and the type rules of Rust,
not from the macro."""
import itertools, zlib

URI_SAFE = set('ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~')
SLOTS = ['oauth_callback', 'oauth_consumer_key', 'oauth_nonce', 'oauth_signature_method', 'oauth_timestamp', 'oauth_token', 'oauth_verifier', 'oauth_version']

# What every generated module can use.
PRELUDE = r'''
#[allow(unused_imports)] use super::sup::{self, *};
#[allow(unused_imports)] use std::borrow::Cow;
#[allow(unused_imports)] use std::fmt::{Display, LowerHex, Formatter};
#[allow(unused_imports)] use std::marker::PhantomData;
'''
SUPPORT = r'''
use std::fmt::{self, Display, Formatter};
pub struct NoDisp(pub u32);
impl NoDisp {
    pub fn show(&self, f: &mut Formatter<'_>) -> fmt::Result { write!(f, "no:{}", self.0) }
    pub fn zero(&self) -> bool { self.0 == 0 }
}
pub type Opt<T> = Option<T>;
pub struct MyOption<T>(pub T);
impl<T: Display> Display for MyOption<T> { fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { write!(f, "my {}", self.0) } }
pub struct Optional<T>(pub T);
impl<T: Display> Display for Optional<T> { fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { write!(f, "al {}", self.0) } }
#[allow(non_camel_case_types)] pub struct option<T>(pub T);
impl<T: Display> Display for option<T> { fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { write!(f, "low {}", self.0) } }
pub mod shadow {
    use std::fmt::{self, Display, Formatter};
    pub struct Option<T>(pub T);
    impl<T: Display> Display for Option<T> { fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { write!(f, "sh {}", self.0) } }
    pub struct Plain;
    impl Display for Plain { fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { f.write_str("plain") } }
    pub struct Two<A, B>(pub A, pub B);
    impl<A: Display, B: Display> Display for Two<A, B> { fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { write!(f, "{}+{}", self.0, self.1) } }
}
pub trait HasOption { type Option: Display; }
impl HasOption for u32 { type Option = u32; }
pub fn f_any<T: Display + ?Sized>(t: &T, f: &mut Formatter<'_>) -> fmt::Result { f.write_str("<")?; write!(f, "{} é", t)?; f.write_str("&>") }
pub fn f_raw<T: ?Sized>(_: &T, f: &mut Formatter<'_>) -> fmt::Result { f.write_str("raw=") }
pub fn f_str(t: &str, f: &mut Formatter<'_>) -> fmt::Result { write!(f, "[{}]", t) }
pub fn f_u32(t: &u32, f: &mut Formatter<'_>) -> fmt::Result { write!(f, "{:03}", t) }
pub fn f_opt(t: &Option<u32>, f: &mut Formatter<'_>) -> fmt::Result { write!(f, "{:?}", t) }
pub const F_CONST: fn(&u32, &mut Formatter<'_>) -> fmt::Result = f_u32;
pub fn f_bool(t: &bool, f: &mut Formatter<'_>) -> fmt::Result { write!(f, "{}", t) }
pub fn f_unit(_: &u32, _: &mut Formatter<'_>) {}
pub fn f_one(_: &u32) -> fmt::Result { Ok(()) }
pub fn f_owned(_: u32, _: &mut Formatter<'_>) -> fmt::Result { Ok(()) }
pub fn always<T: ?Sized>(_: &T) -> bool { true }
pub fn never<T: ?Sized>(_: &T) -> bool { false }
pub fn is_zero(t: &u32) -> bool { *t == 0 }
pub fn is_bool(t: &bool) -> bool { *t }
pub fn s_int(_: &u32) -> u32 { 0 }
pub fn s_owned(t: u32) -> bool { t == 0 }
pub fn s_none() -> bool { false }
pub struct Tr;
impl Tr { pub fn is_seven(t: &u32) -> bool { *t == 7 } pub fn f(t: &u32, f: &mut Formatter<'_>) -> fmt::Result { write!(f, "Tr{}", t) } }
'''

class Ty:
    """A field type: source, values as (expression, abstract value), and how Rust sees it."""
    def __init__(self, src, vals, display=True, inner=None, implicit=False, derefs=(), generics=(), skip_only=False):
        self.src, self.vals, self.display, self.inner, self.implicit, self.derefs, self.generics, self.skip_only = src, vals, display, inner, implicit, derefs, generics, skip_only

U32 = Ty('u32', [('0', 0), ('7', 7), ('u32::MAX', 4294967295)])
STRING = Ty('String', [('"é &=".to_string()', 'é &='), ('String::new()', '')], derefs=('str',))
STR = Ty("&'a str", [('"x y%"', 'x y%'), ('""', '')], derefs=('str',), generics=("'a",))
BOX = Ty('Box<dyn Display>', [('Box::new("bo x")', 'bo x')])
COW = Ty("Cow<'a, str>", [('Cow::Borrowed("c~")', 'c~'), ('Cow::Owned(String::new())', '')], derefs=('str',), generics=("'a",))
GEN = Ty('T', [('5u32', 5), ('0u32', 0)], generics=('T',))
NODISP = Ty('NoDisp', [('NoDisp(3)', ('no', 3)), ('NoDisp(0)', ('no', 0))], display=False)
def opt(t, name='Option', implicit=True):
    return Ty('%s<%s>' % (name, t.src), [('None', None)] + [('Some(%s)' % e, ('some', v)) for e, v in t.vals], display=False, inner=t, implicit=implicit, generics=t.generics)
PHANTOM = Ty('PhantomData<T>', [('PhantomData', ())], display=False, generics=('T',))
OPT_U32 = opt(U32)
TYPES = [U32, STRING, STR, BOX, COW, GEN, NODISP, OPT_U32, opt(STR), opt(GEN), opt(NODISP), opt(OPT_U32), opt(opt(NODISP)),
         opt(U32, 'std::option::Option', False), opt(STRING, '::core::option::Option', False), opt(U32, 'Opt', False), opt(U32, 'sup::Opt', False), PHANTOM]

def show(v):
    return str(v)
# name -> (accepts type?, text of value)
def is_(*srcs):
    return lambda t: t.src in srcs or any(d in srcs for d in t.derefs)
FMTS = {
    'f_any': (lambda t: t.display, lambda v: '<%s é&>' % show(v)),
    'sup::f_raw': (lambda t: True, lambda v: 'raw='),
    'Display::fmt': (lambda t: t.display, show),
    'LowerHex::fmt': (is_('u32'), lambda v: '%x' % v),
    'f_str': (is_('str'), lambda v: '[%s]' % v),
    'f_u32': (is_('u32'), lambda v: '%03d' % v),
    'F_CONST': (is_('u32'), lambda v: '%03d' % v),
    'Tr::f': (is_('u32'), lambda v: 'Tr%d' % v),
    '<u32 as LowerHex>::fmt': (is_('u32'), lambda v: '%x' % v),
    'f_any::<u32>': (is_('u32'), lambda v: '<%s é&>' % show(v)),
    'NoDisp::show': (is_('NoDisp'), lambda v: 'no:%d' % v[1]),
    'f_opt': (is_('Option<u32>', 'std::option::Option<u32>', 'Opt<u32>', 'sup::Opt<u32>'), lambda v: 'None' if v is None else 'Some(%d)' % v[1]),
}
BAD_FMTS = ['f_bool', 'f_unit', 'f_one', 'f_owned']
SKIPS = {
    'always': (lambda t: True, lambda v: True),
    'sup::never': (lambda t: True, lambda v: False),
    'is_zero': (is_('u32'), lambda v: v == 0),
    'Tr::is_seven': (is_('u32'), lambda v: v == 7),
    'str::is_empty': (is_('str'), lambda v: v == ''),
    'NoDisp::zero': (is_('NoDisp'), lambda v: v[1] == 0),
    'Option::is_none': (lambda t: t.inner is not None, lambda v: v is None),
}
BAD_SKIPS = ['is_bool', 's_int', 's_owned', 's_none']

class F:
    """A field with a choice of attributes."""
    def __init__(self, ident, ty=U32, enc=False, fmt=None, option=None, rename=None, skip=False, skip_if=None, split=0, pre=''):
        self.ident, self.ty, self.enc, self.fmt, self.option, self.rename, self.skip, self.skip_if, self.split, self.pre = ident, ty, enc, fmt, option, rename, skip, skip_if, split, pre
    def items(self):
        out = []
        if self.rename is not None:
            out.append('rename = "%s"' % self.rename)
        if self.enc:
            out.append('encoded')
        if self.option is not None:
            out.append('option = %s' % ('true' if self.option else 'false'))
        if self.fmt:
            out.append('fmt = %s' % self.fmt)
        if self.skip_if:
            out.append('skip_if = %s' % self.skip_if)
        if self.skip:
            out.append('skip')
        return out
    def src(self):
        it = self.items()
        if not it:
            a = ''
        elif self.split == 0:
            a = '#[oauth1(%s)] ' % ', '.join(it)
        elif self.split == 1:
            a = ''.join('#[oauth1(%s)] ' % i for i in reversed(it))
        elif self.split == 2:
            a = '#[oauth1()] #[oauth1(%s,)] ' % ', '.join(reversed(it))
        else:
            k = len(it) // 2
            a = '/// Doc.\n' + ''.join('#[oauth1(%s)] ' % ', '.join(p) for p in (it[:k], it[k:]) if p)
        return '%s%spub %s: %s' % (self.pre, a, self.ident, self.ty.src)
    def name(self):
        if self.rename is not None:
            return self.rename
        return self.ident[2:] if self.ident.startswith('r#') else self.ident
    def is_option(self):
        return self.option if self.option is not None else self.ty.implicit
    def well_typed(self):
        """Whether the serialized field type-checks."""
        if self.skip:
            return self.fmt is None and self.skip_if is None and self.option is None  # otherwise: unspecified
        t = self.ty
        if self.is_option():
            if t.inner is None:
                return False
            t = t.inner
        if self.fmt is None:
            if not t.display:
                return False
        elif self.fmt not in FMTS or not FMTS[self.fmt][0](t):
            return False
        return self.skip_if is None or (self.skip_if in SKIPS and SKIPS[self.skip_if][0](t))
    def text(self, v):
        """The serialized text of a value, or None."""
        if self.skip:
            return None
        if self.is_option():
            if v is None:
                return None
            v = v[1]
        if self.skip_if and SKIPS[self.skip_if][1](v):
            return None
        return FMTS[self.fmt][1](v) if self.fmt else show(v)

class Def:
    """A struct definition. `shape` is a template around the fields."""
    def __init__(self, fields, name='S', generics=None, where='', attr='', pre='', post='', derive='oauth::Request', wrap=None, kind='accept', inst=None):
        self.fields, self.name, self.where, self.attr, self.pre, self.post, self.derive, self.wrap, self.kind, self.inst = fields, name, where, attr, pre, post, derive, wrap, kind, inst
        g = sorted({x for f in fields for x in f.ty.generics}) if generics is None else generics
        self.generics = g
    def src(self):
        g = '<%s>' % ', '.join(self.generics) if self.generics else ''
        body = '%s#[derive(%s)] %s pub struct %s%s %s { %s }%s' % (self.pre, self.derive, self.attr, self.name, g, self.where, ', '.join(f.src() for f in self.fields), self.post)
        return self.wrap % body if self.wrap else body
    def serialized(self):
        return sorted((f for f in self.fields if not f.skip), key=lambda f: f.name())
    def valid_names(self):
        names = [f.name() for f in self.fields if not f.skip]
        if len(set(names)) != len(names):
            return False
        return all(n and all(c in URI_SAFE for c in n) for n in names)

def single_configs():
    """Every combination of attributes on one field, valid or not (well-typedness decides)."""
    n = 0
    for t in TYPES:
        for option in (None, True, False):
            for fmt in [None] + list(FMTS):
                for skip_if in [None] + list(SKIPS):
                    for enc in (False, True):
                        n += 1
                        # The spelling of the attribute list cycles through its forms.
                        yield F('f', t, enc, fmt, option, None, False, skip_if, split=n % 4)
        for enc in (False, True):
            yield F('f', t, enc, None, None, None, True, None)

EDGE_NAMES = []
for s in SLOTS:
    EDGE_NAMES += [s[:-1], s + '_', s[:-1] + chr(ord(s[-1]) - 1), s[:-1] + chr(ord(s[-1]) + 1)]
EDGE_NAMES += ['a', 'z', 'A', 'Z', '_a', 'oauth', 'oauth_', 'oauth_zz', 'Oauth_token', 'OAUTH_TOKEN', 'oauth__', 'oauth_A', 'oauth_0', 'zzzz', 'o', 'oa']
EDGE_NAMES = [n for n in dict.fromkeys(EDGE_NAMES) if n not in SLOTS]
RENAMES = ['oauth-token', 'oauth.token', 'oauth~', '~', '0', '-', '.', 'a-b.c~d_e', 'type', 'oauth_token-secret', 'oauth_token.', '9z', 'oauth_signature', 'A.B', 'aa', '_']
IDENT_OK = lambda n: n not in ('_', 'type') and (n[0].isalpha() or n[0] == '_') and all(c.isalnum() or c == '_' for c in n)
RAW = ['r#type', 'r#struct', 'r#fn', 'r#async', 'r#plain', 'r#match', 'r#dyn']
# Identifiers that the generated code may use itself.
COLLIDING = ['value', 'tmp', 'helper', 'serializer', 'fmt', 'f', 'self_', 'end', 'skip_if', 'this', 'ser', 'bind', 'name', 'T', '_S', 'S', 'Some', 'None', 'Option', 'serialize', 'u32', 'core', 'std', 'oauth', '_oauth1_request']

def name_field(n, **k):
    return F(n, **k) if IDENT_OK(n) or n.startswith('r#') else F('x' + str(zlib.crc32(n.encode()) % 10), rename=n, **k)

def accepted(tier):
    """Definitions that must be accepted."""
    thorough = tier == 'thorough'
    out = []
    singles = [f for f in single_configs() if f.well_typed()]
    out += [Def([f]) for f in singles]
    # Names: alone, and in pairs in both declaration orders.
    for n in EDGE_NAMES + RAW + COLLIDING:
        out.append(Def([F(n)]))
        if not n.startswith('r#'):
            out.append(Def([F('q', rename=n)]))
    for n in RENAMES:
        out.append(Def([F('q', rename=n)]))
    pairs = EDGE_NAMES + RENAMES
    pairs = list(dict.fromkeys(pairs))
    for a, b in itertools.permutations(pairs, 2):
        fa = F('x', rename=a) if not IDENT_OK(a) else F(a)
        fb = F('y', rename=b) if not IDENT_OK(b) or b == fa.ident else F(b)
        if fa.ident != fb.ident:
            out.append(Def([fa, fb]))
    # Renames that swap or shadow other fields' identifiers.
    for perm in itertools.permutations(['a', 'oauth_m', 'z']):
        for mask in range(8):
            fs = [F(i, OPT_U32, rename=r if mask >> k & 1 else None) for k, (i, r) in enumerate(zip(['a', 'oauth_m', 'z'], perm))]
            d = Def(fs)
            if d.valid_names():
                out.append(d)
    # One optional parameter at every place relative to the slots: all presence patterns.
    out.append(Def([F(n, OPT_U32) for n in ['oauth_a', 'oauth_cb', 'oauth_d', 'oauth_o', 'oauth_t', 'oauth_timf', 'oauth_tz', 'oauth_vf', 'zz']]))
    # Attribute combinations of several fields.
    some = [F('f', U32), F('f', OPT_U32), F('f', U32, skip_if='is_zero'), F('f', STRING, fmt='f_str'), F('f', OPT_U32, fmt='f_opt', option=False), F('f', opt(STR), enc=True, skip_if='str::is_empty'),
            F('f', U32, skip=True), F('f', opt(U32, 'Opt', False), option=True, fmt='f_u32', skip_if='Tr::is_seven'), F('f', GEN, enc=True), F('f', NODISP, fmt='NoDisp::show', skip_if='NoDisp::zero')]
    k = 4 if thorough else 3
    for combo in itertools.product(some, repeat=k):
        fs = []
        for i, c in enumerate(combo):
            g = F(['m', 'b', 'oauth_q', 'Z'][i], c.ty, c.enc, c.fmt, c.option, None, c.skip, c.skip_if, split=i)
            fs.append(g)
        out.append(Def(fs))
    # Names that collide with generated code, with every kind of generated code around.
    kinds = [dict(), dict(ty=OPT_U32), dict(fmt='f_u32'), dict(ty=OPT_U32, fmt='f_u32', skip_if='is_zero'), dict(skip_if='is_zero', enc=True)]
    for n in COLLIDING:
        for kd in kinds:
            out.append(Def([F(n, **kd), F('other', OPT_U32, fmt='f_any')]))
    # Skipped fields: same names, non-ASCII names, several of them.
    out.append(Def([F('a'), F('b', rename='a', skip=True)]))
    out.append(Def([F('b', rename='a', skip=True), F('a'), F('c', rename='a', skip=True)]))
    out.append(Def([F('é', skip=True), F('a')]))
    out.append(Def([F('é', rename='e'), F('a')]))
    out.append(Def([F('a', PHANTOM, skip=True), F('b', GEN)]))
    out.append(Def([F('a', NODISP, skip=True)]))
    out.append(Def([F('oauth_token', rename='tok'), F('tok', rename='oauth_t')]))
    out.append(Def([F('oauth_token', skip=True), F('oauth_nonce', skip=True)]))
    out.append(Def([]))
    # Whatever else is said of it, a skipped field does not appear.
    for other in itertools.product((False, True), (None, 'f_u32', 'sup::f_raw'), (None, 'is_zero', 'sup::never', 'always'), (None, 'g', 'oauth_x'), (None, False)):
        enc, fmt, skip_if, rename, option = other
        for split in range(4):
            out.append(Def([F('f', U32, enc, fmt, option, rename, True, skip_if, split=split), F('z')]))
    for option in (None, True, False):
        out.append(Def([F('b'), F('f', OPT_U32, option=option, skip=True, fmt='f_u32' if option is not False else 'f_opt'), F('z', OPT_U32)]))
    # Sizes, in reverse order of declaration.
    for n in ([3, 5, 8, 13, 40] if not thorough else [3, 5, 8, 13, 40, 200]):
        out.append(Def([F('p%03d' % i, rename=None) for i in range(n)][::-1]))
        out.append(Def([F('p%03d' % i, rename='oauth_%03d' % (n - i)) for i in range(n)]))
    for perm in itertools.permutations(['b', 'oauth_cz', 'oauth_nz', 'oauth_w'] + (['zz'] if thorough else [])):
        out.append(Def([F(n) for n in perm]))
    # Shapes of the item.
    A, B = F('a', GEN, fmt='f_any'), F('z', OPT_U32)
    out += [
        Def([A, B], generics=['T: Display']), Def([A, B], where='where T: Clone'), Def([A, B], where='where T: Display + Copy,'), Def([A, B], generics=['T = u32']),
        Def([A, B], generics=['T: Copy + PartialOrd']), Def([A, B], generics=['T', 'const N: usize'], inst=['u32', '3']),
        Def([F('a', Ty("&'a U", [('&5u32', 5)])), F('z', Ty("Option<&'b V>", [('None', None), ('Some(&6u32)', ('some', 6))], inner=Ty("&'b V", []), implicit=True))], generics=["'a", "'b", 'U: Clone', 'V'], inst=['u32', 'u32']),
        Def([F('a', Ty("&'a T", [('&8u32', 8)]))], generics=["'a", 'T'], inst=['u32'], where="where T: 'a"),
        Def([F('a', Ty("&'a (dyn Display + 'a)", [('&"dy"', 'dy')]))], generics=["'a"]),
        Def([F('a', Ty("Box<T>", [('Box::new(3u32)', 3)]))], generics=['T: ?Sized'], inst=['u32']),
        Def([F('a', Ty("F", [('5u32', 5)])), F('b', fmt='f_u32')], generics=['F'], inst=['u32']),
        Def([F('a', Ty("S", [('5u32', 5)])), F('b', fmt='f_u32', skip_if='is_zero')], generics=['S'], name='Q', inst=['u32']),
        Def([F('a', Ty('(((u32)))', [('4', 4)]))]), Def([F('a', Ty("&'static str", [('"st"', 'st')], derefs=('str',)), fmt='f_str')]),
        Def([F('a', Ty('fmt_::Arguments_', [('fmt_::Arguments_(1)', 'arg')]))], pre="mod fmt_ { pub struct Arguments_(pub u8); impl std::fmt::Display for Arguments_ { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(\"arg\") } } } "),
        Def([F('a'), B], attr='#[oauth1(crate = oauth)]'), Def([F('a'), B], attr='#[oauth1(crate = ::oauth1_request)] #[oauth1()]'), Def([F('a'), B], attr='#[oauth1(crate = self::deep::er,)]', pre='mod deep { pub use oauth1_request as er; } '),
        Def([F('a'), B], attr='#[allow(dead_code)] #[doc = "x"]'), Def([F('a'), B], derive='Clone, oauth::Request, Debug'),
        Def([F('a', pre='#[cfg(not(test))] '), F('b', OPT_U32, pre='#[doc(hidden)] ')]),
        Def([F('a', fmt='f_u32'), B], name='Fmt'), Def([F('a', fmt='f_u32', skip_if='is_zero'), B], name='DeriveRequestAssertion'), Def([F('a', fmt='f_u32'), B], name='Tape_'),
        Def([F('a', fmt='f_u32'), F('b', skip_if='is_zero')], name='r#struct'), Def([F('a', fmt='Self::g')], post=' impl S { fn g(t: &u32, f: &mut Formatter<\'_>) -> std::fmt::Result { write!(f, "g{}", t) } }'),
        Def([F('a', U32, fmt='fmt'), F('b', skip_if='skip_if')], pre='fn fmt(t: &u32, f: &mut Formatter<\'_>) -> std::fmt::Result { write!(f, "l{}", t) } fn skip_if(t: &u32) -> bool { *t == 7 } '),
        Def([F('a', U32, fmt='tmp'), F('b', OPT_U32, skip_if='value'), F('c', fmt='helper', skip_if='serializer')], pre='fn tmp(t: &u32, f: &mut Formatter<\'_>) -> std::fmt::Result { write!(f, "l{}", t) } fn helper(t: &u32, f: &mut Formatter<\'_>) -> std::fmt::Result { write!(f, "h{}", t) } fn value(t: &u32) -> bool { *t == 7 } fn serializer(t: &u32) -> bool { *t == 0 } '),
    ]
    # Names of the standard library that mean something else where the macro is used.
    for shadow in ['pub struct Result;', 'pub struct bool; pub struct str;', 'pub mod bool {} pub mod u32_ {}', 'pub enum Result<T> { A(T) }', 'pub trait Clone {}', 'pub struct Some_;', 'pub mod core {} pub mod std {} pub mod alloc {}', 'pub mod oauth1_request {}', 'pub mod serializer {}', 'pub struct Serializer; pub struct Request;',
                   'pub trait Serializer { fn end(&self) {} fn to_string(&self) {} } impl<T> Serializer for T {}', 'pub trait Copy {}', 'pub trait Fn {}', 'pub struct _S; pub struct Fmt; pub struct FmtHelper;', 'pub trait Sized {}',
                   'pub fn Ok() {} pub fn Err() {}', 'macro_rules! write { () => {} } macro_rules! stringify { () => {} }', 'pub struct Copy; pub struct Fn; pub struct FnOnce; pub struct FnMut;']:
        for fs in ([F('a'), F('b', OPT_U32)], [F('a', fmt='f_u32'), F('b', OPT_U32, skip_if='is_zero', fmt='f_any')]):
            d = Def(fs, wrap='pub use self::inner::S; mod inner { use super::super::sup::{self, f_any, f_u32, is_zero}; use ::oauth1_request as oauth_; %s %%s }' % shadow, derive='oauth_::Request')
            out.append(d)
    # Names of locals and the prelude that `Option`-ness depends on.
    like = [Ty('MyOption<u32>', [('MyOption(5)', 'my 5')]), Ty('Optional<u32>', [('Optional(5)', 'al 5')]), Ty('option<u32>', [('option(5)', 'low 5')]), Ty('sup::shadow::Option<u32>', [('sup::shadow::Option(5)', 'sh 5')]),
            Ty('<u32 as sup::HasOption>::Option', [('5', 5)]), Ty('Box<sup::shadow::Option<u32>>', [('Box::new(sup::shadow::Option(5))', 'sh 5')]), Ty("&'a sup::MyOption<u32>", [('&MyOption(5)', 'my 5')], generics=("'a",))]
    for t in like:
        for f in (F('f', t), F('f', t, option=False, fmt='f_any'), F('f', t, True, skip_if='sup::never'), F('f', t, fmt='sup::f_raw')):
            out += [Def([f]), Def([F('a', OPT_U32), f])]
    for t in ("&'static Option<u32>", "Box<Option<u32>>", '[Option<u32>; 1]', '(Option<u32>,)', 'fn() -> Option<u32>', 'Vec<Option<u32>>', "std::cell::Cell<Option<u32>>"):
        e = {'&': '&Some(1)', 'B': 'Box::new(None)', '[': '[None]', '(': '(Some(3),)', 'f': '|| Some(1)', 'V': 'vec![]', 's': 'std::cell::Cell::new(None)'}[t[0]]
        for option in (None, False):
            out.append(Def([F('f', Ty(t, [(e, 'x')], display=False), option=option, fmt='sup::f_raw', skip_if='sup::never')]))
    for use, ty, e, text in [('Plain', 'Option', 'Plain', 'plain'), ('Two', 'Option<u32, u8>', 'Two(1u32, 2u8)', '1+2')]:
        for f in (F('f', Ty(ty, [('super::sup::shadow::' + e, text)])), F('f', Ty(ty, [('super::sup::shadow::' + e, text)]), option=False, fmt='f_any')):
            out.append(Def([f], wrap='pub use self::inner::S; mod inner { use super::super::sup::{self, f_any, shadow::%s as Option}; use ::oauth1_request as oauth_; %%s }' % use, derive='oauth_::Request'))
    # Every combination of attributes with every place of the name and of the identifier.
    places = ['aa', 'oauth_cz', 'oauth_nz', 'oauth_ta', 'zz']
    for ident, rename in itertools.product(places, [None] + places):
        for enc, fmt, o, skip_if in itertools.product((False, True), (None, 'f_u32'), ('', 'implicit', 'explicit', 'off'), (None, 'is_zero')):
            t, option = {'': (U32, None), 'implicit': (OPT_U32, None), 'explicit': (opt(U32, 'Opt', False), True), 'off': (U32, False)}[o]
            out.append(Def([F(ident, t, enc, fmt, option, rename, False, skip_if), F('oauth_o', U32, rename='oauth_o')]))
    out.append(Def([F('a', Ty('Option<u32>', [('Some(4)', ('some', 4)), ('None', None)], inner=U32, implicit=True))], wrap='pub use self::i::S; mod i { %s }', derive='oauth1_request::Request'))
    # Inside a macro: types and attributes arrive as groups.
    for t in (U32, OPT_U32, opt(U32, 'Opt', False)):
        for option in (None, True, False):
            f = F('a', t, False, None, option)
            g = F('a', t, False, 'sup::f_raw', option, skip_if='sup::never')
            for x in (f, g):
                if x.well_typed():
                    src = x.src().replace(t.src, '$t')
                    out.append(Def([x], wrap='macro_rules! mk { ($t:ty) => { #[derive(oauth::Request)] pub struct S { %s } } } mk!(%s); /* %%s */' % (src, t.src)))
    # Attribute values arriving through macro fragments of every kind that can hold them.
    for key, val, frags, fld in [('rename', '"lit"', ['literal', 'expr', 'tt'], dict(rename='lit')), ('fmt', 'Display::fmt', ['path', 'expr'], dict(fmt='Display::fmt')), ('fmt', 'f_any', ['ident', 'path', 'expr', 'tt'], dict(fmt='f_any')),
                                 ('skip_if', 'sup::never', ['path', 'expr'], dict(skip_if='sup::never')), ('option', 'false', ['literal', 'expr', 'tt', 'ident'], dict(option=False))]:
        for fr in frags:
            out.append(Def([F('a', **fld), F('b', OPT_U32)], wrap='macro_rules! mk { ($v:%s) => { #[derive(oauth::Request)] pub struct S { #[oauth1(%s = $v)] pub a: u32, pub b: Option<u32> } } } mk!(%s); /* %%s */' % (fr, key, val)))
    for fr, val in [('path', 'oauth'), ('path', '::oauth1_request'), ('expr', 'self::oauth'), ('ident', 'oauth'), ('tt', 'oauth')]:
        out.append(Def([F('a'), F('b', OPT_U32)], wrap='macro_rules! mk { ($v:%s) => { #[derive(oauth::Request)] #[oauth1(crate = $v)] pub struct S { pub a: u32, pub b: Option<u32> } } } mk!(%s); /* %%s */' % (fr, val)))
    out.append(Def([F('f', rename='w', fmt='f_u32', skip_if='is_zero')], wrap='macro_rules! inner { ($a:literal, $p:path, $e:expr) => { #[derive(oauth::Request)] pub struct S { #[oauth1(rename = $a, fmt = $p, skip_if = $e)] pub f: u32 } } } macro_rules! mk { ($a:literal, $p:path, $e:expr) => { inner!($a, $p, $e); } } mk!("w", f_u32, is_zero); /* %s */'))
    out.append(Def([F('a')], wrap='macro_rules! mk { ($($i:ident : $t:ty),*) => { #[derive(oauth::Request)] pub struct S { $(pub $i: $t),* } } } mk!(a: u32); /* %s */'))
    return out

# Special formatter names of the shapes above.
FMTS['Self::g'] = (is_('u32'), lambda v: 'g%d' % v)
FMTS['fmt'] = FMTS['tmp'] = (is_('u32'), lambda v: 'l%d' % v)
FMTS['helper'] = (is_('u32'), lambda v: 'h%d' % v)
SKIPS['skip_if'] = SKIPS['value'] = (is_('u32'), lambda v: v == 7)
SKIPS['serializer'] = (is_('u32'), lambda v: v == 0)
_SPECIAL = {'Self::g', 'fmt', 'tmp', 'helper', 'skip_if', 'value', 'serializer'}
_F0, _S0 = {k: v for k, v in FMTS.items() if k not in _SPECIAL}, {k: v for k, v in SKIPS.items() if k not in _SPECIAL}
_single = single_configs
def single_configs():
    global FMTS, SKIPS
    f, s = FMTS, SKIPS
    FMTS, SKIPS = _F0, _S0
    try:
        return list(_single())
    finally:
        FMTS, SKIPS = f, s

# ------------------------------------------------------------------------------------------------
# Attribute lists (C14)

# (source, key or None, verdict)   verdict: ok / bad
ITEMS = [
    ('encoded', 'encoded', 'ok'), ('skip', 'skip', 'ok'), ('fmt = sup::f_raw', 'fmt', 'ok'), ('skip_if = sup::never', 'skip_if', 'ok'), ('option = false', 'option', 'ok'), ('rename = "ok"', 'rename', 'ok'),
    ('rename = r"-._~"', 'rename', 'ok'), ('fmt = <u32 as Display>::fmt', 'fmt', 'ok'), ('skip_if = sup::never::<u32>', 'skip_if', 'ok'), ('rename = "\\x61"', 'rename', 'ok'),
    ('encoded = true', None, 'bad'), ('encoded()', None, 'bad'), ('encoded(true)', None, 'bad'), ('skip = false', None, 'bad'), ('skip = "x"', None, 'bad'), ('skip(x)', None, 'bad'),
    ('fmt', None, 'bad'), ('fmt = "sup::f_raw"', None, 'bad'), ('fmt(sup::f_raw)', None, 'bad'), ('fmt = 1', None, 'bad'), ('fmt = |t, f| Ok(())', None, 'bad'), ('fmt = sup::f_raw()', None, 'bad'),
    ('skip_if', None, 'bad'), ('skip_if = "sup::never"', None, 'bad'), ('skip_if(sup::never)', None, 'bad'), ('skip_if = true', None, 'bad'), ('skip_if = |_| true', None, 'bad'), ('skip_if = !sup::never', None, 'bad'),
    ('option', None, 'bad'), ('option = 1', None, 'bad'), ('option = "true"', None, 'bad'), ('option(true)', None, 'bad'), ('option = true_', None, 'bad'), ('option = !true', None, 'bad'),
    ('rename', None, 'bad'), ('rename = x', None, 'bad'), ('rename = 1', None, 'bad'), ("rename = 'c'", None, 'bad'), ('rename = b"x"', None, 'bad'), ('rename("x")', None, 'bad'), ('rename = concat!("a", "b")', None, 'bad'), ('rename = c"x"', None, 'bad'),
    ('rename = "a b"', None, 'bad'), ('rename = "é"', None, 'bad'), ('rename = "a%20b"', None, 'bad'), ('rename = "a=b"', None, 'bad'), ('rename = "a&b"', None, 'bad'), ('rename = "\\0"', None, 'bad'), ('rename = "a\\n"', None, 'bad'), ('rename = "/"', None, 'bad'), ('rename = "+"', None, 'bad'), ('rename = "a*"', None, 'bad'), ('rename = "a\\u{7f}"', None, 'bad'),
    ('foo', None, 'bad'), ('Skip', None, 'bad'), ('skip_', None, 'bad'), ('oauth1::skip', None, 'bad'), ('crate = oauth', None, 'bad'), ('foo = 1', None, 'bad'), ('foo(1)', None, 'bad'), ('renamed = "x"', None, 'bad'), ('default', None, 'bad'), ('r#skip', 'rskip', '?'), ('skip_if_none', None, 'bad'), ('serialize_with = x', None, 'bad'), ('self::skip', None, 'bad'), ('ENCODED', None, 'bad'),
    ('1', None, 'bad'), ('"skip"', None, 'bad'), ('skip encoded', None, 'bad'), ('= 1', None, 'bad'), ('fmt =', None, 'bad'), ('rename = ', None, 'bad'), ('skip!', None, 'bad'), ('#', None, 'bad'), ('skip = ', None, 'bad'), ('encoded;', None, 'bad'), (', skip', None, 'bad'), ('skip,, encoded', None, 'bad'),
]
ITEMS = [i for i in ITEMS if i[2] != '?']
for c in range(0x20, 0x7f):
    ch = chr(c)
    if ch not in URI_SAFE and ch not in '"\\ %=&/+*{}':
        ITEMS.append(('rename = "k%s"' % ch, None, 'bad'))

def attr_lists(tier):
    """(attribute source, accepted?) for a field of type u32: all lists of at most two items (three in thorough runs), in one attribute or several."""
    yield '', True
    yield '#[oauth1()]', True
    yield '#[oauth1()] #[oauth1()]', True
    yield '#[oauth1]', False
    yield '#[oauth1 = "skip"]', False
    yield '#[oauth1(skip), oauth1(encoded)]', None
    core = ITEMS[:62]
    for a in ITEMS:
        yield '#[oauth1(%s)]' % a[0], a[2] == 'ok'
        yield '#[oauth1(%s,)]' % a[0], a[2] == 'ok'
        yield '#[doc = "d"] #[oauth1()] #[oauth1(%s)]' % a[0], a[2] == 'ok'
    def ok(xs):
        keys = [x[1] for x in xs]
        return all(x[2] == 'ok' for x in xs) and len(set(keys)) == len(keys)
    good = [x for x in ITEMS if x[2] == 'ok']
    for i, (a, b) in enumerate(itertools.product(core, repeat=2)):
        if a[2] != 'ok' and b[2] != 'ok' and tier != 'thorough' and i % 7:
            continue
        yield ('#[oauth1(%s, %s)]' if i % 2 else '#[oauth1(%s)] #[oauth1(%s)]') % (a[0], b[0]), ok((a, b))
    for i, xs in enumerate(itertools.product(good if tier != 'thorough' else core[:24], repeat=3)):
        yield ['#[oauth1(%s, %s, %s)]', '#[oauth1(%s)] #[oauth1(%s, %s)]', '#[oauth1(%s, %s)] #[oauth1(%s)]'][i % 3] % tuple(x[0] for x in xs), ok(xs)

CONTAINER = [
    ('crate = oauth', 'crate', 'ok'), ('crate = ::oauth1_request', 'crate', 'ok'), ('crate = oauth1_request', 'crate', 'ok'),
    ('crate', None, 'bad'), ('crate(oauth)', None, 'bad'), ('crate = 1', None, 'bad'), ('crate = oauth()', None, 'bad'), ('crate = |x| x', None, 'bad'),
    ('skip', None, 'bad'), ('encoded', None, 'bad'), ('rename = "x"', None, 'bad'), ('fmt = x', None, 'bad'), ('krate = oauth', None, 'bad'), ('crates = oauth', None, 'bad'), ('foo', None, 'bad'), ('oauth::krate', None, 'bad'), ('1', None, 'bad'), ('r#crate', None, 'bad'), ('skip_if = sup::never', None, 'bad'), ('option = true', None, 'bad'), ('rename_all = "camelCase"', None, 'bad'), ('crate =', None, 'bad'),
]
CONTAINER = [c for c in CONTAINER if c[0] != 'r#crate']
def container_lists():
    yield '#[oauth1()]', True
    yield '#[oauth1]', False
    yield '#[oauth1 = "crate"]', False
    for a in CONTAINER:
        yield '#[oauth1(%s)]' % a[0], a[2] == 'ok'
        yield '#[oauth1(%s,)]' % a[0], a[2] == 'ok'
    for i, (a, b) in enumerate(itertools.product(CONTAINER, repeat=2)):
        keys = [a[1], b[1]]
        yield ('#[oauth1(%s, %s)]' if i % 2 else '#[oauth1(%s)] #[oauth1(%s)]') % (a[0], b[0]), a[2] == b[2] == 'ok' and len(set(keys)) == 2

ITEM_KINDS = [
    ('#[derive(oauth::Request)] pub enum S { A { a: u32 } }', False), ('#[derive(oauth::Request)] pub enum S {}', False), ('#[derive(oauth::Request)] pub enum S { A }', False), ('#[derive(oauth::Request)] pub enum S { A(u32), B }', False),
    ('#[derive(oauth::Request)] #[derive(Clone, Copy)] pub union S { a: u32, b: u32 }', False), ('#[derive(oauth::Request)] pub struct S(u32);', False), ('#[derive(oauth::Request)] pub struct S();', False), ('#[derive(oauth::Request)] pub struct S;', False),
    ('#[derive(oauth::Request)] pub struct S(#[oauth1(rename = "a")] u32, String);', False), ('#[derive(oauth::Request)] pub struct S<T>(T);', False), ('#[derive(oauth::Request)] pub struct S {}', True),
    ('#[derive(oauth::Request)] #[oauth1(crate = oauth)] pub enum S { A }', False), ('#[derive(oauth::Request)] #[oauth1(crate = oauth)] pub struct S;', False),
]

def macro_level(tier):
    """(source, accepted?) pairs decided by the macro alone."""
    for a, ok in attr_lists(tier):
        if ok is not None:
            yield '#[derive(oauth::Request)] pub struct S { %s pub f: u32 }' % a, ok
    for a, ok in container_lists():
        yield '#[derive(oauth::Request)] %s pub struct S { pub f: u32 }' % a, ok
    # A bad attribute on any of several fields, and together with a container attribute.
    bad = [x for x in ITEMS if x[2] == 'bad'][:40]
    for i in range(3):
        for b in bad:
            fs = ['pub a: u32', '#[oauth1(skip)] pub b: u32', 'pub c: Option<u32>']
            fs[i] = '#[oauth1(%s)] %s' % (b[0], fs[i].replace('#[oauth1(skip)] ', ''))
            yield '#[derive(oauth::Request)] #[oauth1(crate = oauth)] pub struct S { %s }' % ', '.join(fs), False
    yield from ITEM_KINDS
    # Names: every assignment of identifiers, renames and skips to two or three fields.
    idents = ['a', 'r#type', 'c']
    ren = [None, 'a', 'type', 'c', 'A', 'z']
    flags = ['', 'skip', 'skip_if = sup::always', 'encoded']
    for n in (2, 3):
        for names in itertools.product(ren, repeat=n):
            for fl in itertools.product(flags if n == 2 else flags[:2], repeat=n):
                fs = [F(idents[i], rename=names[i], skip=fl[i] == 'skip', enc=fl[i] == 'encoded', skip_if='sup::always' if 'if' in fl[i] else None) for i in range(n)]
                d = Def(fs)
                yield d.src(), d.valid_names()
    for ident, ok in [('é', False), ('日本', False), ('aé', False), ('r#é', False), ('_é', False), ('e', True), ('_0', True), ('__', True)]:
        for extra, ok2 in [('', ok), ('#[oauth1(rename = "x")] ', True), ('#[oauth1(skip)] ', True), ('#[oauth1(skip_if = sup::always)] ', ok)]:
            yield '#[derive(oauth::Request)] pub struct S { %spub %s: u32 }' % (extra, ident), ok2
    yield '#[derive(oauth::Request)] pub struct S { #[oauth1(rename = "")] pub f: u32 }', False
    # Duplicates by several routes and in any position.
    for n in (2, 4):
        for i in range(n):
            for j in range(n):
                if i != j:
                    fs = [F('f%d' % k, rename='f%d' % j if k == i else None, split=k) for k in range(n)]
                    yield Def(fs).src(), False
                    yield Def([F(f.ident, OPT_U32, rename=f.rename) for f in fs]).src(), False

def type_level(tier):
    """(source, accepted?) pairs decided by the type rules for the code the attributes stand for."""
    for f in single_configs():
        if f.skip or (f.enc and f.ty.src != 'u32'):
            continue
        if not f.well_typed():
            d = Def([f])
            yield d.src(), False
    for t in (U32, OPT_U32, STRING):
        for option in (None, False) if t.inner is None else (None, True, False):
            for b in BAD_FMTS:
                if t is STRING and b == 'f_any':
                    continue
                yield Def([F('f', t, fmt=b, option=option)]).src(), False
            for b in BAD_SKIPS:
                yield Def([F('f', t, fmt='sup::f_raw', skip_if=b, option=option)]).src(), False
    for e in ['fmt = NoDisp', 'skip_if = 1u8::MAX'] if False else []:
        yield e, False
    # The bad field among good ones.
    for pos in range(3):
        fs = [F('a'), F('b', OPT_U32, fmt='f_u32'), F('c', STRING, skip_if='str::is_empty')]
        fs[pos] = F(fs[pos].ident, NODISP)
        yield Def(fs).src(), False
        fs[pos] = F(fs[pos].ident, U32, option=True)
        yield Def(fs).src(), False

RESOLVE = [('#[derive(oauth::Request)] pub struct S { #[oauth1(%s)] pub f: u32 }' % a, False) for a in
           ['fmt = nonexistent', 'fmt = sup::nonexistent', 'skip_if = nonexistent', 'skip_if = sup::nonexistent', 'fmt = Self::nonexistent_', 'fmt = Formatter_', 'skip_if = no::such::path', 'fmt = tmp', 'fmt = helper', 'fmt = serializer', 'skip_if = tmp', 'skip_if = helper', 'skip_if = value', 'fmt = DeriveRequestAssertion']] + [
    ('#[derive(oauth::Request)] #[oauth1(crate = nonexistent)] pub struct S { pub f: u32 }', False), ('#[derive(oauth::Request)] #[oauth1(crate = sup)] pub struct S { pub f: u32 }', False)]
RESOLVE = [r for r in RESOLVE if 'Self::nonexistent_' not in r[0]]
