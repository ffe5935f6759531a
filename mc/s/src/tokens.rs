//! A serde format under full control of the explorer: hands over scripted keys and values, watches
//! the call protocol, and fails where it is told to.
use serde::de::{self, DeserializeSeed, EnumAccess, IntoDeserializer, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser;
use serde::Serialize;
use std::cell::{Cell, RefCell};
use std::fmt;

#[derive(Debug)]
pub struct Error(pub String);
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
impl de::Error for Error {
    fn custom<T: fmt::Display>(t: T) -> Self {
        Error(t.to_string())
    }
}
impl ser::Error for Error {
    fn custom<T: fmt::Display>(t: T) -> Self {
        Error(t.to_string())
    }
}
fn injected() -> Error {
    Error("injected".into())
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum KeyVia {
    Str,
    BorrowedStr,
    String,
    Bytes,
    BorrowedBytes,
    ByteBuf,
}
#[derive(Clone)]
pub struct Key(pub &'static [u8], pub KeyVia);
impl Key {
    pub fn text(&self) -> &'static [u8] {
        self.0
    }
}
impl fmt::Debug for Key {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self.0.escape_ascii())?;
        if self.1 != KeyVia::Str {
            write!(f, " as {:?}", self.1)?;
        }
        Ok(())
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Via {
    Borrowed,
    Transient,
    Owned,
}
#[derive(Clone, Debug)]
pub enum Val {
    Text(String, Via),
    U(u64),
    I(i64),
    F(f64),
    Bool(bool),
    Char(char),
    None,
    Some(String),
    Unit,
    Newtype(String),
    Seq(Vec<Val>),
    Map(Vec<(&'static str, Val)>),
    Enum(&'static str),
    Bytes(Vec<u8>, Via),
}
impl Val {
    /// What `Any` makes of it, and what `Rec` writes for it.
    pub fn canon(&self) -> String {
        match self {
            Val::Text(s, _) => format!("{:?}", s),
            Val::U(n) => format!("{}", n),
            Val::I(n) => format!("{}", n),
            Val::F(n) => format!("{:?}", n),
            Val::Bool(b) => format!("{}", b),
            Val::Char(c) => format!("{:?}", c),
            Val::None => "none".into(),
            Val::Some(s) => format!("some({:?})", s),
            Val::Unit => "unit".into(),
            Val::Newtype(s) => format!("newtype({:?})", s),
            Val::Seq(v) => format!("[{}]", v.iter().map(|x| x.canon()).collect::<Vec<_>>().join(",")),
            Val::Map(v) => format!("{{{}}}", v.iter().map(|(k, x)| format!("{}:{}", k, x.canon())).collect::<Vec<_>>().join(",")),
            Val::Enum(s) => format!("enum {}", s),
            Val::Bytes(b, _) => format!("bytes {:?}", b),
        }
    }
    pub fn write<S: ser::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use ser::{SerializeMap, SerializeSeq};
        match self {
            Val::Text(t, _) => s.serialize_str(t),
            Val::U(n) => s.serialize_u64(*n),
            Val::I(n) => s.serialize_i64(*n),
            Val::F(n) => s.serialize_f64(*n),
            Val::Bool(b) => s.serialize_bool(*b),
            Val::Char(c) => s.serialize_char(*c),
            Val::None => s.serialize_none(),
            Val::Some(t) => s.serialize_some(t),
            Val::Unit => s.serialize_unit(),
            Val::Newtype(t) => s.serialize_newtype_struct("N", t),
            Val::Seq(v) => {
                let mut q = s.serialize_seq(Some(v.len()))?;
                for x in v {
                    q.serialize_element(&W(x))?;
                }
                q.end()
            }
            Val::Map(v) => {
                let mut q = s.serialize_map(Some(v.len()))?;
                for (k, x) in v {
                    q.serialize_entry(k, &W(x))?;
                }
                q.end()
            }
            Val::Enum(n) => s.serialize_unit_variant("E", 0, n),
            Val::Bytes(b, _) => s.serialize_bytes(b),
        }
    }
}
struct W<'a>(&'a Val);
impl Serialize for W<'_> {
    fn serialize<S: ser::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        self.0.write(s)
    }
}

#[derive(Debug)]
pub struct Script {
    pub entries: Vec<(Key, Val)>,
    /// Fail at this step (step 2i: key i or the end, step 2i+1: value i).
    pub fail: Option<usize>,
    pub hint: Option<usize>,
    pub human: bool,
}
#[derive(Default)]
pub struct Log {
    pub misuse: RefCell<Option<String>>,
    pub fields: RefCell<Option<&'static [&'static str]>>,
    pub fed: Cell<usize>,
}
impl Log {
    fn bad(&self, m: &str) {
        *self.misuse.borrow_mut() = Some(m.into());
    }
}

pub struct Toks<'de, 'l> {
    pub s: &'de Script,
    pub log: &'l Log,
}
macro_rules! all_to_any {
    ($($m:ident)*) => { $(fn $m<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> { self.deserialize_any(v) })* };
}
macro_rules! rest {
    () => {
        all_to_any!(deserialize_bool deserialize_i8 deserialize_i16 deserialize_i32 deserialize_i64 deserialize_u8 deserialize_u16 deserialize_u32 deserialize_u64
            deserialize_i128 deserialize_u128 deserialize_f32 deserialize_f64 deserialize_char deserialize_str deserialize_string deserialize_bytes deserialize_byte_buf
            deserialize_option deserialize_unit deserialize_seq deserialize_map deserialize_identifier deserialize_ignored_any);
        fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Error> { self.deserialize_any(v) }
        fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Error> { self.deserialize_any(v) }
        fn deserialize_tuple<V: Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value, Error> { self.deserialize_any(v) }
        fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, _: usize, v: V) -> Result<V::Value, Error> { self.deserialize_any(v) }
        fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, Error> { self.deserialize_any(v) }
    };
}
impl<'de, 'l> de::Deserializer<'de> for Toks<'de, 'l> {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        v.visit_map(Acc { s: self.s, log: self.log, at: 0, value_due: false, ended: false })
    }
    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, f: &'static [&'static str], v: V) -> Result<V::Value, Error> {
        *self.log.fields.borrow_mut() = Some(f);
        self.deserialize_any(v)
    }
    fn is_human_readable(&self) -> bool {
        self.s.human
    }
    rest!();
}

struct Acc<'de, 'l> {
    s: &'de Script,
    log: &'l Log,
    at: usize,
    value_due: bool,
    ended: bool,
}
impl<'de, 'l> MapAccess<'de> for Acc<'de, 'l> {
    type Error = Error;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, seed: K) -> Result<Option<K::Value>, Error> {
        if self.value_due {
            self.log.bad("asked for the next key without reading the value of the last one");
        }
        if self.ended {
            self.log.bad("asked for a key after the end or after an error");
        }
        if self.s.fail == Some(2 * self.at) {
            self.ended = true;
            return Err(injected());
        }
        match self.s.entries.get(self.at) {
            None => {
                self.ended = true;
                Ok(None)
            }
            Some(e) => {
                self.value_due = true;
                seed.deserialize(KeyDe(&e.0, self.s.human)).map(Some)
            }
        }
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<T::Value, Error> {
        if !self.value_due {
            self.log.bad("asked for a value without a key");
            return Err(Error("misuse".into()));
        }
        self.value_due = false;
        let i = self.at;
        self.at += 1;
        if self.s.fail == Some(2 * i + 1) {
            self.ended = true;
            return Err(injected());
        }
        let looked = Cell::new(false);
        let r = seed.deserialize(ValDe(&self.s.entries[i].1, self.s.human, &looked));
        if !looked.get() && r.is_ok() {
            self.log.bad("a value was not consumed");
        }
        self.log.fed.set(self.log.fed.get() + 1);
        r
    }
    fn size_hint(&self) -> Option<usize> {
        self.s.hint
    }
}

struct KeyDe<'de>(&'de Key, bool);
impl<'de> de::Deserializer<'de> for KeyDe<'de> {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        let b = self.0 .0;
        let s = || std::str::from_utf8(b).unwrap();
        match self.0 .1 {
            KeyVia::Str => v.visit_str(&s().to_string()),
            KeyVia::BorrowedStr => v.visit_borrowed_str(s()),
            KeyVia::String => v.visit_string(s().to_string()),
            KeyVia::Bytes => v.visit_bytes(&b.to_vec()),
            KeyVia::BorrowedBytes => v.visit_borrowed_bytes(b),
            KeyVia::ByteBuf => v.visit_byte_buf(b.to_vec()),
        }
    }
    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, Error> {
        self.deserialize_any(v)
    }
    fn is_human_readable(&self) -> bool {
        self.1
    }
    rest!();
}

struct ValDe<'de, 'l>(&'de Val, bool, &'l Cell<bool>);
impl<'de, 'l> de::Deserializer<'de> for ValDe<'de, 'l> {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        self.2.set(true);
        match self.0 {
            Val::Text(s, Via::Borrowed) => v.visit_borrowed_str(s),
            Val::Text(s, Via::Transient) => v.visit_str(s),
            Val::Text(s, Via::Owned) => v.visit_string(s.clone()),
            Val::U(n) => v.visit_u64(*n),
            Val::I(n) => v.visit_i64(*n),
            Val::F(n) => v.visit_f64(*n),
            Val::Bool(b) => v.visit_bool(*b),
            Val::Char(c) => v.visit_char(*c),
            Val::None => v.visit_none(),
            Val::Some(s) => v.visit_some(IntoDeserializer::<Error>::into_deserializer(s.as_str())),
            Val::Unit => v.visit_unit(),
            // Newtypes are transparent for everything that is no newtype itself.
            Val::Newtype(s) => v.visit_borrowed_str(s),
            Val::Seq(x) => v.visit_seq(List(x, 0, self.1)),
            Val::Map(x) => v.visit_map(Inner(x, 0, self.1)),
            Val::Enum(s) => v.visit_enum(Variant(s)),
            Val::Bytes(b, Via::Borrowed) => v.visit_borrowed_bytes(b),
            Val::Bytes(b, _) => v.visit_bytes(b),
        }
    }
    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, Error> {
        self.deserialize_any(v)
    }
    fn is_human_readable(&self) -> bool {
        self.1
    }
    rest!();
}
struct List<'de>(&'de [Val], usize, bool);
impl<'de> SeqAccess<'de> for List<'de> {
    type Error = Error;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Error> {
        let i = self.1;
        self.1 += 1;
        match self.0.get(i) {
            Some(v) => seed.deserialize(ValDe(v, self.2, &Cell::new(false))).map(Some),
            None => Ok(None),
        }
    }
}
struct Inner<'de>(&'de [(&'static str, Val)], usize, bool);
impl<'de> MapAccess<'de> for Inner<'de> {
    type Error = Error;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, seed: K) -> Result<Option<K::Value>, Error> {
        match self.0.get(self.1) {
            Some(e) => seed.deserialize(e.0.into_deserializer()).map(Some),
            None => Ok(None),
        }
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<T::Value, Error> {
        let i = self.1;
        self.1 += 1;
        seed.deserialize(ValDe(&self.0[i].1, self.2, &Cell::new(false)))
    }
}
struct Variant(&'static str);
impl<'de> EnumAccess<'de> for Variant {
    type Error = Error;
    type Variant = Variant;
    fn variant_seed<T: DeserializeSeed<'de>>(self, seed: T) -> Result<(T::Value, Variant), Error> {
        Ok((seed.deserialize(self.0.into_deserializer())?, self))
    }
}
impl<'de> VariantAccess<'de> for Variant {
    type Error = Error;
    fn unit_variant(self) -> Result<(), Error> {
        Ok(())
    }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, seed: T) -> Result<T::Value, Error> {
        seed.deserialize(ValDe(&Val::Unit, true, &Cell::new(false)))
    }
    fn tuple_variant<V: Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value, Error> {
        v.visit_seq(List(&[], 0, true))
    }
    fn struct_variant<V: Visitor<'de>>(self, _: &'static [&'static str], v: V) -> Result<V::Value, Error> {
        v.visit_seq(List(&[], 0, true))
    }
}

/// A part that accepts every value and remembers it.
#[derive(Debug)]
pub struct Any(pub String);
impl<'de> de::Deserialize<'de> for Any {
    fn deserialize<D: de::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = String;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("anything")
            }
            fn visit_str<E>(self, s: &str) -> Result<String, E> {
                Ok(format!("{:?}", s))
            }
            fn visit_u64<E>(self, s: u64) -> Result<String, E> {
                Ok(s.to_string())
            }
            fn visit_i64<E>(self, s: i64) -> Result<String, E> {
                Ok(s.to_string())
            }
            fn visit_f64<E>(self, s: f64) -> Result<String, E> {
                Ok(format!("{:?}", s))
            }
            fn visit_bool<E>(self, s: bool) -> Result<String, E> {
                Ok(s.to_string())
            }
            fn visit_char<E>(self, s: char) -> Result<String, E> {
                Ok(format!("{:?}", s))
            }
            fn visit_none<E>(self) -> Result<String, E> {
                Ok("none".into())
            }
            fn visit_unit<E>(self) -> Result<String, E> {
                Ok("unit".into())
            }
            fn visit_some<D: de::Deserializer<'de>>(self, d: D) -> Result<String, D::Error> {
                Ok(format!("some({})", <Any as de::Deserialize>::deserialize(d)?.0))
            }
            fn visit_bytes<E>(self, b: &[u8]) -> Result<String, E> {
                Ok(format!("bytes {:?}", b))
            }
            fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<String, A::Error> {
                let mut v = vec![];
                while let Some(Any(x)) = a.next_element()? {
                    v.push(x);
                }
                Ok(format!("[{}]", v.join(",")))
            }
            fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<String, A::Error> {
                let mut v = vec![];
                while let Some((k, Any(x))) = a.next_entry::<String, Any>()? {
                    v.push(format!("{}:{}", k, x));
                }
                Ok(format!("{{{}}}", v.join(",")))
            }
            fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<String, A::Error> {
                let (n, v) = a.variant::<String>()?;
                v.unit_variant()?;
                Ok(format!("enum {}", n))
            }
        }
        d.deserialize_any(V).map(Any)
    }
}

/// A serializer that records the calls made to it.
pub struct Rec {
    pub calls: RefCell<Vec<String>>,
    fail: Option<usize>,
    human: bool,
    n: Cell<usize>,
}
impl Rec {
    pub fn new(fail: Option<usize>, human: bool) -> Rec {
        Rec { calls: RefCell::default(), fail, human, n: Cell::new(0) }
    }
    fn call(&self, f: impl FnOnce() -> Result<String, Error>) -> Result<(), Error> {
        let i = self.n.get();
        self.n.set(i + 1);
        if self.fail == Some(i) {
            return Err(injected());
        }
        let s = f()?;
        self.calls.borrow_mut().push(s);
        Ok(())
    }
}
type Never = ser::Impossible<(), Error>;
macro_rules! refuse {
    ($($m:ident($t:ty))*) => { $(fn $m(self, _: $t) -> Result<(), Error> { Err(Error(concat!("credentials serialized by ", stringify!($m)).into())) })* };
}
impl<'a> ser::Serializer for &'a Rec {
    type Ok = ();
    type Error = Error;
    type SerializeSeq = Never;
    type SerializeTuple = Never;
    type SerializeTupleStruct = Never;
    type SerializeTupleVariant = Never;
    type SerializeMap = Open<'a>;
    type SerializeStruct = Open<'a>;
    type SerializeStructVariant = Never;
    refuse!(serialize_bool(bool) serialize_i8(i8) serialize_i16(i16) serialize_i32(i32) serialize_i64(i64) serialize_u8(u8) serialize_u16(u16) serialize_u32(u32) serialize_u64(u64)
        serialize_f32(f32) serialize_f64(f64) serialize_char(char) serialize_str(&str) serialize_bytes(&[u8]) serialize_unit_struct(&'static str));
    fn serialize_none(self) -> Result<(), Error> {
        Err(Error("none".into()))
    }
    fn serialize_unit(self) -> Result<(), Error> {
        Err(Error("unit".into()))
    }
    fn serialize_some<T: Serialize + ?Sized>(self, _: &T) -> Result<(), Error> {
        Err(Error("some".into()))
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<(), Error> {
        Err(Error("unit variant".into()))
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, _: &T) -> Result<(), Error> {
        Err(Error("newtype".into()))
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<(), Error> {
        Err(Error("newtype variant".into()))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Never, Error> {
        Err(Error("seq".into()))
    }
    fn serialize_tuple(self, _: usize) -> Result<Never, Error> {
        Err(Error("tuple".into()))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Never, Error> {
        Err(Error("tuple struct".into()))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Never, Error> {
        Err(Error("tuple variant".into()))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Never, Error> {
        Err(Error("struct variant".into()))
    }
    fn serialize_map(self, n: Option<usize>) -> Result<Open<'a>, Error> {
        self.call(|| Ok(format!("begin {}", n.unwrap_or(2))))?;
        Ok(Open(self, String::new()))
    }
    fn serialize_struct(self, _: &'static str, n: usize) -> Result<Open<'a>, Error> {
        self.call(|| Ok(format!("begin {}", n)))?;
        Ok(Open(self, String::new()))
    }
    fn is_human_readable(&self) -> bool {
        self.human
    }
}
fn render<T: Serialize + ?Sized>(v: &T) -> Result<String, Error> {
    v.serialize(Text)
}
pub struct Open<'a>(&'a Rec, String);
impl ser::SerializeStruct for Open<'_> {
    type Ok = ();
    type Error = Error;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), Error> {
        self.0.call(|| Ok(format!("{} = {}", k, render(v)?)))
    }
    fn skip_field(&mut self, k: &'static str) -> Result<(), Error> {
        self.0.call(|| Ok(format!("skip {}", k)))
    }
    fn end(self) -> Result<(), Error> {
        self.0.call(|| Ok("end".into()))
    }
}
impl ser::SerializeMap for Open<'_> {
    type Ok = ();
    type Error = Error;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, k: &T) -> Result<(), Error> {
        self.1 = render(k)?.trim_matches('"').into();
        Ok(())
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
        self.0.call(|| Ok(format!("{} = {}", self.1, render(v)?)))
    }
    fn end(self) -> Result<(), Error> {
        self.0.call(|| Ok("end".into()))
    }
}

/// Renders a value the way `Val::canon` does.
struct Text;
pub struct Items(Vec<String>, &'static str, &'static str);
macro_rules! plain {
    ($($m:ident($t:ty)$f:literal)*) => { $(fn $m(self, x: $t) -> Result<String, Error> { Ok(format!($f, x)) })* };
}
type No = ser::Impossible<String, Error>;
impl ser::Serializer for Text {
    type Ok = String;
    type Error = Error;
    type SerializeSeq = Items;
    type SerializeTuple = No;
    type SerializeTupleStruct = No;
    type SerializeTupleVariant = No;
    type SerializeMap = Items;
    type SerializeStruct = No;
    type SerializeStructVariant = No;
    plain!(serialize_bool(bool)"{}" serialize_i8(i8)"{}" serialize_i16(i16)"{}" serialize_i32(i32)"{}" serialize_i64(i64)"{}" serialize_u8(u8)"{}" serialize_u16(u16)"{}" serialize_u32(u32)"{}" serialize_u64(u64)"{}"
        serialize_f32(f32)"{:?}" serialize_f64(f64)"{:?}" serialize_char(char)"{:?}" serialize_str(&str)"{:?}" serialize_bytes(&[u8])"bytes {:?}" serialize_unit_struct(&'static str)"{}");
    fn serialize_none(self) -> Result<String, Error> {
        Ok("none".into())
    }
    fn serialize_unit(self) -> Result<String, Error> {
        Ok("unit".into())
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<String, Error> {
        Ok(format!("some({})", render(v)?))
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, n: &'static str) -> Result<String, Error> {
        Ok(format!("enum {}", n))
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> Result<String, Error> {
        Ok(format!("newtype({})", render(v)?))
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, _: &'static str, v: &T) -> Result<String, Error> {
        render(v)
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Items, Error> {
        Ok(Items(vec![], "[", "]"))
    }
    fn serialize_tuple(self, _: usize) -> Result<No, Error> {
        Err(Error("tuple".into()))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<No, Error> {
        Err(Error("tuple".into()))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<No, Error> {
        Err(Error("tuple".into()))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Items, Error> {
        Ok(Items(vec![], "{", "}"))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<No, Error> {
        Err(Error("struct".into()))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<No, Error> {
        Err(Error("struct".into()))
    }
}
impl Items {
    fn done(self) -> String {
        format!("{}{}{}", self.1, self.0.join(","), self.2)
    }
}
impl ser::SerializeSeq for Items {
    type Ok = String;
    type Error = Error;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
        self.0.push(render(v)?);
        Ok(())
    }
    fn end(self) -> Result<String, Error> {
        Ok(self.done())
    }
}
impl ser::SerializeMap for Items {
    type Ok = String;
    type Error = Error;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
        self.0.push(render(v)?.trim_matches('"').into());
        Ok(())
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
        let k = self.0.pop().unwrap();
        self.0.push(format!("{}:{}", k, render(v)?));
        Ok(())
    }
    fn end(self) -> Result<String, Error> {
        Ok(self.done())
    }
}
