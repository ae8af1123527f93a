//! Data of the serde data model as dynamic trees: `Sv` (data) serializes
//! itself, `Shape` asks a deserializer for data of that shape. Their JSON
//! forms are the records of spec/Serde.tla.

use crate::conv;
use binschema::value::ScalarValue;
use serde::de::{self, DeserializeSeed, Deserializer, EnumAccess, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::*;
use serde_json::Value as J;
use std::{cell::RefCell, collections::HashMap, fmt};

/// The message of the errors raised by data and visitors themselves.
pub const OWN: &str = "own error, \"quoted\" {} \u{1f600}\n";

pub fn intern(s: &str) -> &'static str {
    thread_local!(static NAMES: RefCell<HashMap<String, &'static str>> = Default::default());
    NAMES.with(|n| {
        *n.borrow_mut().entry(s.to_owned()).or_insert_with(|| Box::leak(s.to_owned().into_boxed_str()))
    })
}
pub fn intern_all(names: &[&'static str]) -> &'static [&'static str] {
    thread_local!(static LISTS: RefCell<HashMap<Vec<&'static str>, &'static [&'static str]>> = Default::default());
    LISTS.with(|l| {
        *l.borrow_mut().entry(names.to_vec()).or_insert_with(|| Box::leak(names.to_vec().into_boxed_slice()))
    })
}

#[derive(Debug, Clone, PartialEq)]
pub struct Sv {
    pub k: String,
    pub t: String,
    pub neg: bool,
    pub b: Vec<u8>,
    pub c: Vec<Sv>,
    pub n: Vec<&'static str>,
}
impl Sv {
    pub fn new(k: &str) -> Sv {
        Sv { k: k.into(), t: String::new(), neg: false, b: vec![], c: vec![], n: vec![] }
    }
    pub fn from_json(j: &J) -> Sv {
        Sv {
            k: j["k"].as_str().unwrap().into(),
            t: j["t"].as_str().unwrap().into(),
            neg: j["neg"].as_bool().unwrap(),
            b: conv::bytes(&j["b"]),
            c: j["c"].as_array().unwrap().iter().map(Sv::from_json).collect(),
            n: j["n"].as_array().unwrap().iter().map(|x| intern(&conv::string(x))).collect(),
        }
    }
    pub fn to_json(&self) -> J {
        conv::vrec(&self.k, &self.t, self.neg, conv::jbytes(&self.b),
            self.c.iter().map(Sv::to_json).collect(),
            self.n.iter().map(|x| conv::jbytes(x.as_bytes())).collect())
    }
    fn ord(&self) -> u32 { conv::le(&conv::jbytes(&self.b)) as u32 }
    /// Whether to serialize it by the other of two calls for that, of which
    /// serde's own implementations make both.
    fn other_way(&self, n: usize) -> bool { n % 3 == 1 }
    /// The number of fields which are not skipped: that is what serde gives.
    fn given(&self) -> usize { self.c.iter().filter(|x| x.k != "skip").count() }
    fn with(mut self, c: Vec<Sv>) -> Sv { self.c = c; self }
}

/// A text which displays itself in pieces.
struct Pieces<'a>(&'a str);
impl<'a> fmt::Display for Pieces<'a> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let mut n = 0;
        let mut rest = self.0;
        while !rest.is_empty() {
            n = (n * 2 + 1) % 1023;
            let at = rest.char_indices().map(|x| x.0).nth(n).unwrap_or(rest.len());
            f.write_str(&rest[..at])?;
            rest = &rest[at..];
        }
        Ok(())
    }
}

impl Serialize for Sv {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let name = "Name";
        match self.k.as_str() {
            "scalar" => match conv::scalar(&self.t, self.neg, &conv::jbytes(&self.b)) {
                ScalarValue::U8(n) => s.serialize_u8(n),
                ScalarValue::U16(n) => s.serialize_u16(n),
                ScalarValue::U32(n) => s.serialize_u32(n),
                ScalarValue::U64(n) => s.serialize_u64(n),
                ScalarValue::U128(n) => s.serialize_u128(n),
                ScalarValue::I8(n) => s.serialize_i8(n),
                ScalarValue::I16(n) => s.serialize_i16(n),
                ScalarValue::I32(n) => s.serialize_i32(n),
                ScalarValue::I64(n) => s.serialize_i64(n),
                ScalarValue::I128(n) => s.serialize_i128(n),
                ScalarValue::F32(n) => s.serialize_f32(n),
                ScalarValue::F64(n) => s.serialize_f64(n),
                ScalarValue::Char(n) => s.serialize_char(n),
                ScalarValue::Bool(n) => s.serialize_bool(n),
            },
            "str" => {
                let x = std::str::from_utf8(&self.b).unwrap();
                if self.other_way(x.len() + x.chars().count()) { s.collect_str(&Pieces(x)) } else { s.serialize_str(x) }
            }
            "bytes" => s.serialize_bytes(&self.b),
            "unit" => s.serialize_unit(),
            "unit_struct" => s.serialize_unit_struct(name),
            "none" => s.serialize_none(),
            "some" => s.serialize_some(&self.c[0]),
            "newtype_struct" => s.serialize_newtype_struct(name, &self.c[0]),
            "unit_variant" => s.serialize_unit_variant(name, self.ord(), self.n[0]),
            "newtype_variant" => s.serialize_newtype_variant(name, self.ord(), self.n[0], &self.c[0]),
            "seq" if self.t == "" && self.other_way(self.c.len()) => s.collect_seq(&self.c),
            "map" if self.t == "" && self.other_way(self.c.len() / 2) =>
                s.collect_map(self.c.chunks(2).map(|kv| (&kv[0], &kv[1]))),
            "seq" => {
                // t: "" right length, "none" no length, "less"/"more" wrong
                let len = match self.t.as_str() {
                    "none" => None,
                    "less" => Some(self.c.len().saturating_sub(1)),
                    "more" => Some(self.c.len() + 1),
                    _ => Some(self.c.len()),
                };
                let mut q = s.serialize_seq(len)?;
                for x in &self.c { q.serialize_element(x)?; }
                q.end()
            }
            "tuple" => {
                let mut q = s.serialize_tuple(self.c.len())?;
                for x in &self.c { q.serialize_element(x)?; }
                q.end()
            }
            "tuple_struct" => {
                let mut q = s.serialize_tuple_struct(name, self.c.len())?;
                for x in &self.c { q.serialize_field(x)?; }
                q.end()
            }
            "tuple_variant" => {
                let mut q = s.serialize_tuple_variant(name, self.ord(), self.n[0], self.c.len())?;
                for x in &self.c { q.serialize_field(x)?; }
                q.end()
            }
            "map" => {
                let len = self.c.len() / 2;
                let len = match self.t.as_str() {
                    "none" => None,
                    "less" => Some(len.saturating_sub(1)),
                    "more" => Some(len + 1),
                    _ => Some(len),
                };
                let mut q = s.serialize_map(len)?;
                for kv in self.c.chunks(2) {
                    q.serialize_key(&kv[0])?;
                    q.serialize_value(&kv[1])?;
                }
                q.end()
            }
            "struct" => {
                let mut q = s.serialize_struct(name, self.given())?;
                for (n, x) in self.n.iter().zip(&self.c) {
                    if x.k == "skip" { q.skip_field(n)?; } else { q.serialize_field(n, x)?; }
                }
                q.end()
            }
            "struct_variant" => {
                let mut q = s.serialize_struct_variant(name, self.ord(), self.n[0], self.given())?;
                for (n, x) in self.n[1..].iter().zip(&self.c) {
                    if x.k == "skip" { q.skip_field(n)?; } else { q.serialize_field(n, x)?; }
                }
                q.end()
            }
            "fail" => Err(Error::custom(OWN)),
            // another form for humans
            "hr" => { let i = !s.is_human_readable() as usize; self.c[i].serialize(s) }
            k => panic!("harness: sv kind {}", k),
        }
    }
}

/// Shape of data to ask for. Same record as `Sv`, but
///   "option" c: inner; "seq" c: element; "map" c: one "entry" with c: key, value;
///   "enum" n: variant names, c: variant shapes ("unit_variant" etc.);
///   "struct" n, c; "struct_variant" n, c; "recurse" b: level; "any"; "ignored";
///   "fail" (raises an error); "hr" c: form for humans, compact form.
#[derive(Debug)]
pub struct Shape {
    pub k: String,
    pub t: String,
    pub b: usize,
    pub c: Vec<Shape>,
    pub n: &'static [&'static str],
}
impl Shape {
    pub fn from_json(j: &J) -> Shape {
        let n: Vec<_> = j["n"].as_array().unwrap().iter().map(|x| intern(&conv::string(x))).collect();
        Shape {
            k: j["k"].as_str().unwrap().into(),
            t: j["t"].as_str().unwrap().into(),
            b: conv::le(&j["b"]) as usize,
            c: j["c"].as_array().unwrap().iter().map(Shape::from_json).collect(),
            n: intern_all(&n),
        }
    }
    /// Whether it is not a level for the purpose of recurse.
    fn transparent(&self) -> bool { self.newtype() || self.k == "newtype_variant" }
    fn newtype(&self) -> bool { self.k == "newtype_struct" || self.k == "hr" }
}

/// A shape with the levels above it.
#[derive(Clone, Copy)]
pub struct At<'a> {
    s: &'a Shape,
    up: Option<&'a At<'a>>,
}
impl<'a> At<'a> {
    pub fn root(s: &'a Shape) -> At<'a> { At { s, up: None } }
    fn child<'b>(&'b self, i: usize) -> At<'b> { At { s: &self.s.c[i], up: Some(self) } }
}

struct ScalarV<'a>(&'a str);
macro_rules! visit_scalars {
    ($($v:ident $t:ident $name:literal $var:ident,)*) => {$(
        fn $v<E: de::Error>(self, x: $t) -> Result<Sv, E> {
            if self.0 != $name && self.0 != "any" { return Err(E::custom(concat!("visited with ", $name))); }
            Ok(sv_scalar(ScalarValue::$var(x)))
        }
    )*};
}
fn sv_scalar(x: ScalarValue) -> Sv {
    let (t, neg, b) = conv::jscalar(x);
    Sv { t: t.into(), neg, b: conv::bytes(&b), ..Sv::new("scalar") }
}
impl<'a, 'de> Visitor<'de> for ScalarV<'a> {
    type Value = Sv;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(self.0) }
    visit_scalars!(
        visit_u8 u8 "u8" U8, visit_u16 u16 "u16" U16, visit_u32 u32 "u32" U32,
        visit_u64 u64 "u64" U64, visit_u128 u128 "u128" U128,
        visit_i8 i8 "i8" I8, visit_i16 i16 "i16" I16, visit_i32 i32 "i32" I32,
        visit_i64 i64 "i64" I64, visit_i128 i128 "i128" I128,
        visit_f32 f32 "f32" F32, visit_f64 f64 "f64" F64,
        visit_char char "char" Char, visit_bool bool "bool" Bool,
    );
}

struct LeafV(&'static str);
impl<'de> Visitor<'de> for LeafV {
    type Value = Sv;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(self.0) }
    fn visit_str<E: de::Error>(self, s: &str) -> Result<Sv, E> {
        if self.0 != "str" { return Err(E::custom("visited with str")); }
        Ok(Sv { b: s.as_bytes().to_vec(), ..Sv::new("str") })
    }
    fn visit_bytes<E: de::Error>(self, s: &[u8]) -> Result<Sv, E> {
        if self.0 != "bytes" { return Err(E::custom("visited with bytes")); }
        Ok(Sv { b: s.to_vec(), ..Sv::new("bytes") })
    }
    fn visit_unit<E: de::Error>(self) -> Result<Sv, E> {
        if self.0 != "unit" && self.0 != "unit_struct" { return Err(E::custom("visited with unit")); }
        Ok(Sv::new(self.0))
    }
}

struct OptV<'a>(At<'a>);
impl<'a, 'de> Visitor<'de> for OptV<'a> {
    type Value = Sv;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("option") }
    fn visit_none<E: de::Error>(self) -> Result<Sv, E> { Ok(Sv::new("none")) }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Sv, D::Error> {
        Ok(Sv::new("some").with(vec![self.0.child(0).deserialize(d)?]))
    }
}

struct NewtypeV<'a>(At<'a>);
impl<'a, 'de> Visitor<'de> for NewtypeV<'a> {
    type Value = Sv;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("newtype struct") }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Sv, D::Error> {
        Ok(Sv::new("newtype_struct").with(vec![self.0.child(0).deserialize(d)?]))
    }
}

/// Room for as many elements as announced, as containers make it: up to 2 MiB
/// on trust.
fn room(hint: Option<usize>) -> Vec<Sv> {
    Vec::with_capacity(hint.unwrap_or(0).min((2 << 20) / std::mem::size_of::<Sv>()))
}

/// Elements: all of one shape ("seq") or one each.
struct SeqV<'a>(At<'a>, &'static str);
impl<'a, 'de> Visitor<'de> for SeqV<'a> {
    type Value = Sv;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("seq") }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Sv, A::Error> {
        let same = self.1 == "seq";
        let n = self.0.s.c.len();
        let loose = self.0.s.t == "loose";
        // elements at most
        let most = match self.0.s.t.as_str() { "stop" => if same { 1 } else { n.saturating_sub(1) }, _ => usize::MAX };
        let mut c = room(a.size_hint());
        while c.len() < most && (same || c.len() < n) {
            match a.next_element_seed(self.0.child(if same { 0 } else { c.len() }))? {
                Some(x) => c.push(x),
                None if same || loose => break,
                None => return Err(de::Error::invalid_length(c.len(), &"more")),
            }
        }
        if loose && a.next_element::<u8>()?.is_some() { return Err(de::Error::custom("elements past the end")); }
        Ok(Sv::new(self.1).with(c))
    }
}

struct MapV<'a>(At<'a>);
impl<'a, 'de> Visitor<'de> for MapV<'a> {
    type Value = Sv;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("map") }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Sv, A::Error> {
        let mut c = room(a.size_hint());
        let entry = self.0.child(0);
        while self.0.s.t != "stop" || c.is_empty() {
            // alternately the two ways to ask for an entry
            if c.len() % 4 == 2 {
                let Some((k, v)) = a.next_entry_seed(entry.child(0), entry.child(1))? else { break };
                c.extend([k, v]);
                continue;
            }
            let Some(x) = a.next_key_seed(entry.child(0))? else { break };
            c.push(x);
            c.push(a.next_value_seed(entry.child(1))?);
        }
        if self.0.s.t == "loose" && a.next_key::<u8>()?.is_some() { return Err(de::Error::custom("entries past the end")); }
        Ok(Sv::new("map").with(c))
    }
}

/// Key which is visited as a string.
struct Key;
impl<'de> DeserializeSeed<'de> for Key {
    type Value = String;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<String, D::Error> {
        d.deserialize_identifier(KeyV)
    }
}
struct KeyV;
impl<'de> Visitor<'de> for KeyV {
    type Value = String;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("field name") }
    fn visit_str<E: de::Error>(self, s: &str) -> Result<String, E> { Ok(s.to_owned()) }
}

struct StructV<'a>(At<'a>, &'static str);
impl<'a, 'de> Visitor<'de> for StructV<'a> {
    type Value = Sv;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("struct") }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Sv, A::Error> {
        // as derived impls do: any order, each once, all of them
        let n = self.0.s.n;
        let mut got: Vec<Option<Sv>> = n.iter().map(|_| None).collect();
        let mut order = Vec::new();
        let t = self.0.s.t.as_str();
        while t != "stop" || order.len() + 1 < n.len() {
            let Some(key) = a.next_key_seed(Key)? else { break };
            let i = (0..n.len()).find(|&i| n[i] == key && got[i].is_none())
                .ok_or_else(|| de::Error::custom("unknown or duplicate field"))?;
            got[i] = Some(a.next_value_seed(self.0.child(i))?);
            order.push(i);
        }
        if t == "loose" && a.next_key_seed(Key)?.is_some() { return Err(de::Error::custom("fields past the end")); }
        if t == "" && got.iter().any(|x| x.is_none()) { return Err(de::Error::custom("missing field")); }
        let mut sv = Sv::new(self.1);
        for i in order {
            sv.n.push(n[i]);
            sv.c.push(got[i].take().unwrap());
        }
        Ok(sv)
    }
}

/// The ordinal of a variant, visited as an integer.
struct Ord_;
impl<'de> DeserializeSeed<'de> for Ord_ {
    type Value = u64;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<u64, D::Error> {
        d.deserialize_identifier(OrdV)
    }
}
struct OrdV;
impl<'de> Visitor<'de> for OrdV {
    type Value = u64;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("variant index") }
    fn visit_u64<E: de::Error>(self, x: u64) -> Result<u64, E> { Ok(x) }
}

struct EnumV<'a>(At<'a>);
impl<'a, 'de> Visitor<'de> for EnumV<'a> {
    type Value = Sv;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("enum") }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<Sv, A::Error> {
        let (ord, v) = a.variant_seed(Ord_)?;
        let i = ord as usize;
        if i >= self.0.s.c.len() { return Err(de::Error::custom("unknown variant")); }
        let at = self.0.child(i);
        let mut sv = if self.0.s.t == "stop" { Sv::new("variant") } else { match at.s.k.as_str() {
            "unit_variant" => { v.unit_variant()?; Sv::new("unit_variant") }
            "newtype_variant" => Sv::new("newtype_variant").with(vec![v.newtype_variant_seed(at.child(0))?]),
            "tuple_variant" => v.tuple_variant(at.s.c.len(), SeqV(at, "tuple_variant"))?,
            "struct_variant" => v.struct_variant(at.s.n, StructV(at, "struct_variant"))?,
            k => panic!("harness: variant shape {}", k),
        } };
        sv.b = conv::bytes(&conv::jle(ord as u128));
        sv.n.insert(0, self.0.s.n[i]);
        Ok(sv)
    }
}

/// Self-describing: take whatever comes.
pub struct Any;
impl<'de> DeserializeSeed<'de> for Any {
    type Value = Sv;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Sv, D::Error> { d.deserialize_any(AnyV) }
}
struct AnyV;
macro_rules! any_scalars {
    ($($v:ident $t:ident $var:ident,)*) => {$(
        fn $v<E: de::Error>(self, x: $t) -> Result<Sv, E> { Ok(sv_scalar(ScalarValue::$var(x))) }
    )*};
}
impl<'de> Visitor<'de> for AnyV {
    type Value = Sv;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("anything") }
    any_scalars!(
        visit_u8 u8 U8, visit_u16 u16 U16, visit_u32 u32 U32, visit_u64 u64 U64, visit_u128 u128 U128,
        visit_i8 i8 I8, visit_i16 i16 I16, visit_i32 i32 I32, visit_i64 i64 I64, visit_i128 i128 I128,
        visit_f32 f32 F32, visit_f64 f64 F64, visit_char char Char, visit_bool bool Bool,
    );
    fn visit_str<E: de::Error>(self, s: &str) -> Result<Sv, E> { LeafV("str").visit_str(s) }
    fn visit_bytes<E: de::Error>(self, s: &[u8]) -> Result<Sv, E> { LeafV("bytes").visit_bytes(s) }
    fn visit_unit<E: de::Error>(self) -> Result<Sv, E> { Ok(Sv::new("unit")) }
    fn visit_none<E: de::Error>(self) -> Result<Sv, E> { Ok(Sv::new("none")) }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Sv, D::Error> {
        Ok(Sv::new("some").with(vec![Any.deserialize(d)?]))
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Sv, A::Error> {
        let mut c = room(a.size_hint());
        while let Some(x) = a.next_element_seed(Any)? { c.push(x); }
        Ok(Sv::new("seq").with(c))
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Sv, A::Error> {
        let mut c = room(a.size_hint());
        while let Some(k) = a.next_key_seed(Any)? {
            c.push(k);
            c.push(a.next_value_seed(Any)?);
        }
        Ok(Sv::new("map").with(c))
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<Sv, A::Error> {
        let (ord, v) = a.variant_seed(Ord_)?;
        let mut sv = Sv::new("variant").with(vec![v.newtype_variant_seed(Any)?]);
        sv.b = conv::bytes(&conv::jle(ord as u128));
        Ok(sv)
    }
}

impl<'a, 'de> DeserializeSeed<'de> for At<'a> {
    type Value = Sv;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Sv, D::Error> {
        let name = "Name";
        match self.s.k.as_str() {
            "recurse" => {
                let mut at = &self;
                let mut n = self.s.b;
                while n > 0 {
                    at = at.up.expect("harness: shape recurses past root");
                    if !at.s.transparent() { n -= 1; }
                }
                // newtypes directly around the target belong to it
                while let Some(up) = at.up { if up.s.newtype() { at = up; } else { break; } }
                (*at).deserialize(d)
            }
            "scalar" => {
                let v = ScalarV(&self.s.t);
                match self.s.t.as_str() {
                    "u8" => d.deserialize_u8(v), "u16" => d.deserialize_u16(v),
                    "u32" => d.deserialize_u32(v), "u64" => d.deserialize_u64(v),
                    "u128" => d.deserialize_u128(v),
                    "i8" => d.deserialize_i8(v), "i16" => d.deserialize_i16(v),
                    "i32" => d.deserialize_i32(v), "i64" => d.deserialize_i64(v),
                    "i128" => d.deserialize_i128(v),
                    "f32" => d.deserialize_f32(v), "f64" => d.deserialize_f64(v),
                    "char" => d.deserialize_char(v), "bool" => d.deserialize_bool(v),
                    t => panic!("harness: scalar {}", t),
                }
            }
            "str" => if self.s.t == "buf" { d.deserialize_string(LeafV("str")) } else { d.deserialize_str(LeafV("str")) },
            "bytes" => if self.s.t == "buf" { d.deserialize_byte_buf(LeafV("bytes")) } else { d.deserialize_bytes(LeafV("bytes")) },
            "unit" => d.deserialize_unit(LeafV("unit")),
            "unit_struct" => d.deserialize_unit_struct(name, LeafV("unit_struct")),
            "option" => d.deserialize_option(OptV(self)),
            "newtype_struct" => d.deserialize_newtype_struct(name, NewtypeV(self)),
            "seq" => d.deserialize_seq(SeqV(self, "seq")),
            "tuple" => d.deserialize_tuple(self.s.c.len(), SeqV(self, "tuple")),
            "tuple_struct" => d.deserialize_tuple_struct(name, self.s.c.len(), SeqV(self, "tuple_struct")),
            "map" => d.deserialize_map(MapV(self)),
            "struct" => d.deserialize_struct(name, self.s.n, StructV(self, "struct")),
            "enum" => d.deserialize_enum(name, self.s.n, EnumV(self)),
            "fail" => Err(de::Error::custom(OWN)),
            "hr" => {
                let i = !d.is_human_readable() as usize;
                Ok(Sv::new("newtype_struct").with(vec![self.child(i).deserialize(d)?]))
            }
            "any" => Any.deserialize(d),
            "ignored" => {
                <de::IgnoredAny as de::Deserialize>::deserialize(d)?;
                Ok(Sv::new("ignored"))
            }
            k => panic!("harness: shape {}", k),
        }
    }
}
