//! Runtime of the generated type crates (bin/gentypes.py): arbitrary values
//! of any type, recording what a value serializes as, and round trips.

use crate::{conv::*, dynser::Sv};
use binschema::{value::ScalarValue, *};
use serde::{ser::*, Deserialize};
use serde_json::{json, Value as J};
use std::{
    borrow::Cow,
    cell::RefCell,
    collections::*,
    fmt::{self, Debug, Display},
    io::{BufRead, Write as _},
    ops::{Bound, Range, RangeInclusive},
    panic::{catch_unwind, AssertUnwindSafe},
};

// ----------------------------------------------------------- arbitrary values

pub struct Rng { s: u64, left: i32 }
impl Rng {
    pub fn new(seed: u64) -> Rng { Rng { s: seed.wrapping_mul(0x9e3779b97f4a7c15) ^ 0x1234567, left: 60 } }
    pub fn next(&mut self) -> u64 {
        self.s = self.s.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.s;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { self.next() % n }
    fn bits(&mut self) -> u128 {
        let full = (self.next() as u128) << 64 | self.next() as u128;
        match self.below(4) {
            0 => full & 3,
            1 => full,
            2 => !(full & 3),
            _ => full >> self.below(128),
        }
    }
    /// Fuel for what is inside; none if the value has become big.
    pub fn fuel(&mut self, fuel: u32) -> u32 {
        self.left -= 1;
        if self.left < 0 { 0 } else { fuel.saturating_sub(1) }
    }
    fn count(&mut self, fuel: u32) -> u64 { if fuel == 0 { 0 } else { self.below(4) } }
}

/// With no fuel, values have to be small and end recursion.
pub trait Arb: Sized {
    fn arb(r: &mut Rng, fuel: u32) -> Self;
}
macro_rules! arb_ints {
    ($($t:ident)*) => {$( impl Arb for $t { fn arb(r: &mut Rng, _: u32) -> Self { r.bits() as $t } } )*};
}
arb_ints!(u8 u16 u32 u64 u128 i8 i16 i32 i64 i128 usize isize);
impl Arb for f32 { fn arb(r: &mut Rng, _: u32) -> Self { f32::from_bits(r.bits() as u32) } }
impl Arb for f64 { fn arb(r: &mut Rng, _: u32) -> Self { f64::from_bits(r.bits() as u64) } }
impl Arb for bool { fn arb(r: &mut Rng, _: u32) -> Self { r.below(2) == 1 } }
impl Arb for char {
    fn arb(r: &mut Rng, _: u32) -> Self {
        let n = r.bits() as u32;
        char::from_u32(n % 0x110000).unwrap_or('\u{10ffff}')
    }
}
impl Arb for () { fn arb(_: &mut Rng, _: u32) {} }
impl Arb for String {
    fn arb(r: &mut Rng, _: u32) -> Self { (0..r.below(4)).map(|_| char::arb(r, 0)).collect() }
}
impl<T: Arb> Arb for Option<T> {
    fn arb(r: &mut Rng, fuel: u32) -> Self {
        if fuel == 0 || r.below(4) == 0 { None } else { let f = r.fuel(fuel); Some(T::arb(r, f)) }
    }
}
macro_rules! arb_seqs {
    ($($t:ident [$($b:tt)*];)*) => {$(
        impl<T: Arb $($b)*> Arb for $t<T> {
            fn arb(r: &mut Rng, fuel: u32) -> Self {
                (0..r.count(fuel)).map(|_| { let f = r.fuel(fuel); T::arb(r, f) }).collect()
            }
        }
    )*};
}
arb_seqs! {
    Vec []; VecDeque []; LinkedList []; BTreeSet [+ Ord]; BinaryHeap [+ Ord]; HashSet [+ Eq + std::hash::Hash];
}
macro_rules! arb_maps {
    ($($t:ident [$($b:tt)*];)*) => {$(
        impl<K: Arb $($b)*, V: Arb> Arb for $t<K, V> {
            fn arb(r: &mut Rng, fuel: u32) -> Self {
                (0..r.count(fuel)).map(|_| { let f = r.fuel(fuel); (K::arb(r, f), V::arb(r, f)) }).collect()
            }
        }
    )*};
}
arb_maps! { BTreeMap [+ Ord]; HashMap [+ Eq + std::hash::Hash]; }
impl<T: Arb, const N: usize> Arb for [T; N] {
    fn arb(r: &mut Rng, fuel: u32) -> Self { std::array::from_fn(|_| { let f = r.fuel(fuel); T::arb(r, f) }) }
}
macro_rules! arb_tuples {
    () => {};
    ($a:ident $($t:ident)*) => {
        impl<$a: Arb, $($t: Arb),*> Arb for ($a, $($t,)*) {
            fn arb(r: &mut Rng, fuel: u32) -> Self {
                ($a::arb(r, fuel), $({ let f = r.fuel(fuel); $t::arb(r, f) },)*)
            }
        }
        arb_tuples!($($t)*);
    };
}
arb_tuples!(A B C D E F G H I J K);
impl<T: Arb> Arb for Range<T> { fn arb(r: &mut Rng, f: u32) -> Self { T::arb(r, f)..T::arb(r, f) } }
impl<T: Arb> Arb for RangeInclusive<T> { fn arb(r: &mut Rng, f: u32) -> Self { T::arb(r, f)..=T::arb(r, f) } }
impl<T: Arb> Arb for Bound<T> {
    fn arb(r: &mut Rng, fuel: u32) -> Self {
        let f = r.fuel(fuel);
        match if fuel == 0 { 0 } else { r.below(3) } {
            0 => Bound::Unbounded,
            1 => Bound::Included(T::arb(r, f)),
            _ => Bound::Excluded(T::arb(r, f)),
        }
    }
}
impl<T: Arb> Arb for Box<T> { fn arb(r: &mut Rng, fuel: u32) -> Self { Box::new(T::arb(r, fuel)) } }
impl<T: Arb + Clone> Arb for Cow<'static, T> { fn arb(r: &mut Rng, fuel: u32) -> Self { Cow::Owned(T::arb(r, fuel)) } }
impl Arb for Schema {
    fn arb(r: &mut Rng, fuel: u32) -> Self {
        let f = r.fuel(fuel);
        let n = if fuel == 0 { 0 } else { r.below(3) };
        let k = if fuel == 0 { r.below(4) } else { r.below(10) };
        let mut many = || (0..n).map(|_| (String::arb(r, 0), Schema::arb(r, f))).collect::<Vec<_>>();
        match k {
            0 => Schema::Str,
            1 => Schema::Bytes,
            2 => Schema::Unit,
            3 => Schema::Scalar(SCALARS[r.below(14) as usize].1),
            4 => Schema::Recurse(r.bits() as usize),
            5 => Schema::Option(Box::new(Schema::arb(r, f))),
            6 => Schema::Seq(SeqSchema { len: Option::arb(r, f), inner: Box::new(Schema::arb(r, f)) }),
            7 => Schema::Tuple(many().into_iter().map(|x| x.1).collect()),
            8 => Schema::Struct(many().into_iter().map(|x| x.into()).collect()),
            _ => Schema::Enum(many().into_iter().map(|x| x.into()).collect()),
        }
    }
}

// ---------------------------------------------- recording what is serialized

#[derive(Debug)]
pub struct Bad(String);
impl Display for Bad { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for Bad {}
impl Error for Bad { fn custom<T: Display>(m: T) -> Self { Bad(m.to_string()) } }

pub struct Rec;
pub struct Open(Sv);
fn mk(k: &str) -> Sv { Sv::new(k) }
fn var(k: &str, i: u32, n: &'static str) -> Sv { Sv { b: bytes(&jle(i as u128)), n: vec![n], ..mk(k) } }
fn leaf(x: ScalarValue) -> Result<Sv, Bad> {
    let (t, neg, b) = jscalar(x);
    Ok(Sv { t: t.into(), neg, b: bytes(&b), ..mk("scalar") })
}
macro_rules! rec_scalars {
    ($($m:ident $t:ident $v:ident)*) => {$( fn $m(self, x: $t) -> Result<Sv, Bad> { leaf(ScalarValue::$v(x)) } )*};
}
impl Serializer for Rec {
    type Ok = Sv;
    type Error = Bad;
    type SerializeSeq = Open;
    type SerializeTuple = Open;
    type SerializeTupleStruct = Open;
    type SerializeTupleVariant = Open;
    type SerializeMap = Open;
    type SerializeStruct = Open;
    type SerializeStructVariant = Open;
    rec_scalars! {
        serialize_u8 u8 U8 serialize_u16 u16 U16 serialize_u32 u32 U32 serialize_u64 u64 U64 serialize_u128 u128 U128
        serialize_i8 i8 I8 serialize_i16 i16 I16 serialize_i32 i32 I32 serialize_i64 i64 I64 serialize_i128 i128 I128
        serialize_f32 f32 F32 serialize_f64 f64 F64 serialize_char char Char serialize_bool bool Bool
    }
    fn serialize_str(self, s: &str) -> Result<Sv, Bad> { Ok(Sv { b: s.into(), ..mk("str") }) }
    fn serialize_bytes(self, b: &[u8]) -> Result<Sv, Bad> { Ok(Sv { b: b.into(), ..mk("bytes") }) }
    fn serialize_none(self) -> Result<Sv, Bad> { Ok(mk("none")) }
    fn serialize_some<T: Serialize + ?Sized>(self, x: &T) -> Result<Sv, Bad> {
        Ok(Sv { c: vec![x.serialize(Rec)?], ..mk("some") })
    }
    fn serialize_unit(self) -> Result<Sv, Bad> { Ok(mk("unit")) }
    fn serialize_unit_struct(self, _: &'static str) -> Result<Sv, Bad> { Ok(mk("unit_struct")) }
    fn serialize_unit_variant(self, _: &'static str, i: u32, n: &'static str) -> Result<Sv, Bad> {
        Ok(var("unit_variant", i, n))
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, x: &T) -> Result<Sv, Bad> {
        Ok(Sv { c: vec![x.serialize(Rec)?], ..mk("newtype_struct") })
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, i: u32, n: &'static str, x: &T) -> Result<Sv, Bad> {
        Ok(Sv { c: vec![x.serialize(Rec)?], ..var("newtype_variant", i, n) })
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Open, Bad> { Ok(Open(mk("seq"))) }
    fn serialize_tuple(self, _: usize) -> Result<Open, Bad> { Ok(Open(mk("tuple"))) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Open, Bad> { Ok(Open(mk("tuple_struct"))) }
    fn serialize_tuple_variant(self, _: &'static str, i: u32, n: &'static str, _: usize) -> Result<Open, Bad> {
        Ok(Open(var("tuple_variant", i, n)))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Open, Bad> { Ok(Open(mk("map"))) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Open, Bad> { Ok(Open(mk("struct"))) }
    fn serialize_struct_variant(self, _: &'static str, i: u32, n: &'static str, _: usize) -> Result<Open, Bad> {
        Ok(Open(var("struct_variant", i, n)))
    }
    fn is_human_readable(&self) -> bool { false }
}
impl Open {
    fn add<T: Serialize + ?Sized>(&mut self, x: &T) -> Result<(), Bad> { self.0.c.push(x.serialize(Rec)?); Ok(()) }
    fn field<T: Serialize + ?Sized>(&mut self, n: &'static str, x: &T) -> Result<(), Bad> { self.0.n.push(n); self.add(x) }
}
macro_rules! rec_open {
    ($($t:ident $m:ident)*) => {$( impl $t for Open {
        type Ok = Sv;
        type Error = Bad;
        fn $m<T: Serialize + ?Sized>(&mut self, x: &T) -> Result<(), Bad> { self.add(x) }
        fn end(self) -> Result<Sv, Bad> { Ok(self.0) }
    } )*};
}
rec_open! {
    SerializeSeq serialize_element SerializeTuple serialize_element
    SerializeTupleStruct serialize_field SerializeTupleVariant serialize_field
}
macro_rules! rec_fields {
    ($($t:ident)*) => {$( impl $t for Open {
        type Ok = Sv;
        type Error = Bad;
        fn serialize_field<T: Serialize + ?Sized>(&mut self, n: &'static str, x: &T) -> Result<(), Bad> { self.field(n, x) }
        fn skip_field(&mut self, n: &'static str) -> Result<(), Bad> { self.0.n.push(n); self.0.c.push(mk("skip")); Ok(()) }
        fn end(self) -> Result<Sv, Bad> { Ok(self.0) }
    } )*};
}
rec_fields! { SerializeStruct SerializeStructVariant }
impl SerializeMap for Open {
    type Ok = Sv;
    type Error = Bad;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, x: &T) -> Result<(), Bad> { self.add(x) }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, x: &T) -> Result<(), Bad> { self.add(x) }
    fn end(self) -> Result<Sv, Bad> { Ok(self.0) }
}

/// With elements and entries sorted, for types whose containers have no order.
fn canon(s: &Sv) -> Sv {
    let mut c: Vec<Sv> = s.c.iter().map(canon).collect();
    match s.k.as_str() {
        "seq" => c.sort_by_cached_key(|x| x.to_json().to_string()),
        "map" => {
            let mut e: Vec<Vec<Sv>> = c.chunks(2).map(|e| e.to_vec()).collect();
            e.sort_by_cached_key(|e| e[0].to_json().to_string());
            c = e.concat();
        }
        _ => (),
    }
    Sv { c, ..s.clone() }
}

// ------------------------------------------------------------------- running

thread_local!(static PANIC: RefCell<String> = RefCell::new(String::new()));
fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC.with(|p| p.borrow().clone()))
}
fn kind<T>(r: &Result<T, binschema::error::Error>) -> String {
    match r { Ok(_) => "ok".into(), Err(e) => format!("{:?}", e.kind()) }
}

pub fn dump<T: KnownSchema + ?Sized>() -> J {
    match guard(|| T::schema(Default::default())) {
        Err(p) => json!({"r": "panic", "msg": p, "s": [], "vals": []}),
        Ok(s) => json!({"r": "ok", "msg": "", "s": [jschema(&s)], "vals": []}),
    }
}

pub fn run<T>(seeds: &[u64], unordered: bool) -> J
where
    T: Arb + Serialize + for<'d> Deserialize<'d> + KnownSchema,
{
    let mut o = dump::<T>();
    if o["r"] != "ok" { return o; }
    let s = T::schema(Default::default());
    let show = |x: &Sv| if unordered { canon(x).to_json() } else { x.to_json() };
    let mut vals = Vec::new();
    for (i, &seed) in seeds.iter().enumerate() {
        let v = T::arb(&mut Rng::new(seed), i as u32 + 1);
        let sv = v.serialize(Rec).expect("harness: recording");
        let mut out = Vec::new();
        let mut st = CoderState::new(&s, CoderStateAlloc::new(), None);
        let (r, msg) = match guard(|| v.serialize(&mut Encoder::new(&mut st, &mut out))) {
            Err(p) => ("panic".to_owned(), p),
            Ok(r) => (kind(&r), r.err().map(|e| e.to_string()).unwrap_or_default()),
        };
        let enc = json!({"r": r, "msg": msg, "fin": st.is_finished(), "out": jbytes(&out)});
        let mut dec = json!([]);
        if r == "ok" && st.is_finished() {
            out.extend_from_slice(&[0xa5, 0xff]);
            let mut rest = &out[..];
            let mut st = CoderState::new(&s, CoderStateAlloc::new(), None);
            let got = guard(|| T::deserialize(&mut Decoder::new(&mut st, &mut rest)));
            let n = out.len() - rest.len();
            dec = match got {
                Err(p) => json!([{"r": "panic", "msg": p, "fin": false, "n": n, "sv": []}]),
                Ok(r) => json!([{
                    "r": kind(&r), "fin": st.is_finished(), "n": n,
                    "msg": r.as_ref().err().map(|e| e.to_string()).unwrap_or_default(),
                    "sv": r.iter().map(|x| show(&x.serialize(Rec).expect("harness: recording"))).collect::<Vec<_>>(),
                }]),
            };
            std::mem::forget(st);
        }
        std::mem::forget(st);
        vals.push(json!({"sv": sv.to_json(), "canon": show(&sv), "enc": enc, "dec": dec}));
    }
    o["vals"] = J::Array(vals);
    o
}

pub fn main(dispatch: fn(usize, &[u64]) -> J) {
    let args: Vec<String> = std::env::args().collect();
    let skip: usize = args[3].parse().unwrap();
    std::panic::set_hook(Box::new(|info| {
        let m = format!("{}", info);
        PANIC.with(|p| *p.borrow_mut() = m);
    }));
    let input = std::io::BufReader::new(std::fs::File::open(&args[1]).unwrap());
    let mut out = std::fs::OpenOptions::new().create(true).append(true).open(&args[2]).unwrap();
    std::thread::Builder::new().stack_size(1 << 28).spawn(move || {
        for line in input.lines().skip(skip) {
            let j: J = serde_json::from_str(&line.unwrap()).unwrap();
            let seeds: Vec<u64> = j["seeds"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
            let mut text = serde_json::to_string(&dispatch(j["i"].as_u64().unwrap() as usize, &seeds)).unwrap();
            text.push('\n');
            out.write_all(text.as_bytes()).unwrap();
        }
    }).unwrap().join().unwrap();
}
