//! Conversion between the JSON form of the specification's records (see
//! spec/Format.tla) and binschema's types.

use binschema::{value::*, *};
use serde_json::{json, Value as J};
use std::collections::HashMap;

pub fn bytes(j: &J) -> Vec<u8> {
    j.as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as u8).collect()).unwrap_or_default()
}
pub fn string(j: &J) -> String {
    String::from_utf8(bytes(j)).expect("harness: name is not UTF-8")
}
pub fn le(j: &J) -> u128 {
    let mut n = 0u128;
    for (i, b) in bytes(j).into_iter().enumerate() {
        n |= (b as u128) << (8 * i);
    }
    n
}
pub fn jbytes(b: &[u8]) -> J {
    J::Array(b.iter().map(|&x| J::from(x)).collect())
}
pub fn jle(mut n: u128) -> J {
    let mut v = Vec::new();
    while n != 0 {
        v.push(n as u8);
        n >>= 8;
    }
    jbytes(&v)
}
pub fn jsint(n: i128) -> (bool, J) {
    if n < 0 { (true, jle(!n as u128)) } else { (false, jle(n as u128)) }
}
pub fn sint(neg: bool, mag: u128) -> i128 {
    if neg { !(mag as i128) } else { mag as i128 }
}

pub const SCALARS: [(&str, ScalarType); 14] = [
    ("u8", ScalarType::U8), ("u16", ScalarType::U16), ("u32", ScalarType::U32),
    ("u64", ScalarType::U64), ("u128", ScalarType::U128),
    ("i8", ScalarType::I8), ("i16", ScalarType::I16), ("i32", ScalarType::I32),
    ("i64", ScalarType::I64), ("i128", ScalarType::I128),
    ("f32", ScalarType::F32), ("f64", ScalarType::F64),
    ("char", ScalarType::Char), ("bool", ScalarType::Bool),
];
pub fn scalar_name(t: ScalarType) -> &'static str {
    SCALARS.iter().find(|x| x.1 == t).unwrap().0
}

pub fn schema(j: &J) -> Schema {
    let c = |i: usize| schema(&j["c"][i]);
    let cs = || j["c"].as_array().unwrap().iter().map(schema).collect::<Vec<_>>();
    let ns = || j["n"].as_array().unwrap().iter().map(string).collect::<Vec<_>>();
    match j["k"].as_str().unwrap() {
        "scalar" => {
            let t = j["t"].as_str().unwrap();
            Schema::Scalar(SCALARS.iter().find(|x| x.0 == t).unwrap().1)
        }
        "str" => Schema::Str,
        "bytes" => Schema::Bytes,
        "unit" => Schema::Unit,
        "option" => Schema::Option(Box::new(c(0))),
        "seq" => Schema::Seq(SeqSchema {
            len: if j["fx"].as_bool().unwrap() { Some(le(&j["ln"]) as usize) } else { None },
            inner: Box::new(c(0)),
        }),
        "tuple" => Schema::Tuple(cs()),
        "struct" => Schema::Struct(
            ns().into_iter().zip(cs()).map(|(name, inner)| StructSchemaField { name, inner }).collect()),
        "enum" => Schema::Enum(
            ns().into_iter().zip(cs()).map(|(name, inner)| EnumSchemaVariant { name, inner }).collect()),
        "recurse" => Schema::Recurse(le(&j["ln"]) as usize),
        k => panic!("harness: schema kind {}", k),
    }
}

fn rec(k: &str, t: &str, fx: bool, ln: J, c: Vec<J>, n: Vec<J>) -> J {
    json!({"k": k, "t": t, "fx": fx, "ln": ln, "c": c, "n": n})
}
pub fn jschema(s: &Schema) -> J {
    let e = || J::Array(vec![]);
    match s {
        Schema::Scalar(t) => rec("scalar", scalar_name(*t), false, e(), vec![], vec![]),
        Schema::Str => rec("str", "", false, e(), vec![], vec![]),
        Schema::Bytes => rec("bytes", "", false, e(), vec![], vec![]),
        Schema::Unit => rec("unit", "", false, e(), vec![], vec![]),
        Schema::Option(i) => rec("option", "", false, e(), vec![jschema(i)], vec![]),
        Schema::Seq(SeqSchema { len: Some(l), inner }) =>
            rec("seq", "", true, jle(*l as u128), vec![jschema(inner)], vec![]),
        Schema::Seq(SeqSchema { len: None, inner }) =>
            rec("seq", "", false, e(), vec![jschema(inner)], vec![]),
        Schema::Tuple(c) => rec("tuple", "", false, e(), c.iter().map(jschema).collect(), vec![]),
        Schema::Struct(f) => rec("struct", "", false, e(),
            f.iter().map(|x| jschema(&x.inner)).collect(),
            f.iter().map(|x| jbytes(x.name.as_bytes())).collect()),
        Schema::Enum(f) => rec("enum", "", false, e(),
            f.iter().map(|x| jschema(&x.inner)).collect(),
            f.iter().map(|x| jbytes(x.name.as_bytes())).collect()),
        Schema::Recurse(l) => rec("recurse", "", false, jle(*l as u128), vec![], vec![]),
    }
}

/// Addresses of all nodes of a schema, with their paths (1-based child indices).
pub fn addresses(s: &Schema, path: &mut Vec<usize>, out: &mut HashMap<usize, Vec<usize>>) {
    out.insert(s as *const Schema as usize, path.clone());
    let mut go = |i: usize, x: &Schema| {
        path.push(i + 1);
        addresses(x, path, out);
        path.pop();
    };
    match s {
        Schema::Option(i) => go(0, i),
        Schema::Seq(q) => go(0, &q.inner),
        Schema::Tuple(c) => c.iter().enumerate().for_each(|(i, x)| go(i, x)),
        Schema::Struct(f) => f.iter().enumerate().for_each(|(i, x)| go(i, &x.inner)),
        Schema::Enum(f) => f.iter().enumerate().for_each(|(i, x)| go(i, &x.inner)),
        _ => (),
    }
}

pub fn scalar(t: &str, neg: bool, b: &J) -> ScalarValue {
    let n = le(b);
    let s = || sint(neg, n);
    match t {
        "u8" => ScalarValue::U8(n as u8),
        "u16" => ScalarValue::U16(n as u16),
        "u32" => ScalarValue::U32(n as u32),
        "u64" => ScalarValue::U64(n as u64),
        "u128" => ScalarValue::U128(n),
        "i8" => ScalarValue::I8(s() as i8),
        "i16" => ScalarValue::I16(s() as i16),
        "i32" => ScalarValue::I32(s() as i32),
        "i64" => ScalarValue::I64(s() as i64),
        "i128" => ScalarValue::I128(s()),
        "f32" => ScalarValue::F32(f32::from_bits(n as u32)),
        "f64" => ScalarValue::F64(f64::from_bits(n as u64)),
        "char" => ScalarValue::Char(char::from_u32(n as u32).expect("harness: bad char")),
        "bool" => ScalarValue::Bool(n != 0),
        t => panic!("harness: scalar type {}", t),
    }
}
/// (neg, b) of a scalar.
pub fn jscalar(s: ScalarValue) -> (&'static str, bool, J) {
    let u = |t, n: u128| (t, false, jle(n));
    let i = |t, n: i128| { let (neg, b) = jsint(n); (t, neg, b) };
    match s {
        ScalarValue::U8(n) => u("u8", n as u128),
        ScalarValue::U16(n) => u("u16", n as u128),
        ScalarValue::U32(n) => u("u32", n as u128),
        ScalarValue::U64(n) => u("u64", n as u128),
        ScalarValue::U128(n) => u("u128", n),
        ScalarValue::I8(n) => i("i8", n as i128),
        ScalarValue::I16(n) => i("i16", n as i128),
        ScalarValue::I32(n) => i("i32", n as i128),
        ScalarValue::I64(n) => i("i64", n as i128),
        ScalarValue::I128(n) => i("i128", n),
        ScalarValue::F32(x) => ("f32", false, jbytes(&x.to_bits().to_le_bytes())),
        ScalarValue::F64(x) => ("f64", false, jbytes(&x.to_bits().to_le_bytes())),
        ScalarValue::Char(c) => u("char", c as u128),
        ScalarValue::Bool(b) => u("bool", b as u128),
    }
}

pub fn value(j: &J) -> Value {
    let cs = || j["c"].as_array().unwrap().iter().map(value).collect::<Vec<_>>();
    match j["k"].as_str().unwrap() {
        "scalar" => Value::Scalar(scalar(j["t"].as_str().unwrap(), j["neg"].as_bool().unwrap(), &j["b"])),
        "str" => Value::Str(string(&j["b"])),
        "bytes" => Value::Bytes(bytes(&j["b"])),
        "unit" => Value::Unit,
        "option" => Value::Option(cs().into_iter().next().map(Box::new)),
        "fseq" => Value::FixedLenSeq(cs()),
        "vseq" => Value::VarLenSeq(cs()),
        "tuple" => Value::Tuple(cs()),
        "struct" => Value::Struct(
            j["n"].as_array().unwrap().iter().map(string).zip(cs())
                .map(|(name, value)| StructValueField { name, value }).collect()),
        "enum" => Value::Enum(EnumValue {
            variant_ord: le(&j["b"]) as usize,
            variant_name: string(&j["n"][0]),
            value: Box::new(value(&j["c"][0])),
        }),
        k => panic!("harness: value kind {}", k),
    }
}

pub fn vrec(k: &str, t: &str, neg: bool, b: J, c: Vec<J>, n: Vec<J>) -> J {
    json!({"k": k, "t": t, "neg": neg, "b": b, "c": c, "n": n})
}
pub fn jvalue(v: &Value) -> J {
    let e = || J::Array(vec![]);
    match v {
        Value::Scalar(s) => { let (t, neg, b) = jscalar(*s); vrec("scalar", t, neg, b, vec![], vec![]) }
        Value::Str(s) => vrec("str", "", false, jbytes(s.as_bytes()), vec![], vec![]),
        Value::Bytes(s) => vrec("bytes", "", false, jbytes(s), vec![], vec![]),
        Value::Unit => vrec("unit", "", false, e(), vec![], vec![]),
        Value::Option(o) => vrec("option", "", false, e(), o.iter().map(|x| jvalue(x)).collect(), vec![]),
        Value::FixedLenSeq(c) => vrec("fseq", "", false, e(), c.iter().map(jvalue).collect(), vec![]),
        Value::VarLenSeq(c) => vrec("vseq", "", false, e(), c.iter().map(jvalue).collect(), vec![]),
        Value::Tuple(c) => vrec("tuple", "", false, e(), c.iter().map(jvalue).collect(), vec![]),
        Value::Struct(f) => vrec("struct", "", false, e(),
            f.iter().map(|x| jvalue(&x.value)).collect(),
            f.iter().map(|x| jbytes(x.name.as_bytes())).collect()),
        Value::Enum(x) => vrec("enum", "", false, jle(x.variant_ord as u128),
            vec![jvalue(&x.value)], vec![jbytes(x.variant_name.as_bytes())]),
    }
}
