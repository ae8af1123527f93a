//! Runtime of the generated crates with invocations of schema! (bin/gen_macro.py).

use crate::conv::*;
use binschema::*;
use serde_json::{json, Value as J};
use std::{
    cmp::Ordering,
    collections::hash_map::DefaultHasher,
    hash::{Hash, Hasher},
    io::{BufRead, Write as _},
    panic::{catch_unwind, AssertUnwindSafe},
};

fn hash(s: &Schema) -> u64 {
    let mut h = DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}
/// Whether ==, cmp, partial_cmp and hash agree that they are equal, or not.
fn same(a: &Schema, b: &Schema) -> Option<bool> {
    let eq = a == b;
    let ok = (b == a) == eq
        && (a != b) == !eq
        && (a.cmp(b) == Ordering::Equal) == eq
        && a.cmp(b) == b.cmp(a).reverse()
        && a.partial_cmp(b) == Some(a.cmp(b))
        && (!eq || hash(a) == hash(b));
    if ok { Some(eq) } else { None }
}

fn report(make: impl FnOnce() -> Schema, others: &[J]) -> J {
    let s = match catch_unwind(AssertUnwindSafe(make)) {
        Ok(s) => s,
        Err(_) => return json!({"r": "panic", "s": [], "eq": false, "others": []}),
    };
    let j = jschema(&s);
    let eq = [schema(&j), s.clone()].iter().all(|x| same(&s, x) == Some(true));
    // disagreement counts as equal to another one
    let others: Vec<bool> = others.iter().map(|o| same(&s, &schema(o)) != Some(false)).collect();
    json!({"r": "ok", "s": [j], "eq": eq, "others": others})
}

pub fn main(dispatch: fn(usize) -> Schema) {
    let args: Vec<String> = std::env::args().collect();
    let skip: usize = args[3].parse().unwrap();
    let input = std::io::BufReader::new(std::fs::File::open(&args[1]).unwrap());
    let mut out = std::fs::OpenOptions::new().create(true).append(true).open(&args[2]).unwrap();
    for line in input.lines().skip(skip) {
        let j: J = serde_json::from_str(&line.unwrap()).unwrap();
        let i = j["i"].as_u64().unwrap() as usize;
        let mut text = serde_json::to_string(&report(|| dispatch(i), j["others"].as_array().unwrap())).unwrap();
        text.push('\n');
        out.write_all(text.as_bytes()).unwrap();
    }
}
