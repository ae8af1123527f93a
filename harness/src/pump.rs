//! Long runs: the same calls over and over, and whole data of very many equal
//! elements. What is recorded is one repetition, whether the others were
//! alike, and what surrounds them.

use crate::*;

#[derive(PartialEq, Clone)]
struct Did { r: String, why: String, neg: bool, b: J, v: J, n: usize, out: Vec<u8>, fin: bool, agree: bool }
impl Did {
    fn json(&self) -> J {
        json!({"r": self.r, "why": self.why, "neg": self.neg, "b": self.b, "v": self.v, "n": self.n,
            "out": jbytes(&self.out), "fin": self.fin, "agree": self.agree})
    }
}

struct Sink { limit: Option<u64>, err: bool, len: u64 }
impl std::io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.limit.map_or(false, |x| self.len >= x) {
            return if self.err { Err(std::io::ErrorKind::StorageFull.into()) } else { Ok(0) };
        }
        self.len += b.len() as u64;
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}

/// Blocks of calls of which each is made once or n times.
pub fn do_pump(j: &J) -> J {
    let s = schema(&j["s"]);
    let enc = j["enc"] == true;
    let n = j["n"].as_u64().unwrap() as usize;
    let blocks: Vec<(Vec<Call>, usize, Vec<u8>)> = j["blocks"].as_array().unwrap().iter().map(|b| {
        let mut calls: Vec<Call> = b["ops"].as_array().unwrap().iter().map(|c| call(c, enc)).collect();
        for (c, x) in calls.iter_mut().zip(b["ops"].as_array().unwrap()) {
            if x["len"] == true { c.ln = n; }
        }
        (calls, match b["rep"].as_str().unwrap() { "all" => n, "most" => n - 1, _ => 1 }, bytes(&b["b"]))
    }).collect();
    let data = blocks.iter().flat_map(|(_, k, b)| b.repeat(*k)).collect();
    let mut w = writer(j);
    let mut rd = reader(j, data);
    let meter = Meter { pos: rd.pos.clone(), len: w.len.clone(), log: Default::default() };
    let mut bufs = (String::new(), Vec::new());
    // a log which is full after a while, if at all
    let mut log = Sink { limit: j["loglim"].as_i64().filter(|&x| x >= 0).map(|x| x as u64), err: j["log"] != "zero", len: 0 };
    let with_log = j["log"].as_str().unwrap_or("none") != "none";
    let mut st = CoderState::new(&s, CoderStateAlloc::new(), if with_log { Some(&mut log) } else { None });
    let mut outs = Vec::new();
    let mut panicked = false;
    'run: for (calls, k, _) in &blocks {
        let mut first: Vec<Did> = Vec::new();
        let (mut did, mut alike) = (0, true);
        'block: for i in 0..*k {
            for (l, c) in calls.iter().enumerate() {
                let at = (meter.pos.get(), meter.len.get());
                let r = guard(|| if enc { enc_call(&mut Encoder::new(&mut st, &mut w), c) }
                    else { dec_call(&mut Decoder::new(&mut st, &mut rd), c, &mut bufs.0, &mut bufs.1) });
                let x = match r {
                    Err(p) => {
                        panicked = true;
                        Did { r: "panic".into(), why: p, neg: false, b: json!([]), v: json!([]), n: 0, out: vec![], fin: false, agree: true }
                    }
                    Ok(r) => {
                        // its error shows the whole stack, so ask for it only twice
                        let f = st.is_finished();
                        let agree = i > 1 || fin(&st).1;
                        Did { r: r.r, why: r.why, neg: r.neg, b: r.b, v: r.v.filter(|x| !x.is_null()).map(|x| json!([x])).unwrap_or(json!([])),
                            n: meter.pos.get() - at.0, out: w.out[at.1..].to_vec(), fin: f, agree }
                    }
                };
                if i == 0 { first.push(x); } else if first[l] != x {
                    alike = false;
                    first[l] = x;
                    break 'block;
                }
                if panicked { break 'block; }
            }
            did = i + 1;
        }
        outs.push(json!({"first": first.iter().map(Did::json).collect::<Vec<_>>(), "alike": alike, "did": did}));
        if did < *k { break 'run; }
    }
    let f = guard(|| fin(&st)).unwrap_or((false, false));
    if panicked {
        std::mem::forget(st);
    } else if let Err(p) = guard(|| drop(st.into_alloc())) {
        return json!({"blocks": outs, "fin": false, "agree": false, "msg": p});
    }
    json!({"blocks": outs, "fin": f.0, "agree": f.1, "msg": ""})
}

fn split(out: &[u8], u: usize, n: usize) -> J {
    let k = match u.checked_mul(n) { Some(m) if m <= out.len() => out.len() - m, _ => 0 };
    let rest = &out[k..];
    let unit = if u == 0 || n == 0 { &[][..] } else { &rest[..u.min(rest.len())] };
    let alike = u == 0 || n == 0 || rest.chunks(u).all(|c| c == unit);
    json!({"len": out.len(), "head": jbytes(&out[..k.min(40)]), "unit": jbytes(unit), "alike": alike})
}

/// Data of n elements v, or a string or bytes of n times v.
pub fn do_big(j: &J) -> J {
    let mut s = schema(&j["s"]);
    let n = j["n"].as_u64().unwrap() as usize;
    let u = j["u"].as_u64().unwrap() as usize;
    let kind = j["kind"].as_str().unwrap();
    if let Schema::Seq(q) = &mut s { if q.len.is_some() { q.len = Some(n); } }
    let mut w = writer(&J::Null);
    let mut st = CoderState::new(&s, CoderStateAlloc::new(), None);
    let serde = j["via"] == "serde";
    let r = if serde {
        let one: Vec<Sv> = j["sv"].as_array().unwrap().iter().map(Sv::from_json).collect();
        let mut sv = Sv::new(kind);
        match kind {
            "str" | "bytes" => sv.b = one[0].b.repeat(n),
            _ => for _ in 0..n { sv.c.extend(one.iter().cloned()); },
        }
        guard(|| sv.serialize(&mut Encoder::new(&mut st, &mut w)))
    } else {
        let v = match kind {
            "str" => Value::Str(string(&j["v"]["b"]).repeat(n)),
            "bytes" => Value::Bytes(bytes(&j["v"]["b"]).repeat(n)),
            "fseq" => Value::FixedLenSeq(vec![value(&j["v"]); n]),
            _ => Value::VarLenSeq(vec![value(&j["v"]); n]),
        };
        guard(|| v.encode_to(&mut Encoder::new(&mut st, &mut w)))
    };
    let (f, agree) = fin(&st);
    let enc = json!({"r": r.as_ref().map(res).unwrap_or("panic".into()), "fin": f, "agree": agree, "out": split(&w.out, u, n)});
    std::mem::forget(st);
    let mut o = json!({"enc": enc, "dec": []});
    if matches!(r, Ok(Ok(()))) {
        let full = w.out;
        let mut runs = Vec::new();
        for cut in [false, true] {
            let mut data = full.clone();
            if cut { data.pop(); } else { data.push(5); }
            let mut rd = reader(j, data);
            let start = heap::reset_peak();
            runs.push(if serde { big_de(&s, &j["sh"], n, &mut rd) } else { big_dyn(&s, u, n, &mut rd) });
            runs.last_mut().unwrap()["peak"] = json!(heap::peak().saturating_sub(start).min(i32::MAX as usize));
        }
        o["dec"] = J::Array(runs);
    }
    o
}

fn said<T>(r: &Result<Result<T, Error>, String>, st: &CoderState, rd: &Reader) -> J {
    let (f, agree) = fin(st);
    let (r, why) = match r { Err(p) => ("panic".into(), p.clone()), Ok(r) => (res(r), why(r)) };
    json!({"r": r, "why": why, "fin": f, "agree": agree, "n": rd.pos.get(), "k": "", "count": 0, "first": [], "alike": true,
        "blob": split(&[], 0, 0)})
}

fn big_dyn(s: &Schema, u: usize, n: usize, rd: &mut Reader) -> J {
    let mut st = CoderState::new(s, CoderStateAlloc::new(), None);
    let r = guard(|| Value::decode_from(&mut Decoder::new(&mut st, rd)));
    let mut o = said(&r, &st, rd);
    match &r {
        Err(_) => std::mem::forget(st),
        Ok(Ok(Value::Str(x))) => { o["k"] = json!("str"); o["blob"] = split(x.as_bytes(), u, n) }
        Ok(Ok(Value::Bytes(x))) => { o["k"] = json!("bytes"); o["blob"] = split(x, u, n) }
        Ok(Ok(Value::VarLenSeq(c))) | Ok(Ok(Value::FixedLenSeq(c))) => {
            o["k"] = json!(if matches!(r, Ok(Ok(Value::VarLenSeq(_)))) { "vseq" } else { "fseq" });
            o["count"] = json!(c.len());
            o["first"] = c.iter().take(1).map(jvalue).collect();
            o["alike"] = json!(c.iter().all(|x| *x == c[0]));
        }
        Ok(Ok(_)) => o["k"] = json!("other"),
        Ok(Err(_)) => (),
    }
    o
}

fn big_de(s: &Schema, sh: &J, n: usize, rd: &mut Reader) -> J {
    let shape = Shape::from_json(sh);
    let mut st = CoderState::new(s, CoderStateAlloc::new(), None);
    let r = guard(|| At::root(&shape).deserialize(&mut Decoder::new(&mut st, rd)));
    let mut o = said(&r, &st, rd);
    match &r {
        Err(_) => std::mem::forget(st),
        Ok(Ok(x)) => {
            o["k"] = json!(x.k);
            o["count"] = json!(x.c.len());
            // elements come in groups: a key and a value, or one
            let g = if x.k == "map" { 2 } else { 1 };
            o["first"] = x.c.iter().take(g).map(Sv::to_json).collect();
            o["alike"] = json!(x.c.chunks(g).all(|y| y == &x.c[..g]));
            let u = if n == 0 { 0 } else { x.b.len() / n };
            o["blob"] = split(&x.b, u, n);
        }
        Ok(Err(_)) => (),
    }
    o
}
