//! Executes test plans (JSON lines) on the real binschema and records what it
//! answers. Judges nothing: that is up to the specification.
//!
//! usage: harness IN OUT SKIP    (SKIP: number of leading cases to skip)

mod conv;
mod dynser;
mod heap;
mod pump;
mod stream;

use binschema::{error::Error, value::*, *};
use conv::*;
use dynser::{Any, At, Shape, Sv};
use heap::{not_sut, sut};
use serde::{de::DeserializeSeed, Deserialize, Serialize};
use serde_json::{json, Value as J};
use std::{
    cell::{Cell, RefCell},
    collections::HashMap,
    io::{BufRead, Write as _},
    panic::{catch_unwind, AssertUnwindSafe},
    rc::Rc,
};
use stream::*;

#[global_allocator]
static HEAP: heap::Heap = heap::Heap;

static LAST_PANIC: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
thread_local!(static PANIC: RefCell<String> = RefCell::new(String::new()));
// the last error taken apart, as it was displayed
thread_local!(static SHOWN: RefCell<String> = RefCell::new(String::new()));

fn kind(e: &Error) -> String {
    // make sure that errors can also be shown
    let _ = not_sut(|| (format!("{}", e), format!("{:?}", e)));
    format!("{:?}", e.kind())
}
fn res<T>(r: &Result<T, Error>) -> String {
    match r { Ok(_) => "ok".into(), Err(e) => kind(e) }
}
/// What lies behind an error: for an IO error whether it is the stream's own, for
/// an error raised by data or a visitor "own" if it arrived as it was.
fn why<T>(r: &Result<T, Error>) -> String {
    let Err(e) = r else { return String::new() };
    not_sut(|| {
        let inner = e.inner().to_string();
        if !format!("{}", e).contains(&inner) || std::error::Error::source(e).is_none() {
            return "not shown".into();
        }
        let mut at: Option<&(dyn std::error::Error + 'static)> = Some(e);
        while let Some(x) = at {
            if let Some(io) = x.downcast_ref::<std::io::Error>() {
                return if Fault::is(io) { "stream".into() } else { format!("{:?}", io.kind()) };
            }
            at = x.source();
        }
        if inner == dynser::OWN { "own".into() } else { String::new() }
    })
}
fn cause(e: &(dyn std::error::Error + Send + Sync + 'static)) -> (String, Option<(bool, std::io::ErrorKind)>) {
    (e.to_string(), e.downcast_ref::<std::io::Error>().map(|io| (Fault::is(io), io.kind())))
}
/// What of a result is not an error; the error is taken apart.
fn opened<T>(r: Result<T, Error>, w: &mut String) -> Option<T> {
    match r {
        Ok(x) => Some(x),
        Err(mut e) => {
            not_sut(|| {
                SHOWN.with(|s| *s.borrow_mut() = e.to_string());
                let (a, b) = (cause(e.inner()), cause(e.inner_mut()));
                let c = cause(&*e.into_inner());
                if a != b || a != c { *w = "not shown".into(); }
            });
            None
        }
    }
}
fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC.with(|p| p.borrow().clone()))
}
/// Whether finished, and whether both ways to ask agree.
fn fin(st: &CoderState) -> (bool, bool) {
    let f = st.is_finished();
    (f, st.is_finished_or_err().is_ok() == f)
}
/// A script; -n is n zeros.
fn ints(j: &J) -> Vec<u64> {
    j.as_array().map(|a| a.iter().flat_map(|x| {
        let x = x.as_i64().unwrap();
        vec![x.max(0) as u64; if x < 0 { -x as usize } else { 1 }]
    }).collect()).unwrap_or_default()
}
fn reader(j: &J, data: Vec<u8>) -> Reader {
    Reader {
        data, pos: Rc::default(), script: Script::new(ints(&j["script"])),
        err: (j["endm"] == "err").then(|| failure(j["ek"].as_str().unwrap())), heal: j["heal"] == true, failed: false,
    }
}
fn writer(j: &J) -> Writer {
    let limit = j["lim"].as_i64().filter(|&x| x >= 0).map(|x| x as usize);
    Writer {
        out: Vec::new(), len: Rc::default(), script: Script::new(ints(&j["script"])), limit,
        err: (j["endm"] != "zero").then(|| failure(j["ek"].as_str().unwrap_or("BrokenPipe"))), heal: j["heal"] == true,
    }
}

// ---------------------------------------------------------------- one call

struct Ret { r: String, why: String, neg: bool, b: J, v: Option<J> }
fn ret0(r: Result<(), Error>) -> Ret {
    let (k, mut w) = (res(&r), why(&r));
    opened(r, &mut w);
    Ret { r: k, why: w, neg: false, b: json!([]), v: None }
}
fn ret<T>(r: Result<T, Error>, f: impl FnOnce(T) -> (bool, J)) -> Ret {
    let (k, mut w) = (res(&r), why(&r));
    let (neg, b) = match opened(r, &mut w) { Some(x) => not_sut(|| f(x)), None => (false, json!([])) };
    Ret { r: k, why: w, neg, b, v: None }
}
fn retv<T>(r: Result<T, Error>, f: impl FnOnce(T) -> J) -> Ret {
    let (k, mut w) = (res(&r), why(&r));
    let v = match opened(r, &mut w) { Some(x) => not_sut(|| f(x)), None => J::Null };
    Ret { r: k, why: w, neg: false, b: json!([]), v: Some(v) }
}

/// Arguments of a call, converted beforehand.
struct Call { op: String, t: String, sc: Option<ScalarValue>, b: Vec<u8>, ln: usize, nm: String, val: Option<Value>, sv: Option<Sv>, sh: Option<Shape> }
fn call(j: &J, enc: bool) -> Call {
    let op = j["op"].as_str().unwrap().to_owned();
    let t = j["t"].as_str().unwrap_or("").to_owned();
    Call {
        sc: (enc && op == "scalar").then(|| scalar(&t, j["neg"].as_bool().unwrap(), &j["b"])),
        b: bytes(&j["b"]),
        ln: le(&j["ln"]) as usize,
        nm: string(&j["nm"]),
        val: j.get("val").map(value),
        sv: j.get("sv").map(Sv::from_json),
        sh: j.get("sh").map(Shape::from_json),
        op, t,
    }
}

fn enc_call(e: &mut Encoder<Writer>, c: &Call) -> Ret {
    ret0(match c.op.as_str() {
        "scalar" => c.sc.unwrap().encode_to(e),
        "str" => e.encode_str(std::str::from_utf8(&c.b).expect("harness: not utf8")),
        "bytes" => e.encode_bytes(&c.b),
        "unit" => e.encode_unit(),
        "none" => e.encode_none(),
        "begin_some" => e.begin_some(),
        "begin_fixed_len_seq" => e.begin_fixed_len_seq(c.ln),
        "begin_var_len_seq" => e.begin_var_len_seq(c.ln),
        "begin_seq_elem" => e.begin_seq_elem(),
        "finish_seq" => e.finish_seq(),
        "begin_tuple" => e.begin_tuple(),
        "begin_tuple_elem" => e.begin_tuple_elem(),
        "finish_tuple" => e.finish_tuple(),
        "begin_struct" => e.begin_struct(),
        "begin_struct_field" => e.begin_struct_field(&c.nm),
        "finish_struct" => e.finish_struct(),
        "begin_enum" => e.begin_enum(c.ln, &c.nm),
        "dyn" => c.val.as_ref().unwrap().encode_to(e),
        "ser" => c.sv.as_ref().unwrap().serialize(&mut *e),
        op => panic!("harness: encoder op {}", op),
    })
}

fn dec_scalar(d: &mut Decoder<Reader>, t: &str) -> Result<ScalarValue, Error> {
    let t = SCALARS.iter().find(|x| x.0 == t).unwrap().1;
    ScalarValue::decode_from(d, t)
}
fn dec_call(d: &mut Decoder<Reader>, c: &Call, sbuf: &mut String, bbuf: &mut Vec<u8>) -> Ret {
    match c.op.as_str() {
        "scalar" => ret(dec_scalar(d, &c.t), |s| { let (_, neg, b) = jscalar(s); (neg, b) }),
        "str" => ret(d.decode_str(), |s| (false, jbytes(s.as_bytes()))),
        "bytes" => ret(d.decode_bytes(), |s| (false, jbytes(&s))),
        "str_into" => {
            let r = d.decode_str_into(sbuf);
            ret(r, |_| (false, jbytes(sbuf.as_bytes())))
        }
        "bytes_into" => {
            let r = d.decode_bytes_into(bbuf);
            ret(r, |_| (false, jbytes(bbuf)))
        }
        "unit" => ret0(d.decode_unit()),
        "begin_option" => ret(d.begin_option(), |x| (false, jle(x as u128))),
        "begin_fixed_len_seq" => ret0(d.begin_fixed_len_seq(c.ln)),
        "begin_var_len_seq" => ret(d.begin_var_len_seq(), |n| (false, jle(n as u128))),
        "begin_seq_elem" => ret0(d.begin_seq_elem()),
        "finish_seq" => ret0(d.finish_seq()),
        "begin_tuple" => ret0(d.begin_tuple()),
        "begin_tuple_elem" => ret0(d.begin_tuple_elem()),
        "finish_tuple" => ret0(d.finish_tuple()),
        "begin_struct" => ret0(d.begin_struct()),
        "begin_struct_field" => ret0(d.begin_struct_field(&c.nm)),
        "finish_struct" => ret0(d.finish_struct()),
        "begin_enum" => ret(d.begin_enum(), |n| (false, jle(n as u128))),
        "begin_enum_variant" => ret0(d.begin_enum_variant(&c.nm)),
        "dyn" => retv(Value::decode_from(d), |v| jvalue(&v)),
        "any" => retv(Any.deserialize(&mut *d), |v| v.to_json()),
        "skip" => retv(serde::de::IgnoredAny::deserialize(&mut *d), |_| J::Null),
        "de" => retv(At::root(c.sh.as_ref().unwrap()).deserialize(&mut *d), |v| v.to_json()),
        op => panic!("harness: decoder op {}", op),
    }
}

type Addresses = HashMap<usize, Vec<usize>>;
fn jneed(r: &Result<&Schema, Error>, addr: &Addresses) -> J {
    match r {
        Ok(s) => match addr.get(&(*s as *const Schema as usize)) {
            Some(p) => json!({"r": "ok", "p": p, "s": []}),
            None => json!({"r": "new", "p": [], "s": [jschema(s)]}),
        },
        Err(e) => json!({"r": kind(e), "p": [], "s": []}),
    }
}

// ------------------------------------------------------------- op-level runs

/// Where a call began: bytes consumed and written so far.
struct Meter { pos: Rc<Cell<usize>>, len: Rc<Cell<usize>>, log: Rc<Cell<usize>> }
struct Recorder<'a> {
    out: &'a mut Vec<J>, spans: Vec<(usize, usize)>, agree: bool, meter: Meter, at: (usize, usize),
    /// Whether to record what the coder reports of itself, and where the log was after each call.
    /// In every how manieth call, if at all (0).
    rep: usize, logged: Vec<usize>, texts: Texts,
}
/// The texts of a case, each once.
#[derive(Default)]
struct Texts { all: Vec<J>, at: HashMap<Vec<u8>, usize> }
impl Texts {
    /// The lines of a text without their indentation, which comes along or not, by number in `all`.
    fn lines(&mut self, t: &[u8], indent: bool) -> J {
        t.split(|&b| b == b'\n').filter(|l| !l.is_empty()).map(|l| {
            let i = l.iter().take_while(|&&b| b == b' ').count();
            let all = &mut self.all;
            let n = *self.at.entry(l[i..].to_vec()).or_insert_with(|| { all.push(jbytes(&l[i..])); all.len() });
            if indent { json!({"i": i, "t": n}) } else { json!(n) }
        }).collect()
    }
}
impl<'a> Recorder<'a> {
    fn begin(&mut self) {
        SHOWN.with(|s| s.borrow_mut().clear());
        self.at = (self.meter.pos.get(), self.meter.len.get());
    }
    /// Whether to go on.
    fn end(&mut self, r: Result<Ret, String>, left: &[u8], st: &CoderState, need: impl FnOnce() -> J) -> bool {
        self.spans.push((self.at.1, self.meter.len.get()));
        let r = match r {
            Ok(r) => r,
            Err(p) => {
                self.out.push(json!({"r": "panic", "msg": p, "why": "", "neg": false, "b": [], "n": 0, "left": [],
                    "fin": false, "need": {"r": "panic", "p": [], "s": []}}));
                return false;
            }
        };
        let need = guard(need).unwrap_or(json!({"r": "panic", "p": [], "s": []}));
        let (f, agree) = guard(|| fin(st)).unwrap_or((false, false));
        self.agree &= agree;
        let mut o = json!({
            "r": r.r, "why": r.why, "neg": r.neg, "b": r.b, "n": self.meter.pos.get() - self.at.0,
            "left": jbytes(left), "fin": f, "need": need,
        });
        if let Some(v) = r.v.filter(|v| !v.is_null()) { o["v"] = v; }
        if self.rep > 0 { self.logged.push(self.meter.log.get()); }
        if self.rep > 0 && self.spans.len() % self.rep == 0 {
            let now = guard(|| format!("{:?}", st)).unwrap_or_default();
            let shown = SHOWN.with(|s| std::mem::take(&mut *s.borrow_mut()));
            let mark = "\nstate: ";
            let err = shown.rfind(mark).map(|i| &shown[i + mark.len()..]).unwrap_or("");
            o["rep"] = json!({"now": self.texts.lines(now.as_bytes(), false), "err": self.texts.lines(err.as_bytes(), false)});
        }
        self.out.push(o);
        true
    }
}

fn enc_step(e: &mut Encoder<Writer>, c: &Call, rec: &mut Recorder, addr: &Addresses) -> bool {
    rec.begin();
    let r = guard(|| sut(|| enc_call(e, c)));
    rec.end(r, &[], e.coder_state(), || jneed(&e.need(), addr))
}
fn dec_step(d: &mut Decoder<Reader>, c: &Call, rec: &mut Recorder, addr: &Addresses, bufs: &mut (String, Vec<u8>)) -> bool {
    rec.begin();
    let r = guard(|| sut(|| dec_call(d, c, &mut bufs.0, &mut bufs.1)));
    // what a call that failed left in the buffer
    let left = match c.op.as_str() { "str_into" => bufs.0.as_bytes(), "bytes_into" => &bufs.1, _ => &[] };
    let left = if matches!(&r, Ok(r) if r.r != "ok") { left } else { &[] };
    rec.end(r, left, d.coder_state(), || jneed(&d.need(), addr))
}

fn do_run(j: &J, alloc: CoderStateAlloc, out: &mut Vec<J>, s: &Schema, facts: &mut J) -> CoderStateAlloc {
    let enc = j["enc"].as_bool().unwrap();
    let calls: Vec<Call> = j["ops"].as_array().unwrap().iter().map(|c| call(c, enc)).collect();
    let mut addr = HashMap::new();
    addresses(s, &mut vec![], &mut addr);
    let mut w = writer(j);
    let mut rd = reader(j, bytes(&j["inp"]));
    let mut log = Log {
        out: vec![],
        len: Rc::default(),
        limit: j["loglim"].as_i64().filter(|&x| x >= 0).map(|x| x as usize),
        err: j["log"] != "zero",
    };
    let with_log = j["log"].as_str().unwrap_or("none") != "none";
    let mut bufs = (String::from("dirty"), vec![1u8, 2, 3]);
    let meter = Meter { pos: rd.pos.clone(), len: w.len.clone(), log: log.len.clone() };
    let mut rec = Recorder { out, spans: vec![], agree: true, meter, at: (0, 0), rep: if j["rep"] == true { j["repn"].as_u64().unwrap_or(1) as usize } else { 0 }, logged: vec![], texts: Texts::default() };

    let fp0 = heap::sut_fp();
    let allocs0 = heap::sut_allocs();
    let mut st = sut(|| CoderState::new(s, alloc, if with_log { Some(&mut log) } else { None }));
    let (f, agree) = fin(&st);
    facts["fin0"] = json!(f);
    rec.agree &= agree;
    let one = j["one"] == true;
    let alive = if enc && one {
        let mut e = Encoder::new(&mut st, &mut w);
        calls.iter().all(|c| enc_step(&mut e, c, &mut rec, &addr))
    } else if enc {
        calls.iter().all(|c| enc_step(&mut Encoder::new(&mut st, &mut w), c, &mut rec, &addr))
    } else if one {
        let mut d = Decoder::new(&mut st, &mut rd);
        calls.iter().all(|c| dec_step(&mut d, c, &mut rec, &addr, &mut bufs))
    } else {
        calls.iter().all(|c| dec_step(&mut Decoder::new(&mut st, &mut rd), c, &mut rec, &addr, &mut bufs))
    };
    facts["agree"] = json!(rec.agree);
    for (o, &(a, b)) in rec.out.iter_mut().zip(&rec.spans) { o["out"] = jbytes(&w.out[a..b]); }
    let Recorder { logged, mut texts, .. } = rec;
    if !alive {
        // the state is in limbo, so leave it behind
        std::mem::forget(st);
        return CoderStateAlloc::new();
    }
    if j["dbg"] == true { let _ = format!("{:?}", st); }
    facts["allocs"] = json!(heap::sut_allocs() - allocs0);
    let alloc = match j["end"].as_str().unwrap_or("alloc") {
        "drop" => { sut(|| drop(st)); sut(CoderStateAlloc::new) }
        "clone" => {
            let a = sut(|| st.into_alloc());
            let b = sut(|| a.clone());
            sut(|| drop(a));
            b
        }
        _ => sut(|| st.into_alloc()),
    };
    facts["same"] = json!(heap::sut_fp() == fp0);
    facts["logged"] = json!(log.out.len());
    let mut at = 0;
    for (o, &b) in out.iter_mut().zip(&logged) {
        if !o["rep"].is_null() { o["rep"]["log"] = texts.lines(&log.out[at..b], true); }
        at = b;
    }
    facts["texts"] = J::Array(texts.all);
    alloc
}

fn do_ops(j: &J) -> J {
    let runs = j["runs"].as_array().unwrap();
    let track = j["track"] == true;
    // schemas outlive everything, since into_alloc ends the borrow
    let schemas: Vec<Schema> = runs.iter().map(|r| schema(&r["s"])).collect();
    heap::hold(track);
    let live0 = heap::sut_live();
    let bad0 = heap::bad();
    let mut outs = Vec::new();
    let mut alloc = sut(CoderStateAlloc::new);
    let mut panicked = false;
    for (r, s) in runs.iter().zip(&schemas) {
        let mut r = r.clone();
        if let Some(n) = r["take"].as_u64() {
            // the input is what an earlier run wrote
            let f: &J = &outs[n as usize - 1];
            let b: Vec<J> = f["steps"].as_array().unwrap().iter()
                .flat_map(|x| x["out"].as_array().unwrap().iter().cloned()).collect();
            r["inp"] = J::Array(b);
        }
        let r = &r;
        let mut steps = Vec::new();
        let mut facts = json!({});
        match guard(AssertUnwindSafe(|| do_run(r, std::mem::take(&mut alloc), &mut steps, s, &mut facts))) {
            Ok(a) => alloc = a,
            Err(p) => { facts["panic"] = json!(p); panicked = true; }
        }
        facts["steps"] = J::Array(steps);
        outs.push(facts);
    }
    sut(|| drop(alloc));
    heap::hold(false);
    json!({"runs": outs, "leak": heap::sut_live() as i64 - live0 as i64,
        "badfree": heap::bad() - bad0, "panicked": panicked})
}

// ------------------------------------------------------------------- values

fn decode_value(s: &Schema, rd: &mut Reader) -> J {
    let start = heap::reset_peak();
    let mut st = CoderState::new(s, CoderStateAlloc::new(), None);
    let r = guard(|| Value::decode_from(&mut Decoder::new(&mut st, rd)));
    let peak = heap::peak().saturating_sub(start);
    match r {
        Err(p) => {
            std::mem::forget(st);
            json!({"r": "panic", "msg": p, "why": "", "fin": false, "agree": true, "v": [], "n": rd.pos.get(), "peak": peak})
        }
        Ok(r) => {
            let (f, agree) = fin(&st);
            let v: Vec<J> = r.iter().map(jvalue).collect();
            json!({"r": res(&r), "why": why(&r), "fin": f, "agree": agree, "v": v, "n": rd.pos.get(), "peak": peak})
        }
    }
}

/// The schema after a trip through bytes, under the schema of schemas.
fn through(s: &Schema) -> Result<Schema, String> {
    let meta = Schema::schema(Default::default());
    let mut out = Vec::new();
    let mut st = CoderState::new(&meta, CoderStateAlloc::new(), None);
    s.serialize(&mut Encoder::new(&mut st, &mut out)).map_err(|e| e.to_string())?;
    let mut st = CoderState::new(&meta, CoderStateAlloc::new(), None);
    Schema::deserialize(&mut Decoder::new(&mut st, &mut &out[..])).map_err(|e| e.to_string())
}

fn do_val(j: &J) -> J {
    let mut s = schema(&j["s"]);
    if j["through"] == true {
        match guard(|| through(&s)) {
            Ok(Ok(t)) => s = t,
            Ok(Err(m)) | Err(m) => return json!({
                "enc": {"r": "schema lost", "msg": m, "fin": false, "agree": true, "out": []}, "dec": []}),
        }
    }
    let v = value(&j["v"]);
    let mut w = writer(&J::Null);
    let mut st = CoderState::new(&s, CoderStateAlloc::new(), None);
    let r = guard(|| v.encode_to(&mut Encoder::new(&mut st, &mut w)));
    let e = match &r {
        Err(p) => json!({"r": "panic", "msg": p, "why": "", "fin": false, "agree": true, "out": jbytes(&w.out)}),
        Ok(r) => {
            let (f, agree) = fin(&st);
            json!({"r": res(r), "why": why(r), "fin": f, "agree": agree, "out": jbytes(&w.out)})
        }
    };
    std::mem::forget(st);
    let mut o = json!({"enc": e, "dec": []});
    if matches!(r, Ok(Ok(()))) {
        let mut data = w.out.clone();
        data.extend(bytes(&j["tail"]));
        o["dec"] = json!([decode_value(&s, &mut reader(j, data))]);
    }
    o
}

fn do_bytes(j: &J) -> J {
    let s = schema(&j["s"]);
    decode_value(&s, &mut reader(j, bytes(&j["b"])))
}

// -------------------------------------------------------------------- serde

fn de(s: &Schema, sh: &J, rd: &mut Reader) -> J {
    let shape = Shape::from_json(sh);
    let start = heap::reset_peak();
    let mut st = CoderState::new(s, CoderStateAlloc::new(), None);
    let r = guard(|| At::root(&shape).deserialize(&mut Decoder::new(&mut st, rd)));
    let peak = heap::peak().saturating_sub(start).min(i32::MAX as usize);
    match r {
        Err(p) => { std::mem::forget(st); json!({"r": "panic", "msg": p, "why": "", "fin": false, "agree": true, "v": [], "n": rd.pos.get(), "peak": peak}) }
        Ok(r) => {
            let (f, agree) = fin(&st);
            let v: Vec<J> = r.iter().map(Sv::to_json).collect();
            json!({"r": res(&r), "why": why(&r), "fin": f, "agree": agree, "v": v, "n": rd.pos.get(), "peak": peak})
        }
    }
}

fn do_serde(j: &J) -> J {
    let s = schema(&j["s"]);
    let mut o = json!({"ser": [], "de": []});
    let mut data = j.get("b").map(bytes);
    if j.get("sv").is_some() {
        let sv = Sv::from_json(&j["sv"]);
        let mut w = writer(&J::Null);
        let mut st = CoderState::new(&s, CoderStateAlloc::new(), None);
        let r = guard(|| sv.serialize(&mut Encoder::new(&mut st, &mut w)));
        o["ser"] = match &r {
            Err(p) => json!([{"r": "panic", "msg": p, "why": "", "fin": false, "agree": true, "out": jbytes(&w.out)}]),
            Ok(r) => {
                let (f, agree) = fin(&st);
                if r.is_ok() && f && data.is_none() { data = Some(w.out.clone()); }
                json!([{"r": res(r), "why": why(r), "fin": f, "agree": agree, "out": jbytes(&w.out)}])
            }
        };
        std::mem::forget(st);
    }
    if let (Some(mut d), Some(sh)) = (data, j.get("sh")) {
        d.extend(bytes(&j["tail"]));
        o["de"] = json!([de(&s, sh, &mut reader(j, d))]);
    }
    o
}

// ------------------------------------------------------------ schemas as data

fn do_meta(j: &J) -> J {
    let s = schema(&j["s"]);
    let meta = Schema::schema(Default::default());
    let mut w = writer(&J::Null);
    let mut st = CoderState::new(&meta, CoderStateAlloc::new(), None);
    let r = guard(|| s.serialize(&mut Encoder::new(&mut st, &mut w)));
    let enc = match &r {
        Err(p) => json!({"r": "panic", "msg": p, "why": "", "fin": false, "out": []}),
        Ok(r) => json!({"r": res(r), "fin": fin(&st).0, "out": jbytes(&w.out)}),
    };
    std::mem::forget(st);
    let mut o = json!({"enc": enc, "dec": [], "dyn": []});
    let ok = matches!(r, Ok(Ok(())));
    let data = j.get("b").map(bytes).or(if ok { Some(w.out.clone()) } else { None });
    if let Some(data) = data {
        let mut st = CoderState::new(&meta, CoderStateAlloc::new(), None);
        let mut rd = reader(j, data.clone());
        let r = guard(|| Schema::deserialize(&mut Decoder::new(&mut st, &mut rd)));
        o["dec"] = match &r {
            Err(p) => json!([{"r": "panic", "msg": p, "why": "", "fin": false, "n": rd.pos.get(), "eq": false, "s": []}]),
            Ok(r) => {
                let back: Vec<J> = r.iter().map(jschema).collect();
                let eq = r.as_ref().map(|x| *x == s).unwrap_or(false);
                json!([{"r": res(r), "fin": fin(&st).0, "n": rd.pos.get(), "eq": eq, "s": back}])
            }
        };
        std::mem::forget(st);
        o["dyn"] = json!([decode_value(&meta, &mut reader(j, data))]);
    }
    o
}

fn do_known_meta() -> J {
    json!({"s": jschema(&Schema::schema(Default::default()))})
}

fn do_pretty(j: &J) -> J {
    let s = schema(&j["s"]);
    match guard(|| s.pretty_fmt()) {
        Err(p) => json!({"r": "panic", "msg": p, "lines": []}),
        Ok(t) => json!({"r": "ok", "lines": t.split('\n').map(|l| jbytes(l.as_bytes())).collect::<Vec<_>>()}),
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let skip: usize = args[3].parse().unwrap();
    std::panic::set_hook(Box::new(|info| {
        let m = not_sut(|| format!("{}", info));
        *LAST_PANIC.lock().unwrap() = not_sut(|| m.clone());
        PANIC.with(|p| *p.borrow_mut() = m);
    }));
    let input = std::io::BufReader::new(std::fs::File::open(&args[1]).unwrap());
    let mut out = std::fs::OpenOptions::new().create(true).append(true).open(&args[2]).unwrap();
    // deep nesting is bounded by the plans, but give it room
    std::thread::Builder::new().stack_size(1 << 28).spawn(move || {
        for line in input.lines().skip(skip) {
            let line = line.unwrap();
            let mut text = serde_json::Deserializer::from_str(&line);
            text.disable_recursion_limit();
            let j = J::deserialize(&mut text).unwrap();
            let r = match j["do"].as_str().unwrap() {
                "ops" => do_ops(&j),
                "val" => do_val(&j),
                "bytes" => do_bytes(&j),
                "serde" => do_serde(&j),
                "pump" => pump::do_pump(&j),
                "big" => pump::do_big(&j),
                "meta" => do_meta(&j),
                "known_meta" => do_known_meta(),
                "pretty" => do_pretty(&j),
                d => panic!("harness: do {}", d),
            };
            let mut text = serde_json::to_string(&r).unwrap();
            text.push('\n');
            out.write_all(text.as_bytes()).unwrap();
        }
    }).unwrap().join().unwrap_or_else(|_| {
        eprintln!("{}", LAST_PANIC.lock().unwrap());
        std::process::exit(101)
    });
}
