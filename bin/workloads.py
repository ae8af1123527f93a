"""Workloads: what is made to happen to the real code. Each takes the context
and a number of cases, and has the records judged by a specification."""
import json
import os
import shutil
import subprocess
import sys

from gen import *
from gen_serde import LOOSE, SerdeGen, serde_case, shape_legal
from graph import Graph
from gen_macro import *
from gentypes import Types, builtin_roots
from vlib import HARNESS, ToolError, Violation, sh

sys.setrecursionlimit(100000)

BRANCH = ("option", "seq", "tuple", "struct", "enum")


def sizes(r):
    return r.choice([1, 4, 6, 8, 10, 14, 18])


def some_schema(g, rec=0.3):
    return g.rec_schema() if g.r.random() < rec else g.schema(sizes(g.r))


def nest(s, depth):
    """The schema below some levels of harmless ones."""
    for i in range(depth):
        s = [lambda x: tuple_(x), option, lambda x: struct(("a", x)), lambda x: fixseq(1, x)][i % 4](s)
    return s


# ------------------------------------------------- whole values and bytes

def val_case(g, s, v, tail=(), script=None):
    return {"do": "val", "s": s, "v": v, "tail": list(tail), "endm": g.r.choice(["eof", "err"]),
            "script": g.script() if script is None else script}


def round_case(g, s, v):
    """Through the calls one by one; the decoder reads what the encoder wrote."""
    enc = run(s, True, calls(True, v))
    dec = run(s, False, calls(False, v), inp=[], take=1)
    return {"do": "ops", "runs": [enc, dec], "s": s, "v": v}


def boundary_values(t):
    """(neg, b) of scalar type t around all powers of two."""
    out = []
    if t in UINT or t in SINT:
        bits = UINT.get(t) or SINT[t] - 1
        ns = sorted({n for k in range(bits + 1) for d in (-2, -1, 0, 1)
                     for n in [(1 << k) + d] if 0 <= n < (1 << bits)} | {0})
        out = [(neg, le(n)) for n in ns for neg in ([False, True] if t in SINT else [False])]
    elif t == "bool":
        out = [(False, []), (False, [1])]
    elif t == "char":
        out = [(False, le(n)) for n in sorted({n for k in range(21) for d in (-2, -1, 0, 1) for n in [(1 << k) + d]
                                                if n >= 0} | {0xd7ff, 0xe000, 0x10ffff, 0x10fffe, 0xfffd, 0xffff})
               if n <= 0x10ffff and not 0xd800 <= n < 0xe000]
    else:
        w = 4 if t == "f32" else 8
        out = [(False, list(n.to_bytes(w, "little"))) for k in range(8 * w)
               for n in [1 << k, (1 << (8 * w)) - 1 - (1 << k), (1 << k) - 1]]
    return out


def some_of_all_chars(each):
    """One of each so many code points, more sparsely beyond the first plane."""
    r = random.Random(int(os.environ.get("VERIF_SEED", "1")))
    out, at = [], 0
    while at < 0x110000:
        step = each if at < 0x10000 else 16 * each
        n = at + r.randrange(step)
        at += step
        if n < 0x110000 and not 0xd800 <= n < 0xe000:
            out.append(n)
    return out


def text_lists(each=16):
    """Strs and chars of all sorts."""
    ns = some_of_all_chars(each)
    for i in range(0, len(ns), 120):
        part = ns[i:i + 120]
        yield varseq(scalar("char")), vrec("vseq", c=[vrec("scalar", "char", b=le(n)) for n in part])
        yield leaf("str"), vrec("str", b=utf("".join(map(chr, part))))
    for x in TEXTS:
        yield varseq(leaf("str")), vrec("vseq", c=[vrec("str", b=utf(y)) for y in
                                                   (x, x + "b", "a" + x, "a" + x + "b", x + x, x + "\n" + x, x * 50)])


def text_names():
    """Names of all sorts: schemas and values."""
    odd = [f(x) for x in TEXTS for f in (lambda x: x, lambda x: "a" + x, lambda x: x + "b")]
    for i in range(0, len(odd), 30):
        ns = odd[i:i + 30]
        yield struct(*[(x, leaf("unit")) for x in ns]), vrec("struct", c=[vrec("unit")] * len(ns), n=[utf(x) for x in ns])
        for j in range(i // 30 % 3, len(ns), 3):
            yield enum(*[(x, scalar("u8")) for x in ns]), vrec("enum", b=le(j), c=[vrec("scalar", "u8", b=le(j + 1))], n=[utf(ns[j])])


def scalar_lists():
    for t in SCALARS:
        vs = boundary_values(t)
        for i in range(0, len(vs), 60):
            part = vs[i:i + 60]
            yield varseq(scalar(t)), vrec("vseq", c=[vrec("scalar", t, neg, b) for neg, b in part])


def u8(n): return vrec("scalar", "u8", b=le(n))


def big_values(g, thorough):
    """Long strings and seqs, enums of many variants, deep nesting."""
    r = g.r
    for n in [127, 128, 129, 255, 256, 257, 300, 4095, 4096, 4097] + ([16383, 16384, 16385, 70000] if thorough else [16384]):
        yield leaf("str"), vrec("str", b=[97 + (i * 7) % 26 for i in range(n)])
        yield leaf("bytes"), vrec("bytes", b=[(i * 31) % 256 for i in range(n)])
    yield leaf("str"), vrec("str", b=utf("é名𝄞\0" * 700))
    for n in [127, 128, 129, 255, 256, 257, 1000]:
        yield varseq(scalar("u8")), vrec("vseq", c=[u8(i % 256) for i in range(n)])
        yield fixseq(n, scalar("u8")), vrec("fseq", c=[u8(i % 256) for i in range(n)])
        yield tuple_(*[scalar("u8")] * n), vrec("tuple", c=[u8(i % 256) for i in range(n)])
        yield varseq(leaf("unit")), vrec("vseq", c=[vrec("unit")] * n)
    for n in [2, 255, 256, 257, 258, 300, 512, 513] + ([65535, 65536, 65537, 70001] if thorough else [65536, 65537]):
        names = ["v%d" % i for i in range(n)]
        s = enum(*[(x, scalar("u8") if i % 3 else leaf("unit")) for i, x in enumerate(names)])
        at = sorted({0, 1, 127, 128, 255, 256, 257, 511, 512, n // 2, n - 3, n - 2, n - 1} & set(range(n)))
        vs = [vrec("enum", b=le(i), c=[u8(i % 256) if i % 3 else vrec("unit")], n=[utf(names[i])]) for i in at]
        if n > 10000:
            # one after the other
            yield varseq(s), vrec("vseq", c=vs)
            continue
        for v in vs:
            yield s, v
    n = 300
    yield (struct(*[("f%d" % i, scalar("u8")) for i in range(n)]),
           vrec("struct", c=[u8(i % 256) for i in range(n)], n=[utf("f%d" % i) for i in range(n)]))
    s, v = scalar("u16"), vrec("scalar", "u16", b=[1, 2])
    for _ in range(25):
        s, v = option(s), vrec("option", c=[v])
    yield s, v
    # deep, by recursion
    v = vrec("option")
    for _ in range(110):
        v = vrec("option", c=[v])
    yield option(recurse(1)), v
    s = struct(("v", scalar("u8")), ("next", option(recurse(2))))
    v = vrec("option")
    for i in range(55):
        v = vrec("option", c=[vrec("struct", c=[u8(i), v], n=[utf("v"), utf("next")])])
    yield s, v["c"][0]
    s = enum(("leaf", scalar("u8")), ("node", varseq(recurse(2))))
    v = vrec("enum", c=[u8(1)], n=[utf("leaf")])
    for i in range(50):
        v = vrec("enum", b=[1], c=[vrec("vseq", c=[v])], n=[utf("node")])
    yield s, v


def w_long(ctx, seqs=False):
    """Long strings, over all kinds of streams, whole, cut off and spoiled, with
    chars lying across any boundary of a buffer."""
    g = OpGen(ctx.rng("long"))
    r = g.r
    cs = []
    sizes = [4095, 4096, 4097, 8191, 8192, 8193, 12289, 16383, 16384, 16385, 32768, 65535, 65536, 65537]
    for n in sizes:
        for c in ("é", "名", "𝄞"):
            w = len(c.encode())
            for off in range(w if n <= 8193 or not ctx.quick else 1):
                b = utf("a" * off + c * ((n - off) // w))
                b += [98] * (n - len(b))
                # bytes of the string, as a string and as bytes
                for k in ("str", "bytes"):
                    if k == "bytes" and off:
                        continue
                    sc = r.choice([[], [4096] * 20, [0, 4095, 0, 1] * 9, [1024, 0] * 70, [8192] * 9, [1] * 300, [65535], [r.randrange(1, 9000) for _ in range(20)]])
                    if r.random() < 0.4:
                        cs.append(val_case(g, leaf(k), vrec(k, b=b), [r.randrange(256) for _ in range(3)], script=sc))
                        continue
                    m = var_uint(n) + b
                    x = r.random()
                    if x < 0.4:
                        # cut off, perhaps in the middle of a char
                        m = m[:r.choice([len(m) - 1, len(m) - 2, r.randrange(len(m)), 4096 + 2, 8192 + 2, 4096 + 3, 2])]
                    elif x < 0.6:
                        # one byte wrong: at an end, or where buffers end
                        i = r.choice([2, len(m) - 1, 4096 + 1, 4096 + 2, 8192 + 1, 8192 + 2, r.randrange(2, len(m))])
                        i = min(i, len(m) - 1)
                        m = m[:i] + [r.choice([0x80, 0xff, 0xc0, 0xed, 0])] + m[i + 1:]
                    elif x < 0.7:
                        # a declared length which ends within a char
                        m = var_uint(n - 1) + b
                    cs.append({"do": "bytes", "s": leaf(k), "b": m, "script": sc, "endm": r.choice(["eof", "err"])})
    for n in (65535, 65536, 65537) if seqs else ():
        cs.append(val_case(g, varseq(scalar("u8")), vrec("vseq", c=[u8(i % 256) for i in range(n)]), script=[]))
        cs.append(val_case(g, fixseq(n, scalar("bool")), vrec("fseq", c=[vrec("scalar", "bool", b=le(i % 2)) for i in range(n)]), script=[]))
    ctx.run("long", "TraceValue", cs, timeout=600)


def w_values(ctx, n, name="values", module="TraceValue", tail=True):
    g = OpGen(ctx.rng(name))
    cs = []
    for i in range(n):
        s = some_schema(g)
        v = g.value(s, Info(s), budget=g.r.choice([6, 14, 25]))
        cs.append(val_case(g, s, v, [g.r.randrange(256) for _ in range(i % 4)] if tail else ()))
    ctx.run(name, module, cs)


def w_scalars(ctx, module="TraceValue"):
    g = OpGen(ctx.rng("scalars"))
    ctx.run("scalars", module, [val_case(g, s, v, script=[]) for s, v in scalar_lists()])
    ctx.run("texts", module, [val_case(g, s, v, script=[]) for s, v in [*text_lists(16 if ctx.quick else 1), *text_names()]])


def w_big(ctx, module="TraceValue"):
    g = OpGen(ctx.rng("big"))
    ctx.run("big", module, [val_case(g, s, v, script=[]) for s, v in big_values(g, not ctx.quick)], timeout=600)


def w_round(ctx, n):
    g = OpGen(ctx.rng("round"))
    cs = []
    for _ in range(n):
        s = some_schema(g)
        cs.append(round_case(g, s, g.value(s, Info(s))))
    for s, v in [*scalar_lists(), *text_lists(64 if ctx.quick else 8)]:
        cs.append(round_case(g, s, v))
    ctx.run("round", "TraceRound", cs)


def sequences(g, s):
    """Byte strings which may or may not be messages of s."""
    r = g.r
    v = g.value(s, Info(s), budget=r.choice([6, 14]))
    m = encode(s, v)
    w = r.random()
    if w < 0.15:
        return m
    if w < 0.9:
        return g.mutate(m)
    return [r.randrange(256) for _ in range(r.randrange(12))]


def w_bytes(ctx, n, name="bytes"):
    g = OpGen(ctx.rng(name))
    cs = []
    while len(cs) < n:
        s = some_schema(g)
        if Info(s).zero_width_elems():
            continue
        cs.append({"do": "bytes", "s": s, "b": sequences(g, s), "script": g.script(),
                   "endm": g.r.choice(["eof", "err"])})
    ctx.run(name, "TraceValue", cs)


def leaf_bytes(t):
    """Boundary encodings, valid and not, of a scalar type."""
    out = []
    if t in ("bool", "u8", "i8"):
        return [[i] for i in range(256)] + [[]]
    if t in ("u16", "i16"):
        return [[a, b] for a in (0, 1, 127, 128, 255) for b in (0, 1, 127, 128, 255)] + [[], [1]]
    if t in ("f32", "f64"):
        w = 4 if t == "f32" else 8
        return [[255] * k for k in range(w + 1)] + [[0] * (w - 2) + [a, b] for a in (0, 127, 128, 255) for b in (0, 127, 128, 255)]
    for n in sorted({x for k in range(130) for d in (-1, 0, 1) for x in [(1 << k) + d] if x >= 0}):
        out.append(var_uint(n))
    for ln in range(0, 22):
        for fill in (0x80, 0xff, 0x81):
            for last in (0, 1, 2, 3, 4, 7, 15, 31, 63, 64, 127):
                out.append([fill] * ln + [last])
        out.append([0x80] * ln)
        out.append([0xff] * ln)
    for n in (0xd7ff, 0xd800, 0xdfff, 0xe000, 0x10ffff, 0x110000):
        out.append(var_uint(n))
    return out


def w_leaf_bytes(ctx):
    """Every boundary encoding of every scalar, length and ordinal."""
    g = OpGen(ctx.rng("leaf"))
    cs = []

    def add(s, b):
        cs.append({"do": "bytes", "s": s, "b": b, "script": [], "endm": g.r.choice(["eof", "err"])})
    for t in SCALARS:
        bs = leaf_bytes(t)
        if ctx.quick and len(bs) > 500:
            bs = g.r.sample(bs, 500)
        for b in bs:
            add(scalar(t), b)
    for b in g.r.sample(leaf_bytes("u64"), 300):
        add(leaf("str"), b)
        add(leaf("bytes"), b)
        add(varseq(scalar("u8")), b)
    for b in [[2, 0xc3, 0x28], [2, 0xc3, 0xa9], [3, 0xe2, 0x28, 0xa1], [3, 0xed, 0xa0, 0x80], [3, 0xed, 0x9f, 0xbf],
              [4, 0xf0, 0x90, 0x80, 0x80], [4, 0xf0, 0x8f, 0xbf, 0xbf], [4, 0xf4, 0x8f, 0xbf, 0xbf],
              [4, 0xf4, 0x90, 0x80, 0x80], [2, 0xc0, 0x80], [2, 0xc1, 0xbf], [1, 0x80], [1, 0xff], [2, 0xc2, 0x80],
              [3, 0xe0, 0x9f, 0xbf], [3, 0xe0, 0xa0, 0x80], [3, 0xef, 0xbf, 0xbf], [1, 0xf5], [2, 0x61, 0xc3],
              [5, 0x61, 0xe2, 0x82, 0xac, 0x62], [0x81, 0, 0x61], [0x80, 0]]:
        add(leaf("str"), b)
        add(leaf("bytes"), b)
        add(tuple_(leaf("str"), scalar("u8")), b + [9])
    for i in range(256):
        add(option(scalar("u8")), [i, 5])
        add(tuple_(scalar("bool"), scalar("u8")), [i, 5])
    for n in (1, 2, 3, 127, 128, 255, 256, 257, 258, 300):
        s = enum(*[("v%d" % i, leaf("unit")) for i in range(n)])
        for o in sorted({0, 1, 2, n - 2, n - 1, n, n + 1, 255, 256, 257, 511, 512, 65535}):
            if o >= 0:
                add(s, [o % 256, o // 256])
                add(s, [o % 256])
    ctx.run("leaf", "TraceValue", cs)


def w_huge(ctx):
    """Messages which declare far more than they have."""
    g = OpGen(ctx.rng("huge"))
    cs, ops = [], []
    seqs = [varseq(scalar("u8")), varseq(scalar("u64")), varseq(leaf("str")), varseq(varseq(scalar("u8"))),
            varseq(option(scalar("u128"))), varseq(tuple_(scalar("u32"), scalar("f64"))),
            varseq(struct(("a", leaf("bytes")))), varseq(enum(("a", leaf("unit")), ("b", scalar("u8"))))]
    for k in (20, 22, 24, 26, 28, 30, 31, 32, 33, 40, 48, 55, 60, 61, 62, 63):
        for d in (-1, 0, 1) if k > 30 or not ctx.quick else (0,):
            b = var_uint((1 << k) + d)
            more = [g.r.randrange(128) for _ in range(g.r.choice([0, 1, 5, 20]))]
            for s in (leaf("str"), leaf("bytes")):
                cs.append({"do": "bytes", "s": s, "b": b + more, "script": [], "endm": "eof"})
                cs.append({"do": "bytes", "s": tuple_(option(s), scalar("u8")), "b": [1] + b + more, "script": [],
                           "endm": "err"})
                for op in (["str", "str_into"] if s["k"] == "str" else ["bytes", "bytes_into"]):
                    ops.append(ops_case(run(s, False, [call(op), call(op), call("unit")], inp=b + more)))
                cs.append({"do": "bytes", "s": varseq(s), "b": var_uint(1) + b + more, "script": [], "endm": "eof"})
            for s in g.r.sample(seqs, 4):
                cs.append({"do": "bytes", "s": s, "b": b + more, "script": [], "endm": g.r.choice(["eof", "err"])})
    for k in (64, 65, 70, 100, 127, 128):
        for s in (leaf("str"), leaf("bytes"), seqs[0]):
            cs.append({"do": "bytes", "s": s, "b": var_uint(1 << k), "script": [], "endm": "eof"})
    ctx.run("huge", "TraceValue", cs, mem=3 << 30)
    ctx.run("huge_calls", "TraceCoder", ops, mem=3 << 30)
    # the same through serde, where visitors may preallocate
    de = []
    for s, sh in ((leaf("str"), vrec("str")), (leaf("str"), vrec("str", t="buf")), (leaf("bytes"), vrec("bytes")),
                  (leaf("bytes"), vrec("bytes", t="buf")), (seqs[0], vrec("seq", c=[vrec("scalar", t="u8")])),
                  (seqs[0], vrec("any")), (leaf("str"), vrec("any")), (leaf("bytes"), vrec("any")),
                  (leaf("str"), vrec("ignored")), (leaf("bytes"), vrec("ignored")), (seqs[0], vrec("ignored")),
                  (varseq(tuple_(leaf("str"), scalar("u8"))),
                   vrec("map", c=[vrec("entry", c=[vrec("str"), vrec("scalar", t="u8")])]))):
        for k in (24, 30, 33, 48, 62, 63, 64):
            de.append(serde_case(s, None, sh, b=var_uint(1 << k) + [1, 97, 98], lean=True))
    ctx.run("huge_serde", "TraceSerde", de, mem=3 << 30)


# ----------------------------------------------------------- the coder's graph

def w_graph(ctx, want=("state", "break", "edge", "fault"), limit=None, sids=None):
    """Every state and transition of the model, replayed on the code."""
    if not hasattr(ctx, "graph"):
        out = ctx.model("state_graph", "GenCoder", "GenCoder.cfg" if ctx.quick else "GenCoder_thorough.cfg")
        ctx.graph = Graph(out)
    cs = [c for k, c in ctx.graph.plans() if k in want]
    if limit and len(cs) > limit:
        cs = OpGen(ctx.rng("graph")).r.sample(cs, limit)
    ctx.run("graph", "TraceCoder", cs)


def w_model(ctx):
    """The model itself has the properties."""
    ctx.model("coder_model", "MCCoder", "MCCoder.cfg" if ctx.quick else "MCCoder_thorough.cfg")


# ------------------------------------------------------------ random histories

def w_calls(ctx, n, name="calls", rate=0.25, rec=0.3, illegal=0.0, enc=None):
    """Coding a value with invalid calls in between, or the wrong calls."""
    g = OpGen(ctx.rng(name))
    cs = []
    while len(cs) < n:
        e = g.r.random() < 0.5 if enc is None else enc
        if g.r.random() < illegal:
            s = illegal_schema(g)
            ops = [g.any_call(e, s) for _ in range(g.r.randint(4, 30))]
            inp = [g.r.choice([0, 1, 1, 1, 2]) for _ in range(20)]
            if g.r.random() < 0.7:
                # towards the illegal recurse
                ops = g.noisy(e, s, to_illegal(g, s, e), 0.1) + [g.any_call(e, s) for _ in range(5)]
        else:
            s = some_schema(g, rec)
            v = g.value(s, Info(s), budget=g.r.choice([5, 10, 16]))
            ops = calls(e, v)
            w = g.r.random()
            if w < 0.25:
                ops = g.broken_plan(ops)
            ops = g.noisy(e, s, ops, rate) + [g.any_call(e, s) for _ in range(g.r.choice([0, 2, 5]))]
            inp = encode(s, v) + [g.r.randrange(256) for _ in range(g.r.choice([0, 0, 3]))]
            if not e and g.r.random() < 0.15:
                inp = g.mutate(inp)
        if not e:
            ops = [dict(o, op=o["op"] + "_into") if o["op"] in ("str", "bytes") and g.r.random() < 0.4 else o for o in ops]
        cs.append(ops_case(run(s, e, ops[:200], inp=[] if e else inp, script=g.script(),
                               endm=g.r.choice(["eof", "err"]), dbg=g.r.random() < 0.2)))
    ctx.run(name, "TraceCoder", cs)


def illegal_schema(g):
    return g.schema(g.r.choice([2, 4, 8, 12]), illegal=True)


def to_illegal(g, s, enc):
    """Calls which walk to an illegal recurse, giving wrong inputs no chance."""
    bad = [p for p in paths(s) if not legal(s, p)]
    p = g.r.choice(bad)
    ops, q = [], ()
    for i in p:
        x = node(s, q)
        k = x["k"]
        if k == "option":
            ops.append(call("begin_some" if enc else "begin_option"))
        elif k == "seq":
            ops += [call("begin_fixed_len_seq" if x["fx"] else "begin_var_len_seq", ln=x["ln"] if x["fx"] else [1]),
                    call("begin_seq_elem")]
        elif k == "tuple":
            # earlier elements cannot be skipped; only first elements get there
            ops += [call("begin_tuple"), call("begin_tuple_elem")]
        elif k == "struct":
            ops += [call("begin_struct"), call("begin_struct_field", nm=x["n"][0])]
        elif k == "enum":
            ops += ([call("begin_enum", ln=le(i), nm=x["n"][i])] if enc else
                    [call("begin_enum"), call("begin_enum_variant", nm=x["n"][i])])
        q += (i,)
    return ops


def w_illegal(ctx, n):
    """Illegal recurses, reached in all ways."""
    g = OpGen(ctx.rng("illegal"))
    w_calls(ctx, n, "illegal_calls", illegal=1.0)
    cs, tries = [], 0
    while len(cs) < n and tries < 50 * n:
        # decode what was written for a similar legal schema
        tries += 1
        s = g.schema(g.r.choice([4, 8, 12]))
        v = g.value(s, Info(s))
        ps = [p for p in paths(s) if p]
        if not ps:
            continue
        p = g.r.choice(ps)
        t = __import__("copy").deepcopy(s)
        node(t, p[:-1])["c"][p[-1]] = recurse(g.r.choice([0, len(p) + 1, len(p) + 2, 2**40]))
        if Info(t).zero_width_elems() or any(node(t, q)["k"] == "seq" and node(t, q)["fx"] for q in paths(t)):
            continue
        i = Info(t)
        if not unproductive_loop(t):
            cs.append({"do": "bytes", "s": t, "b": encode(s, v), "script": [], "endm": "eof"})
            cs.append(ops_case(run(t, False, calls(False, v)[:150] + [call("unit")], inp=encode(s, v))))
            cs.append(ops_case(run(t, True, calls(True, v)[:150] + [call("unit")])))
    ctx.run("illegal_bytes", "TraceValue", [c for c in cs if c["do"] == "bytes"])
    ctx.run("illegal_ops", "TraceCoder", [c for c in cs if c["do"] != "bytes"])


def unproductive_loop(s):
    """Whether decoding may go on forever without consuming anything."""
    # positions reachable without reading a byte
    def step(p):
        if not legal(s, p):
            return []
        p = target(s, p)
        x = node(s, p)
        if x["k"] in ("tuple", "struct"):
            return [p + (i,) for i in range(len(x["c"]))]
        if x["k"] == "enum" and len(x["c"]) == 1:
            return [p + (0,)]
        if x["k"] == "seq" and x["fx"]:
            return [p + (0,)]
        return []
    for p in paths(s):
        seen, todo = set(), [target(s, p) if legal(s, p) else p]
        start = todo[0]
        first = True
        while todo:
            q = todo.pop()
            if q == start and not first:
                return True
            first = False
            for t in step(q):
                t = target(s, t) if legal(s, t) else t
                if t == start:
                    return True
                if t not in seen:
                    seen.add(t)
                    todo.append(t)
    return False


def deep_calls(depth, enc):
    """Nesting by recursion: (schema, calls, input)."""
    some = call("begin_some" if enc else "begin_option")
    yield option(recurse(1)), [some] * depth + [call("none" if enc else "begin_option")], [1] * depth + [0]
    s = struct(("v", scalar("u8")), ("next", option(recurse(2))))
    v = [call("begin_struct_field", nm=utf("v")), call("scalar", "u8", b=[7])]
    ops = ([call("begin_struct")] + v + [call("begin_struct_field", nm=utf("next")), some]) * depth
    ops += [call("begin_struct")] + v + [call("begin_struct_field", nm=utf("next")), call("none" if enc else "begin_option")]
    yield s, ops + [call("finish_struct")] * (depth + 1), [7, 1] * depth + [7, 0]
    s = varseq(recurse(1))
    ops = [call("begin_var_len_seq", ln=[1]), call("begin_seq_elem")] * depth + [call("begin_var_len_seq")]
    yield s, ops + [call("finish_seq")] * (depth + 1), [1] * depth + [0]
    s = enum(("leaf", leaf("unit")), ("node", tuple_(recurse(2), scalar("bool"), recurse(2))))
    node_ = ([call("begin_enum", ln=[1], nm=utf("node"))] if enc else [call("begin_enum"), call("begin_enum_variant", nm=utf("node"))])
    leaf_ = ([call("begin_enum", nm=utf("leaf"))] if enc else [call("begin_enum"), call("begin_enum_variant", nm=utf("leaf"))]) + [call("unit")]
    b = [call("begin_tuple_elem"), call("scalar", "bool", b=[1]), call("begin_tuple_elem")] + leaf_ + [call("finish_tuple")]
    ops = (node_ + [call("begin_tuple"), call("begin_tuple_elem")]) * depth + leaf_ + b * depth
    yield s, ops, [1] * depth + [0] + [1, 0] * depth


def w_deep(ctx, depths=(5, 60, 300)):
    g = OpGen(ctx.rng("deep"))
    cs = []
    for d in depths if ctx.quick else depths + (130, 700):
        for enc in (True, False):
            for s, ops, inp in deep_calls(d, enc):
                cs.append(ops_case(run(s, enc, ops + [call("unit")], inp=[] if enc else inp + [9], dbg=d < 10,
                                       repn=1 if d < 100 else len(ops) // g.r.randint(5, 9)),
                                   run(s, enc, ops, inp=[] if enc else inp, repn=1 if d < 100 else len(ops) // 2 + 1)))
    for s, ops, inp in deep_calls(4, True):
        cs.append(ops_case(run(s, True, g.noisy(True, s, ops, 0.4))))
    ctx.run("deep", "TraceCoder", cs)


# ------------------------------------------------------------ streams, faults

def w_faults(ctx, n):
    """Values coded with the stream failing at every one of their bytes."""
    g = SerdeGen(ctx.rng("faults"))
    cs = []
    while len(cs) < n:
        s = some_schema(g)
        v = g.value(s, Info(s), budget=g.r.choice([4, 8]))
        m = encode(s, v)
        if len(m) > 40:
            continue
        after = [g.any_call(True, s) for _ in range(3)]
        for k in range(len(m) + 1) if len(m) <= 12 else g.r.sample(range(len(m) + 1), 12):
            enc = g.r.random() < 0.5
            ops = calls(enc, v)
            if g.r.random() < 0.3:
                ops = mixed_ops(g, enc, s, v, 0.5)
            ops = ops + (after if enc else [g.any_call(False, s) for _ in range(3)])
            cs.append(ops_case(run(s, enc, ops, inp=[] if enc else m[:k], lim=k if enc else -1,
                                   script=g.script(), endm=g.r.choice(["err", "zero"] if enc else ["err", "eof"]))))
    ctx.run("faults", "TraceCoder", cs)


def w_streams(ctx, n):
    """Values coded over fragmenting, interrupted streams, with more to read."""
    g = SerdeGen(ctx.rng("streams"))
    cs, vals = [], []
    for _ in range(n):
        s = some_schema(g)
        v = g.value(s, Info(s), budget=g.r.choice([6, 14, 25]))
        m = encode(s, v)
        for enc in (True, False):
            ops = calls(enc, v)
            if g.r.random() < 0.3:
                ops = mixed_ops(g, enc, s, v, 0.4)
            if not enc:
                ops = [dict(o, op=o["op"] + "_into") if o["op"] in ("str", "bytes") and g.r.random() < 0.4 else o for o in ops]
            sc = g.r.choice([[1] * 300, [0, 1] * 300, [0] * 20, [2, 1, 0, 3] * 60, [0, 0, 5] * 60, g.script(200)])
            cs.append(ops_case(run(s, enc, ops, inp=[] if enc else m + [g.r.randrange(256) for _ in range(5)],
                                   script=sc, endm=g.r.choice(["err", "eof"]))))
        vals.append(val_case(g, s, v, [g.r.randrange(256) for _ in range(3)], script=g.r.choice([[1] * 300, [0, 1] * 300])))
    for most in (99, 300, 1025, 5000) + (() if ctx.quick else (70000, 1 << 20)):
        # interrupted for long
        for s, v in [(leaf("str"), vrec("str", b=utf("hello"))), (tuple_(scalar("u32"), scalar("u64")), vrec("tuple", c=[
                vrec("scalar", "u32", b=[1, 2, 3]), vrec("scalar", "u64", b=[9, 2, 3, 4])]))]:
            for sc in ([-most], [1, -most] * 4):
                for enc in (True, False):
                    cs.append(ops_case(run(s, enc, calls(enc, v), inp=[] if enc else encode(s, v) + [1], script=sc)))
    ctx.run("streams", "TraceCoder", cs)
    ctx.run("streams_values", "TraceValue", vals)
    # serde, and strings long enough for several reads
    de = []
    for s, v in [(leaf("bytes"), vrec("bytes", b=[i % 251 for i in range(k)])) for k in (300, 5000, 9000)] + \
                [(leaf("str"), vrec("str", b=utf("aé名" * k))) for k in (50, 1500)]:
        for sc in ([1] * 700, [0, 3] * 300, [0, 4095, 0, 1, 4096], [4096, 4096], [5000]):
            de.append(val_case(g, s, v, [1, 2, 3], script=sc))
    ctx.run("streams_long", "TraceValue", de)
    g2 = SerdeGen(ctx.rng("streams_serde"))
    cs = []
    for _ in range(n // 2):
        sh, s, info, d = g2.triple(g2.r.choice([4, 8]))
        cs.append(dict(serde_case(s, d, sh, tail=[1, 2, 3], match=True), script=g2.script(100), endm="err"))
    ctx.run("streams_serde", "TraceSerde", cs)


def w_fragments(ctx, per):
    """All that a stream may do to small messages, as explored by TLC."""
    out = ctx.model("stream_model", "Stream", "Stream.cfg" if ctx.quick else "Stream_thorough.cfg")
    g = SerdeGen(ctx.rng("fragments"))
    acts = {}
    for line in out.split("\n"):
        if line.startswith('"@F'):
            f = json.loads(json.loads(line)[2:])
            acts.setdefault(f["size"], []).append(f)
    if not acts:
        raise ToolError("no behaviours of the stream")
    msgs = {n: {} for n in acts}
    for t in SCALARS:
        for s in (scalar(t), varseq(scalar(t)), tuple_(leaf("str"), scalar(t))):
            for _ in range(12):
                v = g.value(s, Info(s), budget=6)
                msgs.get(len(encode(s, v)), {}).setdefault((t, s["k"]), []).append((s, v))
    while any(len(m) < 3 * per for m in msgs.values()):
        s = some_schema(g)
        v = g.value(s, Info(s), budget=6)
        msgs.get(len(encode(s, v)), {}).setdefault(json.dumps(s), []).append((s, v))
    cs, vals = [], []
    for n, fs in sorted(acts.items()):
        ms = [g.r.choice(msgs[n][k]) for k in sorted(msgs[n], key=str)]
        for f in fs:
            for s, v in g.r.sample(ms, min(per, len(ms))):
                for enc in (True, False):
                    ops = calls(enc, v) if g.r.random() < 0.7 else mixed_ops(g, enc, s, v, 0.6)
                    ops = [dict(o, op=o["op"] + "_into") if not enc and o["op"] in ("str", "bytes") and g.r.random() < 0.4
                           else o for o in ops]
                    inp = encode(s, v)[:f["there"]] + ([9] if f["there"] == n else [])
                    cs.append(ops_case(run(s, enc, ops, inp=[] if enc else inp, script=f["said"],
                                           lim=f["there"] if enc and f["there"] < n else -1,
                                           endm=g.r.choice(["err", "zero" if enc else "eof"]))))
            if f["there"] == n:
                vals.append(val_case(g, *g.r.choice(ms), script=f["said"]))
    ctx.run("fragments", "TraceCoder", cs)
    ctx.run("fragments_values", "TraceValue", vals)


# ------------------------------------- parts coded as a whole amid the message

def data_of(g, v):
    """Serde data for a value."""
    k = v["k"]
    c = [data_of(g, x) for x in v["c"]]
    if k == "option":
        return vrec("some" if c else "none", c=c)
    if k in ("fseq", "vseq"):
        return vrec(g.r.choice(["seq", "tuple"]), c=c)
    if k == "tuple":
        return vrec(g.r.choice(["seq", "tuple", "tuple_struct"]), c=c)
    if k == "struct":
        return vrec("struct", c=c, n=v["n"])
    if k == "enum":
        x = v["c"][0]
        w = g.r.random()
        if x["k"] == "unit" and w < 0.6:
            return vrec("unit_variant", b=v["b"], n=v["n"])
        if x["k"] == "tuple" and w < 0.6:
            return vrec("tuple_variant", b=v["b"], n=v["n"], c=c[0]["c"])
        if x["k"] == "struct" and w < 0.6:
            return vrec("struct_variant", b=v["b"], n=v["n"] + x["n"], c=c[0]["c"])
        return vrec("newtype_variant", b=v["b"], n=v["n"], c=c)
    if k == "unit":
        return vrec(g.r.choice(["unit", "unit_struct"]))
    return dict(v, c=c)


def shape_at(g, s, p, depth, loose=0.12):
    """A shape matching what is at position p, with some of it left open."""
    r = g.r
    if depth == 0 or r.random() < loose:
        return vrec(r.choice(["any", "ignored"]))
    p = target(s, p)
    x = node(s, p)
    k = x["k"]
    go = lambda i: shape_at(g, s, p + (i,), depth - 1, loose)
    if loose and r.random() < 0.1:
        return vrec("newtype_struct", c=[shape_at(g, s, p, depth - 1, loose)])
    if k == "scalar":
        return vrec(k, t=x["t"])
    if k in ("str", "bytes"):
        return vrec(k, t=r.choice(["", "buf"]))
    if k == "unit":
        return vrec(r.choice(["unit", "unit_struct"]))
    if k == "option":
        return vrec(k, c=[go(0)])
    if k == "seq":
        if x["fx"] and r.random() < 0.5:
            return vrec("tuple", c=[go(0) for _ in range(nat(x["ln"]))])
        return vrec("seq", c=[go(0)])
    if k == "tuple":
        return vrec(r.choice(["tuple", "tuple_struct"]), c=[go(i) for i in range(len(x["c"]))])
    if k == "struct":
        return vrec(k, c=[go(i) for i in range(len(x["c"]))], n=x["n"])
    vs = []
    for i, y in enumerate(x["c"]):
        yk = node(s, target(s, p + (i,)))["k"] if legal(s, p + (i,)) else ""
        if yk == "unit" and r.random() < 0.7:
            vs.append(vrec("unit_variant"))
        elif yk in ("tuple", "struct") and depth > 1 and r.random() < 0.6:
            z = None
            while z is None or z["k"] not in (("struct",) if yk == "struct" else ("tuple", "tuple_struct")):
                z = shape_at(g, s, p + (i,), depth - 1, loose)
            vs.append(vrec(yk + "_variant", c=z["c"], n=z["n"]))
        else:
            vs.append(vrec("newtype_variant", c=[go(i)]))
    return vrec("enum", c=vs, n=x["n"])


def deep_pair(g, d):
    """A schema of d levels with a value as deep, which comes by the deepest
    level twice if that is a recurse."""
    r = g.r
    layers = []
    for _ in range(d):
        es, other = scalar(r.choice(SCALARS)), leaf(r.choice(["unit", "str"]))
        ev, n = g.value(es), g.name()
        layers.append(r.choice([
            (option, lambda x: vrec("option", c=[x])),
            (varseq, lambda x: vrec("vseq", c=[x])),
            (lambda s: fixseq(1, s), lambda x: vrec("fseq", c=[x])),
            (lambda s, es=es: tuple_(s, es), lambda x, ev=ev: vrec("tuple", c=[x, ev])),
            (lambda s, es=es: tuple_(es, s), lambda x, ev=ev: vrec("tuple", c=[ev, x])),
            (lambda s, n=n: struct((n, s)), lambda x, n=n: vrec("struct", c=[x], n=[utf(n)])),
            (lambda s, n=n, es=es: struct(("", es), (n + "z", s)), lambda x, n=n, ev=ev: vrec("struct", c=[ev, x], n=[[], utf(n + "z")])),
            (lambda s, n=n, o=other: enum((n, s), (n + "'", o)), lambda x, n=n: vrec("enum", b=[], c=[x], n=[utf(n)])),
            (lambda s, n=n, o=other: enum((n, o), (n + "'", s)), lambda x, n=n: vrec("enum", b=[1], c=[x], n=[utf(n + "'")])),
        ]))
    k = r.choice([0, 0, d + 1, r.randint(1, d + 1), min(d + 1, 256), min(d + 1, 257)])
    if k:
        s, v = option(recurse(k)), vrec("option")
        for _, f in reversed(layers[d + 1 - k:]):
            v = f(v)
        v = vrec("option", c=[v])
    else:
        s = scalar(r.choice(SCALARS))
        v = g.value(s)
    for f, h in reversed(layers):
        s, v = f(s), h(v)
    return s, v


def w_deep_schemas(ctx, *ways):
    """Schemas nested deeply in themselves, which no recurse unrolls."""
    g = SerdeGen(ctx.rng("deep_schemas"))
    r = g.r
    ds = (60, 127, 128, 129, 254, 255, 256, 257) + (() if ctx.quick else (300, 400, 511, 512, 513, 700))
    for way in ways:
        cs = []
        for d in ds:
            for _ in range(1 if ctx.quick else 4):
                s, v = deep_pair(g, d)
                if way == "bytes":
                    m = encode(s, v)
                    for b in (m[:r.randrange(len(m) + 1)], g.mutate(m)):
                        cs.append({"do": "bytes", "s": s, "b": b, "script": g.script(), "endm": r.choice(["eof", "err"])})
                elif way in ("value", "round"):
                    cs.append(val_case(g, s, v, [5]) if way == "value" else val_case(g, s, v, script=[]))
                elif way == "meta":
                    cs.append({"do": "meta", "s": s, "script": g.script(), "endm": "eof", "has_b": False})
                    cs.append(dict(cs[-1], s=recurse(1)))
                    for i in range(d):
                        cs[-1]["s"] = r.choice([option, varseq])(cs[-1]["s"])
                elif way == "calls":
                    for enc in (True, False):
                        ops = calls(enc, v)
                        k = r.randrange(len(ops))
                        ops = ops[:k] + g.noisy(enc, s, ops[k:k + 8], 0.4) + ops[k + 8:]
                        cs.append(ops_case(run(s, enc, ops + [call("unit")], inp=[] if enc else encode(s, v) + [1])))
                else:
                    sh = r.choice([shape_at(g, s, (), 3 * d + 9, 0), shape_at(g, s, (), 3 * d + 9, 0), vrec("any"), vrec("ignored")])
                    cs.append(serde_case(s, data_of(g, v), sh, tail=[5]))
        ctx.run("deep_" + way, {"value": "TraceValue", "bytes": "TraceValue", "round": "TraceRound", "meta": "TraceMeta", "calls": "TraceCoder",
                                "serde": "TraceSerde"}[way], cs)


def mixed_ops(g, enc, s, v, rate, p=()):
    """Calls which code v, where parts are coded by a whole-value call."""
    p = target(s, p)
    if g.r.random() < rate:
        w = g.r.random()
        if enc:
            return [call("dyn", val=v) if w < 0.5 else call("ser", sv=data_of(g, v))]
        if w < 0.25:
            return [call("dyn")]
        if w < 0.5:
            return [call("any")]
        if w < 0.7:
            return [call("skip")]
        sh = shape_at(g, s, p, 5)
        return [call("de", sh=g.loosen(sh, 0.2) if g.r.random() < 0.2 else sh)]
    k = v["k"]
    ops = calls(enc, v)
    if not v["c"]:
        return ops
    # redo with the inner values mixed
    inner = [mixed_ops(g, enc, s, x, rate, p + ({"option": 0, "fseq": 0, "vseq": 0}.get(k, nat(v["b"]) if k == "enum" else i),))
             for i, x in enumerate(v["c"])]
    if k == "option":
        return [ops[0]] + inner[0]
    if k == "enum":
        return ops[:1 if enc else 2] + inner[0]
    before = {"fseq": "begin_seq_elem", "vseq": "begin_seq_elem", "tuple": "begin_tuple_elem", "struct": "begin_struct_field"}[k]
    out = [ops[0]]
    for i, x in enumerate(inner):
        out += [call(before, nm=v["n"][i] if k == "struct" else [])] + x
    return out + [ops[-1]]


def w_mixed(ctx, n, rate=0.3, enc=None):
    g = SerdeGen(ctx.rng("mixed"))
    cs = []
    for i in range(n):
        s = some_schema(g)
        v = g.value(s, Info(s), budget=g.r.choice([8, 14, 25]))
        e = i % 3 == 0 if enc is None else enc
        ops = mixed_ops(g, e, s, v, g.r.choice([0.15, rate, 0.6, 1.0]))
        cs.append(ops_case(run(s, e, ops, inp=[] if e else encode(s, v) + [1, 2, 3], script=g.script(),
                               endm=g.r.choice(["eof", "err"]))))
    ctx.run("mixed", "TraceCoder", cs)


def w_any_bytes(ctx, n):
    """Hostile bytes read self-describing or skipped."""
    g = SerdeGen(ctx.rng("any_bytes"))
    cs = []
    while len(cs) < n:
        s = some_schema(g)
        if Info(s).zero_width_elems():
            continue
        b = sequences(g, s)
        cs.append(serde_case(s, None, g.r.choice([vrec("any"), vrec("ignored"), shape_at(g, s, (), 5)]), b=b, lean=True))
    ctx.run("any_bytes", "TraceSerde", cs)


LEAF_BYTES = {
    "bool": ([[0], [1]], [[2], [255], [128]]),
    "u8": ([[0], [255]], []), "i8": ([[0], [128]], []),
    "u16": ([[0, 0], [255, 254]], []), "i16": ([[0, 128], [1, 2]], []),
    "f32": ([[0, 0, 192, 127], [1, 0, 128, 255]], []), "f64": ([[0] * 6 + [248, 127], [9] * 8], []),
    "u32": ([[0], var_uint((1 << 32) - 1), [0x80, 0]], [var_uint(1 << 32), [0x80] * 19 + [0]]),
    "u64": ([var_uint((1 << 64) - 1), [0x81, 0]], [var_uint(1 << 64), [255] * 19 + [0]]),
    "u128": ([var_uint((1 << 128) - 1), [5]], [[0x80] * 19 + [1]]),
    "i32": ([[0], [0x40]], [[0x80] + [0x80] * 4 + [0x7f], [0xc0] * 19 + [0]]),
    "i64": ([[0x7f], [0x40]], [[0x80] + [0x80] * 9 + [0x7f]]),
    "i128": ([[0x7f], [0xbf, 1]], [[0x80] * 19 + [1]]),
    "char": ([[0x61], var_uint(0x10ffff), var_uint(0xe000)], [var_uint(0x110000), var_uint(0xd800), var_uint(1 << 40)]),
    "str": ([[0], [1, 0x61], [2, 0xc3, 0xa9]], [[1, 0x80], [3, 0xed, 0xa0, 0x80], [2, 0x61, 0xff]]),
    "bytes": ([[0], [2, 0xff, 0]], []),
    "option": ([[0], [1, 7]], [[2, 7], [255]]),
    "enum": ([[0], [2, 7]], [[3, 7], [255, 7]]),
}


def w_any_leaf(ctx):
    """Each kind of leaf in each kind of container, some element of it good or
    bad or cut off, read by type, self-describing or skipped."""
    g = SerdeGen(ctx.rng("any_leaf"))
    r = g.r
    cs = []
    for t, (good, bad) in LEAF_BYTES.items():
        x = (option(scalar("u8")) if t == "option" else leaf(t) if t in ("str", "bytes") else
             enum(("a", leaf("unit")), ("b", leaf("bytes")), ("c", scalar("u8"))) if t == "enum" else scalar(t))
        boxes = [lambda e: (varseq(x), [len(e)] + sum(e, [])),
                 lambda e: (fixseq(len(e), x), sum(e, [])),
                 lambda e: (tuple_(*[x] * len(e)), sum(e, [])),
                 lambda e: (struct(*[("f%d" % i, x) for i in range(len(e))]), sum(e, [])),
                 lambda e: (varseq(option(x)), [len(e)] + sum([[1] + i for i in e], [])),
                 lambda e: (varseq(tuple_(x, x)), [len(e)] + sum([i + i for i in e], [])),
                 lambda e: (varseq(fixseq(2, x)), [len(e)] + sum([i + good[0] for i in e], [])),
                 lambda e: (option(varseq(x)), [1, len(e)] + sum(e, [])),
                 lambda e: (enum(("p", leaf("unit")), ("q", tuple_(*[x] * len(e)))), [1] + sum(e, []))]
        for i, box in enumerate(boxes):
            for y in [None] + bad + ["cut"]:
                for sh in ("any", "ignored", ""):
                    if ctx.quick and (sh == "" or y is None) and r.random() < 0.5:
                        continue
                    e = [r.choice(good) for _ in range(r.choice([1, 2, 3, 5]))]
                    if y not in (None, "cut"):
                        e[r.randrange(len(e))] = y
                    s, b = box(e)
                    b = b + [9]
                    if y == "cut":
                        b = b[:r.randrange(len(b) - 1)]
                    s = tuple_(s, scalar("u8"))
                    shape = vrec("tuple", c=[vrec(sh) if sh else shape_at(g, s, (0,), 6), vrec("scalar", t="u8")])
                    cs.append(serde_case(s, None, shape, b=b, lean=True))
    ctx.run("any_leaf", "TraceSerde", cs)


# ------------------------------------------------------------------------ serde

def w_serde(ctx, n):
    g = SerdeGen(ctx.rng("serde"))
    cs = []
    for i in range(n):
        sh, s, info, d = g.triple(g.r.choice([3, 6, 10, 14]), budget=g.r.choice([6, 14, 25]))
        cs.append(serde_case(s, g.humanize(d), g.humanize(sh), tail=[1, 2, 3][:i % 4], match=True))
    # every scalar's boundaries
    for t in SCALARS:
        vs = boundary_values(t)
        for i in range(0, len(vs), 100):
            cs.append(serde_case(varseq(scalar(t)), vrec("seq", c=[vrec("scalar", t, neg, b) for neg, b in vs[i:i + 100]]),
                                 vrec("seq", c=[vrec("scalar", t=t)]), match=True))
    chars = [c for s, c in text_lists(64 if ctx.quick else 8)]
    for d in chars:
        if d["k"] == "str":
            cs.append(serde_case(leaf("str"), d, vrec("str", t=g.r.choice(["", "buf"])), match=True))
        else:
            k = d["c"][0]["k"]
            cs.append(serde_case(varseq(scalar("char") if k == "scalar" else leaf(k)), vrec("seq", c=d["c"]),
                                 vrec("seq", c=[vrec(k, t=d["c"][0]["t"])]), match=True))
    ctx.run("serde", "TraceSerde", cs)


def w_serde_big(ctx):
    """Long and deep data."""
    g = SerdeGen(ctx.rng("serde_big"))
    deep = {"option": vrec("option", c=[vrec("recurse", b=[1])]),
            "struct": vrec("struct", c=[vrec("scalar", t="u8"), vrec("option", c=[vrec("recurse", b=[2])])], n=[utf("v"), utf("next")]),
            "enum": vrec("enum", c=[vrec("newtype_variant", c=[vrec("scalar", t="u8")]),
                                    vrec("newtype_variant", c=[vrec("seq", c=[vrec("recurse", b=[2])])])], n=[utf("leaf"), utf("node")])}
    cs = []
    for s, v in big_values(g, False):
        if len(s["c"]) > 2000 or (len(v["b"]) > 2000 and g.r.random() < 0.7):
            continue
        own = deep[s["k"]] if any(node(s, p)["k"] == "recurse" for p in paths(s)) else shape_at(g, s, (), 30)
        for sh in (own, vrec(g.r.choice(["any", "ignored"]))):
            cs.append(serde_case(s, data_of(g, v), sh, tail=[5]))
    S8, sc = scalar("u8"), vrec("scalar", t="u8")
    for n in (127, 128, 255, 256, 257, 600):
        d = vrec("map", c=[vrec("scalar", "u8", b=le(i % 251)) for i in range(2 * n)])
        cs.append(serde_case(varseq(tuple_(S8, S8)), d, vrec("map", c=[vrec("entry", c=[sc, sc])]), tail=[5]))
        cs.append(serde_case(varseq(tuple_(S8, S8)), d, vrec("seq", c=[vrec("tuple", c=[sc, sc])]), tail=[5]))
    ctx.run("serde_big", "TraceSerde", cs)


def w_own_errors(ctx, n):
    """Errors raised by data and visitors themselves, and streams which fail
    under them."""
    g = SerdeGen(ctx.rng("own_errors"))
    cs = []
    for i in range(n):
        sh, s, info, d = g.triple(g.r.choice([1, 3, 6, 10]), budget=g.r.choice([6, 14]))
        d, sh = g.humanize(d), g.humanize(sh)
        cs.append(serde_case(s, g.failing(d, True), sh))
        cs.append(serde_case(s, d, g.failing(sh, False), tail=[1]))
        v = g.value(s, Info(s), budget=8)
        m = encode(s, v)
        if m and len(m) < 60 and not Info(s).zero_width_elems():
            sh = g.humanize(shape_at(g, s, (), 6))
            for k in range(len(m)) if len(m) < 8 else g.r.sample(range(len(m)), 8):
                cs.append(dict(serde_case(s, None, sh, b=m[:k]), cut=True, endm=g.r.choice(["err", "eof"]),
                               script=g.script()))
    ctx.run("own_errors", "TraceSerde", cs)
    ops = []
    while len(ops) < n:
        s = some_schema(g)
        v = g.value(s, Info(s), budget=g.r.choice([4, 8, 14]))
        e = len(ops) % 2 == 0
        o = mixed_ops(g, e, s, v, g.r.choice([0.3, 1.0]))
        js = [j for j, x in enumerate(o) if x["op"] in ("ser", "de")]
        if not js:
            continue
        j = g.r.choice(js)
        key = "sv" if e else "sh"
        o[j] = dict(o[j], **{key: g.failing(o[j][key], e)})
        m = encode(s, v)
        k = g.r.randrange(len(m) + 1) if g.r.random() < 0.3 else -1
        ops.append(ops_case(run(s, e, o, inp=[] if e else m[:k] if k >= 0 else m, lim=k if e else -1, script=g.script(),
                                endm="err")))
    ctx.run("own_errors_calls", "TraceCoder", ops)


def w_serde_empty(ctx):
    """Empty seqs, maps, tuples and structs at every kind of position."""
    g = SerdeGen(ctx.rng("empty"))
    E = [(vrec("seq", c=[vrec("scalar", t="u8")]), varseq(scalar("u8")), vrec("seq")),
         (vrec("seq", c=[vrec("scalar", t="u8")]), fixseq(0, scalar("u8")), vrec("seq")),
         (vrec("seq", c=[vrec("scalar", t="u8")]), fixseq(0, scalar("u8")), vrec("seq", t="none")),
         (vrec("seq", c=[vrec("scalar", t="u8")]), tuple_(), vrec("seq")),
         (vrec("seq", c=[vrec("scalar", t="u8")]), leaf("unit"), vrec("seq")),
         (vrec("map", c=[vrec("entry", c=[vrec("str"), vrec("scalar", t="u8")])]),
          varseq(tuple_(leaf("str"), scalar("u8"))), vrec("map")),
         (vrec("tuple"), tuple_(), vrec("tuple")), (vrec("tuple"), leaf("unit"), vrec("tuple")),
         (vrec("tuple"), fixseq(0, leaf("str")), vrec("tuple")), (vrec("tuple"), varseq(leaf("str")), vrec("tuple")),
         (vrec("tuple_struct"), tuple_(), vrec("tuple_struct")), (vrec("tuple_struct"), leaf("unit"), vrec("tuple_struct")),
         (vrec("struct"), srec("struct"), vrec("struct")), (vrec("unit_struct"), leaf("unit"), vrec("unit_struct")),
         (vrec("unit"), leaf("unit"), vrec("unit")),
         (vrec("option", c=[vrec("unit")]), option(leaf("unit")), vrec("none"))]
    V = [("unit_variant", leaf("unit")), ("tuple_variant", tuple_()), ("tuple_variant", leaf("unit")),
         ("tuple_variant", fixseq(0, scalar("u8"))), ("tuple_variant", varseq(scalar("u8"))), ("struct_variant", srec("struct"))]
    for k, s in V:
        E.append((vrec("enum", c=[vrec(k)], n=[utf("a")]), enum(("a", s)), vrec(k, n=[utf("a")])))
    u = (vrec("scalar", t="u16"), scalar("u16"), vrec("scalar", "u16", b=[1]))
    cs = []

    def add(x):
        cs.append(serde_case(x[1], x[2], x[0], tail=[9], match=True))
    a, b = utf("a"), utf("b")
    for e in E:
        add(e)
        for x, y in ((e, u), (u, e), (e, e)):
            t = lambda k: (vrec(k, c=[x[0], y[0]]), tuple_(x[1], y[1]), vrec(k, c=[x[2], y[2]]))
            st = (vrec("struct", c=[x[0], y[0]], n=[a, b]), srec("struct", c=[x[1], y[1]], n=[a, b]), vrec("struct", c=[x[2], y[2]], n=[a, b]))
            mp = (vrec("map", c=[vrec("entry", c=[x[0], y[0]])]), varseq(tuple_(x[1], y[1])), vrec("map", c=[x[2], y[2]] * 2))
            tv = (vrec("enum", c=[vrec("tuple_variant", c=[x[0], y[0]])], n=[a]), srec("enum", c=[tuple_(x[1], y[1])], n=[a]),
                  vrec("tuple_variant", c=[x[2], y[2]], n=[a]))
            sv = (vrec("enum", c=[vrec("struct_variant", c=[x[0], y[0]], n=[a, b])], n=[a]),
                  srec("enum", c=[srec("struct", c=[x[1], y[1]], n=[a, b])], n=[a]),
                  vrec("struct_variant", c=[x[2], y[2]], n=[a, a, b]))
            for z in (t("tuple"), t("tuple_struct"), st, mp, tv, sv):
                add(z)
                add((vrec("tuple", c=[z[0], u[0]]), tuple_(z[1], u[1]), vrec("tuple", c=[z[2], u[2]])))
        for w in ((vrec("option", c=[e[0]]), option(e[1]), vrec("some", c=[e[2]])),
                  (vrec("newtype_struct", c=[e[0]]), e[1], vrec("newtype_struct", c=[e[2]])),
                  (vrec("seq", c=[e[0]]), varseq(e[1]), vrec("seq", c=[e[2]] * 3)),
                  (vrec("seq", c=[e[0]]), fixseq(2, e[1]), vrec("seq", c=[e[2]] * 2)),
                  (vrec("enum", c=[vrec("newtype_variant", c=[e[0]])], n=[a]), srec("enum", c=[e[1]], n=[a]),
                   vrec("newtype_variant", c=[e[2]], n=[a]))):
            add(w)
            add((vrec("tuple", c=[w[0], u[0]]), tuple_(w[1], u[1]), vrec("tuple", c=[w[2], u[2]])))
    ctx.run("serde_empty", "TraceSerde", cs)


def w_serde_pairs(ctx, outer=0):
    """Data of every kind at every kind of position; outer: how many times
    more, with yet something random around."""
    g = SerdeGen(ctx.rng("pairs"))
    a, b, z = utf("a"), utf("b"), utf("z")
    s8, u = scalar("u8"), leaf("unit")
    S8, s8s, U = vrec("scalar", "u8", b=[3]), vrec("scalar", t="u8"), vrec("unit")
    str_ = (vrec("str"), leaf("str"), vrec("str", b=utf("é")))
    E = [(s8s, s8, S8), (vrec("scalar", t="i64"), scalar("i64"), vrec("scalar", "i64", True, le(70000))),
         (vrec("scalar", t="f32"), scalar("f32"), vrec("scalar", "f32", b=[0, 0, 192, 127])),
         (vrec("scalar", t="u128"), scalar("u128"), vrec("scalar", "u128", b=[255] * 16)),
         (vrec("scalar", t="bool"), scalar("bool"), vrec("scalar", "bool", b=[1])),
         (vrec("scalar", t="char"), scalar("char"), vrec("scalar", "char", b=le(0x1f600))),
         str_, (vrec("str", t="buf"), leaf("str"), vrec("str")), (vrec("bytes"), leaf("bytes"), vrec("bytes", b=[0, 255])),
         (vrec("bytes", t="buf"), leaf("bytes"), vrec("bytes")), (vrec("unit"), u, U), (vrec("unit_struct"), u, vrec("unit_struct")),
         (vrec("option", c=[s8s]), option(s8), vrec("none")), (vrec("option", c=[s8s]), option(s8), vrec("some", c=[S8])),
         (vrec("option", c=[vrec("unit")]), option(u), vrec("some", c=[U])),
         (vrec("option", c=[vrec("option", c=[vrec("unit")])]), option(option(u)), vrec("some", c=[vrec("none")])),
         (vrec("newtype_struct", c=[str_[0]]), leaf("str"), vrec("newtype_struct", c=[str_[2]])),
         (vrec("hr", c=[str_[0], s8s]), s8, vrec("hr", c=[str_[2], S8])),
         (vrec("newtype_struct", c=[vrec("unit_struct")]), u, vrec("newtype_struct", c=[vrec("unit_struct")]))]
    for x in ((s8s, s8, S8), str_, (vrec("unit"), u, U)):
        for i in (0, 1, 2):
            for sch in (varseq(x[1]), fixseq(i, x[1]), tuple_(*[x[1]] * i)) + (() if i else (u,)):
                E.append((vrec("seq", c=[x[0]]), sch, vrec("seq", c=[x[2]] * i)))
                E.append((vrec("tuple", c=[x[0]] * i), sch, vrec("tuple", c=[x[2]] * i)))
                E.append((vrec("tuple_struct", c=[x[0]] * i), sch, vrec("tuple_struct", c=[x[2]] * i)))
                E.append((vrec("enum", c=[vrec("unit_variant"), vrec("tuple_variant", c=[x[0]] * i)], n=[a, b]),
                          srec("enum", c=[u, sch], n=[a, b]), vrec("tuple_variant", b=[1], n=[b], c=[x[2]] * i)))
                if sch["k"] != "seq" or sch["fx"]:
                    E.append((vrec("seq", c=[x[0]]), sch, vrec("seq", t="none", c=[x[2]] * i)))
            E.append((vrec("map", c=[vrec("entry", c=[s8s, x[0]])]), varseq(tuple_(s8, x[1])), vrec("map", c=[S8, x[2]] * i)))
            E.append((vrec("map", c=[vrec("entry", c=[x[0], s8s])]), varseq(tuple_(x[1], s8)), vrec("map", c=[x[2], S8] * i)))
        E.append((vrec("enum", c=[vrec("unit_variant"), vrec("newtype_variant", c=[x[0]])], n=[a, b]),
                  srec("enum", c=[u, x[1]], n=[a, b]), vrec("newtype_variant", b=[1], n=[b], c=[x[2]])))
        E.append((vrec("enum", c=[vrec("unit_variant"), vrec("newtype_variant", c=[x[0]])], n=[a, b]),
                  srec("enum", c=[u, x[1]], n=[a, b]), vrec("unit_variant", n=[a])))
    o8 = vrec("option", c=[s8s])
    for bits in range(27):
        k = [bits % 3, bits // 3 % 3, bits // 9]
        d = [[S8, vrec("skip"), vrec("none")][i] if i else vrec("some", c=[S8]) for i in k]
        st = srec("struct", c=[option(s8)] * 3, n=[a, b, z])
        E.append((vrec("struct", c=[o8] * 3, n=[a, b, z]), st, vrec("struct", c=d, n=[a, b, z])))
        E.append((vrec("enum", c=[vrec("struct_variant", c=[o8] * 3, n=[a, b, z])], n=[z]), srec("enum", c=[st], n=[z]),
                  vrec("struct_variant", n=[z, a, b, z], c=d)))
    E.append((vrec("struct", c=[s8s, o8, s8s], n=[a, b, z]), srec("struct", c=[s8, option(s8), s8], n=[a, b, z]),
              vrec("struct", c=[S8, vrec("skip"), S8], n=[a, b, z])))
    E.append((vrec("enum", c=[vrec("struct_variant", c=[s8s, o8, s8s], n=[a, b, z])], n=[z]),
              srec("enum", c=[srec("struct", c=[s8, option(s8), s8], n=[a, b, z])], n=[z]),
              vrec("struct_variant", n=[z, a, b, z], c=[S8, vrec("skip"), S8])))

    def around(e):
        sh, s, d = e
        for x, y in ((e, (s8s, s8, S8)), (str_, e)):
            cs, ss, ds = zip(x, y)
            yield vrec("tuple", c=cs), tuple_(*ss), vrec("tuple", c=ds)
            yield vrec("tuple_struct", c=cs), tuple_(*ss), vrec("tuple_struct", c=ds)
            yield vrec("struct", c=cs, n=[a, b]), srec("struct", c=ss, n=[a, b]), vrec("struct", c=ds, n=[a, b])
            yield vrec("map", c=[vrec("entry", c=cs)]), varseq(tuple_(*ss)), vrec("map", c=ds * 2)
            for o in (0, 1):
                two = lambda q, w: [q, w] if o == 0 else [w, q]
                yield (vrec("enum", c=two(vrec("tuple_variant", c=cs), vrec("unit_variant")), n=[a, b]),
                       srec("enum", c=two(tuple_(*ss), u), n=[a, b]), vrec("tuple_variant", b=le(o), c=ds, n=[[a, b][o]]))
                yield (vrec("enum", c=two(vrec("struct_variant", c=cs, n=[b, a]), vrec("unit_variant")), n=[a, b]),
                       srec("enum", c=two(srec("struct", c=ss, n=[b, a]), u), n=[a, b]),
                       vrec("struct_variant", b=le(o), c=ds, n=[[a, b][o], b, a]))
        yield vrec("option", c=[sh]), option(s), vrec("some", c=[d])
        yield vrec("newtype_struct", c=[sh]), s, vrec("newtype_struct", c=[d])
        yield vrec("seq", c=[sh]), varseq(s), vrec("seq", c=[d] * 2)
        yield vrec("seq", c=[sh]), fixseq(2, s), vrec("seq", c=[d] * 2)
        yield vrec("seq", c=[sh]), tuple_(s, s, s), vrec("seq", c=[d] * 3)
        yield vrec("tuple", c=[sh] * 2), varseq(s), vrec("tuple", c=[d] * 2)
        yield (vrec("enum", c=[vrec("unit_variant"), vrec("newtype_variant", c=[sh])], n=[a, b]), srec("enum", c=[u, s], n=[a, b]),
               vrec("newtype_variant", b=[1], c=[d], n=[b]))
    pairs = [w for e in E for w in [e] + list(around(e))]
    cs = [serde_case(x[1], x[2], x[0], tail=[9], match=True) for x in pairs]
    for _ in range(outer):
        for x in pairs:
            x = g.r.choice(list(around(x)))
            cs.append(serde_case(x[1], x[2], x[0], tail=[9], match=True))
    ctx.run("serde_pairs", "TraceSerde", cs)


def w_mismatch(ctx, n):
    g = SerdeGen(ctx.rng("mismatch"))
    cs = []
    while len(cs) < n:
        sh, s, info, d = g.triple(g.r.choice([2, 4, 7, 12]))
        w = g.r.randrange(4)
        if w == 0:
            s2 = g.off_schema(s)
            if not unproductive_loop(s2):
                cs.append(serde_case(s2, d))
        elif w == 1:
            cs.append(serde_case(s, g.off_data(d)))
        elif w == 2:
            o = g.off_shape(sh) if g.r.random() < 0.8 else sh
            o = g.loosen(o) if g.r.random() < 0.5 else o
            if shape_legal(o):
                cs.append(serde_case(s, d, o, tail=[1]))
        else:
            o = g.off_shape(sh) if g.r.random() < 0.8 else sh
            o = g.loosen(o) if g.r.random() < 0.5 else o
            # bytes and not only of data of the right shape
            if shape_legal(o) and not info.zero_width_elems():
                cs.append(serde_case(s, None, o, b=sequences(g, s)))
    ctx.run("mismatch", "TraceSerde", cs)


def w_near_misses(ctx):
    """All pairs out of a collection of alike data, shapes and schemas."""
    a, b, z = utf("a"), utf("b"), utf("z")
    U, S8, N = vrec("unit"), vrec("scalar", "u8", b=[3]), vrec("none")
    data = [U, S8, N, vrec("some", c=[U]), vrec("some", c=[S8]), vrec("scalar", "u16", b=[3]), vrec("scalar", "i8", b=[3]),
            vrec("scalar", "bool", b=[1]), vrec("str", b=[65]), vrec("bytes", b=[65]), vrec("unit_struct"),
            vrec("newtype_struct", c=[S8]), vrec("newtype_struct", c=[U])]
    for c in ([], [S8], [S8, S8], [U], [U, U], [S8, U], [U, S8], [S8, S8, S8], [N], [U, U, U]):
        for k in ("tuple", "tuple_struct"):
            data.append(vrec(k, c=c))
        for t in ("", "none", "less", "more"):
            data.append(vrec("seq", t=t, c=c))
        for n in ([a, b, z][:len(c)], [b, a, z][:len(c)], [a, a, a][:len(c)]):
            data.append(vrec("struct", c=c, n=n))
        for o in (0, 1):
            data.append(vrec("tuple_variant", b=le(o), n=[[a, b][o]], c=c))
            data.append(vrec("struct_variant", b=le(o), n=[[a, b][o]] + [a, b, z][:len(c)], c=c))
    for o in (0, 1, 2, 256):
        for nm in (a, b):
            data.append(vrec("unit_variant", b=le(o), n=[nm]))
            data.append(vrec("newtype_variant", b=le(o), n=[nm], c=[S8]))
            data.append(vrec("newtype_variant", b=le(o), n=[nm], c=[U]))
    for c in ([], [S8, S8], [S8, U], [S8, S8, S8, S8]):
        for t in ("", "none", "less", "more"):
            data.append(vrec("map", t=t, c=c))
    for c in ([vrec("skip")], [S8, vrec("skip")], [vrec("skip"), S8], [vrec("skip"), vrec("skip")]):
        data.append(vrec("struct", c=c, n=[a, b][:len(c)]))
        data.append(vrec("struct_variant", b=[], n=[a] + [a, b][:len(c)], c=c))
    u, s8 = leaf("unit"), scalar("u8")
    schemas = [u, s8, scalar("u16"), scalar("bool"), leaf("str"), leaf("bytes"), option(u), option(s8), varseq(s8), varseq(u),
               varseq(tuple_(s8, s8)), varseq(tuple_(s8, u)), varseq(tuple_(s8))]
    schemas += [fixseq(i, x) for i in (0, 1, 2, 3) for x in (u, s8)]
    for c in ([], [s8], [s8, s8], [u], [u, u], [s8, u], [u, s8], [option(s8)], [s8, option(u)], [s8, s8, s8]):
        schemas.append(tuple_(*c))
        schemas.append(srec("struct", c=c, n=[a, b, z][:len(c)]))
    schemas.append(srec("struct", c=[s8, s8], n=[b, a]))
    schemas.append(srec("struct", c=[s8, s8], n=[a, a]))
    for x in (u, s8, tuple_(), tuple_(s8), tuple_(s8, s8), srec("struct"), srec("struct", c=[s8], n=[a]),
              srec("struct", c=[option(u)], n=[a]), varseq(s8), fixseq(1, u)):
        schemas.append(srec("enum", c=[x], n=[a]))
        schemas.append(srec("enum", c=[x, u], n=[a, b]))
        schemas.append(srec("enum", c=[u, x], n=[a, b]))
    cs = [serde_case(s, d) for s in schemas for d in data]
    if ctx.quick:
        cs = SerdeGen(ctx.rng("near")).r.sample(cs, 4000)
    ctx.run("near_misses", "TraceSerde", cs)
    # deserializing: shapes against bytes
    sc = vrec("scalar", t="u8")
    shapes = [vrec("unit"), sc, vrec("scalar", t="u16"), vrec("scalar", t="i8"), vrec("scalar", t="bool"), vrec("str"), vrec("bytes"),
              vrec("unit_struct"), vrec("option", c=[vrec("unit")]), vrec("option", c=[sc]), vrec("newtype_struct", c=[sc]),
              vrec("seq", c=[sc]), vrec("seq", c=[vrec("unit")])]
    for c in ([], [sc], [sc, sc], [vrec("unit")], [sc, vrec("unit")], [vrec("unit")] * 2, [sc] * 3):
        shapes += [vrec("tuple", c=c), vrec("tuple_struct", c=c), vrec("struct", c=c, n=[a, b, z][:len(c)])]
        if len(c) == 2:
            shapes += [vrec("struct", c=c, n=[b, a]), vrec("map", c=[vrec("entry", c=c)])]
        for v in ([vrec("tuple_variant", c=c)], [vrec("struct_variant", c=c, n=[a, b, z][:len(c)])],
                  [vrec("unit_variant"), vrec("tuple_variant", c=c)]):
            shapes.append(vrec("enum", c=v, n=[a, b][:len(v)]))
    for v in (["unit_variant"], ["newtype_variant"], ["unit_variant", "unit_variant"], ["newtype_variant", "unit_variant"]):
        for names in ([a, b], [b, a]):
            shapes.append(vrec("enum", c=[vrec(k, c=[sc] if k == "newtype_variant" else []) for k in v], n=names[:len(v)]))
    loose = [dict(x, t=t) for x in shapes for t in ("loose", "stop") if x["k"] in LOOSE]
    loose += [dict(x, c=[dict(y, t=t) if y["k"] in LOOSE else y for y in x["c"]])
              for x in shapes for t in ("loose", "stop") if x["k"] == "enum"]
    inputs = [[], [0], [1], [1, 1], [2, 1, 1], [0, 1], [1, 0, 3], [2, 1, 1, 1, 1], [3, 1, 1, 1]]
    for name, ss in (("near_misses_de", shapes), ("near_misses_loose", loose)):
        cs = [serde_case(s, None, sh, b=i) for s in schemas for sh in ss for i in inputs]
        cs = SerdeGen(ctx.rng(name)).r.sample(cs, 5000 if ctx.quick else min(len(cs), 40000))
        ctx.run(name, "TraceSerde", cs)


BASE_NAMES = ["a", "A", "value", "fooBar", "foo_bar", "FOO", "type", "x1", "", "é", "ß", "İ", "名前", "a b", "a.b", "n" * 130,
              "nl\n", "with\0nul", "r#in", "_"]


def w_serde_all(ctx, fits, limit=None):
    """The data and schemas of GenSerde.tla: what fits (and comes back), or everything."""
    out = ctx.model("serde_model", "GenSerde", "GenSerde.cfg" if ctx.quick else "GenSerde_thorough.cfg")
    pairs, catalog = [], None
    for line in out.split("\n"):
        if line.startswith('"@D'):
            pairs.append(json.loads(json.loads(line)[2:]))
        elif line.startswith('"@C'):
            catalog = json.loads(json.loads(line)[2:])
    if not pairs or not catalog:
        raise ToolError("no data from the serde model")
    pairs.sort(key=lambda p: json.dumps(p, sort_keys=True))
    g = SerdeGen(ctx.rng("serde_all"))
    cs = []
    for p in pairs:
        s, d = catalog[p["i"] - 1], p["d"]
        if not p["sh"]:
            if not fits:
                cs.append(serde_case(s, d))
            continue
        cs.append(serde_case(s, d, p["sh"][0], tail=[7]))
        if fits:
            cs.append(serde_case(s, d, vrec(g.r.choice(["any", "ignored"]))))
        else:
            # read as something else
            other = g.r.choice(pairs)
            if other["sh"]:
                cs.append(serde_case(s, d, other["sh"][0], tail=[1, 0, 1]))
    if limit and len(cs) > limit:
        cs = g.r.sample(cs, limit)
    ctx.run("serde_all", "TraceSerde", cs)


def w_near_names(ctx):
    """Names much like the ones needed, of fields and variants: by calls, and
    by serde."""
    S8, s8, sc = vrec("scalar", "u8", b=[3]), scalar("u8"), vrec("scalar", t="u8")
    z = utf("zz")
    ops, sd = [], []
    for x in map(utf, BASE_NAMES):
        st, en = srec("struct", c=[s8, s8], n=[z, x]), srec("enum", c=[s8, s8], n=[z, x])
        su = srec("enum", c=[leaf("unit"), leaf("unit")], n=[z, x])
        vs = [y for y in near_names(x) if y != z]
        fs = [call("begin_struct_field", nm=y) for y in vs + [x]]
        es = [call("begin_enum", ln=[1], nm=y) for y in vs + [x]]
        ds = [call("begin_enum_variant", nm=y) for y in vs + [x]]
        for enc in (True, False):
            b = [] if enc else [1, 2]
            ops.append(ops_case(run(st, enc, [call("begin_struct"), call("begin_struct_field", nm=z), call("scalar", "u8", b=[1])]
                                    + fs + [call("scalar", "u8", b=[2]), call("finish_struct")], inp=b)))
            ops.append(ops_case(run(en, enc, (es if enc else [call("begin_enum")] + ds) + [call("scalar", "u8", b=[2])], inp=b)))
        for y in vs:
            sd.append(serde_case(st, vrec("struct", c=[S8, S8], n=[z, y])))
            sd.append(serde_case(st, None, vrec("struct", c=[sc, sc], n=[z, y]), b=[1, 2]))
            sd.append(serde_case(en, vrec("newtype_variant", b=[1], n=[y], c=[S8])))
            sd.append(serde_case(en, None, vrec("enum", c=[vrec("newtype_variant", c=[sc])] * 2, n=[z, y]), b=[1, 2]))
            sd.append(serde_case(su, vrec("unit_variant", b=[1], n=[y])))
            sd.append(serde_case(su, None, vrec("enum", c=[vrec("unit_variant")] * 2, n=[z, y]), b=[1, 2]))
            for k, i in (("struct_variant", st), ("tuple_variant", tuple_(s8, s8))):
                e = srec("enum", c=[i, i], n=[z, x])
                n = [z, x] if k == "struct_variant" else []
                sd.append(serde_case(e, vrec(k, b=[1], n=[y] + n, c=[S8, S8])))
                sd.append(serde_case(e, None, vrec("enum", c=[vrec(k, c=[sc, sc], n=n)] * 2, n=[z, y]), b=[1, 2, 3]))
            e = srec("enum", c=[st, st], n=[z, x])
            sd.append(serde_case(e, vrec("struct_variant", b=[1], n=[x, z, y], c=[S8, S8])))
            sd.append(serde_case(e, None, vrec("enum", c=[vrec("struct_variant", c=[sc, sc], n=[z, y])] * 2, n=[z, x]), b=[1, 2, 3]))
    ctx.run("near_names", "TraceCoder", ops)
    ctx.run("near_names_serde", "TraceSerde", sd)


def w_aliases(ctx):
    """Lengths, ordinals and levels which equal the right ones in their low bits
    only, by calls and by serde."""
    U, S8, s8, u = vrec("unit"), vrec("scalar", "u8", b=[3]), scalar("u8"), leaf("unit")
    elem, fin = call("begin_seq_elem"), call("finish_seq")
    far = [2 ** k for k in (7, 8, 15, 16, 24, 31, 32, 48, 62, 63)]
    ops, sd = [], []

    def both(s, calls_, inp=(), enc=(True, False)):
        for e in enc:
            ops.append(ops_case(run(s, e, [dict(c) for c in calls_(e)], inp=[] if e else inp)))

    for n in (0, 1, 2):
        # the right length at last; then all that it allows, and one more
        right = [call("begin_fixed_len_seq", ln=le(n))] + [elem, call("unit")] * n
        wrong = [call("begin_fixed_len_seq", ln=le(n + x)) for x in far]
        both(fixseq(n, u), lambda e: wrong + right + [elem, fin])
        for x in far:
            both(fixseq(n + x, u), lambda e: right + [fin])
            both(fixseq(n + x, u), lambda e: [call("begin_fixed_len_seq", ln=le(n + x))] + [elem, call("unit")] * n + [fin, elem, fin])
            both(varseq(u), lambda e: [call("begin_var_len_seq", ln=le(n + x))] + [elem, call("unit")] * n + [fin, elem, fin],
                 inp=var_uint(n + x))
            both(leaf("bytes"), lambda e: [call("bytes")], inp=var_uint(n + x) + [1] * n, enc=[False])
            both(leaf("str"), lambda e: [call("str")], inp=var_uint(n + x) + [65] * n, enc=[False])
        en = enum(*[("v%d" % i, u) for i in range(n + 1)])
        ords = [call("begin_enum", ln=le(n + x), nm=utf("v%d" % n)) for x in far]
        both(en, lambda e: ords + [call("begin_enum", ln=le(n), nm=utf("v%d" % n)), call("unit")], enc=[True])
        if n:
            # levels; the right one comes first, since a wrong one breaks the coder
            for x in [0] + far:
                for s in (option(tuple_(s8, option(recurse(2 + n - 1 + x)))) if n == 2 else option(tuple_(s8, option(recurse(2 + x)))),
                          tuple_(option(recurse(n + x)))):
                    for e in (True, False):
                        some = call("begin_some" if e else "begin_option")
                        top = [some] if s["k"] == "option" else []
                        cs = top + [call("begin_tuple"), call("begin_tuple_elem")]
                        cs += [call("scalar", "u8", b=[1]), call("begin_tuple_elem")] if top else []
                        cs += [some, call("begin_tuple"), call("begin_tuple_elem"), call("none" if e else "begin_option"),
                               call("finish_tuple")]
                        ops.append(ops_case(run(s, e, cs, inp=[] if e else [1] * 4 + [0] * 4)))
        # the same by serde
        for x in far:
            for k in ("seq", "tuple", "tuple_struct"):
                sd.append(serde_case(fixseq(n + x, u), vrec(k, c=[U] * n)))
                sd.append(serde_case(fixseq(n + x, u), None, vrec(k, c=[vrec("unit")] * (1 if k == "seq" else n)), b=[])
                          if k != "seq" else serde_case(fixseq(n + x, s8), None, vrec(k, c=[vrec("scalar", t="u8")]), b=[1] * n))
                if k != "seq":
                    sd.append(serde_case(varseq(u), None, vrec(k, c=[vrec("unit")] * n), b=var_uint(n + x)))
            sd.append(serde_case(varseq(s8), None, vrec("seq", c=[vrec("scalar", t="u8")]), b=var_uint(n + x) + [1] * n))
            sd.append(serde_case(varseq(tuple_(s8, s8)), None, vrec("map", c=[vrec("entry", c=[vrec("scalar", t="u8")] * 2)]),
                                 b=var_uint(n + x) + [1, 2] * n))
            if n + x < 2 ** 32:
                for v in (vrec("unit_variant", b=le(n + x), n=[utf("v%d" % n)]),
                          vrec("newtype_variant", b=le(n + x), n=[utf("v%d" % n)], c=[U]),
                          vrec("tuple_variant", b=le(n + x), n=[utf("v%d" % n)], c=[]),
                          vrec("struct_variant", b=le(n + x), n=[utf("v%d" % n)], c=[])):
                    sd.append(serde_case(en, v))
    # many elements, where the lengths differ by a power of two
    for n in (128, 256, 257, 258):
        for m in {n % 128, n % 256, n - 1, n + 1}:
            sd.append(serde_case(tuple_(*[s8] * n), vrec("tuple", c=[S8] * m)))
            sd.append(serde_case(fixseq(n, s8), vrec("seq", c=[S8] * m)))
            sd.append(serde_case(tuple_(*[s8] * n), None, vrec("tuple", c=[vrec("scalar", t="u8")] * m), b=[1] * n))
            sd.append(serde_case(varseq(s8), None, vrec("tuple", c=[vrec("scalar", t="u8")] * m), b=var_uint(n) + [1] * n))
            names = [utf("f%d" % i) for i in range(n + 1)]
            sd.append(serde_case(srec("struct", c=[s8] * n, n=names[:n]), vrec("struct", c=[S8] * m, n=names[:m])))
            sd.append(serde_case(srec("struct", c=[s8] * n, n=names[:n]), None,
                                 vrec("struct", c=[vrec("scalar", t="u8")] * m, n=names[:m]), b=[1] * n))
            for enc in (True, False):
                b = [] if enc else [1] * n
                t, st = tuple_(*[u] * n), srec("struct", c=[u] * n, n=names[:n])
                ops.append(ops_case(run(t, enc, [call("begin_tuple")] + [call("begin_tuple_elem"), call("unit")] * m
                                        + [call("finish_tuple"), call("begin_tuple_elem"), call("unit"), call("finish_tuple")], inp=b)))
                fs = sum([[call("begin_struct_field", nm=x), call("unit")] for x in names[:m]], [])
                ops.append(ops_case(run(st, enc, [call("begin_struct")] + fs
                                        + [call("finish_struct"), call("begin_struct_field", nm=names[min(m, n)]), call("unit"),
                                           call("finish_struct")], inp=b)))
    ctx.run("aliases", "TraceCoder", ops)
    ctx.run("aliases_serde", "TraceSerde", sd)


# ------------------------------------------------------------ schemas as data

def w_meta(ctx, n):
    g = OpGen(ctx.rng("meta"))
    cs = [{"do": "known_meta"}]

    def add(s, **kw):
        cs.append({"do": "meta", "s": s, "script": g.script(), "endm": "eof", "has_b": False, **kw})
    for t in SCALARS:
        add(scalar(t))
    for k in ("str", "bytes", "unit"):
        add(leaf(k))
    for x in (leaf("unit"), scalar("u8"), tuple_(), recurse(1)):
        for y in (option(x), varseq(x), fixseq(0, x), tuple_(x), tuple_(x, tuple_(), x), struct(("", x)), enum(("a", x)),
                  struct(("a", srec("struct")), ("b", x)), enum(("a", srec("enum")), ("b", x)), tuple_(tuple_(), tuple_())):
            add(y)
    for n_ in (0, 1, 2, 63, 64, 127, 128, 255, 256, 300, 65535, 65536, 2**32 - 1, 2**32, 2**63, 2**64 - 1):
        add(recurse(n_))
        add(option(recurse(n_)))
        add(fixseq(n_, leaf("unit")))
    for k in (127, 128, 129, 300):
        add(struct(("n" * k, leaf("unit")), ("é" * k, scalar("u8"))))
        add(tuple_(*[leaf("unit")] * k))
        add(enum(*[("v%d" % i, leaf("unit")) for i in range(k)]))
        add(srec("struct", c=[scalar("u8")] * k, n=[utf("f%d" % i) for i in range(k)]))
    for s, _ in text_names():
        add(s)
    for k in (1024, 1025, 4097) + (() if ctx.quick else (16384, 65536, 65537)):
        add(struct(("n" * k, leaf("unit"))))
        add(enum(("名" * k, option(recurse(2)))))
        add(tuple_(*[scalar("bool")] * k))
        if k < 10000:
            add(enum(*[("v%d" % i, leaf("str")) for i in range(k)]))
    for i in range(n):
        s = illegal_schema(g) if i % 2 else g.schema(g.r.choice([2, 8, 16, 30]))
        add(s)
        if i % 3 == 0:
            from_ = encode_meta(s)
            add(s, has_b=True, b=g.mutate(from_))
    ctx.run("meta", "TraceMeta", cs)


META_KINDS = ["scalar", "str", "bytes", "unit", "option", "seq", "tuple", "struct", "enum", "recurse"]


def encode_meta(s):
    """A schema as a message (only used as a basis for mutation)."""
    k = s["k"]
    out = [META_KINDS.index(k)]
    named = lambda: var_uint(len(s["c"])) + sum((var_uint(len(n)) + list(n) + encode_meta(x) for n, x in zip(s["n"], s["c"])), [])
    if k == "scalar":
        order = ["u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "f32", "f64", "char", "bool"]
        return out + [order.index(s["t"])]
    if k == "option":
        return out + encode_meta(s["c"][0])
    if k == "seq":
        return out + ([1] + var_uint(nat(s["ln"])) if s["fx"] else [0]) + encode_meta(s["c"][0])
    if k == "tuple":
        return out + var_uint(len(s["c"])) + sum((encode_meta(x) for x in s["c"]), [])
    if k in ("struct", "enum"):
        return out + named()
    if k == "recurse":
        return out + var_uint(nat(s["ln"]))
    return out


def w_meta_coding(ctx, n):
    """A schema which went through the meta-schema codes as the original."""
    g = OpGen(ctx.rng("meta_coding"))
    cs = []
    for i in range(n):
        s = some_schema(g)
        v = g.value(s, Info(s))
        cs.append(dict(val_case(g, s, v), through=True))
    ctx.run("meta_coding", "TraceValue", cs)


# -------------------------------------------------------------- pretty printing

def w_pretty(ctx, n):
    class G(OpGen):
        def name(self):
            r = self.r
            if r.random() < 0.5:
                return r.choice(["a", "foo", "value", "-|", "<--\\", "/", " --> [beyond root]"])
            return "".join(chr(r.choice([r.randrange(128), 34, 92, 10, 97, 98, 32, 47, 124]))
                           for _ in range(r.choice([0, 1, 3, 12, 40])))
    g = G(ctx.rng("pretty"))
    ss = []
    for i in range(n):
        w = g.r.random()
        if w < 0.25:
            ss.append(illegal_schema(g))
        elif w < 0.7:
            ss.append(recursive_tree(g, g.r.choice([3, 6, 12, 25, 50])))
        else:
            ss.append(g.schema(g.r.choice([3, 8, 20, 45])))
    for k in (9, 10, 11, 101):
        ss.append(tuple_(*[leaf("unit")] * k))
        ss.append(enum(*[("v%d" % i, option(recurse(1 + i % 3))) for i in range(k)]))
        ss.append(struct(*[("f%d" % i, recurse(1)) for i in range(k)]))
    for n_ in (0, 1, 9, 10, 255, 256, 99999, 2**32, 2**63, 2**64 - 1):
        ss += [recurse(n_), option(recurse(n_)), fixseq(n_, tuple_(recurse(n_), scalar("u8")))]
    for d in (30, 127, 128, 255, 256, 257) + (() if ctx.quick else (600, 1023, 1024, 1025)):
        for n_ in {d, d + 1} | ({d - 1, 1, 256, 255} if d < 300 else set()):
            s = recurse(n_)
            for i in range(d):
                s = g.r.choice([option, varseq])(s)
            ss.append(s)
        s = tuple_(recurse(d), recurse(d + 1), recurse(1))
        for i in range(d - 1):
            s = g.r.choice([option(s), struct(("a", s)), tuple_(s), enum(("a", s))])
        ss.append(s)
    for k in (255, 256, 257, 300) + (() if ctx.quick else (999, 1000, 1001)):
        ss.append(tuple_(*[leaf("unit")] * (k - 1) + [recurse(1)]))
        ss.append(enum(*[("v%d" % i, option(recurse(2)) if i % 100 == 99 else leaf("str")) for i in range(k)]))
        ss.append(struct(*[("f%d" % i, leaf("str") if i % 50 else recurse(1)) for i in range(k)]))
    ctx.run("pretty", "TracePretty", [{"do": "pretty", "s": s} for s in ss])


def recursive_tree(g, size):
    """Any tree with recurses all over, productive or not."""
    g.budget = size
    return g._schema(0, True, g.r.random() < 0.3, SCALARS, ["option", "varseq", "tuple", "struct", "enum", "tuple", "fixseq"])


# ---------------------------------------------------- allocations and debug logs

def w_sessions(ctx, n):
    g = SerdeGen(ctx.rng("sessions"))
    cs = []
    for i in range(n):
        runs = []
        for _ in range(g.r.choice([2, 3, 4, 6])):
            enc = g.r.random() < 0.5
            kind = g.r.random()
            s = illegal_schema(g) if kind < 0.1 else some_schema(g)
            kw = dict(script=g.script(), endm=g.r.choice(["eof", "err"]), end=g.r.choice(["alloc"] * 6 + ["drop", "clone"]),
                      dbg=g.r.random() < 0.3)
            if kind < 0.1:
                ops, inp = [g.any_call(enc, s) for _ in range(8)], [1, 0, 1, 1]
            else:
                v = g.value(s, Info(s), budget=g.r.choice([4, 12, 25]))
                inp = encode(s, v)
                ops = calls(enc, v) if g.r.random() < 0.7 else mixed_ops(g, enc, s, v, 0.3)
                w = g.r.random()
                if w < 0.3:
                    ops = ops[:g.r.randrange(len(ops) + 1)]   # abandoned
                elif w < 0.45:
                    ops = g.noisy(enc, s, g.broken_plan(calls(enc, v)), 0.2)
                elif w < 0.6:
                    k = g.r.randrange(len(inp) + 1)           # broken by a fault
                    if enc:
                        kw["lim"] = k
                    else:
                        inp = inp[:k]
            base = run(s, enc, ops[:120], inp=[] if enc else inp, **kw)
            runs.append(base)
            if g.r.random() < 0.6:
                # the same again, with a log that may fail
                d = dict(base, twin=len(runs), end="alloc", log=g.r.choice(["ok", "fail", "zero"]))
                if d["log"] != "ok":
                    d["loglim"] = g.r.choice([0, 1, 5, 20, 100, 1000])
                runs.append(d)
            if g.r.random() < 0.5:
                first = dict(base, end="alloc")
                runs.append(dict(first, twin=0))
                runs.append(dict(first, twin=len(runs), reuses=not any(o["op"] in ("dyn", "ser", "any", "skip", "de") for o in ops)))
        cs.append(ops_case(*runs, track=True))
    ctx.run("sessions", "TraceCoder", cs)


def w_lives(ctx, limit=None):
    """All histories of an allocation, as explored by TLC."""
    out = ctx.model("alloc_model", "Alloc", "Alloc.cfg" if ctx.quick else "Alloc_thorough.cfg")
    lives = [json.loads(json.loads(x)[2:]) for x in out.split("\n") if x.startswith('"@L')]
    if not lives:
        raise ToolError("no histories of an allocation")
    lives.sort(key=str)
    g = SerdeGen(ctx.rng("lives"))
    if limit and limit < len(lives):
        lives = g.r.sample(lives, limit)
    flat = [(scalar("u16"), None), (leaf("str"), None), (option(scalar("bool")), None), (varseq(scalar("u8")), None),
            (leaf("bytes"), None)]
    cs = []
    for life in lives:
        runs = []
        for u in life:
            while True:
                s = nest(g.r.choice(flat)[0], 8) if u["deep"] else g.r.choice(flat)[0]
                v = g.value(s, Info(s), budget=30)
                ops, m = calls(u["enc"], v), encode(s, v)
                if len(m) > 1 and len(ops) > (8 if u["deep"] else 0):
                    break
            kw = dict(end=u["end"], endm="err", dbg=g.r.random() < 0.2, log=g.r.choice(["none", "none", "ok", "fail"]), loglim=30)
            if u["far"] == "untouched":
                ops = []
            elif u["far"] == "midway":
                ops = ops[:max(1, len(ops) - g.r.randint(1, 3))]
            elif u["far"] == "broken":
                k = g.r.randrange(len(m))
                m = m[:k]
                kw["lim"] = k if u["enc"] else -1
            base = run(s, u["enc"], ops, inp=[] if u["enc"] else m, **kw)
            runs.append(base)
        # and once more, with an allocation that has been through all this
        runs.append(dict(base, end="alloc"))
        runs.append(dict(base, end="alloc", twin=len(runs), reuses=base["log"] == "none" and not base["dbg"]))
        cs.append(ops_case(*runs, track=True))
    ctx.run("lives", "TraceCoder", cs)


# ------------------------------------------------------------- yet more of these

def w_reject_big(ctx):
    """Calls slightly off where there are many variants, fields or elements."""
    g = OpGen(ctx.rng("reject_big"))
    cs = []
    for n in (2, 3, 127, 128, 255, 256, 257, 300, 600):
        names = ["v%d" % i for i in range(n)]
        s = enum(*[(x, [leaf("unit"), scalar("u8"), tuple_(scalar("bool"))][i % 3]) for i, x in enumerate(names)])
        for i in sorted({0, 1, n - 1, n // 2, min(n - 1, 255), min(n - 1, 256)}):
            offs = [call("begin_enum", ln=le(o), nm=utf(x)) for o, x in
                    [(i + 1, names[i]), (i - 1, names[i]), (n, names[i]), (n + 1, names[i]), (i + 256, names[i]),
                     (i + 65536, names[i]), (i + 2**32, names[i]), (2**64 - 1, names[i]), (i, "w"), (i, names[i] + "x"),
                     (i, names[i][:-1]), (i, ""), (i, names[(i + 1) % n]), ((i + 1) % n, names[i])] if o >= 0]
            inner = [[call("unit")], [call("scalar", "u8", b=[5])],
                     [call("begin_tuple"), call("begin_tuple_elem"), call("scalar", "bool"), call("finish_tuple")]][i % 3]
            ok = call("begin_enum", ln=le(i), nm=utf(names[i]))
            cs.append(ops_case(run(s, True, offs + [ok] + offs[:3] + inner + offs[:3])))
            vn = [call("begin_enum_variant", nm=utf(x)) for x in ("w", names[i] + "x", names[i][:-1], "", names[(i + 1) % n])]
            cs.append(ops_case(run(s, False, vn + [call("begin_enum")] + vn + [call("begin_enum"), call("unit"),
                               call("begin_enum_variant", nm=utf(names[i]))] + vn + inner + vn,
                               inp=list(i.to_bytes(ord_width(n), "little")) + [[], [5], [0]][i % 3])))
    u = call("scalar", "u8", b=[1])
    for n in (0, 1, 2, 127, 128, 255, 256, 257, 300):
        lens = sorted({x for x in (0, 1, n - 1, n, n + 1, n + 256, n + 2**32, 2**64 - 1, 2**63, n % 256) if x >= 0})
        for enc in (True, False):
            inp = [] if enc else [1] * (n + 3)
            off = [call("begin_fixed_len_seq", ln=le(x)) for x in lens if x != n]
            el, fin = call("begin_seq_elem"), call("finish_seq")
            cs.append(ops_case(run(fixseq(n, scalar("u8")), enc, off + [call("begin_var_len_seq", ln=le(n)),
                               call("begin_fixed_len_seq", ln=le(n))] + ([fin] if n else []) + [el, u] * max(n - 1, 0) +
                               ([fin] if n > 1 else []) + [el, fin, u, el, fin, fin][0 if n else 3:], inp=inp)))
            inp = [] if enc else var_uint(n) + [1] * (n + 3)
            cs.append(ops_case(run(varseq(scalar("u8")), enc, [call("begin_fixed_len_seq", ln=le(n)), call("begin_var_len_seq", ln=le(n))] +
                               [el, u] * max(n - 1, 0) + ([fin, el, fin, u] if n else []) + [el, fin, fin, u], inp=inp)))
            if n:
                s = struct(*[("f%d" % i, scalar("u8")) for i in range(n)])
                f = lambda i: call("begin_struct_field", nm=utf("f%d" % i))
                ops = [f(0), call("begin_tuple"), call("begin_struct")]
                for i in range(n):
                    if i in (0, 1, n // 2, n - 1, 255, 256):
                        ops += [call("finish_struct"), f(i + 1), f(n), call("begin_tuple_elem")] + ([f(i - 1)] if i else [])
                    ops += [f(i), u]
                inp = [] if enc else [1] * (n + 2)
                cs.append(ops_case(run(s, enc, ops + [f(n), f(n - 1), call("finish_tuple"), call("finish_struct"), u], inp=inp)))
                ops = [call("begin_tuple")]
                for i in range(n):
                    if i in (0, 1, n // 2, n - 1, 255, 256):
                        ops += [call("finish_tuple"), call("begin_seq_elem"), f(i)]
                    ops += [call("begin_tuple_elem"), u]
                cs.append(ops_case(run(tuple_(*[scalar("u8")] * n), enc, ops + [call("begin_tuple_elem"), call("finish_seq"),
                                   call("finish_tuple"), u], inp=inp)))
    ctx.run("reject_big", "TraceCoder", cs)


def bad_leaves():
    """(schema, calls up to the one which reads something bad, its bytes)"""
    sc = lambda t: [call("scalar", t)]
    yield scalar("bool"), sc("bool"), [2]
    yield scalar("bool"), sc("bool"), [255]
    yield scalar("char"), sc("char"), var_uint(0xd800)
    yield scalar("char"), sc("char"), var_uint(0x110000)
    yield scalar("char"), sc("char"), var_uint(2**32 + 65)
    for t, w in (("u32", 32), ("u64", 64)):
        yield scalar(t), sc(t), var_uint(1 << w)
        yield scalar(t), sc(t), var_uint(1 << 100)
    for t, w in (("i32", 32), ("i64", 64)):
        yield scalar(t), sc(t), var_sint(True, 1 << (w - 1))
        yield scalar(t), sc(t), var_sint(False, 1 << (w - 1))
    yield scalar("u128"), sc("u128"), [0xff] * 30
    yield scalar("i128"), sc("i128"), [0xff] * 30
    for op in ("str", "str_into"):
        yield leaf("str"), [call(op)], [2, 0xc3, 0x28]
        yield leaf("str"), [call(op)], [3, 0xed, 0xa0, 0x80]
        yield leaf("str"), [call(op)], var_uint(2**64)
    for op in ("bytes", "bytes_into"):
        yield leaf("bytes"), [call(op)], var_uint(2**64)
    yield option(scalar("u8")), [call("begin_option")], [2]
    yield option(leaf("unit")), [call("begin_option")], [128]
    yield varseq(scalar("u8")), [call("begin_var_len_seq")], var_uint(2**64)
    for n in (2, 3, 255):
        yield enum(*[("v%d" % i, leaf("unit")) for i in range(n)]), [call("begin_enum")], [n]
    yield enum(*[("v%d" % i, leaf("unit")) for i in range(257)]), [call("begin_enum")], [1, 1]
    yield enum(*[("v%d" % i, leaf("unit")) for i in range(257)]), [call("begin_enum")], [0, 2]


def bad_bytes(g, n):
    """All bytes that are no bool, someness or ordinal, and n chars, ints and
    lengths out of range: (schema, calls, input)"""
    five = [("v%d" % i, leaf("unit")) for i in range(5)]
    for x in range(2, 256):
        yield scalar("bool"), [call("scalar", "bool")], [x]
        yield option(scalar("u8")), [call("begin_option")], [x]
        if x > 4:
            yield enum(*five), [call("begin_enum")], [x]
    big = [("v%d" % i, leaf("unit")) for i in range(300)]
    for t in ("u128", "i128", "u64", "char"):
        for x in (4, 8, 64, 127, 128, 255):
            yield scalar(t), [call("scalar", t)], [g.r.choice([0x80, 0xff])] * 18 + [x, 0]
    for i in range(n):
        yield enum(*big), [call("begin_enum")], list(g.r.randrange(300, 65536).to_bytes(2, "little"))
        x = g.r.choice([g.r.randrange(0xd800, 0xe000), g.r.randrange(0x110000, 0x120000), g.r.randrange(0x110000, 1 << 32),
                        1 << g.r.randrange(21, 128), g.r.randrange(1 << 32, 1 << 128)])
        yield scalar("char"), [call("scalar", "char")], var_uint(x)
        w = g.r.choice([32, 64])
        x = g.r.choice([(1 << w) + g.r.randrange(300), 1 << g.r.randrange(w, 128), g.r.randrange(1 << w, 1 << 128)])
        yield scalar("u%d" % w), [call("scalar", "u%d" % w)], var_uint(x)
        yield scalar("i%d" % w), [call("scalar", "i%d" % w)], var_sint(g.r.random() < 0.5, x >> 1 | 1 << w)
        yield leaf("str"), [call(g.r.choice(["str", "str_into"]))], var_uint(x << (64 - w) if x >> (64 + w) == 0 else x | 1 << 100)
        yield varseq(scalar("u8")), [call("begin_var_len_seq")], var_uint(x | 1 << g.r.randrange(64, 128))


def bad_texts(g, lens):
    """Strs and bytes of some length which are bad or missing somewhere, and
    what comes after them: (schema, calls, input, how it ends)"""
    for n in lens:
        for op in ("str", "str_into"):
            good = [97 + i % 26 for i in range(n)]
            for at in (0, n // 2, n - 1):
                for bad in ([0xff], [0xc3], [0xf0, 0x90, 0x80]):
                    if at + len(bad) <= n:
                        b = good[:at] + bad + good[at + len(bad):]
                        yield (*g.r.choice(list(around(leaf("str"), [call(op)], var_uint(n) + b))), "eof") \
                            if g.r.random() < 0.3 else (leaf("str"), [call(op)], var_uint(n) + b, "eof")
            yield leaf("str"), [call(op)], var_uint(n) + [0xff] * n + [1, 97], "eof"
        for op in ("str", "str_into", "bytes", "bytes_into"):
            for m in (0, 1, n // 2, n - 1):
                yield leaf(op[:op.find("_")] if "_" in op else op), [call(op)], var_uint(n) + [98] * m, g.r.choice(["eof", "err"])


def around(s, ops, b):
    """The same at every kind of position: (schema, calls, input)."""
    yield s, ops, b
    yield option(s), [call("begin_option")] + ops, [1] + b
    yield varseq(s), [call("begin_var_len_seq"), call("begin_seq_elem")] + ops, [2] + b
    yield fixseq(2, s), [call("begin_fixed_len_seq", ln=[2]), call("begin_seq_elem")] + ops, b
    yield tuple_(scalar("u8"), s), [call("begin_tuple"), call("begin_tuple_elem"), call("scalar", "u8"), call("begin_tuple_elem")] + ops, [7] + b
    yield tuple_(s, s), [call("begin_tuple"), call("begin_tuple_elem")] + ops, b
    yield struct(("a", s), ("b", leaf("unit"))), [call("begin_struct"), call("begin_struct_field", nm=utf("a"))] + ops, b
    yield enum(("a", s)), [call("begin_enum"), call("begin_enum_variant", nm=utf("a"))] + ops, b
    yield (tuple_(option(recurse(2)), s), [call("begin_tuple"), call("begin_tuple_elem"), call("begin_option"), call("begin_tuple"),
           call("begin_tuple_elem"), call("begin_option"), call("begin_tuple_elem")] + ops, [1, 0] + b)


def every_call(s):
    names = [n for p in paths(s) for n in node(s, p)["n"]][:2] or [utf("zz")]
    return ([call("scalar", t) for t in SCALARS] +
            [call(x) for x in ("str", "bytes", "unit", "begin_option", "begin_var_len_seq", "begin_seq_elem", "finish_seq", "begin_tuple",
                               "begin_tuple_elem", "finish_tuple", "begin_struct", "finish_struct", "begin_enum", "str_into", "bytes_into")] +
            [call("begin_fixed_len_seq", ln=le(n)) for n in (0, 1, 2)] +
            [call(x, nm=n) for n in names for x in ("begin_struct_field", "begin_enum_variant")])


def w_broken_reads(ctx, n):
    """Bad or missing input at the calls, and then all the other calls."""
    g = SerdeGen(ctx.rng("broken_reads"))
    cs = []
    for s0, ops0, b0 in bad_leaves():
        for s, ops, b in around(s0, ops0, b0):
            cs.append(ops_case(run(s, False, ops + every_call(s), inp=b + [1, 0, 1, 0, 1, 1], endm="eof")))
            k = g.r.randrange(len(b))
            cs.append(ops_case(run(s, False, ops + every_call(s), inp=b[:k], endm=g.r.choice(["eof", "err"]))))
    for s, ops, b in bad_bytes(g, 40 if ctx.quick else 400):
        cs.append(ops_case(run(s, False, ops + g.r.sample(every_call(s), 5), inp=b + [1, 0, 1])))
    for s, ops, b, endm in bad_texts(g, (120, 300, 1100, 2100, 4200, 9000) if ctx.quick else
                                     (127, 128, 255, 257, 1023, 1025, 2047, 2049, 4095, 4097, 8191, 8193, 16385, 40000)):
        cs.append(ops_case(run(s, False, ops + g.r.sample(every_call(s), 12), inp=b, script=g.script(), endm=endm)))
    while len(cs) < n:
        s = some_schema(g)
        v = g.value(s, Info(s), budget=g.r.choice([5, 10, 16]))
        b = g.mutate(encode(s, v))
        if Info(s).zero_width_elems() and HUGE[:8] == b[:8]:
            continue
        ops = calls(False, v)
        w = g.r.random()
        if w < 0.2 and not Info(s).zero_width_elems():
            ops = mixed_ops(g, False, s, v, 0.4)
        elif w < 0.5:
            ops = g.noisy(False, s, ops, 0.2)
        ops = [dict(o, op=o["op"] + "_into") if o["op"] in ("str", "bytes") and g.r.random() < 0.4 else o for o in ops]
        cs.append(ops_case(run(s, False, ops[:120] + g.r.sample(every_call(s), 12), inp=b, script=g.script(),
                               endm=g.r.choice(["eof", "err"]))))
    ctx.run("broken_reads", "TraceCoder", cs)


def w_recursion(ctx, n):
    """Schemas whose recursion re-enters them at all levels, in all interfaces."""
    g = SerdeGen(ctx.rng("recursion"))
    vals, ops, sd = [], [], []
    for i in range(n):
        s = g.rec_schema() if i % 4 else nest(g.rec_schema(), g.r.randrange(5))
        v = g.value(s, Info(s), budget=g.r.choice([10, 20, 35]))
        vals.append(val_case(g, s, v, [1, 2]))
        enc = i % 2 == 0
        o = calls(enc, v) if i % 3 else mixed_ops(g, enc, s, v, 0.3)
        ops.append(ops_case(run(s, enc, g.noisy(enc, s, o, 0.1)[:250], inp=[] if enc else encode(s, v) + [1])))
        if i % 3 == 0:
            sh, s, info, d = g.triple(g.r.choice([8, 12]), budget=25)
            sd.append(serde_case(s, d, sh, tail=[1], match=True))
        elif i % 3 == 1:
            sd.append(serde_case(s, None, shape_at(g, s, (), 7), b=encode(s, v) + [3]))
    ctx.run("recursion_values", "TraceValue", vals)
    ctx.run("recursion_calls", "TraceCoder", ops)
    ctx.run("recursion_serde", "TraceSerde", sd)


def w_any_whole(ctx, n):
    """Whole messages read self-describing, skipped, or partly so."""
    g = SerdeGen(ctx.rng("any_whole"))
    cs = []
    for i in range(n):
        s = some_schema(g)
        v = g.value(s, Info(s), budget=g.r.choice([10, 20, 35]))
        m = encode(s, v) + [g.r.randrange(256) for _ in range(i % 3)]
        for sh in (vrec("any"), vrec("ignored"), shape_at(g, s, (), 6)):
            cs.append(dict(serde_case(s, None, sh, b=m), script=g.script(), endm="err"))
    ctx.run("any_whole", "TraceSerde", cs)
    big = [serde_case(s, None, vrec(k), b=encode(s, v) + [1])
           for s, v in big_values(g, not ctx.quick) for k in ("any", "ignored")]
    ctx.run("any_big", "TraceSerde", big)
    scal = [serde_case(s, None, vrec("any"), b=encode(s, v)) for s, v in [*scalar_lists(), *text_lists(64), *text_names()]]
    ctx.run("any_scalars", "TraceSerde", scal)


# ---------------------------------------------------------------------- types

SRC = os.path.join(HARNESS, "src")
TYPES_TOML = """[package]
name = "types"
version = "0.1.0"
edition = "2021"

[workspace]

[dependencies]
binschema = { path = "/repo/binschema" }
serde = { version = "1", features = ["derive"] }
serde_json = { version = "1", features = ["unbounded_depth"] }

[profile.dev]
opt-level = 0
debug = false
debug-assertions = true
overflow-checks = true
incremental = false

[profile.dev.package."*"]
opt-level = 1
debug = "line-tables-only"
"""


def types_crate(ctx, name, text):
    """Builds a crate against /repo; its binary."""
    ctx.harness()
    pkg = os.path.join(ctx.dir, name + ("_release" if ctx.release else ""))
    os.makedirs(os.path.join(pkg, "src"))
    with open(os.path.join(pkg, "Cargo.toml"), "w") as f:
        f.write(TYPES_TOML)
    shutil.copy(os.path.join(HARNESS, "Cargo.lock"), pkg)
    with open(os.path.join(pkg, "src", "main.rs"), "w") as f:
        f.write(text)
    target = os.path.join(HARNESS, "target")
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_TARGET_DIR=target)
    env.pop("RUSTFLAGS", None)
    try:
        r = sh(["cargo", "+stable", "build", "--offline", "--quiet"] + (["--release"] if ctx.release else []),
               800, cwd=pkg, env=env)
    except subprocess.TimeoutExpired:
        raise ToolError("build of the types timed out")
    if r.returncode != 0:
        # the types and what is derived for them compile on the unchanged tree
        if "error: could not compile `types`" in r.stdout and "error" in r.stdout:
            raise Violation("known schemas of legal types do not compile",
                            ctx.replay(name, {"main.rs": text, "errors": r.stdout[-6000:]}))
        raise ToolError("build of the types failed:\n" + r.stdout[-4000:])
    binary = os.path.join(pkg, "types")
    shutil.copy(os.path.join(target, "release" if ctx.release else "debug", "types"), binary)
    return binary


def build_errors(ctx, name, text, at):
    """Builds a crate; the cases with errors."""
    pkg = os.path.join(ctx.dir, name + ("_release" if ctx.release else ""))
    os.makedirs(os.path.join(pkg, "src"))
    with open(os.path.join(pkg, "Cargo.toml"), "w") as f:
        f.write(TYPES_TOML.replace('"types"', '"%s"' % name))
    shutil.copy(os.path.join(HARNESS, "Cargo.lock"), pkg)
    with open(os.path.join(pkg, "src", "main.rs"), "w") as f:
        f.write(text)
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_TARGET_DIR=os.path.join(HARNESS, "target"))
    env.pop("RUSTFLAGS", None)
    try:
        r = sh(["cargo", "+stable", "build", "--offline", "--quiet", "--message-format=json"], 600, cwd=pkg, env=env)
    except subprocess.TimeoutExpired:
        raise ToolError("build of %s timed out" % name)
    bad, other = {}, []
    for line in r.stdout.split("\n"):
        if not line.startswith("{"):
            continue
        m = json.loads(line)
        if m.get("reason") != "compiler-message" or m["message"]["level"] != "error":
            continue
        m = m["message"]
        where = set()
        for sp in m["spans"]:
            while sp:
                if sp["file_name"].endswith("src/main.rs") and sp["line_start"] in at:
                    where.add(at[sp["line_start"]])
                sp = (sp.get("expansion") or {}).get("span")
        for i in where:
            bad.setdefault(i, m["message"])
        if not where and m["spans"]:
            other.append(m["rendered"])
    if other or r.returncode != 0 and not bad:
        raise ToolError("build of %s failed:\n%s" % (name, "\n".join(other)[-3000:] or r.stdout[-3000:]))
    binary = None
    if r.returncode == 0:
        binary = os.path.join(pkg, "run")
        shutil.copy(os.path.join(HARNESS, "target", "debug", name), binary)
    return binary, bad


def w_macro(ctx, n, bad):
    """Invocations of schema! in all surroundings, and malformed ones."""
    ctx.harness()
    g = MacroGen(ctx.rng("macro"))
    ss = [scalar(t) for t in SCALARS] + [leaf(k) for k in ("str", "bytes", "unit")] + [tuple_(), struct(), enum()]
    deep = scalar("u8")
    for i in range(20):
        deep = [option, varseq, tuple_, lambda x: struct(("a", x)), lambda x: enum(("B", x)), lambda x: fixseq(3, x)][i % 6](deep)
    ss += [deep, struct(*[(x, scalar("u8")) for x in IDENTS]), enum(*[(x, recurse(1)) for x in IDENTS]),
           tuple_(*[scalar(g.r.choice(SCALARS)) for _ in range(300)]),
           struct(*[(IDENTS[i % len(IDENTS)], scalar(g.r.choice(SCALARS))) for i in range(300)]),
           enum(*[(IDENTS[i * 7 % len(IDENTS)], option(leaf("str")) if i % 9 else recurse(1)) for i in range(300)])]
    ss += [g.any_schema() for _ in range(n)]
    cs = [{"i": i, "tt": g.contents(s), "others": [g.other(s) for _ in range(4)]} for i, s in enumerate(ss)]
    text, at = crate(g, [c["tt"] for c in cs], SRC)
    binary, errs = build_errors(ctx, "macros", text, at)
    lines = text.split("\n")
    for ln, i in at.items():
        cs[i]["rust"] = lines[ln - 1]
    if errs:
        ctx.judge("macros", "TraceMacro", cs, [{"r": "refused", "msg": errs[i]} if i in errs else None for i in range(len(cs))])
        raise ToolError("schema! was refused where the specification has no schema")
    ctx.run("macros", "TraceMacro", cs, binary=binary)

    cs, seen = [], set()
    while len(cs) < bad:
        tts = g.spoil(g.contents(g.any_schema()))
        while g.r.random() < 0.1:
            tts = g.spoil(tts)
        key = json.dumps(tts)
        if key not in seen and not doubtful(tts):
            seen.add(key)
            cs.append({"i": len(cs), "tt": tts})
    text, at = crate(g, [c["tt"] for c in cs], SRC)
    lines = text.split("\n")
    for ln, i in at.items():
        cs[i]["rust"] = lines[ln - 1]
    _, errs = build_errors(ctx, "malformed", text, at)
    ctx.judge("malformed", "TraceMacro", cs,
              [{"r": "refused", "msg": errs[i]} if i in errs else {"r": "accepted", "msg": ""} for i in range(len(cs))])


# types there are no values of that could be made by deserializing
BORROWED = [("str", ("str",)), ("[u16]", ("seq", "Vec", ("scalar", "u16"))), ("&'static u16", ("scalar", "u16")),
            ("[Option<bool>]", ("seq", "Vec", ("option", ("scalar", "bool")))), ("&'static mut String", ("str",)),
            ("(&'static char, &'static mut &'static Vec<u8>, ())",
             ("tuple", [("scalar", "char"), ("seq", "Vec", ("scalar", "u8")), ("unit",)])),
            ("[u8; 300]", ("array", 300, ("scalar", "u8"))), ("[(); 0]", ("array", 0, ("unit",))),
            ("[(); 65536]", ("array", 65536, ("unit",)))]


def w_types(ctx, crates, ndefs, extra, nseeds, schema=True):
    for k in range(crates):
        t = Types(ctx.rng("types%d" % k), ndefs, k == 0)
        roots = [("ref", i) for i in range(len(t.defs)) if i not in t.private]
        roots += builtin_roots(t)
        roots += [t.expr(t.n, 3, True, True) for _ in range(extra)]
        roots = [e for e in roots if t.size(e) <= 500]
        try:
            binary = types_crate(ctx, "types%d" % k, t.crate(roots, BORROWED, SRC))
        except Violation:
            if schema:
                raise
            return
        cs = [{"i": i, "seeds": [t.r.getrandbits(63) for _ in range(2 if e == ("ref", t.wide) else nseeds)], "root": t.tla(e), "defs": t.tla_defs(e),
               "rust": t.rust(e), "schema": schema} for i, e in enumerate(roots)]
        cs += [{"i": len(roots) + i, "seeds": [], "root": t.tla(e), "defs": t.tla_defs(e), "rust": x, "schema": schema}
               for i, (x, e) in enumerate(BORROWED)]
        ctx.run("types%d" % k, "TraceTypes", cs, binary=binary)


# --------------------------------------------------------------- long runs

LONG = (0, 1, 2, 3, 127, 128, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 10001, 16383, 16384, 16385,
        32767, 32768, 32769, 65535, 65536, 65537, 100000, 131073)
LONGER = (1 << 20, (1 << 20) + 1)


def block(ops, b=(), rep=False):
    """rep: "all" n times, "most" n - 1 times"""
    return {"ops": [dict(o, len=o.get("len", False)) for o in ops], "b": list(b), "rep": rep or "once"}


def pump(r, s, enc, n, *blocks, fx=False):
    """Blocks of calls, some made n times. The last calls are one too many."""
    if fx:
        s = dict(s, ln=le(n))
    bs = [block([(dict(o, ln=le(n)) if o.get("len") else o) for o in ops], () if enc else b, rep) for ops, b, rep in blocks]
    bs.append(block([call("unit"), call("finish_seq"), call("begin_seq_elem")]))
    return {"do": "pump", "s": s, "enc": enc, "n": n, "blocks": bs, "fx": fx,
            "script": [] if enc else r.choice([[], [], [3], [1, 0, 7]])}


def deep_blocks(enc):
    """deep_calls, taken apart: what goes in, the middle, what leads out."""
    for s, ops, inp in deep_calls(1, enc):
        _, more, minp = next(x for x in deep_calls(2, enc) if x[0] == s)
        _, none, ninp = next(x for x in deep_calls(0, enc) if x[0] == s)
        for a in reversed(range(len(ops) - len(none) + 1)):
            z = len(ops) - len(none) - a
            head, tail = ops[:a], ops[len(ops) - z:]
            if ops == head + none + tail and more == head * 2 + none + tail * 2:
                break
        else:
            raise ToolError("not nested")
        for a in reversed(range(len(inp) - len(ninp) + 1)):
            z = len(inp) - len(ninp) - a
            h, t = inp[:a], inp[len(inp) - z:]
            if inp == h + ninp + t and minp == h * 2 + ninp + t * 2:
                break
        else:
            raise ToolError("not nested")
        yield s, (head, h, "all"), (none, ninp, False), (tail, t, "most"), (tail, t, False)


def w_pump(ctx, logs=False):
    """Very many elements, very many levels, very many refusals. With a debug
    log not as many levels, as its indentation is as deep as they are."""
    name = "pump_logs" if logs else "pump"
    g = SerdeGen(ctx.rng(name))
    r = g.r
    cs = []
    levels = [x for x in LONG if x <= (1500 if ctx.quick else 5000)]
    ns = lambda k, longer=False: r.sample(LONG, k if ctx.quick else 3 * k) + (
        [r.choice(LONGER)] if longer or not ctx.quick else [])
    for enc in (True, False):
        # elements
        for _ in range(10):
            es = g.schema(r.choice([1, 1, 3]))
            v = g.value(es, Info(es), budget=4)
            s = varseq(es) if r.random() < 0.5 else fixseq(1, es)
            m = encode(es, v)
            if not m and r.random() < 0.7:
                continue
            way = r.choice(["calls", "dyn", "serde"])
            if way == "calls":
                one = calls(enc, v)
            elif enc:
                one = [call("dyn", val=v) if way == "dyn" else call("ser", sv=data_of(g, v))]
            else:
                one = [call("dyn" if way == "dyn" else r.choice(["any", "skip"]))]
            for n in ns(4):
                begin = dict(call("begin_fixed_len_seq" if s["fx"] else "begin_var_len_seq"), len=True)
                cs.append(pump(r, s, enc, n, ([begin], [] if s["fx"] else var_uint(n), False),
                               ([call("begin_seq_elem")] + one, m, "all"), ([call("finish_seq")], [], False), fx=s["fx"]))
        # levels
        for s, a, b, *c in deep_blocks(enc):
            for n in r.sample(levels, 5) if logs else ns(5, s["k"] == "option"):
                cs.append(pump(r, s, enc, n, a, b, *(c if n else [])))
            for n in r.sample(levels, 2) if logs else ns(2):
                # left open
                cs.append(pump(r, s, enc, n, a))
        # refusals: none of these is ever right
        no = utf("no such name")
        wrong = [call("begin_fixed_len_seq", ln=le(987654321)), call("begin_struct_field", nm=no),
                 call("begin_enum", nm=no) if enc else call("begin_enum_variant", nm=no)]
        for _ in range(12):
            s = some_schema(g)
            v = g.value(s, Info(s), budget=6)
            m, ops = encode(s, v), calls(enc, v)
            k = r.randrange(len(ops) + 1)
            if not enc:
                k = r.choice([0, len(ops)])
            for n in r.sample(LONG[:13], 2):
                cs.append(pump(r, s, enc, n, (ops[:k], m, False), (wrong, [], "all"), (ops[k:], [] if k else m, False)))
        # calls of a broken coder
        s = varseq(scalar("bool"))
        if not enc:
            for n in ns(3):
                cs.append(pump(r, s, enc, n, ([dict(call("begin_var_len_seq"), len=True)], var_uint(n), False),
                               ([call("begin_seq_elem"), call("scalar", "bool")], [2], False),
                               ([call("begin_seq_elem"), call("scalar", "bool"), call("dyn")], [2], "all")))
    if logs:
        cs = [dict(c, log=r.choice(["ok", "ok", "fail", "zero"]), loglim=-1) for c in cs]
        for c in cs:
            if c["log"] != "ok":
                c["loglim"] = r.choice([0, 1, 100, 65536, 1 << 20])
    ctx.run(name, "TracePump", cs)


def has_nan(v):
    w = {"f32": (0x7f800000, 0x7fffff), "f64": (0x7ff0 << 48, (1 << 52) - 1)}.get(v["t"])
    if v["k"] == "scalar" and w and nat(v["b"]) & w[0] == w[0] and nat(v["b"]) & w[1]:
        return True
    return any(has_nan(x) for x in v["c"])


def big_case(r, s, kind, n, v=None, sv=None, sh=None, m=()):
    c = {"do": "big", "s": s, "kind": kind, "n": n, "u": len(m), "via": "value" if sv is None else "serde",
         "script": r.choice([[], [], [1000], [7, 0, 4096]])}
    return dict(c, v=v) if sv is None else dict(c, sv=sv, sh=sh)


def every(r, n, kinds, shapes):
    """Kinds of data and shapes to deserialize them by: all shapes for some of
    the lengths."""
    if n in (257, 65537, 131073):
        return [(r.choice(kinds), sh) for sh in shapes]
    return [(r.choice(kinds), r.choice(shapes[:1] * 2 + shapes[1:]))]


def w_large(ctx, ways=("value", "serde")):
    """Data of very many elements."""
    g = SerdeGen(ctx.rng("large"))
    r = g.r
    cs = []
    for way in ways:
        for kind in ("str", "bytes"):
            for n in LONG + LONGER + (1 << 24,) + (() if ctx.quick else (1 << 26, 1 << 28)):
                b = utf(r.choice("a\0é名𝄞")) if kind == "str" else [r.randrange(256) for _ in range(r.choice([1, 2, 3]))]
                if n >= 1 << 24:
                    n = n // len(b) + 1
                x = vrec(kind, b=b)
                if way == "value":
                    cs.append(big_case(r, leaf(kind), kind, n, v=x, m=b))
                else:
                    cs.append(big_case(r, leaf(kind), kind, n, sv=[x], m=b,
                                       sh=vrec(*r.choice([(kind,), (kind, "buf"), ("any",), ("ignored",)]))))
        for fx in (False, True):
            for j, n in enumerate(LONG + LONGER[:1]):
                while True:
                    es = scalar(r.choice(SCALARS)) if j % 3 else g.schema(r.choice([2, 4]))
                    v = g.value(es, Info(es), budget=4)
                    m = encode(es, v)
                    if not has_nan(v) and len(m) <= 20 and n * (1 + len(json.dumps(v))) <= 1e8:
                        break
                    j = 1 if n > 100000 else j
                s = fixseq(1, es) if fx else varseq(es)
                if way == "value":
                    cs.append(big_case(r, s, "fseq" if fx else "vseq", n, v=v, m=m))
                else:
                    for kind, sh in every(r, n, ("seq", "tuple"),
                                          [vrec("seq", c=[shape_at(g, s, (0,), 4)]), vrec("any"), vrec("ignored")]):
                        cs.append(big_case(r, s, kind, n, sv=[data_of(g, v)], sh=sh, m=m))
        if way == "serde":
            for n in LONG + LONGER[:1]:
                while True:
                    ks, vs = scalar(r.choice(SCALARS)), scalar(r.choice(SCALARS))
                    kv, vv = (g.value(x, Info(x), budget=1) for x in (ks, vs))
                    if not has_nan(kv) and not has_nan(vv):
                        break
                s = varseq(tuple_(ks, vs))
                m = encode(ks, kv) + encode(vs, vv)
                e = vrec("entry", c=[vrec("scalar", t=ks["t"]), vrec("scalar", t=vs["t"])])
                for kind, sh in every(r, n, ("map",), [vrec("map", c=[e]), vrec("any"), vrec("ignored"),
                                                       vrec("seq", c=[vrec("tuple", c=e["c"])])]):
                    cs.append(big_case(r, s, kind, n, sv=[kv, vv], m=m, sh=sh))
    ctx.run("large", "TraceBig", cs)
