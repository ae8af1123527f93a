"""Workload generation: random schemas, values, calls, bytes, serde data.

Everything here only makes up inputs for the real code. What the right answers
are is decided by the specification (spec/*.tla), never here.

Schemas, values, calls, data and shapes are the records of the specification.
"""
import random
import unicodedata

UINT = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128}
SINT = {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "i128": 128}
SCALARS = list(UINT) + list(SINT) + ["f32", "f64", "char", "bool"]


def le(n):
    out = []
    while n:
        out.append(n & 255)
        n >>= 8
    return out


def nat(b):
    return sum(x << (8 * i) for i, x in enumerate(b))


def utf(s):
    return list(s.encode())


# ------------------------------------------------------------------ schemas

def srec(k, t="", fx=False, ln=(), c=(), n=()):
    return {"k": k, "t": t, "fx": fx, "ln": list(ln), "c": list(c), "n": list(n)}


def scalar(t): return srec("scalar", t)
def leaf(k): return srec(k)
def option(x): return srec("option", c=[x])
def varseq(x): return srec("seq", c=[x])
def fixseq(n, x): return srec("seq", fx=True, ln=le(n), c=[x])
def tuple_(*c): return srec("tuple", c=c)
def struct(*f): return srec("struct", n=[utf(a) for a, _ in f], c=[b for _, b in f])
def enum(*f): return srec("enum", n=[utf(a) for a, _ in f], c=[b for _, b in f])
def recurse(n): return srec("recurse", ln=le(n))


def node(s, p):
    for i in p:
        s = s["c"][i]
    return s


def paths(s, p=()):
    yield p
    for i, x in enumerate(s["c"]):
        yield from paths(x, p + (i,))


def legal(s, p):
    x = node(s, p)
    return x["k"] != "recurse" or 1 <= nat(x["ln"]) <= len(p)


def target(s, p):
    x = node(s, p)
    return p[: len(p) - nat(x["ln"])] if x["k"] == "recurse" else p


class Info:
    """Least height of a value at each position (None: there is none)."""

    def __init__(self, s):
        self.s = s
        self.all = list(paths(s))
        self.legal = all(legal(s, p) for p in self.all)
        self.rank = {p: None for p in self.all}
        self.width0 = set()
        changed = True
        while changed:
            changed = False
            for p in self.all:
                r = self._rank(p)
                if r is not None and (self.rank[p] is None or r < self.rank[p]):
                    self.rank[p] = r
                    changed = True
        # positions that may have a value of no bytes (least fixpoint)
        changed = True
        while changed:
            changed = False
            for p in self.all:
                if p not in self.width0 and self._w0(p):
                    self.width0.add(p)
                    changed = True

    def _rank(self, p):
        if not legal(self.s, p):
            return None
        x = node(self.s, p)
        kids = [self.rank[p + (i,)] for i in range(len(x["c"]))]
        k = x["k"]
        if k == "recurse":
            return self.rank[target(self.s, p)]
        if k == "option" or (k == "seq" and (not x["fx"] or nat(x["ln"]) == 0)):
            return 0
        if k == "seq":
            return None if kids[0] is None else kids[0] + 1
        if k in ("tuple", "struct"):
            return None if None in kids else 1 + max(kids, default=0)
        if k == "enum":
            ok = [r for r in kids if r is not None]
            return 1 + min(ok) if ok else None
        return 0

    def _w0(self, p):
        if not legal(self.s, p):
            return False
        x = node(self.s, p)
        k = x["k"]
        w = [p + (i,) in self.width0 for i in range(len(x["c"]))]
        if k == "recurse":
            return target(self.s, p) in self.width0
        if k == "unit":
            return True
        if k == "seq":
            return x["fx"] and (nat(x["ln"]) == 0 or w[0])
        if k in ("tuple", "struct"):
            return all(w)
        if k == "enum":
            return len(x["c"]) == 1 and w[0]
        return False

    def productive(self):
        return self.legal and all(r is not None for r in self.rank.values())

    def zero_width_elems(self):
        """Whether some seq has elements that may be empty."""
        return any(node(self.s, p)["k"] == "seq" and p + (0,) in self.width0 for p in self.all)


# What some code somewhere takes for more than plain text.
TEXTS = ["\ufeff", "\ufffe", "\uffff", "\ufdd0", "\ufffd", "\u2028", "\u2029", "\x85", "\xad", "\u200b", "\u200d", "\u202e", "\u0301", "e\u0301",
         "\u00e9", "\u00df", "\u0130", "\ufb01", "\u212b", "\0", "\x01", "\x1b", "\x1a", "\x7f", "\r\n", "\n\r", "\r", "\n", "\t", "\v", " ", "  ",
         "\xa0", "\u3000", "'", '"', "\\", "\\n", "\\u0041", "{}", "{0}", "%s", "%n", "%00", "&amp;", "<a>", "null", "true", "NaN", "0", "-1", "1e5",
         "r#a", "$a", "\ue000", "\U000f0000", "\U0010fffe", "\U0001f468\u200d\U0001f469", "A\u030a", "\ud7ff", "\U00010000"]
FIELDS_ALIKE = [["0", "1", "2", "3", "4"], ["start", "end"], ["secs", "nanos"], ["key", "value"], ["variant", "content", "tag", "type"],
                ["0", "0", "0", "0", "0"], ["1", "0", "2", "4", "3"], ["len", "inner", "name", "level"], ["some", "none"], ["true", "false"]]
VARIANTS_ALIKE = [["None", "Some"], ["Some", "None"], ["Ok", "Err"], ["false", "true"], ["0", "1", "2", "3", "4"], ["1", "0", "3", "2", "4"],
                  ["Unbounded", "Included", "Excluded"], ["Scalar", "Str", "Bytes", "Unit"], ["Unit", "Newtype", "Tuple", "Struct"],
                  ["V4", "V6"], ["0", "0", "0", "0", "0"]]
NAMES = ["a", "b", "c", "d", "foo", "bar", "x", "left", "right", "value", "", "A", "type",
         "é", "名", "with space", "quote\"", "back\\slash", "nl\n", "0", "a.b", "𝄞", "len", "inner"]


def near_names(n):
    """Other names which a sloppy comparison might take for the name n."""
    t = bytes(n).decode()
    out = [t + "!", t + "a", t[:-1], t[1:], "", t.upper(), t.lower(), t.swapcase(), t[:1].swapcase() + t[1:],
           t[:-1] + t[-1:].swapcase(), t.strip(), t + " ", " " + t, t + "\0", "\0" + t, "r#" + t, "_" + t, t + "_",
           t.replace("_", "-"), t.replace("_", ""), t + t, t[::-1], t.replace(".", "_"), t.encode("unicode_escape").decode(),
           unicodedata.normalize("NFD", t), unicodedata.normalize("NFKC", t), t[:-1] + "z", "z" + t[1:],
           t[:-1] + chr(ord(t[-1]) ^ 1) if t and ord(t[-1]) < 0x80 else t + "z", t[:len(t) // 2] + "~" + t[len(t) // 2 + 1:]]
    return [utf(x) for x in dict.fromkeys(out) if x != t]


class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)

    def name(self):
        r = self.r
        if r.random() < 0.03:
            return "n" * r.choice([127, 128, 200])
        return r.choice(NAMES)

    def names(self, n, families):
        """Any, or such as have a meaning somewhere."""
        r = self.r
        fit = [f for f in families if len(f) >= n]
        if n and r.random() < 0.2:
            return r.choice(fit)[:n]
        return [self.name() for _ in range(n)]

    # -------------------------------------------------------------- schemas

    def schema(self, size=12, rec=True, illegal=False, scalars=SCALARS, kinds=None):
        """A schema all of whose positions have values (unless illegal)."""
        while True:
            self.budget = self.r.randint(1, size)
            s = self._schema(0, rec, illegal, scalars, kinds)
            i = Info(s)
            if illegal:
                if not i.legal:
                    return s
            elif i.productive():
                return s

    def _schema(self, depth, rec, illegal, scalars, kinds):
        r = self.r
        self.budget -= 1
        go = lambda: self._schema(depth + 1, rec, illegal, scalars, kinds)
        leafs = ["scalar"] * 5 + ["str", "bytes", "unit"]
        if rec and depth > 0:
            leafs += ["recurse"] * 3
        if illegal:
            leafs += ["illegal"] * 3
        branch = kinds or ["option", "option", "varseq", "varseq", "fixseq", "tuple", "struct", "enum", "enum"]
        k = r.choice(leafs if self.budget <= 0 or depth > 7 else leafs[:2] + branch * 2)
        if k == "scalar":
            return scalar(r.choice(scalars))
        if k in ("str", "bytes", "unit"):
            return leaf(k)
        if k == "recurse":
            return recurse(r.randint(1, depth))
        if k == "illegal":
            return recurse(r.choice([0, 0, depth + 1, depth + 2, depth + 9, 2**32, 2**63]))
        if k == "option":
            return option(go())
        if k == "varseq":
            return varseq(go())
        if k == "fixseq":
            return fixseq(r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5]), go())
        n = r.choice([0, 1, 1, 2, 2, 2, 3, 3, 4])
        if k == "tuple":
            return tuple_(*[go() for _ in range(n)])
        if k == "struct":
            return struct(*[(x, go()) for x in self.names(n, FIELDS_ALIKE)])
        return enum(*[(x, go()) for x in self.names(max(1, n), VARIANTS_ALIKE)])

    def rec_schema(self):
        """Schemas in which recursion re-enters inner schemas."""
        r = self.r
        while True:
            s = self.schema(r.choice([6, 10, 14, 20]))
            if any(node(s, p)["k"] == "recurse" for p in paths(s)):
                return s

    # --------------------------------------------------------------- values

    def uint(self, bits):
        r = self.r
        w = r.random()
        if w < 0.25:
            n = r.choice([0, 1, 2, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300])
        elif w < 0.75:
            n = (1 << r.randint(0, bits)) + r.choice([-2, -1, -1, 0, 0, 1])
        elif w < 0.85:
            n = (1 << bits) - 1 - r.choice([0, 0, 1, 2, 127, 128])
        else:
            n = r.getrandbits(r.randint(1, bits))
        return max(0, min(n, (1 << bits) - 1))

    def scalar_value(self, t):
        """(neg, b)"""
        r = self.r
        if t in UINT:
            return False, le(self.uint(UINT[t]))
        if t in SINT:
            return r.random() < 0.5, le(self.uint(SINT[t] - 1))
        if t == "bool":
            return False, r.choice([[], [1]])
        if t == "char":
            while True:
                c = r.choice([0, 1, 0x41, 0x7f, 0x80, 0xff, 0x3fff, 0x4000, 0xd7ff, 0xe000, 0xffff,
                              0x10000, 0x10ffff, r.randint(0, 0x10ffff)])
                if not 0xd800 <= c < 0xe000:
                    return False, le(c)
        w = 4 if t == "f32" else 8
        special = {4: [0, 0x80000000, 0x7f800000, 0xff800000, 0x7fc00000, 0x7f800001, 0xffc12345, 1, 0x3f800000],
                   8: [0, 1 << 63, 0x7ff << 52, 0xfff << 52, 0x7ff8 << 48, (0x7ff << 52) + 1, 1, 0x3ff << 52]}[w]
        n = r.choice(special) if r.random() < 0.6 else r.getrandbits(8 * w)
        return False, list(n.to_bytes(w, "little"))

    def text(self):
        r = self.r
        w = r.random()
        if w < 0.04:
            return "x" * r.choice([126, 127, 128, 129, 255, 256, 300])
        pool = "abcXYZ019 \n\0é߿ࠀ￿𐀀名𝄞\U0010ffff\x7f\x80"
        return "".join(r.choice(pool) for _ in range(r.choice([0, 0, 1, 1, 2, 3, 5, 9])))

    def value(self, s, info=None, p=(), budget=14):
        self.vbudget = budget
        return self._value(s, info or Info(s), p, 0)

    def _value(self, s, info, p, depth):
        r = self.r
        p = target(s, p)
        x = node(s, p)
        k = x["k"]
        self.vbudget -= 1
        small = self.vbudget <= 0 or depth > 12
        go = lambda i: self._value(s, info, p + (i,), depth + 1)
        if k == "scalar":
            neg, b = self.scalar_value(x["t"])
            return vrec("scalar", x["t"], neg, b)
        if k == "str":
            return vrec("str", b=utf(self.text()))
        if k == "bytes":
            n = r.choice([127, 128, 129]) if r.random() < 0.03 else r.choice([0, 0, 1, 2, 3, 7])
            return vrec("bytes", b=[r.randrange(256) for _ in range(n)])
        if k == "unit":
            return vrec("unit")
        if k == "option":
            some = not small and r.random() < 0.75
            return vrec("option", c=[go(0)] if some else [])
        if k == "seq":
            if x["fx"]:
                return vrec("fseq", c=[go(0) for _ in range(nat(x["ln"]))])
            n = 0 if small else r.choice([0, 1, 1, 2, 2, 3, 4])
            return vrec("vseq", c=[go(0) for _ in range(n)])
        if k == "tuple":
            return vrec("tuple", c=[go(i) for i in range(len(x["c"]))])
        if k == "struct":
            return vrec("struct", c=[go(i) for i in range(len(x["c"]))], n=x["n"])
        if k == "enum":
            ranks = [info.rank[p + (i,)] for i in range(len(x["c"]))]
            if small:
                i = min(range(len(ranks)), key=lambda i: ranks[i])
            else:
                i = r.randrange(len(ranks))
            return vrec("enum", b=le(i), c=[go(i)], n=[x["n"][i]])
        raise ValueError(k)


def vrec(k, t="", neg=False, b=(), c=(), n=()):
    return {"k": k, "t": t, "neg": neg, "b": list(b), "c": list(c), "n": list(n)}


# --------------------------------------------------- bytes (to be mutated)

def var_uint(n):
    out = []
    while True:
        out.append((n & 127) | (128 if n > 127 else 0))
        n >>= 7
        if not n:
            return out


def var_sint(neg, n):
    out = [(n & 63) | (64 if neg else 0) | (128 if n > 63 else 0)]
    n >>= 6
    return out + (var_uint(n) if n else [])


def ord_width(n):
    m = n - 1
    w = 0
    while m > 0:
        m >>= 8
        w += 1
    return w


def encode(s, v, p=()):
    p = target(s, p)
    x = node(s, p)
    k = v["k"]
    kids = lambda f: sum((encode(s, y, p + (f(i),)) for i, y in enumerate(v["c"])), [])
    if k == "scalar":
        t, n = v["t"], nat(v["b"])
        if t in ("f32", "f64"):
            return list(v["b"])
        if t in ("u8", "u16", "i8", "i16"):
            w = 1 if t[1:] == "8" else 2
            return list(((~n if v["neg"] else n) % (1 << (8 * w))).to_bytes(w, "little"))
        if t == "bool":
            return [n]
        return var_sint(v["neg"], n) if t in SINT else var_uint(n)
    if k in ("str", "bytes"):
        return var_uint(len(v["b"])) + list(v["b"])
    if k == "unit":
        return []
    if k == "option":
        return [len(v["c"])] + kids(lambda i: 0)
    if k == "fseq":
        return kids(lambda i: 0)
    if k == "vseq":
        return var_uint(len(v["c"])) + kids(lambda i: 0)
    if k in ("tuple", "struct"):
        return kids(lambda i: i)
    o = nat(v["b"])
    return list(o.to_bytes(ord_width(len(x["c"])), "little")) + kids(lambda i: o)


# ------------------------------------------------------------------- calls

def call(op, t="", neg=False, b=(), ln=(), nm=(), **more):
    return {"op": op, "t": t, "neg": neg, "b": list(b), "ln": list(ln), "nm": list(nm), **more}


def calls(enc, v):
    """The calls which code a value."""
    k = v["k"]
    if k == "scalar":
        return [call("scalar", v["t"], v["neg"], v["b"])]
    if k in ("str", "bytes"):
        return [call(k, b=v["b"])]
    if k == "unit":
        return [call("unit")]
    inner = [calls(enc, x) for x in v["c"]]
    if k == "option":
        if not enc:
            return [call("begin_option")] + sum(inner, [])
        return [call("begin_some")] + inner[0] if inner else [call("none")]
    if k in ("fseq", "vseq"):
        op = "begin_fixed_len_seq" if k == "fseq" else "begin_var_len_seq"
        return ([call(op, ln=le(len(inner)))]
                + sum(([call("begin_seq_elem")] + x for x in inner), []) + [call("finish_seq")])
    if k == "tuple":
        return ([call("begin_tuple")] + sum(([call("begin_tuple_elem")] + x for x in inner), [])
                + [call("finish_tuple")])
    if k == "struct":
        return ([call("begin_struct")]
                + sum(([call("begin_struct_field", nm=n)] + x for n, x in zip(v["n"], inner)), [])
                + [call("finish_struct")])
    if enc:
        return [call("begin_enum", ln=v["b"], nm=v["n"][0])] + inner[0]
    return [call("begin_enum"), call("begin_enum_variant", nm=v["n"][0])] + inner[0]


class OpGen(Gen):
    def any_call(self, enc, s):
        """Some call, valid or not."""
        r = self.r
        names = [n for p in paths(s) for n in node(s, p)["n"]] or [utf("zz")]
        nm = r.choice(names) if r.random() < 0.8 else utf(self.name())
        ln = le(r.choice([0, 0, 1, 1, 2, 3, 4, 5, 2**32, 2**63]))
        ops = ["scalar"] * 4 + ["str", "bytes", "unit", "begin_fixed_len_seq", "begin_var_len_seq",
               "begin_seq_elem", "finish_seq", "begin_tuple", "begin_tuple_elem", "finish_tuple",
               "begin_struct", "begin_struct_field", "finish_struct", "begin_enum"]
        ops += ["none", "begin_some"] if enc else ["begin_option", "begin_enum_variant", "str_into", "bytes_into"]
        op = r.choice(ops)
        if op == "scalar":
            t = r.choice(SCALARS)
            neg, b = self.scalar_value(t)
            return call(op, t, neg, b)
        if op == "str":
            return call(op, b=utf(self.text()))
        if op == "bytes":
            return call(op, b=[1, 2])
        return call(op, ln=ln, nm=nm)

    def near_miss(self, enc, s, c):
        """A call like c but slightly off."""
        r = self.r
        c = dict(c)
        op = c["op"]
        names = [n for p in paths(s) for n in node(s, p)["n"]] or [utf("zz")]
        if op == "scalar":
            swaps = {"u8": ["i8", "bool"], "i8": ["u8"], "u16": ["i16"], "i16": ["u16"],
                     "u32": ["u64", "char", "i32"], "u64": ["u32", "u128", "i64"], "u128": ["u64"],
                     "i32": ["i64", "u32"], "i64": ["i32", "i128"], "i128": ["i64"],
                     "f32": ["f64", "u32"], "f64": ["f32"], "char": ["u32"], "bool": ["u8"]}
            t = r.choice(swaps[c["t"]])
            neg, b = self.scalar_value(t)
            return call("scalar", t, neg, b)
        if op in ("str", "bytes"):
            return call("bytes" if op == "str" else "str", b=[65])
        if op == "begin_fixed_len_seq":
            n = nat(c["ln"])
            return r.choice([call(op, ln=le(n + 1)), call(op, ln=le(max(0, n - 1))),
                             call(op, ln=le(n + 256)), call("begin_var_len_seq", ln=c["ln"]),
                             call("begin_tuple")])
        if op == "begin_var_len_seq":
            return r.choice([call("begin_fixed_len_seq", ln=c["ln"]), call("begin_tuple")])
        if op == "begin_tuple":
            return r.choice([call("begin_struct"), call("begin_fixed_len_seq", ln=le(2)), call("unit")])
        if op == "begin_struct":
            return r.choice([call("begin_tuple"), call("unit")])
        if op == "begin_seq_elem":
            return r.choice([call("finish_seq"), call("begin_tuple_elem"), call("finish_tuple")])
        if op == "finish_seq":
            return r.choice([call("begin_seq_elem"), call("finish_tuple"), call("finish_struct")])
        if op == "begin_tuple_elem":
            return r.choice([call("finish_tuple"), call("begin_seq_elem")])
        if op == "finish_tuple":
            return r.choice([call("begin_tuple_elem"), call("finish_seq"), call("finish_struct")])
        if op == "finish_struct":
            return r.choice([call("begin_struct_field", nm=r.choice(names)), call("finish_tuple")])
        if op in ("begin_struct_field", "begin_enum_variant"):
            nm = c["nm"]
            return r.choice([call(op, nm=r.choice(near_names(nm))), call(op, nm=r.choice(near_names(nm))),
                             call(op, nm=r.choice(names)), call("finish_struct")])
        if op == "begin_enum" and enc:
            n = nat(c["ln"])
            return r.choice([call(op, ln=le(n + 1), nm=c["nm"]), call(op, ln=le(max(n - 1, 0)), nm=c["nm"]),
                             call(op, ln=le(n + 256), nm=c["nm"]), call(op, ln=le(2**64 - 1), nm=c["nm"]),
                             call(op, ln=c["ln"], nm=r.choice(near_names(c["nm"]))), call(op, ln=c["ln"], nm=r.choice(names))])
        if op == "none":
            return call("unit")
        if op in ("begin_some", "begin_option"):
            return r.choice([call("unit"), call("begin_tuple"), call("begin_seq_elem")])
        return self.any_call(enc, s)

    def noisy(self, enc, s, ops, rate):
        """Insert calls that are mostly invalid where they are."""
        out = []
        for c in ops + [None]:
            while self.r.random() < rate:
                if c is not None and self.r.random() < 0.6:
                    out.append(self.near_miss(enc, s, c))
                else:
                    out.append(self.any_call(enc, s))
            if c is not None:
                out.append(c)
        return out

    def broken_plan(self, ops):
        """Drop, double, swap or cut calls."""
        r = self.r
        ops = list(ops)
        for _ in range(r.choice([1, 1, 2])):
            if not ops:
                break
            i = r.randrange(len(ops))
            w = r.randrange(5)
            if w == 0:
                del ops[i]
            elif w == 1:
                ops.insert(i, ops[i])
            elif w == 2 and i + 1 < len(ops):
                ops[i], ops[i + 1] = ops[i + 1], ops[i]
            elif w == 3:
                del ops[i:i + r.randint(1, 4)]
            else:
                ops = ops[:i]
        return ops

    def script(self, n=40):
        r = self.r
        w = r.random()
        if w < 0.2:
            return []
        if w < 0.4:
            return [1] * n
        if w < 0.6:
            return [r.choice([0, 1]) for _ in range(n)]
        return [r.choice([0, 1, 1, 2, 3, 5, 7]) for _ in range(n)]

    def mutate(self, b):
        """Damage a message."""
        r = self.r
        b = list(b)
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            w = r.randrange(8)
            i = r.randrange(len(b)) if b else 0
            if w == 0 and b:
                b = b[:i]
            elif w == 1 and b:
                b[i] ^= 1 << r.randrange(8)
            elif w == 2 and b:
                b[i] = r.choice([0, 1, 2, 127, 128, 255, r.randrange(256)])
            elif w == 3:
                b.insert(i, r.choice([0, 1, 2, 128, 255]))
            elif w == 4 and b:
                del b[i]
            elif w == 5 and b:
                b[i:i + 1] = r.choice([HUGE, OVER, [0x80] * 5 + [1], [0xff] * 9 + [1], [0x80, 0]])
            elif w == 6:
                b = b + [r.randrange(256)]
            elif b:
                b = b[i:]
        return b


HUGE = var_uint(2**62)
OVER = [0xff] * 18 + [0x03]


def run(s, enc, ops, inp=(), **kw):
    d = {"s": s, "enc": enc, "ops": ops, "inp": list(inp), "script": [], "endm": "eof" if not enc else "err",
         "lim": -1, "log": "none", "loglim": -1, "end": "alloc", "twin": 0, "reuses": False, "dbg": False,
         # whether one encoder or decoder object makes all the calls, or one each
         "one": len(ops) % 2 == 1}
    d.update(kw)
    return d


def ops_case(*runs, **kw):
    return {"do": "ops", "runs": list(runs), **kw}
