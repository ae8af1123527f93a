"""Invocations of schema! as token trees (spec/Macro.tla), and their Rust text."""
import random
from gen import *

IDENTS = ["a", "b", "c", "foo", "A", "Zed", "x1", "_", "_x", "type", "self", "Self", "struct", "enum", "fn", "crate", "super",
          "u8", "str", "option", "seq", "varlen", "tuple", "recurse", "unit", "bytes", "r", "größe", "名前", "None", "Some",
          "Box", "String", "Vec", "Schema", "schema", "true", "async", "dyn", "match", "union", "static", "as", "name", "inner",
          "len", "n", "std", "core", "vec", "very_long_name_of_a_field_that_is_longer_than_most", "mod", "try", "gen", "where",
          "macro_rules", "default", "crate_", "x" * 130]
IDENTS.remove("_")   # not an identifier
# of the crate with the invocations; names which the macro must not look up there
SHADOW = """
    pub struct Vec; pub struct String; pub struct Box; pub enum Option { None, Some } pub struct Schema; pub struct Some;
    pub struct None; pub struct SeqSchema; pub struct ScalarType; pub struct StructSchemaField; pub struct EnumSchemaVariant;
    pub mod std {} pub mod core {} pub mod alloc {} pub mod binschema {} pub mod schema {} pub trait From {} pub trait Into {}
    pub fn from() {} pub fn varlen() {}
    #[allow(unused_macros)] macro_rules! vec { ($($t:tt)*) => { compile_error!("shadowed") } }
    #[allow(unused_macros)] macro_rules! stringify { ($($t:tt)*) => { compile_error!("shadowed") } }
    #[allow(unused_macros)] macro_rules! schema { ($($t:tt)*) => { compile_error!("shadowed") } }
"""


def tt(t, n=(), c=(), k="", x=""):
    return {"t": t, "n": list(n), "c": list(c), "k": k, "x": x}


def wd(w): return tt("id", utf(w), x=w)


COMMA, COLON, PCT = tt(",", x=","), tt(":", x=":"), tt("%", x="%")


def par(*c): return tt("(", c=c)
def brace(*c): return tt("{", c=c)


class MacroGen(Gen):
    def ident(self):
        return self.r.choice(IDENTS)

    def number(self, n):
        """Expressions for a number."""
        r = self.r
        c = [str(n), str(n), "%dusize" % n, hex(n), "(%d)" % n, "{ %d }" % n, "%d as usize" % n, "crate::num::<%d>()" % n,
             "if true { %d } else { 7 }" % n, "crate::CONSTS[0] + %d" % n, "{ let varlen = %d; varlen }" % n]
        # has another value if evaluated again
        c.append("crate::once(%d)" % n)
        if n < 2**63:
            c.append("%d + 1 - 1" % n)
        if n == 2**64 - 1:
            c.append("usize::MAX")
        if 0 < n < 100:
            c.append("[0u8; %d].len()" % n)
            c.append("1 + %d" % (n - 1))
        return tt("num", le(n), x=r.choice(c))

    def items(self, cs):
        out = []
        for i, c in enumerate(cs):
            if i:
                out.append(COMMA)
            out += c
        if cs and self.r.random() < 0.4:
            out.append(COMMA)
        return out

    def contents(self, s, depth=0):
        """Contents of the macro for the schema s."""
        r = self.r
        k = s["k"]
        go = lambda i=0: self.contents(s["c"][i], depth + 1)
        names = [bytes(n).decode() for n in s["n"]]
        plain = all(n in IDENTS for n in names)
        w = r.random()
        if not plain or w < 0.06 and k in ("struct", "enum"):
            return [PCT, tt("conv", k=k, c=[tt("(", c=go(i)) for i in range(len(s["c"]))]) | {"n": s["n"]}]
        if w < 0.08:
            return [PCT, tt("conv", c=[tt("(", c=self.contents(s, depth + 1))])]
        if k == "scalar":
            return [wd(s["t"])]
        if k in ("str", "bytes", "unit"):
            return [wd(k)]
        if k == "option":
            return [wd(k), par(*go())]
        if k == "seq":
            return [wd(k), par(self.number(nat(s["ln"])) if s["fx"] else wd("varlen")), par(*go())]
        if k == "recurse":
            return [wd(k), par(self.number(nat(s["ln"])))]
        ix = range(len(s["c"]))
        if k == "tuple":
            return [wd(k), brace(*self.items([[par(*go(i))] for i in ix]))]
        if k == "struct":
            return [wd(k), brace(*self.items([[par(wd(names[i]), COLON, *go(i))] for i in ix]))]
        return [wd(k), brace(*self.items([[wd(names[i]), par(*go(i))] for i in ix]))]

    def name(self):
        return self.ident() if self.r.random() < 0.85 else super().name()

    def names(self, n, families):
        return [self.name() for _ in range(n)]

    def any_schema(self):
        """Any schema, legal or not, with any numbers."""
        r = self.r
        self.budget = r.choice([1, 1, 2, 3, 5, 8, 14])
        s = self._schema(0, True, r.random() < 0.3, SCALARS, None)

        def numbers(s):
            if s["k"] == "recurse" and r.random() < 0.5 or s["k"] == "seq" and s["fx"] and r.random() < 0.4:
                s = dict(s, ln=le(r.choice([0, 1, 2, 9, 42, 255, 256, 65535, 2**31, 2**32, 2**63, 2**64 - 1])))
            if s["k"] == "enum" and r.random() < 0.1:
                s = dict(s, c=[], n=[])
            return dict(s, c=[numbers(x) for x in s["c"]])
        return numbers(s)

    def other(self, s):
        """A schema which differs in one place."""
        r = self.r
        q = r.choice(list(paths(s)))
        x = node(s, q)
        k = x["k"]
        w = []
        if k == "scalar":
            w += [dict(x, t=r.choice([t for t in SCALARS if t != x["t"]])), leaf("unit")]
        if k in ("str", "bytes", "unit"):
            w += [leaf(r.choice([t for t in ("str", "bytes", "unit") if t != k])), scalar("u8"), tuple_()]
        if k == "option":
            w += [varseq(x["c"][0]), x["c"][0], tuple_(x["c"][0])]
        if k == "seq":
            w += [dict(x, fx=not x["fx"], ln=[]), dict(x, fx=True, ln=le(nat(x["ln"]) ^ 1 << r.choice([0, 7, 8, 32, 63]))),
                  option(x["c"][0])]
        if k == "recurse":
            w += [dict(x, ln=le(nat(x["ln"]) ^ 1 << r.choice([0, 7, 8, 32, 63]))), leaf("unit")]
        if k in ("tuple", "struct", "enum"):
            to = r.choice([t for t in ("tuple", "struct", "enum") if t != k])
            n = len(x["c"])
            w += [dict(x, k=to, n=[] if to == "tuple" else x["n"] or [utf("f%d" % i) for i in range(n)])]
            if n:
                i = r.randrange(n)
                w += [dict(x, c=x["c"][:i] + x["c"][i + 1:], n=x["n"][:i] + x["n"][i + 1:]),
                      dict(x, c=x["c"][:i + 1] + x["c"][i:], n=x["n"][:i + 1] + x["n"][i:])]
                if k != "tuple":
                    w += [dict(x, n=x["n"][:i] + [r.choice(near_names(x["n"][i]))] + x["n"][i + 1:])] * 2
                if n > 1:
                    w += [dict(x, c=x["c"][::-1]), dict(x, n=x["n"][::-1])]

        def put(s, q):
            if not q:
                return r.choice(w)
            c = list(s["c"])
            c[q[0]] = put(c[q[0]], q[1:])
            return dict(s, c=c)
        return put(s, q)

    # -------------------------------------------------------------- rendering

    def text(self, tts, mac):
        """Rust text of token trees; mac: how schema! is invoked in there."""
        r = self.r
        out = []
        for x in tts:
            if x["t"] in ("(", "{", "["):
                o, c = {"(": "()", "{": "{}", "[": "[]"}[x["t"]]
                out.append(o + self.text(x["c"], mac) + c)
            elif x["t"] == "conv":
                out.append(self.conv(x, mac))
            else:
                out.append(x["x"])
        s = ""
        for i, a in enumerate(out):
            if i and (s[-1].isalnum() or s[-1] == "_" or s[-1] in "'\"%") or r.random() < 0.3:
                s += r.choice([" ", " ", " ", "  ", " /* , ( */ ", "\t"])
            s += a
        return s

    def invoke(self, tts, mac):
        o, c = self.r.choice(["()", "{}", "[]"])
        return mac + "!" + o + self.text(tts, mac) + c

    def conv(self, x, mac):
        r = self.r
        if not x["k"]:
            s = self.invoke(x["c"][0]["c"], mac)
            return r.choice(["%s", "{ %s }", "(%s)", "{ let s = %s; s }", "::std::clone::Clone::clone(&%s)"]) % s
        item = "::binschema::" + {"struct": "StructSchemaField", "enum": "EnumSchemaVariant"}[x["k"]]
        its = []
        for n, c in zip(x["n"], x["c"]):
            n = bytes(n).decode()
            q = rust_str(n)
            names = [q, q, "::std::string::String::from(%s)" % q, "::std::borrow::Cow::Borrowed(%s)" % q,
                     "::std::boxed::Box::<str>::from(%s)" % q, "&::std::string::String::from(%s)" % q]
            if len(n) == 1:
                names.append("'%s'" % rust_str(n)[1:-1])
            pair = "(%s, %s)" % (r.choice(names), self.invoke(c["c"], mac))
            its.append(r.choice(["::std::convert::Into::<%s>::into(%s)" % (item, pair),
                                 "<%s as ::std::convert::From<_>>::from(%s)" % (item, pair)]))
        return "::binschema::Schema::%s(::std::vec![%s])" % (x["k"].capitalize(), ", ".join(its))

    def function(self, i, tts):
        """(where, text) of a function case_i making the schema."""
        w = self.r.randrange(6)
        where, mac = [("plain", "::binschema::schema"), ("plain", "binschema::schema"), ("imported", "schema"),
                      ("renamed", "bs::sch"), ("shadow", "::binschema::schema"), ("plain", "crate::wrap")][w]
        return where, "pub fn case_%d() -> ::binschema::Schema { %s }" % (i, self.invoke(tts, mac))

    # -------------------------------------------------------------- malformed

    def spoil(self, tts):
        """Some other contents, most likely no schema's."""
        r = self.r
        # somewhere inside, but not inside of conv
        spots = []

        def walk(c, p):
            spots.append(p)
            for i, x in enumerate(c):
                if x["t"] in ("(", "{"):
                    walk(x["c"], p + (i,))
        walk(tts, ())
        p = r.choice(spots)

        def go(c, p):
            c = list(c)
            if p:
                c[p[0]] = dict(c[p[0]], c=go(c[p[0]]["c"], p[1:]))
                return c
            w = r.randrange(9)
            i = r.randrange(len(c)) if c else 0
            if not c or w == 0:
                return c[:i] + [r.choice([COMMA, COLON, wd("u8"), wd("a"), par(), brace(), par(wd("u8")), wd("varlen")])] + c[i:]
            if w == 1:
                return c[:i] + c[i + 1:]
            if w == 2 and c[i]["t"] in ("(", "{"):
                c[i] = dict(c[i], t=r.choice([t for t in "({[" if t != c[i]["t"]]))
            elif w == 3 and c[i]["t"] == "id":
                c[i] = wd(r.choice(["u256", "uint", "string", "Option", "U8", "float", "vec", "list", "map", "f128", "i", "u",
                                    "boolean", "byte", "usize", "isize", "f16", "sequence", "rec", "var", "opt", "Struct", "none"]))
            elif w == 4 and c[i]["t"] in ("(", "{"):
                c[i:i + 1] = c[i]["c"]
            elif w == 5:
                c.insert(i, c[i])
            elif w == 6 and len(c) > 1:
                j = r.randrange(len(c))
                c[i], c[j] = c[j], c[i]
            elif w == 7:
                c[i] = r.choice([COMMA, COLON, par(), brace(), wd("u8"), wd("x")])
            else:
                c[i] = tt(r.choice("({"), c=[c[i]])
            return c
        return go(tts, p)


def rust_str(t):
    return '"%s"' % "".join(c if c.isalnum() or c in " _.-!" else "\\u{%x}" % ord(c) for c in t)


def doubtful(tts):
    """Whether the compiler might refuse the text only after it took it for a
    schema, or the text means something other than its tokens say."""
    for i, x in enumerate(tts):
        nxt = tts[i + 1] if i + 1 < len(tts) else None
        if x["t"] == "%":
            # an expression follows, which may go on
            if i or len(tts) != 2 or tts[1]["t"] != "conv":
                return True
        if x["t"] in ("num", "conv") and (len(tts) > 2 or x["t"] == "num" and len(tts) > 1):
            return True
        if x["t"] == "num" and len(tts) == 1:
            continue
        if x["t"] == "id" and x["x"] in ("seq", "recurse") and nxt and nxt["t"] == "(":
            # the number has to be one, or else be missing
            c = nxt["c"]
            if not (len(c) == 0 or len(c) == 1 and (c[0]["t"] == "num" or c[0]["x"] == "varlen" and x["x"] == "seq"
                                                    or c[0]["t"] in (",", ":"))):
                return True
        if x["t"] in ("(", "{", "[") and (doubtful(x["c"]) or [y["t"] for y in x["c"]] == [","]):
            return True
    return [y["t"] for y in tts] == [","]


CRATE = """#![allow(dead_code, unused, non_camel_case_types, non_snake_case, uncommon_codepoints, mixed_script_confusables, clippy::all)]
#[path = "%(src)s/conv.rs"] mod conv;
#[path = "%(src)s/../types/mac.rs"] mod mac;
pub const CONSTS: [usize; 1] = [0];
pub const fn num<const N: usize>() -> usize { N }
#[track_caller] pub fn once(n: usize) -> usize {
    static AT: ::std::sync::Mutex<::std::vec::Vec<&::core::panic::Location>> = ::std::sync::Mutex::new(::std::vec::Vec::new());
    let (at, mut all) = (::core::panic::Location::caller(), AT.lock().unwrap());
    if all.contains(&at) { return n ^ 1; }
    all.push(at);
    n
}
macro_rules! wrap { ($($t:tt)*) => { ::binschema::schema!($($t)*) } }
pub(crate) use wrap;
mod plain {
%(plain)s
}
mod imported { use binschema::*;
%(imported)s
}
mod renamed { mod bs { pub use binschema::schema as sch; }
%(renamed)s
}
mod shadow { use ::binschema as krate; """ + SHADOW + """
%(shadow)s
}
fn dispatch(i: usize) -> ::binschema::Schema { match i {
%(dispatch)s
_ => panic!("harness: case") } }
fn main() { mac::main(dispatch) }
"""


def crate(g, cases, src):
    """The text of a crate with the invocations, and which case is on which line."""
    fs = {w: [] for w in ("plain", "imported", "renamed", "shadow")}
    d = []
    for i, tts in enumerate(cases):
        w, f = g.function(i, tts)
        fs[w].append(f)
        d.append("%d => %s::case_%d()," % (i, w, i))
    text = CRATE % dict({w: "\n".join(x) for w, x in fs.items()}, src=src, dispatch="\n".join(d))
    at = {}
    for n, line in enumerate(text.split("\n"), 1):
        if line.startswith("pub fn case_"):
            at[n] = int(line[12:line.index("(")])
    return text, at
