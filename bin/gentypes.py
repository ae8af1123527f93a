"""Random Rust types: a crate which has them, and the specification's view of
them (spec/Types.tla).

An expression is a tuple (kind, ...):
  ("scalar", t) ("str",) ("unit",) ("option", e) ("seq", container, e) ("map", container, k, v)
  ("array", n, e) ("tuple", [e]) ("range", which, e) ("bound", e) ("transp", which, e) ("ref", i) ("schema",)
  ("attr", level, e)     field with #[schema(recurse = level)]
A definition is a dict: form "unit" "tuple0" "newtype" "tuple" "struct" "enum", with
fields [(name, e)], or variants [(name, form, fields)]; path its Rust path:
one in a module, at the root of the crate, or "localN::Node", a type which is
local to a block, so that others are of the same full name, reached by a trait.
Those with "generic" are instances of one generic type.
"""
import random

SCALARS = ["u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "f32", "f64", "char", "bool",
           "usize", "isize"]
SEQS = ["Vec", "VecDeque", "LinkedList", "BTreeSet", "HashSet", "BinaryHeap"]
UNORDERED = {"HashSet", "HashMap", "BinaryHeap"}
FIELD_NAMES = ["a", "b", "value", "left", "right", "r#type", "r#match", "größe", "r#fn", "x1", "_hidden", "名前", "kids",
               "FOO", "r#in", "very_long_field_name_of_some_struct", "next", "lenght", "r#true_", "data"]
VARIANT_NAMES = ["A", "B", "Leaf", "Branch", "r#None", "Some", "Unit", "Ünïcode", "X1", "lower", "r#type", "Node", "Nil",
                 "VeryLongNameOfSomeVariant", "Ok", "Err", "R2", "r#Box"]


class Types:
    def __init__(self, seed, ndefs=40, wide=False):
        self.r = random.Random(seed)
        self.wide = None
        self.defs = []
        self.n = ndefs
        self.attrs = {}     # def -> set of traits it can have out of {"ord", "hash"}
        for i in range(ndefs):
            self.defs.append(self.gen_def(i))
            self.fix_attrs()
        self.private = set()    # not to be used elsewhere
        for _ in range(ndefs // 6):
            self.private.add(len(self.defs))
            self.defs += self.attr_pair(len(self.defs))
        for _ in range(ndefs // 3):
            self.defs += self.chain(len(self.defs))
        self.fix_attrs()
        self.defs.append(self.big_enum())
        self.defs += self.generic(len(self.defs))
        if wide:
            self.wide = len(self.defs)
            self.defs.append({"form": "struct", "manual": False, "find": False, "path": "Wide",
                              "fields": [("f%d" % k, ("scalar", SCALARS[k % len(SCALARS)]) if k % 100 < 99 else
                                          ("option", ("transp", "Box", ("ref", self.wide)))) for k in range(260)]})
        self.fix_attrs()

    # ------------------------------------------------------------- generation

    def leaf(self):
        r = self.r
        if r.random() < 0.12:
            # of size zero
            u = ("unit",)
            return r.choice([("array", 0, ("str",)), ("array", 2, u), ("tuple", [u]), ("tuple", [u, ("array", 0, ("scalar", "u8"))])])
        return r.choice([("scalar", r.choice(SCALARS)), ("scalar", r.choice(SCALARS)), ("str",), ("unit",)])

    def key(self, i, need, d):
        """An expression having the traits need."""
        while True:
            e = self.expr(i, d, True, True, back=False)
            if need <= self.traits(e):
                return e

    def expr(self, i, d, guarded, indirect, back=True):
        """guarded: its value can be left out; indirect: it is not inline."""
        r = self.r
        if d <= 0 or r.random() < 0.25:
            x = r.random()
            if back and guarded and x < 0.45:
                j = r.randrange(i, min(self.n, i + 3)) if i < self.n and r.random() < 0.6 else r.randrange(0, self.n)
                if j >= i or r.random() < 0.7:
                    e = ("ref", j)
                    return e if indirect and r.random() < 0.7 else ("transp", "Box", e)
            if i > 0 and x < 0.65:
                return ("ref", r.randrange(max(0, i - 6), i))
            return self.leaf()
        k = r.choice(["option", "option", "seq", "seq", "seq", "map", "map", "array", "tuple", "tuple", "range", "bound",
                      "box", "cow", "schema"])
        sub = lambda g, ind: self.expr(i, d - 1, g, ind, back)
        if k == "option":
            return ("option", sub(True, indirect))
        if k == "seq":
            c = r.choice(SEQS)
            if c in ("BTreeSet", "BinaryHeap"):
                return ("seq", c, self.key(i, {"ord"}, d - 1))
            if c == "HashSet":
                return ("seq", c, self.key(i, {"hash"}, d - 1))
            return ("seq", c, sub(True, True))
        if k == "map":
            c = r.choice(["BTreeMap", "HashMap"])
            return ("map", c, self.key(i, {"ord"} if c == "BTreeMap" else {"hash"}, d - 2), sub(True, True))
        if k == "array":
            return ("array", r.choice([0, 1, 2, 3, 32]) if d < 2 else r.choice([1, 2]), sub(guarded, indirect))
        if k == "tuple":
            n = r.choice([1, 2, 2, 3, 3, 4, 11])
            return ("tuple", [self.expr(i, d - 1 if n < 5 else 0, guarded, indirect, back and n < 5) for _ in range(n)])
        if k == "range":
            return ("range", r.choice(["Range", "RangeInclusive"]), sub(guarded, indirect))
        if k == "bound":
            return ("bound", sub(True, indirect))
        if k == "box":
            return ("transp", "Box", sub(guarded, True))
        if k == "cow":
            # no recursion inside, it needs Clone
            return ("transp", "Cow", self.expr(i, d - 1, True, True, back=False))
        return ("schema",)

    def fields(self, i, form, guarded, names):
        n = {"unit": 0, "tuple0": 0, "newtype": 1, "tuple": self.r.choice([2, 2, 3, 4]),
             "struct": self.r.choice([0, 1, 1, 2, 3, 4])}[form]
        out = []
        for nm in self.r.sample(names, n) if form == "struct" else [""] * n:
            e = self.expr(i, self.r.choice([0, 1, 2, 2, 3]), guarded, False)
            if form == "newtype" and self.r.random() < 0.2:
                e = self.leaf()
            out.append((nm, e))
        return out

    def gen_def(self, i):
        r = self.r
        form = r.choice(["struct"] * 5 + ["enum"] * 6 + ["tuple", "tuple", "newtype", "newtype", "unit", "tuple0"])
        d = {"form": form, "manual": r.random() < 0.15, "find": r.random() < 0.5,
             "path": ("local%d::Node" if i % 2 else "m%d::Node") % i if r.random() < 0.35 else "D%d" % i}
        if form != "enum":
            d["fields"] = self.fields(i, form, False, FIELD_NAMES)
            return d
        n = r.choice([1, 2, 2, 3, 3, 4, 5])
        base = r.randrange(n)
        d["base"] = base
        d["variants"] = []
        for k, nm in enumerate(r.sample(VARIANT_NAMES, n)):
            f = r.choice(["unit", "tuple0", "newtype", "newtype", "tuple", "tuple", "struct", "struct", "struct"])
            fs = self.fields(i, f, k != base, FIELD_NAMES)
            if k != base and fs and r.random() < 0.25 and not d["manual"]:
                # the enum itself, said by attribute
                j = r.randrange(len(fs))
                fs[j] = (fs[j][0], ("attr", 1 if f == "newtype" else 2, ("transp", "Box", ("ref", i))))
            d["variants"].append((nm, f, fs))
        return d

    def attr_pair(self, i):
        """A type with an attribute, and the type around it which that means."""
        r = self.r
        level = 0
        back, form = ("transp", "Box", ("ref", i + 1)), r.choice(["struct", "struct", "tuple", "enum", "newtype"])
        # levels between the attribute and the type itself
        level += {"struct": 1, "tuple": 1, "newtype": 0, "enum": 2}[form]
        fields = lambda: [(n, self.leaf()) for n in r.sample(FIELD_NAMES, 2)]
        x = ("ref", i)
        fs = fields()
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            w = r.choice(["option", "vec", "array", "tuple", "box", "map"])
            level += {"box": 0, "map": 2}.get(w, 1)
            if w == "option":
                x = ("option", x)
            elif w == "vec":
                x = ("seq", "Vec", x)
            elif w == "array":
                x = ("array", 2, x)
            elif w == "tuple":
                x = ("tuple", [x, self.leaf()])
            elif w == "box":
                x = ("transp", "Box", x)
            else:
                x = ("map", "BTreeMap", ("scalar", "u8"), x)
        outer = {"form": "enum", "manual": False, "find": False, "path": "D%d" % (i + 1), "base": 0, "variants": [("Nil", "unit", [])]}
        f = r.choice(["newtype", "tuple", "struct"])
        level += 1 if f == "newtype" else 2
        ofs = [(fs[0][0], x)] if f == "newtype" else [(fs[0][0], x), fs[1]]
        outer["variants"].append(("Node", f, [(n if f == "struct" else "", e) for n, e in ofs]))
        # the level from the position of the field to that of the outer type
        me = ("attr", level, back)
        inner = {"manual": False, "find": False, "path": "D%d" % i, "form": form}
        if form == "enum":
            inner["base"] = 0
            inner["variants"] = [("Leaf", "unit", []), ("Back", "struct", [fields()[0], ("back", me)])]
        elif form == "newtype":
            inner["fields"] = [("", me)]
        elif form == "tuple":
            inner["fields"] = [("", self.leaf()), ("", me)]
        else:
            inner["fields"] = [("back", me), ("next", self.leaf())]
        return [inner, outer]

    def chain(self, i):
        """Types each inside of the next, the innermost leading back to one
        of them: mostly newtypes, which are no level of the tree."""
        r = self.r
        n = r.choice([1, 2, 2, 3, 3, 4, 5])
        out = []
        for k in range(n):
            form = r.choice(["newtype"] * 4 + ["struct", "struct", "tuple", "enum"])
            if k == 0:
                t = i + (n - 1 if r.random() < 0.6 else r.randrange(n))
                back = ("transp", "Box", ("ref", t))
                x = r.choice([("option", back), ("option", back), ("seq", "Vec", ("ref", t)), ("seq", "VecDeque", ("ref", t)),
                              ("map", "BTreeMap", ("scalar", "u8"), ("ref", t)), ("bound", back),
                              ("option", ("tuple", [self.leaf(), back])), ("option", ("option", back))])
            else:
                x = ("ref", i + k - 1)
                for _ in range(r.choice([0, 0, 0, 1, 1, 2])):
                    w = r.choice(["box", "box", "option", "vec", "tuple", "array"])
                    x = {"box": ("transp", "Box", x), "option": ("option", x), "vec": ("seq", "Vec", x),
                         "tuple": ("tuple", [self.leaf(), x]), "array": ("array", 1, x)}[w]
            d = {"form": form, "manual": r.random() < 0.15, "find": r.random() < 0.5,
                 "path": ("local%d::Node" if (i + k) % 3 == 0 else "D%d") % (i + k)}
            names = r.sample(FIELD_NAMES, 2)
            if form == "newtype":
                d["fields"] = [("", x)]
            elif form == "tuple":
                d["fields"] = r.choice([[("", x), ("", self.leaf())], [("", self.leaf()), ("", x)]])
            elif form == "struct":
                d["fields"] = [(names[0], x), (names[1], self.leaf())][:r.choice([1, 2, 2])]
            else:
                f = r.choice(["newtype", "newtype", "struct", "tuple"])
                fs = [("", x)] if f == "newtype" else [(names[0] if f == "struct" else "", x), (names[1] if f == "struct" else "", self.leaf())]
                vs = r.sample(VARIANT_NAMES, 2)
                d["base"] = 0
                d["variants"] = [(vs[0], "unit", []), (vs[1], f, fs)]
            out.append(d)
        return out

    def generic(self, i):
        """Instances of the generic type Gen, each inside of the next."""
        r = self.r
        out, x = [], self.leaf()
        for k in range(4):
            out.append({"form": "struct", "manual": True, "find": False, "path": "Gen<%s>" % self.rust(x, out, i), "generic": True,
                        "fields": [("value", x), ("next", ("option", ("transp", "Box", ("ref", i + k))))]})
            x = ("ref", i + k)
            for _ in range(r.choice([0, 0, 1, 2])):
                x = r.choice([("option", x), ("seq", "Vec", x), ("tuple", [self.leaf(), x]), ("transp", "Box", x),
                              ("map", "BTreeMap", ("scalar", "u8"), x)])
        return out

    def big_enum(self):
        return {"form": "enum", "manual": False, "find": False, "path": "Big", "base": 0,
                "variants": [("V%d" % k, "unit" if k != 299 else "newtype", [] if k != 299 else [("", ("scalar", "u8"))])
                             for k in range(300)]}

    # ----------------------------------------------------------------- traits

    def def_exprs(self, d):
        if d["form"] == "enum":
            return [e for _, _, fs in d["variants"] for _, e in fs]
        return [e for _, e in d["fields"]]

    def fix_attrs(self):
        self.attrs = {i: {"ord", "hash"} for i in range(len(self.defs))}
        while True:
            ch = False
            for i, d in enumerate(self.defs):
                t = set(self.attrs[i])
                for e in self.def_exprs(d):
                    t &= self.traits(e)
                if t != self.attrs[i]:
                    self.attrs[i] = t
                    ch = True
            if not ch:
                return

    def traits(self, e):
        k = e[0]
        if k == "scalar":
            return set() if e[1] in ("f32", "f64") else {"ord", "hash"}
        if k in ("str", "unit", "schema"):
            return {"ord", "hash"}
        if k in ("option", "array", "transp", "attr"):
            return self.traits(e[-1])
        if k == "seq":
            return set() if e[1] in UNORDERED else self.traits(e[2])
        if k == "map":
            return set() if e[1] in UNORDERED else self.traits(e[2]) & self.traits(e[3])
        if k == "tuple":
            t = {"ord", "hash"}
            for x in e[1]:
                t &= self.traits(x)
            return t
        if k in ("range", "bound"):
            return self.traits(e[-1]) & {"hash"}
        # definitions not there yet: nothing known
        return self.attrs.get(e[1], set())

    def unordered(self, e, seen=None):
        seen = set() if seen is None else seen
        if e[0] in ("seq", "map") and e[1] in UNORDERED:
            return True
        if e[0] == "ref":
            if e[1] in seen:
                return False
            seen.add(e[1])
            return any(self.unordered(x, seen) for x in self.def_exprs(self.defs[e[1]]))
        return any(self.unordered(x, seen) for x in self.subs(e))

    @staticmethod
    def subs(e):
        out = []
        for x in e[1:]:
            if isinstance(x, tuple):
                out.append(x)
            elif isinstance(x, list):
                out += x
        return out

    def size(self, e, limit=600, stack=()):
        """About how many nodes the schema has."""
        n = 0 if e[0] in ("transp", "attr") else 1
        if e[0] == "attr":
            return 1
        if e[0] == "schema":
            return 40
        if e[0] == "ref":
            if e[1] in stack:
                return 1
            for x in self.def_exprs(self.defs[e[1]]):
                n += self.size(x, limit, stack + (e[1],))
                if n > limit:
                    return n
            return n
        for x in self.subs(e):
            n += self.size(x, limit, stack) * (2 if e[0] in ("range", "bound") else 1)
            if n > limit:
                return n
        return n

    def reach(self, e, got=None):
        got = set() if got is None else got
        if e[0] == "ref":
            if e[1] not in got:
                got.add(e[1])
                for x in self.def_exprs(self.defs[e[1]]):
                    self.reach(x, got)
        for x in self.subs(e):
            self.reach(x, got)
        return got

    # -------------------------------------------------------------------- TLA

    @staticmethod
    def name(n):
        return list((n[2:] if n.startswith("r#") else n).encode())

    def rec(self, k, t="", i=0, c=(), n=()):
        return {"k": k, "t": t, "i": i, "c": list(c), "n": list(n)}

    def tla(self, e):
        k = e[0]
        R, T = self.rec, self.tla
        if k == "scalar":
            return R("scalar", {"usize": "u64", "isize": "i64"}.get(e[1], e[1]))
        if k in ("str", "unit", "schema"):
            return R(k)
        if k == "option":
            return R("option", c=[T(e[1])])
        if k == "seq":
            return R("seq", c=[T(e[2])])
        if k == "map":
            return R("map", c=[T(e[2]), T(e[3])])
        if k == "array":
            return R("array", i=e[1], c=[T(e[2])])
        if k == "tuple":
            return R("tuple", c=[T(x) for x in e[1]])
        if k == "range":
            return R("struct", c=[T(e[2])] * 2, n=[self.name("start"), self.name("end")])
        if k == "bound":
            return R("enum", c=[R("unit"), T(e[1]), T(e[1])],
                     n=[self.name(x) for x in ("Unbounded", "Included", "Excluded")])
        if k == "transp":
            return R("transp", c=[T(e[2])])
        if k == "attr":
            return R("attr", i=e[1], c=[T(e[2])])
        return R("ref", i=e[1] + 1)

    def tla_form(self, form, fs):
        if form in ("unit", "tuple0"):
            return self.rec("unit")
        if form == "newtype":
            return self.rec("transp", c=[self.tla(fs[0][1])])
        if form == "tuple":
            return self.rec("tuple", c=[self.tla(e) for _, e in fs])
        return self.rec("struct", c=[self.tla(e) for _, e in fs], n=[self.name(n) for n, _ in fs])

    def tla_def(self, d):
        if d["form"] == "enum":
            return self.rec("enum", c=[self.tla_form(f, fs) for _, f, fs in d["variants"]],
                            n=[self.name(n) for n, _, _ in d["variants"]])
        return self.tla_form(d["form"], d["fields"])

    def tla_defs(self, e):
        got = self.reach(e)
        return [self.tla_def(d) if i in got else self.rec("unit") for i, d in enumerate(self.defs)]

    # ------------------------------------------------------------------- Rust

    def rust(self, e, more=(), base=0):
        """more: definitions not there yet, from the base-th"""
        k = e[0]
        T = lambda x: self.rust(x, more, base)
        if k == "scalar":
            return e[1]
        if k in ("str", "unit", "schema"):
            return {"str": "String", "unit": "()", "schema": "binschema::Schema"}[k]
        if k == "option":
            return "Option<%s>" % T(e[1])
        if k == "seq":
            return "%s<%s>" % (e[1], T(e[2]))
        if k == "map":
            return "%s<%s, %s>" % (e[1], T(e[2]), T(e[3]))
        if k == "array":
            return "[%s; %d]" % (T(e[2]), e[1])
        if k == "tuple":
            return "(%s)" % "".join(T(x) + ", " for x in e[1])
        if k == "range":
            return "%s<%s>" % (e[1], T(e[2]))
        if k == "bound":
            return "Bound<%s>" % T(e[1])
        if k == "transp":
            return "%s<%s>" % ({"Box": "Box", "Cow": "Cow"}[e[1]], ("'static, " if e[1] == "Cow" else "") + T(e[2]))
        if k == "attr":
            return T(e[2])
        path = (more[e[1] - base] if more and e[1] >= base else self.defs[e[1]])["path"]
        if path.startswith("local"):
            return "<crate::At<%d> as crate::Local>::T" % e[1]
        return "crate::" + path

    def rust_fields(self, form, fs, vis):
        def f(n, e):
            a = "#[schema(recurse = %d)] " % e[1] if e[0] == "attr" else ""
            if self.r.random() < 0.1:
                a = "/** documented */ " + a
            if n and e[0] == "option" and self.r.random() < 0.4:
                a += '#[serde(skip_serializing_if = "Option::is_none")] '
            return a + vis + (n + ": " if n else "") + self.rust(e)
        t = ", ".join(f(n, e) for n, e in fs)
        return {"unit": "", "struct": " { %s }" % t}.get(form, "(%s)" % t)

    def arb_fields(self, form, fs):
        t = ", ".join((n + ": " if n else "") + "Arb::arb(r, f)" for n, _ in fs)
        return {"unit": "", "struct": " { %s }" % t}.get(form, "(%s)" % t)

    def manual_fields(self, form, fs, stack):
        s = lambda e: "%%<%s as KnownSchema>::schema(%s)" % (self.rust(e), stack)
        if form in ("unit", "tuple0"):
            return "unit"
        if form == "newtype":
            return s(fs[0][1])
        if form == "tuple":
            return "tuple { %s }" % ", ".join("(%s)" % s(e) for _, e in fs)
        # names of raw identifiers are written out below
        return "%%binschema::Schema::Struct(vec![%s])" % ", ".join(
            '("%s", binschema::schema!(%s)).into()' % (n[2:] if n.startswith("r#") else n, s(e)) for n, e in fs)

    def manual(self, i, d):
        nm = d["path"].split("::")[-1]
        layer = "with_transparent_type_layer" if d["form"] == "newtype" else "with_type_layer"
        if d["form"] == "enum":
            vs = []
            for n, f, fs in d["variants"]:
                st = "stack" if f == "newtype" else "inner"
                vs.append('("%s", binschema::schema!(%s)).into()' % (n[2:] if n.startswith("r#") else n,
                                                                     self.manual_fields(f, fs, st)))
            body = "let inner = stack.with_none_layer(); let _ = inner; binschema::Schema::Enum(vec![%s])" % ", ".join(vs)
        else:
            body = "binschema::schema!(%s)" % self.manual_fields(d["form"], d["fields"], "stack")
        find = ("if let Some(n) = parent.find_type::<Self>() { return binschema::Schema::Recurse(n + 1); }" if d["find"]
                else "if let Some(s) = parent.parent_recurse::<Self>() { return s; }")
        return """impl KnownSchema for %s {
    fn schema(parent: binschema::RecurseStack) -> binschema::Schema {
        %s
        let stack = parent.%s::<Self>();
        let _ = stack;
        %s
    }
}
""" % (nm, find, layer, body)

    def rust_def(self, i, d):
        if d.get("generic"):
            return ""
        path = d["path"].split("::")
        nm = path[-1]
        t = self.attrs[i]
        derive = ["Debug", "Clone", "Serialize", "Deserialize"]
        if t:
            derive += ["PartialEq", "Eq"]
        if "ord" in t:
            derive += ["PartialOrd", "Ord"]
        if "hash" in t:
            derive.append("Hash")
        if not d["manual"]:
            derive.append("KnownSchema")
        s = "#[derive(%s)]\n" % ", ".join(derive)
        if d["form"] == "enum":
            s += "pub enum %s { %s }\n" % (nm, ", ".join(n + self.rust_fields(f, fs, "") for n, f, fs in d["variants"]))
            b = d["base"]
            arms = "".join("%d => %s::%s%s,\n" % (k, nm, n, self.arb_fields(f, fs))
                           for k, (n, f, fs) in enumerate(d["variants"]))
            body = "match if fuel == 0 { %d } else { r.below(%d) } { %s _ => unreachable!() }" % (b, len(d["variants"]), arms)
        else:
            s += "pub struct %s%s%s\n" % (nm, self.rust_fields(d["form"], d["fields"], "pub "),
                                          "" if d["form"] == "struct" else ";")
            body = nm + self.arb_fields(d["form"], d["fields"])
        s += "impl Arb for %s {\n fn arb(r: &mut Rng, fuel: u32) -> Self { let f = r.fuel(fuel); let _ = f; %s }\n}\n" % (nm, body)
        if d["manual"]:
            s += self.manual(i, d)
        if path[0].startswith("local"):
            # even its std::any::type_name is that of other types
            s = "const _: () = { %s impl Local for At<%d> { type T = %s; } };\n" % (s, i, nm)
        elif len(path) == 2:
            s = "pub mod %s { use super::*; %s }\n" % (path[0], s)
        return s

    def crate(self, roots, dumps, src):
        """Text of main.rs; roots: expressions; dumps: (Rust type, expression)
        of which there is only the schema."""
        s = """#![allow(dead_code, unused_imports, non_camel_case_types, non_snake_case, uncommon_codepoints, mixed_script_confusables, clippy::all)]
#[path = "%s/conv.rs"] mod conv;
#[path = "%s/dynser.rs"] mod dynser;
#[path = "%s/../types/rt.rs"] mod rt;
use binschema::KnownSchema;
use rt::*;
use serde::{Serialize, Deserialize};
use std::{borrow::Cow, collections::*, ops::{Bound, Range, RangeInclusive}};
pub struct At<const N: usize>;
pub trait Local { type T; }
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub struct Gen<T> { pub value: T, pub next: Option<Box<Gen<T>>> }
impl<T: KnownSchema> KnownSchema for Gen<T> {
    fn schema(parent: binschema::RecurseStack) -> binschema::Schema {
        if let Some(s) = parent.parent_recurse::<Self>() { return s; }
        let stack = parent.with_type_layer::<Self>();
        binschema::schema!(struct { (value: %%T::schema(stack)), (next: %%<Option<Box<Gen<T>>> as KnownSchema>::schema(stack)) })
    }
}
impl<T: Arb> Arb for Gen<T> {
    fn arb(r: &mut Rng, fuel: u32) -> Self { let f = r.fuel(fuel); Gen { value: Arb::arb(r, f), next: Arb::arb(r, f) } }
}
""" % (src, src, src)
        for i, d in enumerate(self.defs):
            s += self.rust_def(i, d)
        s += "fn dispatch(i: usize, seeds: &[u64]) -> serde_json::Value { match i {\n"
        for i, e in enumerate(roots):
            s += "%d => run::<%s>(seeds, %s),\n" % (i, self.rust(e), "true" if self.unordered(e) else "false")
        for i, (t, _) in enumerate(dumps):
            s += "%d => dump::<%s>(),\n" % (len(roots) + i, t)
        s += "_ => panic!(\"harness: type\") } }\nfn main() { rt::main(dispatch) }\n"
        return s


def builtin_roots(t):
    """All built-in types, over several others."""
    r = t.r
    out = [("scalar", x) for x in SCALARS] + [("str",), ("unit",), ("schema",), ("ref", [i for i, d in enumerate(t.defs) if d["path"] == "Big"][0])]
    args = [("scalar", "u16"), ("str",), ("option", ("scalar", "char")), ("unit",), ("seq", "Vec", ("str",)),
            ("map", "BTreeMap", ("scalar", "u8"), ("scalar", "bool")), ("tuple", [("scalar", "u32"), ("unit",)])]
    cons = ([lambda e: ("option", e), lambda e: ("bound", e), lambda e: ("array", 0, e), lambda e: ("array", 3, e)]
            + [lambda e, c=c: ("seq", c, e) for c in SEQS]
            + [lambda e, c=c: ("map", c, e, ("seq", "Vec", e)) for c in ("BTreeMap", "HashMap")]
            + [lambda e, c=c: ("range", c, e) for c in ("Range", "RangeInclusive")]
            + [lambda e, c=c: ("transp", c, e) for c in ("Box", "Cow")])
    for c in cons:
        for a in r.sample(args, 3):
            e = c(a)
            if e[0] == "seq" and e[1] in ("BTreeSet", "BinaryHeap") and "ord" not in t.traits(a):
                continue
            need = {"HashSet": "hash", "HashMap": "hash", "BTreeMap": "ord"}
            if e[0] in ("seq", "map") and need.get(e[1], "") not in t.traits(a) | {""}:
                continue
            out.append(e)
    for n in range(1, 12):
        out.append(("tuple", [t.leaf() for _ in range(n)]))
    return out
