"""Serde data, shapes to ask for, and schemas that they match (or nearly)."""
import copy

from gen import *

TRANSPARENT = ("newtype_struct", "newtype_variant")
LOOSE = ("seq", "tuple", "tuple_struct", "map", "struct", "tuple_variant", "struct_variant", "enum")
NOT_ASKABLE = ("entry", "unit_variant", "newtype_variant", "tuple_variant", "struct_variant")


def up_by(sh, p, n):
    while n > 0:
        p = p[:-1]
        if node(sh, p)["k"] not in TRANSPARENT:
            n -= 1
    return p


def sh_target(sh, p):
    s = node(sh, p)
    if s["k"] != "recurse":
        return p
    p = up_by(sh, p, nat(s["b"]))
    while p and node(sh, p[:-1])["k"] == "newtype_struct":
        p = p[:-1]
    return p


class SerdeGen(OpGen):
    # --------------------------------------------------------------- shapes

    def shape(self, size=10, rec=True):
        """(shape, schema) such that the schema is productive."""
        while True:
            self.budget = self.r.randint(1, size)
            sh = self._shape(0, rec)
            try:
                s = self.schema_of(sh)
            except RecursionError:
                continue
            i = Info(s)
            if i.productive() and not any(node(sh, sh_target(sh, p))["k"] in NOT_ASKABLE for p in paths(sh)
                                          if node(sh, p)["k"] == "recurse"):
                return sh, s, i

    def _shape(self, levels, rec):
        r = self.r
        self.budget -= 1
        leafs = ["scalar"] * 4 + ["str", "bytes", "unit", "unit_struct"] + (["recurse"] * 4 if rec and levels else [])
        branch = ["option", "newtype_struct", "seq", "seq", "tuple", "tuple_struct", "map", "struct", "struct",
                  "enum", "enum"]
        k = r.choice(leafs if self.budget <= 0 or levels > 6 else leafs[:2] + branch * 2)
        if k == "scalar":
            return vrec(k, t=r.choice(SCALARS))
        if k in ("str", "bytes"):
            return vrec(k, t=r.choice(["", "buf"]))
        if k in ("unit", "unit_struct"):
            return vrec(k)
        if k == "recurse":
            return vrec(k, b=le(r.randint(1, levels)))
        go = lambda d: self._shape(levels + d, rec)
        if k in ("option", "seq"):
            return vrec(k, c=[go(1)])
        if k == "newtype_struct":
            return vrec(k, c=[go(0)])
        if k in ("tuple", "tuple_struct"):
            n = r.choice([0, 1, 2, 2, 3])
            if n and r.random() < 0.4:
                x = go(1)
                return vrec(k, c=[copy.deepcopy(x) for _ in range(n)])
            return vrec(k, c=[go(1) for _ in range(n)])
        if k == "map":
            return vrec(k, c=[vrec("entry", c=[go(2), go(2)])])
        if k == "struct":
            n = r.choice([0, 1, 1, 2, 2, 3])
            return vrec(k, c=[self._field(go) for _ in range(n)], n=self.field_names(n))
        n = r.choice([1, 1, 2, 2, 3, 4])
        return vrec("enum", c=[self._variant(levels + 1, rec) for _ in range(n)], n=[utf(x) for x in self.names(n, VARIANTS_ALIKE)])

    def field_names(self, n):
        names = [list(x) for x in dict.fromkeys(tuple(utf(x)) for x in self.names(n, FIELDS_ALIKE))]
        while len(names) < n:
            x = utf(self.name())
            if x not in names:
                names.append(x)
        return names

    def _variant(self, levels, rec):
        r = self.r
        k = r.choice(["unit_variant", "newtype_variant", "newtype_variant", "tuple_variant", "struct_variant"])
        go = lambda d: self._shape(levels + d, rec)
        if k == "unit_variant":
            return vrec(k)
        if k == "newtype_variant":
            return vrec(k, c=[go(0)])
        n = r.choice([0, 1, 2, 2, 3])
        if k == "tuple_variant":
            return vrec(k, c=[go(1) for _ in range(n)])
        return vrec(k, c=[self._field(go) for _ in range(n)], n=self.field_names(n))

    def _field(self, go):
        return vrec("option", c=[go(2)]) if self.r.random() < 0.25 else go(1)

    # -------------------------------------------------- schema of a shape

    def schema_of(self, sh):
        r = self.r
        k = sh["k"]
        go = self.schema_of
        if k == "scalar":
            return scalar(sh["t"])
        if k in ("str", "bytes"):
            return leaf(k)
        if k in ("unit", "unit_struct", "unit_variant"):
            return leaf("unit")
        if k == "recurse":
            return recurse(nat(sh["b"]))
        if k == "option":
            return option(go(sh["c"][0]))
        if k in TRANSPARENT:
            return go(sh["c"][0])
        if k == "seq":
            x = go(sh["c"][0])
            w = r.random()
            if w < 0.6:
                return varseq(x)
            if w < 0.8:
                return fixseq(r.choice([0, 1, 2, 3]), x)
            if w < 0.97:
                return tuple_(*[x] * r.choice([0, 1, 2, 3]))
            return leaf("unit")
        if k in ("tuple", "tuple_struct", "tuple_variant"):
            c = [go(x) for x in sh["c"]]
            if not c:
                return r.choice([tuple_(), leaf("unit"), fixseq(0, scalar("u8")), varseq(scalar("u8"))])
            if all(x == c[0] for x in c) and r.random() < 0.5:
                return r.choice([varseq(c[0]), fixseq(len(c), c[0])])
            return tuple_(*c)
        if k == "map":
            a, b = sh["c"][0]["c"]
            return varseq(tuple_(go(a), go(b)))
        if k in ("struct", "struct_variant"):
            return srec("struct", c=[go(x) for x in sh["c"]], n=sh["n"])
        if k == "enum":
            return srec("enum", c=[go(x) for x in sh["c"]], n=sh["n"])
        raise ValueError(k)

    # -------------------------------------------- data of shape and schema

    def data(self, sh, s, info, budget=14):
        self.vbudget = budget
        return self._data(sh, (), s, (), info, 0)

    def _data(self, sh, p, s, q, info, depth):
        """p: position in the shape; q: in the schema."""
        r = self.r
        p, q = sh_target(sh, p), target(s, q)
        x, y = node(sh, p), node(s, q)
        k = x["k"]
        self.vbudget -= 1
        small = self.vbudget <= 0 or depth > 12
        go = lambda p2, q2: self._data(sh, p + p2, s, q + q2, info, depth + 1)
        if k == "scalar":
            neg, b = self.scalar_value(x["t"])
            return vrec(k, x["t"], neg, b)
        if k == "str":
            return vrec(k, b=utf(self.text()))
        if k == "bytes":
            return vrec(k, b=[r.randrange(256) for _ in range(r.choice([0, 1, 2, 5]))])
        if k in ("unit", "unit_struct"):
            return vrec(k)
        if k == "option":
            return vrec("some", c=[go((0,), (0,))]) if not small and r.random() < 0.75 else vrec("none")
        if k == "newtype_struct":
            return vrec(k, c=[go((0,), ())])
        if k == "seq":
            if y["k"] == "unit":
                return vrec(k, t=r.choice(["", "none"]))
            if y["k"] == "tuple":
                return vrec(k, t=r.choice(["", "none"]), c=[go((0,), (i,)) for i in range(len(y["c"]))])
            if y["fx"]:
                return vrec(k, t=r.choice(["", "none"]), c=[go((0,), (0,)) for _ in range(nat(y["ln"]))])
            n = 0 if small else r.choice([0, 1, 1, 2, 3])
            return vrec(k, c=[go((0,), (0,)) for _ in range(n)])
        if k in ("tuple", "tuple_struct"):
            same = y["k"] == "seq"
            return vrec(k, c=[go((i,), (0 if same else i,)) for i in range(len(x["c"]))])
        if k == "map":
            n = 0 if small else r.choice([0, 1, 1, 2, 3])
            c = []
            for _ in range(n):
                c += [go((0, 0), (0, 0)), go((0, 1), (0, 1))]
            return vrec(k, c=c)
        if k == "struct":
            return vrec(k, c=[self.maybe_skip(go((i,), (i,))) for i in range(len(x["c"]))], n=x["n"])
        if k == "enum":
            ranks = [info.rank[q + (i,)] for i in range(len(x["c"]))]
            i = min(range(len(ranks)), key=lambda i: ranks[i]) if small else r.randrange(len(ranks))
            w = x["c"][i]
            wk = w["k"]
            n = [x["n"][i]]
            if wk == "unit_variant":
                return vrec(wk, b=le(i), n=n)
            if wk == "newtype_variant":
                return vrec(wk, b=le(i), n=n, c=[go((i, 0), (i,))])
            yk = node(s, q + (i,))["k"]
            c = [go((i, j), (i, 0 if yk == "seq" else j)) for j in range(len(w["c"]))]
            if wk == "tuple_variant":
                return vrec(wk, b=le(i), n=n, c=c)
            return vrec(wk, b=le(i), n=n + w["n"], c=[self.maybe_skip(y) for y in c])
        raise ValueError(k)

    def maybe_skip(self, d):
        return vrec("skip") if d["k"] == "none" and self.r.random() < 0.6 else d

    def triple(self, size=10, rec=True, budget=14):
        while True:
            sh, s, info = self.shape(size, rec)
            try:
                return sh, s, info, self.data(sh, s, info, budget)
            except RecursionError:
                pass  # the shape, unlike the schema, has no finite data

    def humanize(self, x, rate=0.5):
        """Some newtypes of a shape or data with another form for humans."""
        x = dict(x, c=[self.humanize(y, rate) for y in x["c"]])
        if x["k"] == "newtype_struct" and self.r.random() < rate:
            w = self.r.random()
            other = x["c"][0] if w < 0.2 else vrec("str") if w < 0.6 else vrec("fail")
            x = vrec("hr", c=[other, x["c"][0]])
        return x

    def failing(self, x, data):
        """The data or shape with a part which raises an error of its own."""
        if x["k"] == "fail":
            return x
        x = copy.deepcopy(x)
        ps = [p for p in paths(x) if data or node(x, p)["k"] not in NOT_ASKABLE]
        p = self.r.choice(ps)
        if not p:
            return vrec("fail")
        node(x, p[:-1])["c"][p[-1]] = vrec("fail")
        return x

    # ----------------------------------------------------------- mismatches

    def off_schema(self, s):
        """A schema slightly unlike s (not necessarily legal)."""
        r = self.r
        s = copy.deepcopy(s)
        ps = list(paths(s))
        p = r.choice(ps)
        x = node(s, p)
        k = x["k"]

        def put(y):
            if not p:
                return y
            node(s, p[:-1])["c"][p[-1]] = y
            return s
        if k == "scalar":
            return put(r.choice([scalar(r.choice(SCALARS)), leaf("unit"), leaf("str")]))
        if k in ("str", "bytes"):
            return put(leaf({"str": "bytes", "bytes": "str"}[k]))
        if k == "unit":
            return put(r.choice([tuple_(), scalar("u8"), option(leaf("unit")), srec("struct"), fixseq(0, scalar("u8")),
                                 tuple_(leaf("unit")), fixseq(1, leaf("unit"))]))
        if k == "recurse":
            return put(r.choice([recurse(nat(x["ln"]) + r.choice([-1, 1])), leaf("unit")]))
        if k == "option":
            return put(r.choice([x["c"][0], varseq(x["c"][0]), fixseq(1, x["c"][0])]))
        if k == "seq":
            i = x["c"][0]
            n = nat(x["ln"])
            return put(r.choice([fixseq(r.choice([0, 1, 2]), i), fixseq(n + 1, i), varseq(i),
                                 tuple_(*[i] * r.choice([0, 1, 2, 3])), option(i), leaf("unit")]))
        c, n = list(x["c"]), list(x["n"])
        w = r.randrange(7)
        j = r.randrange(len(c)) if c else 0
        if w == 0:
            y = r.choice([scalar("u8"), leaf("unit"), option(scalar("u8"))])
            c.insert(j, y)
            if k != "tuple":
                n.insert(j, utf("new"))
        elif w == 1 and c:
            del c[j]
            if k != "tuple":
                del n[j]
        elif w == 2 and len(c) > 1:
            i = (j + 1) % len(c)
            c[i], c[j] = c[j], c[i]
            if k != "tuple" and r.random() < 0.5:
                n[i], n[j] = n[j], n[i]
        elif w == 3 and n:
            n[j] = r.choice(near_names(n[j]) + [n[(j + 1) % len(n)]])
        elif w == 4 and len(n) > 1:
            i = (j + 1) % len(n)
            n[i], n[j] = n[j], n[i]
        elif w == 5:
            return put(srec("tuple" if k == "struct" else "struct", c=c, n=[] if k == "struct" else [utf("f%d" % i) for i in range(len(c))]))
        else:
            c.append(scalar("u8"))
            if k != "tuple":
                n.append(utf("more"))
        return put(srec(k, c=c, n=n))

    def off_data(self, d):
        """Data slightly unlike d."""
        r = self.r
        d = copy.deepcopy(d)
        p = r.choice(list(paths(d)))
        x = node(d, p)
        k = x["k"]

        def put(y):
            if not p:
                return y
            node(d, p[:-1])["c"][p[-1]] = y
            return d
        if k in ("skip", "none"):
            return put(r.choice([vrec("unit"), vrec("some", c=[vrec("unit")]), vrec("skip") if p and "struct" in node(d, p[:-1])["k"] and node(d, p[:-1])["k"] != "newtype_struct" and node(d, p[:-1])["k"] != "tuple_struct" else vrec("none")]))
        if k == "scalar":
            t = r.choice(SCALARS)
            neg, b = self.scalar_value(t)
            return put(r.choice([vrec("scalar", t, neg, b), vrec("unit"), vrec("some", c=[x])]))
        if k in ("str", "bytes"):
            return put(r.choice([vrec({"str": "bytes", "bytes": "str"}[k], b=[65]), vrec("seq", c=[])]))
        if k in ("unit", "unit_struct"):
            return put(r.choice([vrec("tuple"), vrec("struct"), vrec("seq", t="none"), vrec("map"),
                                 vrec("tuple", c=[vrec("unit")]), vrec("seq", t="none", c=[vrec("scalar", "u8", b=[1])])]))
        if k == "some":
            return put(r.choice([x["c"][0], vrec("none"), vrec("seq", c=x["c"])]))
        if k == "newtype_struct":
            return put(r.choice([vrec("tuple", c=x["c"]), vrec("some", c=x["c"])]))
        if k == "newtype_variant" and r.random() < 0.3:
            return put(vrec("tuple_variant", b=x["b"], c=x["c"], n=x["n"]))
        n, c, b = list(x["n"]), list(x["c"]), list(x["b"])
        off = 1 if k == "struct_variant" else 0
        named = k in ("struct", "struct_variant")
        step = 2 if k == "map" else 1
        w = r.randrange(9)
        cnt = len(c) // step
        j = r.randrange(cnt) if cnt else 0
        t = x["t"]
        if k in ("seq", "map") and r.random() < 0.4:
            t = r.choice(["none", "less", "more"])
        elif "variant" in k and (r.random() < 0.4 or k == "newtype_variant"):
            v = r.randrange(4)
            if v == 0:
                b = le(nat(b) + 1)
            elif v == 1:
                b = le(max(0, nat(b) - 1))
            elif v == 2:
                n[0] = r.choice(near_names(n[0]))
            else:
                b = le(nat(b) + 256)
        elif w < 2 and cnt:
            del c[j * step:(j + 1) * step]
            if named:
                del n[j + off]
        elif w == 2 and cnt:
            c[j * step:j * step] = copy.deepcopy(c[j * step:(j + 1) * step])
            if named:
                n.insert(j + off, r.choice([n[j + off], utf("new")]))
        elif w == 3 and cnt > 1 and step == 1:
            i = (j + 1) % cnt
            c[i], c[j] = c[j], c[i]
            if named and r.random() < 0.7:
                n[i + off], n[j + off] = n[j + off], n[i + off]
        elif w == 4 and named and cnt:
            n[j + off] = r.choice(near_names(n[j + off]) + [n[(j + 1) % cnt + off]])
        elif w == 5 and named and cnt:
            c[j] = vrec("skip")
        elif w == 6:
            u = vrec("scalar", "u8", b=[7])
            c += [u] * step
            if named:
                n.append(utf("more"))
        elif k in ("struct", "tuple", "tuple_struct", "seq"):
            c2 = [vrec("none") if y["k"] == "skip" else y for y in c]
            k2 = r.choice(["tuple", "tuple_struct", "seq", "struct"])
            k, c = k2, c2
            n = n if k == "struct" and named else ([utf("f%d" % i) for i in range(len(c))] if k == "struct" else [])
            t = ""
        elif k == "map":
            k, t, c = "seq", "", [vrec("tuple", c=c[i:i + 2]) for i in range(0, len(c), 2)]
        elif k == "unit_variant":
            k, c = r.choice([("newtype_variant", [vrec("unit")]), ("tuple_variant", []), ("tuple_variant", [vrec("unit")])])
        elif k == "tuple_variant":
            k, c = r.choice([("unit_variant", []), ("newtype_variant", [vrec("tuple", c=c)])])
        return put(vrec(k, t, x["neg"], b, c, n))

    def loosen(self, sh, p=0.4):
        """Some of its visitors leave parts alone, or take what there is."""
        t = self.r.choice(["loose", "stop"]) if sh["k"] in LOOSE and self.r.random() < p else sh["t"]
        return dict(sh, t=t, c=[self.loosen(x, p) for x in sh["c"]])

    def off_shape(self, sh):
        r = self.r
        sh = copy.deepcopy(sh)
        p = r.choice([p for p in paths(sh) if node(sh, p)["k"] != "entry"])
        x = node(sh, p)
        k = x["k"]

        def put(y):
            if not p:
                return y
            node(sh, p[:-1])["c"][p[-1]] = y
            return sh
        c, n = list(x["c"]), list(x["n"])
        if "variant" in k:
            w = r.randrange(6)
            if k in ("tuple_variant", "struct_variant") and w < 4:
                j = r.randrange(len(c)) if c else 0
                if w == 0 and c:
                    del c[j]
                    if n:
                        del n[j]
                elif w == 1:
                    c.append(vrec("unit"))
                    if k == "struct_variant":
                        n.append(utf("extra"))
                elif w == 2 and len(n) > 1:
                    n[0], n[1] = n[1], n[0]
                elif w == 3 and n:
                    n[j] = r.choice([x for x in near_names(n[j]) if x not in n])
                return put(vrec(k, b=x["b"], c=c, n=n))
            return put(r.choice([vrec("unit_variant"), vrec("newtype_variant", c=[vrec("unit")]), vrec("tuple_variant", c=[])]))
        if k == "scalar":
            return put(r.choice([vrec("scalar", t=r.choice(SCALARS)), vrec("unit"), vrec("str")]))
        if k in ("str", "bytes"):
            return put(vrec({"str": "bytes", "bytes": "str"}[k]))
        if k in ("unit", "unit_struct"):
            return put(r.choice([vrec("tuple"), vrec("struct"), vrec("seq", c=[vrec("unit")]), vrec("tuple", c=[vrec("unit")])]))
        if k == "recurse":
            return put(vrec("unit"))
        if k == "option":
            return put(vrec("seq", c=c))
        if k == "newtype_struct":
            return put(vrec("tuple", c=[vrec("unit")]))
        if k == "seq":
            return put(r.choice([vrec("option", c=c), vrec("tuple", c=[vrec("scalar", t="u8")]), vrec("tuple"),
                                 vrec("map", c=[vrec("entry", c=[vrec("unit"), vrec("unit")])])]))
        if k == "map":
            return put(vrec("seq", c=[vrec("unit")]))
        w = r.randrange(6)
        j = r.randrange(len(c)) if c else 0
        if w == 0 and c:
            del c[j]
            if n:
                del n[j]
        elif w == 1:
            c.append(vrec("unit_variant") if k == "enum" else vrec("unit"))
            if k in ("struct", "enum"):
                n.append(utf("extra"))
        elif w == 2 and len(n) > 1:
            i = (j + 1) % len(n)
            n[i], n[j] = n[j], n[i]
            if r.random() < 0.5:
                c[i], c[j] = c[j], c[i]
        elif w == 3 and n:
            n[j] = r.choice([x for x in near_names(n[j]) if x not in n])
        elif w == 4 and k != "enum":
            return put(vrec("tuple" if k == "struct" else "struct", c=c, n=[utf("f%d" % i) for i in range(len(c))] if k != "struct" else []))
        elif k != "enum":
            return put(vrec("seq", c=[c[0] if c else vrec("unit")]))
        return put(vrec(k, b=x["b"], c=c, n=n))


def shape_legal(sh):
    """Whether every recurse of the shape has a place to go."""
    for p in paths(sh):
        x = node(sh, p)
        if x["k"] == "recurse":
            n, q = nat(x["b"]), p
            if n == 0:
                return False
            while n > 0:
                if not q:
                    return False
                q = q[:-1]
                if node(sh, q)["k"] not in TRANSPARENT:
                    n -= 1
            if node(sh, q)["k"] in NOT_ASKABLE or node(sh, sh_target(sh, p))["k"] in NOT_ASKABLE:
                return False
    return True


def serde_case(s, sv=None, sh=None, b=None, tail=(), match=False, lean=False):
    d = {"do": "serde", "s": s, "tail": list(tail), "match": match, "has_sv": sv is not None, "has_b": b is not None,
         "cut": False, "endm": "eof", "lean": lean}
    if sv is not None:
        d["sv"] = sv
    if sh is not None:
        d["sh"] = sh
    if b is not None:
        d["b"] = list(b)
    return d
