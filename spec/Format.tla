------------------------------- MODULE Format -------------------------------
(* Schemas, values and the wire format: FORMAT.txt as TLA+ definitions.      *)
(*                                                                           *)
(* A schema is a tree of records with the fields                             *)
(*   k   "scalar" "str" "bytes" "unit" "option" "seq" "tuple" "struct"       *)
(*       "enum" "recurse"                                                    *)
(*   t   scalar type ("" if not scalar)                                      *)
(*   fx  seq: whether the length is fixed                                    *)
(*   ln  seq: the fixed length; recurse: the level (NatBytes)                *)
(*   c   sequence of inner schemas                                           *)
(*   n   struct, enum: sequence of names, each a sequence of UTF-8 bytes     *)
(*                                                                           *)
(* A position in a schema is the path of child indices from the root.        *)
(*                                                                           *)
(* A value is a tree of records with the fields                              *)
(*   k   "scalar" "str" "bytes" "unit" "option" "fseq" "vseq" "tuple"        *)
(*       "struct" "enum"                                                     *)
(*   t   scalar type; neg and b hold the number (Num.tla), for floats b is   *)
(*       the IEEE bit pattern, for bool b is <<>> or <<1>>                   *)
(*   b   str, bytes: the bytes; enum: the ordinal (NatBytes)                 *)
(*   c   inner values (option: none or one)                                  *)
(*   n   struct: field names; enum: the variant's name as a 1-sequence       *)
EXTENDS Num

Scalars == {"u8","u16","u32","u64","u128","i8","i16","i32","i64","i128",
            "f32","f64","char","bool"}
Width == [u8 |-> 1, u16 |-> 2, u32 |-> 4, u64 |-> 8, u128 |-> 16,
          i8 |-> 1, i16 |-> 2, i32 |-> 4, i64 |-> 8, i128 |-> 16,
          f32 |-> 4, f64 |-> 8, char |-> 4, bool |-> 1]
FixedUint == {"u8", "u16"}      FixedSint == {"i8", "i16"}
VarU == {"u32", "u64", "u128"}  VarS == {"i32", "i64", "i128"}
Floats == {"f32", "f64"}

SchemaRec(k, t, fx, ln, c, n) == [k |-> k, t |-> t, fx |-> fx, ln |-> ln, c |-> c, n |-> n]
SScalar(t) == SchemaRec("scalar", t, FALSE, <<>>, <<>>, <<>>)
SLeaf(k) == SchemaRec(k, "", FALSE, <<>>, <<>>, <<>>)
SOption(x) == SchemaRec("option", "", FALSE, <<>>, <<x>>, <<>>)
SVarSeq(x) == SchemaRec("seq", "", FALSE, <<>>, <<x>>, <<>>)
SFixSeq(l, x) == SchemaRec("seq", "", TRUE, NatBytes(l), <<x>>, <<>>)
STuple(c) == SchemaRec("tuple", "", FALSE, <<>>, c, <<>>)
SStruct(n, c) == SchemaRec("struct", "", FALSE, <<>>, c, n)
SEnum(n, c) == SchemaRec("enum", "", FALSE, <<>>, c, n)
SRecurse(l) == SchemaRec("recurse", "", FALSE, NatBytes(l), <<>>, <<>>)

Val(k, t, neg, b, c, n) == [k |-> k, t |-> t, neg |-> neg, b |-> b, c |-> c, n |-> n]
VScalar(t, neg, b) == Val("scalar", t, neg, b, <<>>, <<>>)
VUnit == Val("unit", "", FALSE, <<>>, <<>>, <<>>)

----------------------------------------------------------------------------
(* A deep tree is recorded as the list of its nodes, flat, the inner ones    *)
(* before the one around them, whose number is nc (TLC reads no JSON which   *)
(* nests that deeply).                                                       *)
Tree(x) ==
    IF "flat" \notin DOMAIN x THEN x
    ELSE LET grown[i \in 0..Len(x.flat)] ==
                 IF i = 0 THEN <<>>
                 ELSE LET g == grown[i-1]
                          k == Len(g) - x.nc[i]
                      IN Append(SubSeq(g, 1, k), [x.flat[i] EXCEPT !.c = SubSeq(g, k + 1, Len(g))])
         IN grown[Len(x.flat)][1]
Trees(xs) == [i \in DOMAIN xs |-> Tree(xs[i])]

----------------------------------------------------------------------------
(* Positions and recursion                                                   *)

NodeAt(s, p) == FoldLeft(LAMBDA x, i : x.c[i], s, p)

Level(s) == NatOf(s.ln)
(* The position that is coded at position p: p itself, or if there is a      *)
(* recurse, the position that many levels up in the tree.                    *)
Legal(root, p) ==
    LET s == NodeAt(root, p) IN
    s.k = "recurse" => Level(s) >= 1 /\ Level(s) <= Len(p)
Target(root, p) ==
    LET s == NodeAt(root, p) IN
    IF s.k = "recurse" THEN SubSeq(p, 1, Len(p) - Level(s)) ELSE p

RECURSIVE Paths(_,_)
Paths(s, p) == {p} \cup UNION {Paths(s.c[i], Append(p, i)) : i \in DOMAIN s.c}
AllPaths(root) == Paths(root, <<>>)
LegalSchema(root) == \A p \in AllPaths(root) : Legal(root, p)

----------------------------------------------------------------------------
(* Scalars                                                                   *)

ScalarBytes(t, neg, b) ==
    IF t \in FixedUint THEN Pad(b, Width[t])
    ELSE IF t \in FixedSint THEN (IF neg THEN Compl(Pad(b, Width[t])) ELSE Pad(b, Width[t]))
    ELSE IF t \in VarS THEN VarSint(neg, b)
    ELSE IF t \in Floats THEN b
    ELSE IF t = "bool" THEN (IF b = <<>> THEN <<0>> ELSE <<1>>)
    ELSE VarUint(b)

IsScalarChar(b) ==
    /\ Leq(b, <<255, 255, 16>>)                                    \* <= 0x10FFFF
    /\ ~(Len(b) = 2 /\ In(b[2], 216, 223))                         \* not a surrogate
FitsUint(t, b) == Len(b) <= Width[t]
FitsSint(t, b) == Len(b) < Width[t] \/ (Len(b) = Width[t] /\ b[Len(b)] < 128)

(* What reading a scalar of type t at inp[i..] gives: st is "ok", "eof" (the *)
(* input ends too early) or "bad" (no such scalar has these bytes).          *)
RScalar(st, n, neg, b) == [st |-> st, n |-> n, neg |-> neg, b |-> b]
ReadScalar(t, inp, i) ==
    IF t \in FixedUint \cup FixedSint \cup Floats \cup {"bool"} THEN
        LET w == Width[t] IN
        IF i + w - 1 > Len(inp) THEN RScalar("eof", 0, FALSE, <<>>)
        ELSE LET raw == SubSeq(inp, i, i+w-1) IN
            IF t \in Floats THEN RScalar("ok", w, FALSE, raw)
            ELSE IF t = "bool" THEN
                IF raw[1] <= 1 THEN RScalar("ok", 1, FALSE, Strip(raw))
                ELSE RScalar("bad", 1, FALSE, <<>>)
            ELSE IF t \in FixedSint /\ raw[w] >= 128
                THEN RScalar("ok", w, TRUE, Strip(Compl(raw)))
            ELSE RScalar("ok", w, FALSE, Strip(raw))
    ELSE IF t \in VarS THEN
        LET r == ReadVarSint(inp, i) IN
        IF r.st = "ok" /\ FitsSint(t, r.b) THEN r
        ELSE IF r.st = "eof" THEN r
        ELSE [r EXCEPT !.st = "bad"]
    ELSE
        LET r == ReadVarUint(inp, i) IN
        IF r.st = "ok" /\ (IF t = "char" THEN IsScalarChar(r.b) ELSE FitsUint(t, r.b)) THEN r
        ELSE IF r.st = "eof" THEN r
        ELSE [r EXCEPT !.st = "bad"]

(* A str (utf = TRUE) or bytes at inp[i..].                                  *)
ReadBlob(utf, inp, i) ==
    LET r == ReadVarUint(inp, i) IN
    IF r.st = "eof" THEN RScalar("eof", 0, FALSE, <<>>)
    ELSE IF r.st = "over" THEN RScalar("bad", r.n, FALSE, <<>>)
    ELSE IF Len(r.b) > 8 THEN RScalar("big", r.n, FALSE, <<>>)
    ELSE LET len == NatOf(r.b) IN
        IF i + r.n + len - 1 > Len(inp) THEN RScalar("eof", 0, FALSE, <<>>)
        ELSE LET b == SubSeq(inp, i + r.n, i + r.n + len - 1) IN
            IF utf /\ ~IsUtf8(b) THEN RScalar("bad", r.n + len, FALSE, <<>>)
            ELSE RScalar("ok", r.n + len, FALSE, b)

(* The length of a var-len seq.                                              *)
ReadLen(inp, i) ==
    LET r == ReadVarUint(inp, i) IN
    IF r.st = "over" THEN [r EXCEPT !.st = "bad"]
    ELSE IF r.st = "ok" /\ Len(r.b) > 8 THEN [r EXCEPT !.st = "big"] ELSE r

(* An enum ordinal.                                                          *)
ReadOrd(numVariants, inp, i) ==
    IF numVariants = 0 THEN RScalar("bad", 0, FALSE, <<>>)
    ELSE LET w == OrdWidth(numVariants) IN
        IF i + w - 1 > Len(inp) THEN RScalar("eof", 0, FALSE, <<>>)
        ELSE LET o == Strip(SubSeq(inp, i, i+w-1)) IN
            IF NatOf(o) < numVariants THEN RScalar("ok", w, FALSE, o)
            ELSE RScalar("bad", w, FALSE, <<>>)

----------------------------------------------------------------------------
(* Which values a schema has, and their representation                       *)

RECURSIVE Conf(_,_,_)
Conf(root, p0, v) ==
    /\ Legal(root, p0)
    /\ LET p == Target(root, p0)
           s == NodeAt(root, p)
           Each == /\ Len(v.c) = Len(s.c)
                   /\ \A i \in DOMAIN v.c : Conf(root, Append(p, i), v.c[i])
           EachSame == \A i \in DOMAIN v.c : Conf(root, Append(p, 1), v.c[i])
       IN CASE s.k = "scalar" -> v.k = "scalar" /\ v.t = s.t
            [] s.k = "option" -> v.k = "option" /\ EachSame
            [] s.k = "seq" -> IF s.fx THEN /\ v.k = "fseq"
                                           /\ NatBytes(Len(v.c)) = s.ln
                                           /\ EachSame
                              ELSE v.k = "vseq" /\ EachSame
            [] s.k = "tuple" -> v.k = "tuple" /\ Each
            [] s.k = "struct" -> v.k = "struct" /\ v.n = s.n /\ Each
            [] s.k = "enum" ->
                /\ v.k = "enum"
                /\ NatOf(v.b) < Len(s.c)
                /\ v.n[1] = s.n[NatOf(v.b) + 1]
                /\ Conf(root, Append(p, NatOf(v.b) + 1), v.c[1])
            [] OTHER -> v.k = s.k

RECURSIVE Enc(_,_,_)
RECURSIVE EncRange(_,_,_,_,_,_)
RECURSIVE EncAll(_,_,_,_)
(* Representation of a conforming value.                                     *)
Enc(root, p0, v) ==
    LET p == Target(root, p0)
        s == NodeAt(root, p)
    IN CASE v.k = "scalar" -> ScalarBytes(v.t, v.neg, v.b)
         [] v.k \in {"str", "bytes"} -> VarUint(NatBytes(Len(v.b))) \o v.b
         [] v.k = "unit" -> <<>>
         [] v.k = "option" -> IF v.c = <<>> THEN <<0>>
                              ELSE <<1>> \o Enc(root, Append(p, 1), v.c[1])
         [] v.k = "fseq" -> EncAll(root, p, v.c, TRUE)
         [] v.k = "vseq" -> VarUint(NatBytes(Len(v.c))) \o EncAll(root, p, v.c, TRUE)
         [] v.k \in {"tuple", "struct"} -> EncAll(root, p, v.c, FALSE)
         [] v.k = "enum" -> Pad(v.b, OrdWidth(Len(s.c)))
                            \o Enc(root, Append(p, NatOf(v.b) + 1), v.c[1])
(* Concatenation of the representations of vs, of which the children of      *)
(* position p are the schemas (or its only child, if same).                  *)
EncAll(root, p, vs, same) == EncRange(root, p, vs, same, 1, Len(vs))
EncRange(root, p, vs, same, lo, hi) ==
    IF hi < lo THEN <<>>
    ELSE IF hi = lo THEN Enc(root, Append(p, IF same THEN 1 ELSE lo), vs[lo])
    ELSE LET mid == (lo + hi) \div 2
         IN EncRange(root, p, vs, same, lo, mid) \o EncRange(root, p, vs, same, mid + 1, hi)

----------------------------------------------------------------------------
(* Reading: [st, v, i]. st: "ok", "eof" (too few bytes), "bad" (no message of *)
(* the schema), "big" (a length beyond 64 bits), "illegal"; i: next position. *)

RECURSIVE Dec(_,_,_,_)
RECURSIVE DecAll(_,_,_,_,_,_,_)
Dec(root, p0, inp, i) ==
    IF ~Legal(root, p0) THEN [st |-> "illegal", v |-> VUnit, i |-> i]
    ELSE
    LET p == Target(root, p0)
        s == NodeAt(root, p)
        Leaf(r, v) == [st |-> r.st, v |-> v, i |-> i + r.n]
        Wrap(k, b, n, r) == IF r.st # "ok" THEN r
                            ELSE [r EXCEPT !.v = Val(k, "", FALSE, b, r.v.c, n)]
    IN CASE s.k = "scalar" ->
             LET r == ReadScalar(s.t, inp, i) IN Leaf(r, VScalar(s.t, r.neg, r.b))
         [] s.k \in {"str", "bytes"} ->
             LET r == ReadBlob(s.k = "str", inp, i)
             IN Leaf(r, Val(s.k, "", FALSE, r.b, <<>>, <<>>))
         [] s.k = "unit" -> [st |-> "ok", v |-> VUnit, i |-> i]
         [] s.k = "option" ->
             IF i > Len(inp) THEN [st |-> "eof", v |-> VUnit, i |-> i]
             ELSE IF inp[i] > 1 THEN [st |-> "bad", v |-> VUnit, i |-> i]
             ELSE Wrap("option", <<>>, <<>>, DecAll(root, p, inp, i+1, inp[i], TRUE, <<>>))
         [] s.k = "seq" ->
             IF s.fx THEN Wrap("fseq", <<>>, <<>>, DecAll(root, p, inp, i, NatOf(s.ln), TRUE, <<>>))
             ELSE LET r == ReadLen(inp, i) IN
                IF r.st # "ok" THEN [st |-> r.st, v |-> VUnit, i |-> i]
                ELSE Wrap("vseq", <<>>, <<>>, DecAll(root, p, inp, i + r.n, NatOf(r.b), TRUE, <<>>))
         [] s.k = "tuple" -> Wrap("tuple", <<>>, <<>>, DecAll(root, p, inp, i, Len(s.c), FALSE, <<>>))
         [] s.k = "struct" -> Wrap("struct", <<>>, s.n, DecAll(root, p, inp, i, Len(s.c), FALSE, <<>>))
         [] s.k = "enum" ->
             LET r == ReadOrd(Len(s.c), inp, i) IN
             IF r.st # "ok" THEN [st |-> r.st, v |-> VUnit, i |-> i]
             ELSE LET o == NatOf(r.b) + 1
                      d == Dec(root, Append(p, o), inp, i + r.n)
                  IN IF d.st # "ok" THEN d
                     ELSE [d EXCEPT !.v = Val("enum", "", FALSE, r.b, <<d.v>>, <<s.n[o]>>)]
(* cnt more items than acc, in blocks so that copying does not take long     *)
DecAll(root, p, inp, i, cnt, same, acc) ==
    IF cnt = 0 THEN [st |-> "ok", v |-> Val("tuple", "", FALSE, <<>>, acc, <<>>), i |-> i]
    ELSE LET n == Lesser(cnt, 256)
             Item(x, k) ==
                IF x.st # "ok" THEN x
                ELSE LET d == Dec(root, Append(p, IF same THEN 1 ELSE Len(acc) + k), inp, x.i)
                     IN [st |-> d.st, v |-> IF d.st = "ok" THEN Append(x.v, d.v) ELSE <<>>, i |-> d.i]
             b == FoldLeft(Item, [st |-> "ok", v |-> <<>>, i |-> i], [k \in 1..n |-> k])
         IN IF b.st # "ok" THEN [b EXCEPT !.v = VUnit]
            ELSE DecAll(root, p, inp, b.i, cnt - n, same, acc \o b.v)

DecodeAll(root, inp) == Dec(root, <<>>, inp, 1)
=============================================================================
