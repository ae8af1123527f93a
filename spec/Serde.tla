------------------------------- MODULE Serde -------------------------------
(* The serde layer (binschema/src/serde): how data of the serde data model   *)
(* is mapped to calls of the coder. Serializing and deserializing are        *)
(* compositions of the steps of Coder.tla.                                   *)
(*                                                                           *)
(* Data are records like values, of kind                                     *)
(*   scalar str bytes unit unit_struct none some newtype_struct seq tuple    *)
(*   tuple_struct map (c: keys and values alternating) struct                *)
(*   unit_variant newtype_variant tuple_variant struct_variant (b: ordinal,  *)
(*   n: variant name and then field names), skip (a skipped field), fail     *)
(*   (raises an error itself), hr (c: form for humans, compact form)         *)
(* where t of a seq or map is "" if its length is given, "none" if not, and  *)
(* "less" or "more" if a wrong one is given.                                 *)
(*                                                                           *)
(* Shapes are what a Deserialize impl asks for: the same kinds, but option   *)
(* (c: inner), seq (c: element), map (c: an "entry" of key and value), enum  *)
(* (n: variant names, c: variants), recurse (b: level), any and ignored. What*)
(* hr makes is a newtype_struct.                                             *)
(* Where t is "stop", the visitor leaves the last part alone (of a seq or    *)
(* map, all but the first; of an enum, what the variant holds), and so the   *)
(* value stays open; "loose" visitors take as many elements as there are.    *)
EXTENDS Coder

AnyErr == {"SchemaNonConformance", "ApiUsage", "Other", "MalformedData",
           "PlatformLimits", "Io", "IllegalSchema"}
(* An error raised by the data or the visitor.                               *)
Own == {"Other"}
(* What does not fit the schema is refused for that, or as the call of the   *)
(* coder which it came to was.                                               *)
Misfit == {"SchemaNonConformance"}
Refusal(ks) == IF ks \subseteq {"SchemaNonConformance", "ApiUsage"} THEN ks \cup Misfit ELSE ks
NoPlace == {"ApiUsage", "SchemaNonConformance"}

----------------------------------------------------------------------------
(* Serializing: acc is [ks, st, out]; ks # {"ok"} once something failed      *)

Good(acc) == acc.ks = {"ok"}
EC(acc, call) ==
    IF ~Good(acc) THEN acc
    ELSE LET a == EStep(acc.st, call) IN
         IF a.ks = {"ok"} THEN [acc EXCEPT !.st = a.st, !.out = @ \o a.out]
         ELSE [acc EXCEPT !.st = a.st, !.ks = Refusal(a.ks)]
SFail(acc, ks) == IF Good(acc) THEN [acc EXCEPT !.ks = ks] ELSE acc
(* The length was not given, but has to be.                                  *)
NoLength == AnyErr

(* The length given for cnt elements. *)
GivenLen(t, cnt) == CASE t = "less" -> IF cnt = 0 THEN 0 ELSE cnt - 1
                      [] t = "more" -> cnt + 1
                      [] OTHER -> cnt

RECURSIVE Ser(_,_)
RECURSIVE SerElems(_,_,_)
RECURSIVE SerEntries(_,_)
RECURSIVE SerFields(_,_,_)

SerElems(acc, before, c) ==
    IF c = <<>> \/ ~Good(acc) THEN acc
    ELSE SerElems(Ser(EC(acc, C0(before)), Head(c)), before, Tail(c))
SerEntries(acc, c) ==
    IF c = <<>> \/ ~Good(acc) THEN acc
    ELSE LET a1 == Ser(EC(EC(EC(acc, C0("begin_seq_elem")), C0("begin_tuple")), C0("begin_tuple_elem")), c[1])
             a2 == EC(Ser(EC(a1, C0("begin_tuple_elem")), c[2]), C0("finish_tuple"))
         IN SerEntries(a2, Tail(Tail(c)))
SerFields(acc, n, c) ==
    IF c = <<>> \/ ~Good(acc) THEN acc
    ELSE LET a1 == EC(acc, CName("begin_struct_field", Head(n)))
         IN SerFields(IF Head(c).k = "skip" THEN EC(a1, C0("none")) ELSE Ser(a1, Head(c)), Tail(n), Tail(c))

SerSeqLike(acc, t, c) ==
    IF ~Good(acc) THEN acc
    ELSE IF acc.st.broken \/ ~NeedsSomething(acc.st) THEN SFail(acc, NoPlace)
    ELSE LET s == Needed(acc.st)
             known == t # "none"
             len == NatBytes(GivenLen(t, Len(c)))
         IN CASE s.k = "seq" /\ s.fx ->
                   EC(SerElems(EC(acc, CLen("begin_fixed_len_seq", IF known THEN len ELSE s.ln)),
                               "begin_seq_elem", c), C0("finish_seq"))
              [] s.k = "seq" /\ ~s.fx ->
                   IF ~known THEN SFail(acc, NoLength)
                   ELSE EC(SerElems(EC(acc, CLen("begin_var_len_seq", len)), "begin_seq_elem", c),
                           C0("finish_seq"))
              [] s.k = "tuple" ->
                   EC(SerElems(EC(acc, C0("begin_tuple")), "begin_tuple_elem", c), C0("finish_tuple"))
              [] s.k = "unit" -> IF c = <<>> THEN EC(acc, C0("unit")) ELSE SFail(acc, Misfit)
              [] s.k = "recurse" -> SFail(acc, AnyErr)
              [] OTHER -> SFail(acc, Misfit)
SerStruct(acc, n, c) == EC(SerFields(EC(acc, C0("begin_struct")), n, c), C0("finish_struct"))

Ser(acc, d) ==
    IF ~Good(acc) THEN acc
    ELSE CASE d.k = "scalar" -> EC(acc, CScalar(d.t, d.neg, d.b))
      [] d.k \in {"str", "bytes"} -> EC(acc, CBlob(d.k, d.b))
      [] d.k \in {"unit", "unit_struct"} -> EC(acc, C0("unit"))
      [] d.k = "none" -> EC(acc, C0("none"))
      [] d.k = "some" -> Ser(EC(acc, C0("begin_some")), d.c[1])
      [] d.k = "newtype_struct" -> Ser(acc, d.c[1])
      [] d.k = "hr" -> Ser(acc, d.c[2])
      [] d.k = "fail" -> [acc EXCEPT !.ks = Own]
      [] d.k = "unit_variant" -> EC(EC(acc, CEnum(d.b, d.n[1])), C0("unit"))
      [] d.k = "newtype_variant" -> Ser(EC(acc, CEnum(d.b, d.n[1])), d.c[1])
      [] d.k = "tuple_variant" -> SerSeqLike(EC(acc, CEnum(d.b, d.n[1])), "", d.c)
      [] d.k = "struct_variant" -> SerStruct(EC(acc, CEnum(d.b, d.n[1])), Tail(d.n), d.c)
      [] d.k = "seq" -> SerSeqLike(acc, d.t, d.c)
      [] d.k \in {"tuple", "tuple_struct"} -> SerSeqLike(acc, "", d.c)
      [] d.k = "map" ->
            IF d.t = "none" THEN SFail(acc, NoLength)
            ELSE EC(SerEntries(EC(acc, CLen("begin_var_len_seq", NatBytes(GivenLen(d.t, Len(d.c) \div 2)))), d.c),
                    C0("finish_seq"))
      [] d.k = "struct" -> SerStruct(acc, d.n, d.c)

SerRun(st, d) == Ser([ks |-> {"ok"}, st |-> st, out |-> <<>>], d)

----------------------------------------------------------------------------
(* Deserializing: acc is [ks, st, i, v, b]: v the data, b the last call's b  *)

DC(acc, inp, call) ==
    IF ~Good(acc) THEN acc
    ELSE LET a == DStep(acc.st, call, inp, acc.i) IN
         [acc EXCEPT !.st = a.st,
                     !.i = @ + a.n,
                     !.b = a.b,
                     !.v = VScalar(call.t, a.neg, a.b),
                     !.ks = IF a.ks = {"ok"} THEN a.ks
                            ELSE IF a.st.broken THEN a.ks ELSE Refusal(a.ks)]
V(acc, v) == IF Good(acc) THEN [acc EXCEPT !.v = v] ELSE acc
D(k, c) == Val(k, "", FALSE, <<>>, c, <<>>)

Newtype == {"newtype_struct", "hr"}
Transparent == Newtype \cup {"newtype_variant"}
RECURSIVE UpBy(_,_,_)
UpBy(sh, p, n) ==
    IF n = 0 THEN p
    ELSE LET q == SubSeq(p, 1, Len(p)-1)
         IN UpBy(sh, q, IF NodeAt(sh, q).k \in Transparent THEN n ELSE n - 1)
RECURSIVE Wrapped(_,_)
Wrapped(sh, p) == IF p = <<>> THEN p
                  ELSE LET q == SubSeq(p, 1, Len(p)-1)
                       IN IF NodeAt(sh, q).k \in Newtype THEN Wrapped(sh, q) ELSE p
ShTarget(sh, p) == LET s == NodeAt(sh, p) IN
    IF s.k = "recurse" THEN Wrapped(sh, UpBy(sh, p, NatOf(s.b))) ELSE p

(* What deserialize_any makes of a value. *)
RECURSIVE AnyOf(_)
AnyOf(v) ==
    LET f[j \in 0..Len(v.c)] == IF j = 0 THEN <<>>
            ELSE f[j-1] \o <<Val("str", "", FALSE, v.n[j], <<>>, <<>>), AnyOf(v.c[j])>>
        all == [j \in DOMAIN v.c |-> AnyOf(v.c[j])]
    IN CASE v.k = "option" -> IF v.c = <<>> THEN D("none", <<>>) ELSE D("some", all)
         [] v.k \in {"fseq", "vseq", "tuple"} -> D("seq", all)
         [] v.k = "struct" -> D("map", f[Len(v.c)])
         [] v.k = "enum" -> Val("variant", "", FALSE, v.b, all, <<>>)
         [] OTHER -> v

(* Decode the needed value as a whole. *)
DynStep(st, inp, i) ==
    IF st.broken \/ ~NeedsSomething(st) THEN [st |-> "unfit", v |-> VUnit, i |-> i]
    ELSE IF Needed(st).k = "recurse" THEN [st |-> "unfit", v |-> VUnit, i |-> i]
    ELSE Dec(st.root, Top(st).p, inp, i)
DynErr(d) == CASE d.st = "unfit" -> AnyErr
               [] d.st = "eof" -> StreamErr
               [] d.st = "bad" -> BadData
               [] d.st = "big" -> TooBig
               [] d.st = "illegal" -> Illegal
               [] OTHER -> {"ok"}
DDyn(acc, inp, any) ==
    IF ~Good(acc) THEN acc
    ELSE LET d == DynStep(acc.st, inp, acc.i) IN
         IF d.st # "ok" THEN [acc EXCEPT !.ks = DynErr(d),
                                         !.st = IF d.st = "unfit" THEN @ ELSE Break(@)]
         ELSE [acc EXCEPT !.st = Pop(@), !.i = d.i,
                          !.v = IF any THEN AnyOf(d.v) ELSE D("ignored", <<>>)]

RECURSIVE De(_,_,_,_)
RECURSIVE DeElems(_,_,_,_,_,_,_,_)
RECURSIVE DeEntries(_,_,_,_,_,_)
RECURSIVE DeFields(_,_,_,_,_,_)

(* len elements, of shape child 1 (same) or child j; got: the data so far    *)
DeElems(acc, inp, sh, p, before, len, same, got) ==
    IF ~Good(acc) THEN acc
    ELSE IF Len(got) = len THEN V(acc, D("seq", got))
    ELSE LET a == De(DC(acc, inp, C0(before)), inp, sh, Append(p, IF same THEN 1 ELSE Len(got) + 1))
         IN DeElems(a, inp, sh, p, before, len, same, Append(got, a.v))
DeEntries(acc, inp, sh, p, len, got) ==
    IF ~Good(acc) THEN acc
    ELSE IF Len(got) = 2 * len THEN V(acc, D("map", got))
    ELSE LET a1 == De(DC(DC(DC(acc, inp, C0("begin_seq_elem")), inp, C0("begin_tuple")), inp, C0("begin_tuple_elem")),
                      inp, sh, p \o <<1, 1>>)
             a2 == De(DC(a1, inp, C0("begin_tuple_elem")), inp, sh, p \o <<1, 2>>)
         IN DeEntries(DC(a2, inp, C0("finish_tuple")), inp, sh, p, len, got \o <<a1.v, a2.v>>)
DeFields(acc, inp, sh, p, n, got) ==
    IF ~Good(acc) THEN acc
    ELSE IF Len(got) = Len(n) THEN V(acc, Val("struct", "", FALSE, <<>>, got, n))
    ELSE LET a == De(DC(acc, inp, CName("begin_struct_field", n[Len(got) + 1])), inp, sh, Append(p, Len(got) + 1))
         IN DeFields(a, inp, sh, p, n, Append(got, a.v))

(* How many of len parts the visitor of shape s takes (each: they have  *)
(* shapes of their own).                                                     *)
Taken(s, len, each) == IF s.t # "stop" THEN len
                       ELSE LET most == IF each THEN (IF Len(s.c) = 0 THEN 0 ELSE Len(s.c) - 1) ELSE 1
                            IN IF len < most THEN len ELSE most
DFail(acc, ks) == IF Good(acc) THEN [acc EXCEPT !.ks = ks] ELSE acc
(* n: the number of elements asked for, or -1                                *)
DeSeqLike(acc, inp, sh, p, n) ==
    IF ~Good(acc) THEN acc
    ELSE IF acc.st.broken \/ ~NeedsSomething(acc.st) THEN DFail(acc, NoPlace)
    ELSE LET s == Needed(acc.st)
             same == n = -1
             Len_(l) == n = -1 \/ n = l
         IN CASE s.k = "seq" ->
                   LET a == IF s.fx THEN DC(acc, inp, CLen("begin_fixed_len_seq", s.ln))
                            ELSE DC(acc, inp, C0("begin_var_len_seq"))
                       l == NatOf(IF s.fx THEN s.ln ELSE a.b)
                   IN IF Good(a) /\ ~Len_(l) THEN DFail(a, Misfit)
                      ELSE LET w == Taken(NodeAt(sh, p), l, ~same)
                               e == DeElems(a, inp, sh, p, "begin_seq_elem", w, same, <<>>)
                           IN IF w < l THEN e ELSE V(DC(e, inp, C0("finish_seq")), e.v)
              [] s.k = "tuple" ->
                   IF ~Len_(Len(s.c)) THEN DFail(acc, Misfit)
                   ELSE LET w == Taken(NodeAt(sh, p), Len(s.c), ~same)
                            e == DeElems(DC(acc, inp, C0("begin_tuple")), inp, sh, p, "begin_tuple_elem", w, same, <<>>)
                        IN IF w < Len(s.c) THEN e ELSE V(DC(e, inp, C0("finish_tuple")), e.v)
              [] s.k = "unit" ->  (* is nothing to read, so may have been read before the length is looked at *)
                   LET u == DC(acc, inp, C0("unit")) IN IF Len_(0) THEN V(u, D("seq", <<>>)) ELSE DFail(u, Misfit)
              [] s.k = "recurse" -> DFail(acc, AnyErr)
              [] OTHER -> DFail(acc, Misfit)
DeStruct(acc, inp, sh, p, n) ==
    LET w == Taken(NodeAt(sh, p), Len(n), TRUE)
        f == DeFields(DC(acc, inp, C0("begin_struct")), inp, sh, p, SubSeq(n, 1, w), <<>>)
    IN IF w < Len(n) THEN f ELSE V(DC(f, inp, C0("finish_struct")), f.v)
Kind(acc, k) == IF Good(acc) THEN [acc EXCEPT !.v.k = k] ELSE acc

De(acc, inp, sh, p0) ==
    IF ~Good(acc) THEN acc
    ELSE LET p == ShTarget(sh, p0)
             s == NodeAt(sh, p)
    IN CASE s.k = "scalar" -> DC(acc, inp, CScalar(s.t, FALSE, <<>>))
      [] s.k \in {"str", "bytes"} ->
            LET a == DC(acc, inp, CBlob(s.k, <<>>)) IN V(a, Val(s.k, "", FALSE, a.b, <<>>, <<>>))
      [] s.k \in {"unit", "unit_struct"} -> V(DC(acc, inp, C0("unit")), D(s.k, <<>>))
      [] s.k = "option" ->
            LET a == DC(acc, inp, C0("begin_option")) IN
            IF ~Good(a) THEN a
            ELSE IF a.b = <<>> THEN V(a, D("none", <<>>))
            ELSE LET x == De(a, inp, sh, Append(p, 1)) IN V(x, D("some", <<x.v>>))
      [] s.k = "newtype_struct" -> LET x == De(acc, inp, sh, Append(p, 1)) IN V(x, D("newtype_struct", <<x.v>>))
      [] s.k = "hr" -> LET x == De(acc, inp, sh, Append(p, 2)) IN V(x, D("newtype_struct", <<x.v>>))
      [] s.k = "fail" -> [acc EXCEPT !.ks = Own]
      [] s.k = "seq" -> DeSeqLike(acc, inp, sh, p, -1)
      [] s.k \in {"tuple", "tuple_struct"} -> Kind(DeSeqLike(acc, inp, sh, p, Len(s.c)), s.k)
      [] s.k = "map" ->
            LET a == DC(acc, inp, C0("begin_var_len_seq"))
                l == NatOf(a.b)
                e == IF Good(a) THEN DeEntries(a, inp, sh, p, Taken(s, l, FALSE), <<>>) ELSE a
            IN IF Good(a) /\ Taken(s, l, FALSE) < l THEN e ELSE V(DC(e, inp, C0("finish_seq")), e.v)
      [] s.k = "struct" -> DeStruct(acc, inp, sh, p, s.n)
      [] s.k = "enum" ->
            LET a == DC(acc, inp, C0("begin_enum")) IN
            IF ~Good(a) THEN a
            ELSE IF NatOf(a.b) >= Len(s.n) THEN DFail(a, Misfit)
            ELSE LET j == NatOf(a.b) + 1
                     w == s.c[j]
                     q == Append(p, j)
                     b == DC(a, inp, CName("begin_enum_variant", s.n[j]))
                     x == CASE s.t = "stop" -> V(b, D("variant", <<>>))
                            [] w.k = "unit_variant" -> V(DC(b, inp, C0("unit")), D("unit_variant", <<>>))
                            [] w.k = "newtype_variant" ->
                                 LET y == De(b, inp, sh, Append(q, 1)) IN V(y, D("newtype_variant", <<y.v>>))
                            [] w.k = "tuple_variant" -> Kind(DeSeqLike(b, inp, sh, q, Len(w.c)), "tuple_variant")
                            [] w.k = "struct_variant" -> Kind(DeStruct(b, inp, sh, q, w.n), "struct_variant")
                 IN IF Good(x) THEN [x EXCEPT !.v.b = a.b, !.v.n = <<s.n[j]>> \o @] ELSE x
      [] s.k = "any" -> DDyn(acc, inp, TRUE)
      [] s.k = "ignored" -> DDyn(acc, inp, FALSE)

DeRun(st, sh, inp, i) ==
    De([ks |-> {"ok"}, st |-> st, i |-> i, v |-> VUnit, b |-> <<>>], inp, sh, <<>>)

----------------------------------------------------------------------------
(* Calls that code a whole needed value: dynamically (dyn), through serde    *)
(* (ser, de), self-describing (any) or ignoring it (skip). The answer has    *)
(* the same fields as those in Coder.tla, and v.                             *)
WholeAns(ks, st, out, n, v) ==
    [ks |-> ks, st |-> st, out |-> out, n |-> n, neg |-> FALSE, b |-> <<>>, v |-> v]
WholeStep(st, enc, o, inp, i) ==
    CASE enc /\ o.op = "dyn" ->
            IF ~st.broken /\ NeedsSomething(st) /\ Needed(st).k # "recurse" /\ Conf(st.root, Top(st).p, o.val)
            THEN WholeAns({"ok"}, Pop(st), Enc(st.root, Top(st).p, o.val), 0, VUnit)
            ELSE WholeAns(AnyErr, st, <<>>, 0, VUnit)
      [] enc /\ o.op = "ser" ->
            LET a == SerRun(st, o.sv)
            IN WholeAns(a.ks, IF Good(a) THEN a.st ELSE st, a.out, 0, VUnit)
      [] ~enc /\ o.op \in {"dyn", "any", "skip"} ->
            LET d == DynStep(st, inp, i) IN
            IF d.st = "ok" THEN WholeAns({"ok"}, Pop(st), <<>>, d.i - i, IF o.op = "any" THEN AnyOf(d.v) ELSE d.v)
            ELSE WholeAns(DynErr(d), IF d.st = "unfit" THEN st ELSE Break(st), <<>>, Len(inp), VUnit)
      [] ~enc /\ o.op = "de" ->
            LET a == DeRun(st, o.sh, inp, i) IN
            IF Good(a) THEN WholeAns({"ok"}, a.st, <<>>, a.i - i, a.v)
            ELSE WholeAns(a.ks, IF a.st.broken THEN a.st ELSE st, <<>>, Len(inp), VUnit)
=============================================================================
