------------------------------ MODULE GenSerde ------------------------------
(* The serde layer on the small schemas of the catalog: all forms in which   *)
(* serde data may present each small value, and much other data, serialized  *)
(* under each schema, and deserialized into what was serialized. What the    *)
(* properties come to in this model is checked, and all pairs are printed,   *)
(* to be carried out with the real code (w_serde_all).                       *)
EXTENDS Catalog, Serde, TLC, Json, SequencesExt

CONSTANTS Height,   \* of the values that data are made of
          Generic   \* whether to try other data, too

Sids == {i \in DOMAIN Catalog : LegalSchema(Catalog[i])}

D0 == {VScalar("u8", FALSE, <<3>>), D("unit", <<>>), D("none", <<>>)}
One(x) == {<<>>, <<x>>, <<x, x>>}
Lists == UNION {One(x) : x \in D0} \cup {<<VScalar("u8", FALSE, <<>>), D("unit", <<>>)>>,
                                        <<D("unit", <<>>), D("some", <<VScalar("u8", FALSE, <<1>>)>>)>>}
Named(n, l) == IF Len(l) = 0 THEN <<>> ELSE IF Len(l) = 1 THEN <<n>> ELSE <<n, IF n = A THEN B ELSE A>>
(* Data which knows of no schema. *)
GenericData ==
    D0 \cup {VScalar("u16", FALSE, <<3>>), VScalar("i64", TRUE, <<63>>), VScalar("bool", FALSE, <<1>>),
             VScalar("f32", FALSE, <<0,0,192,127>>), VScalar("char", FALSE, <<65>>),
             Val("str", "", FALSE, <<65>>, <<>>, <<>>), Val("bytes", "", FALSE, <<0, 255>>, <<>>, <<>>),
             D("unit_struct", <<>>), D("some", <<D("some", <<D("unit", <<>>)>>)>>),
             D("some", <<D("some", <<D("none", <<>>)>>)>>)}
       \cup {D(k, <<x>>) : k \in {"some", "newtype_struct"}, x \in D0}
       \cup {D(k, l) : k \in {"tuple", "tuple_struct"}, l \in Lists}
       \cup {Val("seq", t, FALSE, <<>>, l, <<>>) : t \in {"", "none", "less", "more"}, l \in Lists}
       \cup {Val("map", t, FALSE, <<>>, l, <<>>) : t \in {"", "none", "less", "more"}, l \in {x \in Lists : Len(x) # 1}}
       \cup {Val("struct", "", FALSE, <<>>, l, Named(n, l)) : n \in {A, B, E}, l \in Lists}
       \cup {Val("struct", "", FALSE, <<>>, <<D("skip", <<>>)>>, <<n>>) : n \in {A, B}}
       \cup {Val(k, "", FALSE, o, l, <<n>>) : k \in {"unit_variant", "newtype_variant", "tuple_variant"},
                                              o \in {<<>>, <<1>>, <<2>>}, n \in {A, B},
                                              l \in {<<VScalar("u8", FALSE, <<3>>)>>, <<D("unit", <<>>)>>}}
       \cup {Val("struct_variant", "", FALSE, o, <<D("none", <<>>)>>, <<n, A>>) : o \in {<<>>, <<1>>}, n \in {A, B}}
UnitsBare == {[d EXCEPT !.c = IF d.k = "unit_variant" THEN <<>> ELSE @] : d \in GenericData}

(* All lists with one of each of the sets.                                   *)
RECURSIVE Product(_)
Product(ss) == IF ss = <<>> THEN {<<>>}
               ELSE {<<x>> \o r : x \in Head(ss), r \in Product(Tail(ss))}
(* The forms in which data may present value v.                              *)
RECURSIVE Forms(_)
Forms(v) ==
    LET all == Product([i \in DOMAIN v.c |-> Forms(v.c[i])])
        fields == Product([i \in DOMAIN v.c |-> Forms(v.c[i])
                              \cup (IF v.c[i].k = "option" /\ v.c[i].c = <<>> THEN {D("skip", <<>>)} ELSE {})])
        Lst(ts) == {Val("seq", t, FALSE, <<>>, l, <<>>) : t \in ts, l \in all}
                   \cup {D(k, l) : k \in {"tuple", "tuple_struct"}, l \in all}
        Pairs == v.c # <<>> /\ \A i \in DOMAIN v.c : v.c[i].k = "tuple" /\ Len(v.c[i].c) = 2
        Entries == Product([i \in 1..(2 * Len(v.c)) |-> Forms(v.c[(i+1) \div 2].c[2 - (i % 2)])])
    IN CASE v.k \in {"scalar", "str", "bytes"} -> {v, D("newtype_struct", <<v>>)}
         [] v.k = "unit" -> {D("unit", <<>>), D("unit_struct", <<>>), D("tuple", <<>>), Val("seq", "none", FALSE, <<>>, <<>>, <<>>)}
         [] v.k = "option" -> IF v.c = <<>> THEN {D("none", <<>>)} ELSE {D("some", l) : l \in all}
         [] v.k = "fseq" -> Lst({"", "none"})
         [] v.k = "tuple" -> Lst({"", "none"})
         [] v.k = "vseq" -> Lst({""}) \cup (IF Pairs THEN {D("map", l) : l \in Entries}
                                            ELSE IF v.c = <<>> THEN {D("map", <<>>)} ELSE {})
         [] v.k = "struct" -> {Val("struct", "", FALSE, <<>>, l, v.n) : l \in fields}
         [] v.k = "enum" ->
              LET w == v.c[1]
                  inner == Product([i \in DOMAIN w.c |-> Forms(w.c[i])])
              IN {Val("newtype_variant", "", FALSE, v.b, l, v.n) : l \in all}
                 \cup (IF w.k = "unit" THEN {Val("unit_variant", "", FALSE, v.b, <<>>, v.n)} ELSE {})
                 \cup (IF w.k \in {"fseq", "vseq", "tuple"} \/ (w.k = "unit")
                       THEN {Val("tuple_variant", "", FALSE, v.b, l, v.n) : l \in IF w.k = "unit" THEN {<<>>} ELSE inner} ELSE {})
                 \cup (IF w.k = "struct" THEN {Val("struct_variant", "", FALSE, v.b, l, v.n \o w.n) : l \in inner} ELSE {})

(* The shape of data, where the schema at position p0 tells of the other     *)
(* variants there are.                                                       *)
RECURSIVE ShapeOf(_,_,_)
ShapeOf(root, p0, d) ==
    LET p == Target(root, p0)
        s == NodeAt(root, p)
        Ch(i) == Append(p, IF s.k = "seq" THEN 1 ELSE i)
        all == [i \in DOMAIN d.c |-> ShapeOf(root, Ch(i), d.c[i])]
        Enum(x) == Val("enum", "", FALSE, <<>>,
                       [i \in DOMAIN s.c |-> IF NatBytes(i-1) = d.b THEN x ELSE D("newtype_variant", <<D("ignored", <<>>)>>)], s.n)
        q == IF s.k = "enum" THEN Target(root, Append(p, NatOf(d.b) + 1)) ELSE p
        w == NodeAt(root, q)
        inner == [i \in DOMAIN d.c |-> ShapeOf(root, Append(q, IF w.k = "seq" THEN 1 ELSE i), d.c[i])]
    IN CASE d.k = "scalar" -> [d EXCEPT !.b = <<>>, !.neg = FALSE]
         [] d.k \in {"str", "bytes"} -> [d EXCEPT !.b = <<>>]
         [] d.k \in {"unit", "unit_struct"} -> d
         [] d.k \in {"none", "skip"} -> D("option", <<D("ignored", <<>>)>>)
         [] d.k = "some" -> D("option", <<ShapeOf(root, Append(p, 1), d.c[1])>>)
         [] d.k = "newtype_struct" -> D(d.k, <<ShapeOf(root, p0, d.c[1])>>)
         [] d.k = "seq" -> IF d.c = <<>> THEN D("seq", <<D("unit", <<>>)>>)
                           ELSE IF \A i \in DOMAIN all : all[i] = all[1] THEN D("seq", <<all[1]>>) ELSE D("tuple", all)
         [] d.k \in {"tuple", "tuple_struct"} -> D(d.k, all)
         [] d.k = "map" -> D("map", <<D("entry", IF d.c = <<>> THEN <<D("unit", <<>>), D("unit", <<>>)>>
                              ELSE <<ShapeOf(root, Append(Target(root, Append(p, 1)), 1), d.c[1]),
                                     ShapeOf(root, Append(Target(root, Append(p, 1)), 2), d.c[2])>>)>>)
         [] d.k = "struct" -> Val("struct", "", FALSE, <<>>, all, d.n)
         [] d.k = "unit_variant" -> Enum(D("unit_variant", <<>>))
         [] d.k = "newtype_variant" -> Enum(D("newtype_variant", <<ShapeOf(root, Append(p, NatOf(d.b) + 1), d.c[1])>>))
         [] d.k = "tuple_variant" -> Enum(D("tuple_variant", inner))
         [] d.k = "struct_variant" -> Enum(Val("struct_variant", "", FALSE, <<>>, inner, Tail(d.n)))

(* The data as it comes back where the shape is its own.                     *)
RECURSIVE Back(_)
Back(d) == IF d.k = "skip" THEN D("none", <<>>)
           ELSE [d EXCEPT !.t = IF d.k \in {"seq", "map"} THEN "" ELSE @, !.c = [j \in DOMAIN @ |-> Back(@[j])]]
RECURSIVE AsTuple(_)
AsTuple(d) == [d EXCEPT !.k = IF @ = "tuple" THEN "seq" ELSE @, !.c = [j \in DOMAIN @ |-> AsTuple(@[j])]]

VARIABLES sid, part, data, fits
vars == <<sid, part, data, fits>>
Parts == 0..7
None_ == D("nothing yet", <<>>)
FormsOf == [i \in Sids |-> UNION {Forms(v) : v \in Values(Catalog[i], <<>>, Height)}]
FormsSeq == [i \in Sids |-> SetToSeq(FormsOf[i])]
OtherSeq == SetToSeq(UnitsBare)
\* Data is chosen in a step, in parts, so that all workers have something to do.
Init == sid \in Sids /\ part \in Parts /\ data = None_ /\ fits = FALSE
Next == /\ data = None_
        /\ \/ /\ fits' = TRUE
              /\ \E j \in DOMAIN FormsSeq[sid] : j % 8 = part /\ data' = FormsSeq[sid][j]
           \/ /\ Generic /\ fits' = FALSE
              /\ \E j \in DOMAIN OtherSeq : /\ j % 8 = part
                                            /\ OtherSeq[j] \notin FormsOf[sid]
                                            /\ data' = OtherSeq[j]
        /\ UNCHANGED <<sid, part>>
Spec == Init /\ [][Next]_vars

Root == Catalog[sid]
Run == SerRun(NewCoder(Root), data)
Whole == data # None_ /\ Good(Run) /\ Finished(Run.st)
(* C09, C10: each form of a value is accepted, and nothing is ever           *)
(* half accepted.                                                            *)
FormsFit == data # None_ /\ fits => Whole
NoHalf == data = None_ \/ ((Good(Run) <=> Whole) /\ (~Good(Run) => ~Finished(Run.st)))
(* C03: what was written is a message.                                       *)
IsMessage == Whole => LET d == DecodeAll(Root, Run.out) IN d.st = "ok" /\ d.i = Len(Run.out) + 1
                          /\ Enc(Root, <<>>, d.v) = Run.out
(* C09: the data comes back.                                                 *)
ComesBack == Whole =>
    LET a == DeRun(NewCoder(Root), ShapeOf(Root, <<>>, data), Run.out, 1)
    IN Good(a) /\ Finished(a.st) /\ a.i = Len(Run.out) + 1 /\ AsTuple(a.v) = AsTuple(Back(data))
(* C13: it is also read without knowing its shape.                           *)
ReadByAny == Whole =>
    \A sh \in {D("any", <<>>), D("ignored", <<>>)} :
        LET a == DeRun(NewCoder(Root), sh, Run.out, 1) IN Good(a) /\ Finished(a.st) /\ a.i = Len(Run.out) + 1

Emit == data = None_ \/ PrintT("@D" \o ToJson([i |-> sid, f |-> fits, d |-> data,
                               sh |-> IF Whole THEN <<ShapeOf(Root, <<>>, data)>> ELSE <<>>]))
ASSUME PrintT("@C" \o ToJson(Catalog))
=============================================================================
