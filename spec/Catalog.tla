------------------------------ MODULE Catalog ------------------------------
(* Small schemas, small values and the calls to try on them, from which the  *)
(* state spaces of the coder are made that TLC explores exhaustively.        *)
EXTENDS Coder, FiniteSets

A == <<97>>  B == <<98>>  E == <<>>  Z == <<122>>

U8 == SScalar("u8")  U16 == SScalar("u16")  U32 == SScalar("u32")
I8 == SScalar("i8")  I64 == SScalar("i64")
Str == SLeaf("str")  Byt == SLeaf("bytes")  Uni == SLeaf("unit")
R(n) == SRecurse(n)

Catalog == <<
    U8, U16, U32, I8, I64, SScalar("bool"), SScalar("char"), SScalar("f32"), Str, Byt, Uni,
    SOption(U8), SOption(Uni), SOption(SOption(U8)), SOption(R(1)),
    SVarSeq(U8), SVarSeq(Uni), SVarSeq(R(1)), SVarSeq(SVarSeq(U8)),
    SFixSeq(0, U8), SFixSeq(1, Str), SFixSeq(2, SOption(Uni)), SFixSeq(2, SFixSeq(1, U8)), SFixSeq(0, R(1)),
    STuple(<<>>), STuple(<<U8>>), STuple(<<Uni, U8>>), STuple(<<U8, STuple(<<>>)>>),
    STuple(<<SOption(R(2)), U8>>), STuple(<<SVarSeq(R(2))>>), SOption(STuple(<<R(2), R(2)>>)),
    SStruct(<<>>, <<>>), SStruct(<<A>>, <<U8>>), SStruct(<<A, B>>, <<Uni, SOption(U8)>>),
    SStruct(<<A, A>>, <<U8, U8>>), SStruct(<<E, A>>, <<SOption(R(2)), Uni>>),
    SEnum(<<A>>, <<U8>>), SEnum(<<A, B>>, <<Uni, U8>>), SEnum(<<A, A>>, <<U8, Uni>>),
    SEnum(<<A, B>>, <<Uni, R(1)>>), SEnum(<<E, A, B>>, <<Uni, SStruct(<<A>>, <<R(2)>>), STuple(<<R(2), U8>>)>>),
    \* recursion that re-enters inner schemas and then goes further up
    SOption(SVarSeq(STuple(<<SOption(R(1)), R(2)>>))),
    SOption(STuple(<<SOption(R(1)), SOption(R(2)), SOption(R(3))>>)),
    SStruct(<<A, B>>, <<SOption(SEnum(<<A, B>>, <<Uni, R(1)>>)), SVarSeq(R(1))>>),
    SVarSeq(SOption(STuple(<<R(2), R(3)>>))),
    STuple(<<SVarSeq(SOption(R(3))), U8>>),
    SEnum(<<A, B>>, <<SOption(R(2)), SVarSeq(SOption(R(1)))>>),
    \* illegal
    R(0), R(1), SOption(R(0)), SOption(R(2)), SVarSeq(R(0)), SFixSeq(1, R(2)), STuple(<<U8, R(2)>>),
    SStruct(<<A>>, <<R(0)>>), SEnum(<<A, B>>, <<Uni, R(2)>>), SOption(SOption(R(3))), SEnum(<<A>>, <<R(0)>>)
>>

----------------------------------------------------------------------------
SampleScalars(t) ==
    CASE t \in {"f32"} -> {<<FALSE, <<0,0,192,127>>>>}
      [] t \in {"f64"} -> {<<FALSE, <<1,0,0,0,0,0,240,127>>>>}
      [] t = "bool" -> {<<FALSE, <<>>>>, <<FALSE, <<1>>>>}
      [] t \in {"u8", "char"} -> {<<FALSE, <<>>>>, <<FALSE, <<200>>>>}
      [] t \in {"i8"} -> {<<TRUE, <<127>>>>, <<FALSE, <<1>>>>}
      [] t \in {"u16", "u32", "u64", "u128"} -> {<<FALSE, <<0, 1>>>>}
      [] OTHER -> {<<TRUE, <<63>>>>, <<FALSE, <<64>>>>}

RECURSIVE NamesIn(_)
NamesIn(s) == {s.n[i] : i \in DOMAIN s.n} \cup UNION {NamesIn(s.c[i]) : i \in DOMAIN s.c}
RECURSIVE TypesIn(_)
TypesIn(s) == (IF s.k = "scalar" THEN {s.t} ELSE {}) \cup UNION {TypesIn(s.c[i]) : i \in DOMAIN s.c}

(* The calls to try on schema s.                                             *)
Universe(s, enc) ==
    LET names == NamesIn(s) \cup {Z}
        types == TypesIn(s) \cup {"u8", "bool", "u32"}
        lens == {<<>>, <<1>>, <<2>>}
        ords == {<<>>, <<1>>, <<2>>, <<3>>, <<0, 1>>}
    IN (IF enc THEN UNION {{CScalar(t, x[1], x[2]) : x \in SampleScalars(t)} : t \in types}
        ELSE {CScalar(t, FALSE, <<>>) : t \in types})
       \cup {CBlob("str", b) : b \in IF enc THEN {<<>>, <<65>>} ELSE {<<>>}}
       \cup {CBlob("bytes", b) : b \in IF enc THEN {<<0, 255>>} ELSE {<<>>}}
       \cup {C0(op) : op \in {"unit", "begin_seq_elem", "finish_seq", "begin_tuple", "begin_tuple_elem",
                              "finish_tuple", "begin_struct", "finish_struct"}}
       \cup {CLen("begin_fixed_len_seq", l) : l \in lens}
       \cup {CName("begin_struct_field", n) : n \in names}
       \cup (IF enc THEN {C0("none"), C0("begin_some")}
                         \cup {CLen("begin_var_len_seq", l) : l \in lens}
                         \cup {CEnum(o, n) : o \in ords, n \in names}
             ELSE {C0("begin_option"), C0("begin_var_len_seq"), C0("begin_enum")}
                  \cup {CName("begin_enum_variant", n) : n \in names})

----------------------------------------------------------------------------
(* Some values at position p0, of height at most d.                          *)
RECURSIVE Values(_,_,_)
RECURSIVE ValueLists(_,_,_,_,_)
Values(root, p0, d) ==
    IF d = 0 \/ ~Legal(root, p0) THEN {}
    ELSE LET p == Target(root, p0)
             s == NodeAt(root, p)
             Same(n) == ValueLists(root, p, d - 1, n, TRUE)
             All == ValueLists(root, p, d - 1, Len(s.c), FALSE)
             W(k, cs, n) == {Val(k, "", FALSE, <<>>, c, n) : c \in cs}
         IN CASE s.k = "scalar" -> {VScalar(s.t, x[1], x[2]) : x \in SampleScalars(s.t)}
              [] s.k = "str" -> {Val("str", "", FALSE, b, <<>>, <<>>) : b \in {<<>>, <<65>>}}
              [] s.k = "bytes" -> {Val("bytes", "", FALSE, <<0, 255>>, <<>>, <<>>)}
              [] s.k = "unit" -> {VUnit}
              [] s.k = "option" -> W("option", Same(0) \cup Same(1), <<>>)
              [] s.k = "seq" /\ s.fx -> W("fseq", Same(NatOf(s.ln)), <<>>)
              [] s.k = "seq" /\ ~s.fx -> W("vseq", Same(0) \cup Same(1) \cup Same(2), <<>>)
              [] s.k = "tuple" -> W("tuple", All, <<>>)
              [] s.k = "struct" -> W("struct", All, s.n)
              [] s.k = "enum" ->
                    UNION {{Val("enum", "", FALSE, NatBytes(i-1), <<v>>, <<s.n[i]>>)
                                : v \in Values(root, Append(p, i), d - 1)} : i \in DOMAIN s.c}
(* Lists of n values for the children of p (or its only child).              *)
ValueLists(root, p, d, n, same) ==
    IF n = 0 THEN {<<>>}
    ELSE {Append(l, v) : l \in ValueLists(root, p, d, n - 1, same),
                         v \in Values(root, Append(p, IF same THEN 1 ELSE n), d)}
=============================================================================
