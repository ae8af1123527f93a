-------------------------------- MODULE Meta --------------------------------
(* Schemas as values: the meta-schema of FORMAT.txt.                         *)
EXTENDS Coder, TLC

\* Names used below, spelled out.
NScalar == <<83,99,97,108,97,114>>
NStr == <<83,116,114>>
NBytes == <<66,121,116,101,115>>
NUnit == <<85,110,105,116>>
NOption == <<79,112,116,105,111,110>>
NSeq == <<83,101,113>>
NTuple == <<84,117,112,108,101>>
NStruct == <<83,116,114,117,99,116>>
NEnum == <<69,110,117,109>>
NRecurse == <<82,101,99,117,114,115,101>>
Nlen == <<108,101,110>>
Ninner == <<105,110,110,101,114>>
Nname == <<110,97,109,101>>

ScalarOrder == <<"u8","u16","u32","u64","u128","i8","i16","i32","i64","i128","f32","f64","char","bool">>
ScalarNames == << <<85,56>>, <<85,49,54>>, <<85,51,50>>, <<85,54,52>>, <<85,49,50,56>>,
                  <<73,56>>, <<73,49,54>>, <<73,51,50>>, <<73,54,52>>, <<73,49,50,56>>,
                  <<70,51,50>>, <<70,54,52>>, <<67,104,97,114>>, <<66,111,111,108>> >>
KindNames == <<NScalar, NStr, NBytes, NUnit, NOption, NSeq, NTuple, NStruct, NEnum, NRecurse>>
KindOrder == <<"scalar", "str", "bytes", "unit", "option", "seq", "tuple", "struct", "enum", "recurse">>

IndexIn(seq, x) == CHOOSE i \in DOMAIN seq : seq[i] = x

Unit == SLeaf("unit")
Named(l) == SVarSeq(SStruct(<<Nname, Ninner>>, <<SLeaf("str"), SRecurse(l)>>))
MetaSchema == SEnum(KindNames, <<
    SEnum(ScalarNames, [i \in 1..14 |-> Unit]),
    Unit, Unit, Unit,
    SRecurse(1),
    SStruct(<<Nlen, Ninner>>, <<SOption(SScalar("u64")), SRecurse(2)>>),
    SVarSeq(SRecurse(2)),
    Named(3), Named(3),
    SScalar("u64")>>)

VEnum(names, i, v) == Val("enum", "", FALSE, NatBytes(i - 1), <<v>>, <<names[i]>>)
VU64(b) == VScalar("u64", FALSE, b)
VStr(b) == Val("str", "", FALSE, b, <<>>, <<>>)
VOpt(c) == Val("option", "", FALSE, <<>>, c, <<>>)
VSeq(c) == Val("vseq", "", FALSE, <<>>, c, <<>>)
VStruct(n, c) == Val("struct", "", FALSE, <<>>, c, n)

(* A schema as a value of the meta-schema.                                   *)
RECURSIVE SchemaValue(_)
SchemaValue(s) ==
    LET Named_ == VSeq([i \in DOMAIN s.c |-> VStruct(<<Nname, Ninner>>, <<VStr(s.n[i]), SchemaValue(s.c[i])>>)])
    IN VEnum(KindNames, IndexIn(KindOrder, s.k),
        CASE s.k = "scalar" -> VEnum(ScalarNames, IndexIn(ScalarOrder, s.t), VUnit)
          [] s.k \in {"str", "bytes", "unit"} -> VUnit
          [] s.k = "option" -> SchemaValue(s.c[1])
          [] s.k = "seq" -> VStruct(<<Nlen, Ninner>>,
                <<VOpt(IF s.fx THEN <<VU64(s.ln)>> ELSE <<>>), SchemaValue(s.c[1])>>)
          [] s.k = "tuple" -> VSeq([i \in DOMAIN s.c |-> SchemaValue(s.c[i])])
          [] s.k \in {"struct", "enum"} -> Named_
          [] s.k = "recurse" -> VU64(s.ln))

(* And back.                                                                 *)
RECURSIVE ValueSchema(_)
ValueSchema(v) ==
    LET k == KindOrder[NatOf(v.b) + 1]
        x == v.c[1]
    IN CASE k = "scalar" -> SScalar(ScalarOrder[NatOf(x.b) + 1])
         [] k \in {"str", "bytes", "unit"} -> SLeaf(k)
         [] k = "option" -> SOption(ValueSchema(x))
         [] k = "seq" -> SchemaRec("seq", "", x.c[1].c # <<>>,
                                   IF x.c[1].c = <<>> THEN <<>> ELSE x.c[1].c[1].b,
                                   <<ValueSchema(x.c[2])>>, <<>>)
         [] k = "tuple" -> STuple([i \in DOMAIN x.c |-> ValueSchema(x.c[i])])
         [] k \in {"struct", "enum"} ->
                SchemaRec(k, "", FALSE, <<>>, [i \in DOMAIN x.c |-> ValueSchema(x.c[i].c[2])],
                          [i \in DOMAIN x.c |-> x.c[i].c[1].b])
         [] k = "recurse" -> SchemaRec("recurse", "", FALSE, x.b, <<>>, <<>>)
=============================================================================
