------------------------------- MODULE Macro --------------------------------
(* The language of the schema! macro: the syntax FORMAT.txt and the docs use *)
(* for schemas, as a grammar over token trees.                               *)
(*                                                                           *)
(* A token tree is a record with the fields                                  *)
(*   t   "id" "," ":" "%" "(" "{" "[" "num" "conv" "lit"                     *)
(*   n   id: its UTF-8 bytes; num: the number some Rust expression has, as   *)
(*       NatBytes; conv: the names of fields or variants                     *)
(*   c   groups: the token trees inside                                      *)
(*   k   conv: "struct" or "enum"                                            *)
(* conv is a Rust expression which makes a schema by converting pairs of a   *)
(* name and a schema (given by the contents c[i].c of a schema!) to fields   *)
(* or variants; lit is other Rust text.                                      *)
EXTENDS Format, SequencesExt

Words == [ u8 |-> <<117,56>>, u16 |-> <<117,49,54>>, u32 |-> <<117,51,50>>, u64 |-> <<117,54,52>>,
           u128 |-> <<117,49,50,56>>, i8 |-> <<105,56>>, i16 |-> <<105,49,54>>, i32 |-> <<105,51,50>>,
           i64 |-> <<105,54,52>>, i128 |-> <<105,49,50,56>>, f32 |-> <<102,51,50>>, f64 |-> <<102,54,52>>,
           char |-> <<99,104,97,114>>, bool |-> <<98,111,111,108>>, str |-> <<115,116,114>>,
           bytes |-> <<98,121,116,101,115>>, unit |-> <<117,110,105,116>>,
           option |-> <<111,112,116,105,111,110>>, seq |-> <<115,101,113>>,
           varlen |-> <<118,97,114,108,101,110>>, tuple |-> <<116,117,112,108,101>>,
           struct |-> <<115,116,114,117,99,116>>, enum |-> <<101,110,117,109>>,
           recurse |-> <<114,101,99,117,114,115,101>> ]

Is(x, w) == x.t = "id" /\ x.n = Words[w]
IsNum(c) == Len(c) = 1 /\ c[1].t = "num"

(* The items of a list separated by commas, which may have one at the end.   *)
RECURSIVE Items(_,_,_)
Items(c, item, done) ==
    IF c = <<>> THEN (IF item = <<>> THEN done ELSE Append(done, item))
    ELSE IF Head(c).t = "," THEN Items(Tail(c), <<>>, Append(done, item))
    ELSE Items(Tail(c), Append(item, Head(c)), done)
ListOf(c) == Items(c, <<>>, <<>>)

(* The schema which contents of the macro denote; <<>> if there is none, or  *)
(* else a sequence of one.                                                   *)
RECURSIVE MacroSchema(_)
AllOf(list) ==   \* the schemas of all of a list of contents, or "none"
    LET each == [i \in DOMAIN list |-> MacroSchema(list[i])] IN
    IF \A i \in DOMAIN each : each[i] # <<>> THEN <<[i \in DOMAIN each |-> each[i][1]]>> ELSE <<>>
MacroSchema(x) ==
    LET n == Len(x)
        leaf == {w \in Scalars \cup {"str", "bytes", "unit"} : Is(x[1], w)}
        w == CHOOSE w \in leaf : TRUE
    IN IF n = 0 THEN <<>>
       ELSE IF n = 1 /\ leaf # {} THEN
            << IF w \in Scalars THEN SScalar(w) ELSE SLeaf(w) >>
       ELSE IF n = 2 /\ x[1].t = "%" THEN
            IF x[2].t # "conv" THEN <<>>
            ELSE LET a == AllOf([i \in DOMAIN x[2].c |-> x[2].c[i].c]) IN
                 IF a = <<>> THEN <<>>
                 ELSE << IF x[2].k = "struct" THEN SStruct(x[2].n, a[1])
                         ELSE IF x[2].k = "enum" THEN SEnum(x[2].n, a[1])
                         ELSE a[1][1] >>       \* of a schema! written there
       ELSE IF n = 2 /\ Is(x[1], "option") /\ x[2].t = "(" THEN
            LET a == MacroSchema(x[2].c) IN IF a = <<>> THEN a ELSE <<SOption(a[1])>>
       ELSE IF n = 2 /\ Is(x[1], "recurse") /\ x[2].t = "(" /\ IsNum(x[2].c) THEN
            << SchemaRec("recurse", "", FALSE, x[2].c[1].n, <<>>, <<>>) >>
       ELSE IF n = 3 /\ Is(x[1], "seq") /\ x[2].t = "(" /\ x[3].t = "(" THEN
            LET a == MacroSchema(x[3].c) IN
            IF a = <<>> THEN a
            ELSE IF Len(x[2].c) = 1 /\ Is(x[2].c[1], "varlen") THEN <<SVarSeq(a[1])>>
            ELSE IF IsNum(x[2].c) THEN <<SchemaRec("seq", "", TRUE, x[2].c[1].n, a, <<>>)>>
            ELSE <<>>
       ELSE IF n = 2 /\ x[2].t = "{" /\ (Is(x[1], "tuple") \/ Is(x[1], "struct") \/ Is(x[1], "enum")) THEN
            LET items == ListOf(x[2].c)

                well == \A i \in DOMAIN items :
                    IF Is(x[1], "tuple") THEN Len(items[i]) = 1 /\ items[i][1].t = "("
                    ELSE IF Is(x[1], "struct") THEN
                        /\ Len(items[i]) = 1 /\ items[i][1].t = "(" /\ Len(items[i][1].c) >= 2
                        /\ items[i][1].c[1].t = "id" /\ items[i][1].c[2].t = ":"
                    ELSE Len(items[i]) = 2 /\ items[i][1].t = "id" /\ items[i][2].t = "("
                inner == AllOf([i \in DOMAIN items |->
                    IF Is(x[1], "tuple") THEN items[i][1].c
                    ELSE IF Is(x[1], "struct") THEN SubSeq(items[i][1].c, 3, Len(items[i][1].c))
                    ELSE items[i][2].c])
            IN IF ~well THEN <<>>
               ELSE IF inner = <<>> THEN <<>>
               ELSE IF Is(x[1], "tuple") THEN <<STuple(inner[1])>>
               ELSE IF Is(x[1], "struct") THEN
                    <<SStruct([i \in DOMAIN items |-> items[i][1].c[1].n], inner[1])>>
               ELSE <<SEnum([i \in DOMAIN items |-> items[i][1].n], inner[1])>>
       ELSE <<>>
=============================================================================
