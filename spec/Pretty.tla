------------------------------- MODULE Pretty -------------------------------
(* How a schema is pretty-printed: which lines there are, with which text    *)
(* (as in the examples of FORMAT.txt), and what has to be drawn beside them. *)
(* The width of the drawing is left open.                                    *)
EXTENDS Format

(* ASCII *)
Spaces(n) == [i \in 1..n |-> 32]
(* Quotient and remainder of NatBytes by 10: <<q, r>>, from the top digit.   *)
RECURSIVE Div10(_,_,_,_)
Div10(b, i, q, r) ==
    IF i = 0 THEN <<Strip(q), r>>
    ELSE LET x == 256 * r + b[i] IN Div10(b, i - 1, <<x \div 10>> \o q, x % 10)
RECURSIVE Digits(_)
Digits(b) == IF b = <<>> THEN <<>>
             ELSE LET d == Div10(b, Len(b), <<>>, 0) IN Digits(d[1]) \o <<48 + d[2]>>
Decimal(b) == IF b = <<>> THEN <<48>> ELSE Digits(b)

Hex(n) == IF n < 10 THEN 48 + n ELSE 87 + n
Escaped(x) ==
    CASE x = 34 -> <<92, 34>>      \* \"
      [] x = 92 -> <<92, 92>>      \* \\
      [] x = 10 -> <<92, 110>>     \* \n
      [] x = 13 -> <<92, 114>>     \* \r
      [] x = 9 -> <<92, 116>>      \* \t
      [] x = 0 -> <<92, 48>>       \* \0
      [] x < 32 \/ x = 127 ->      \* \u{..}
            <<92, 117, 123>> \o (IF x < 16 THEN <<Hex(x)>> ELSE <<Hex(x \div 16), Hex(x % 16)>>) \o <<125>>
      [] OTHER -> <<x>>
RECURSIVE Quoted_(_)
Quoted_(n) == IF n = <<>> THEN <<>> ELSE Escaped(Head(n)) \o Quoted_(Tail(n))
Quoted(n) == <<34>> \o Quoted_(n) \o <<34>>

TScalar == [u8 |-> <<117,56>>, u16 |-> <<117,49,54>>, u32 |-> <<117,51,50>>, u64 |-> <<117,54,52>>,
            u128 |-> <<117,49,50,56>>, i8 |-> <<105,56>>, i16 |-> <<105,49,54>>, i32 |-> <<105,51,50>>,
            i64 |-> <<105,54,52>>, i128 |-> <<105,49,50,56>>, f32 |-> <<102,51,50>>, f64 |-> <<102,54,52>>,
            char |-> <<99,104,97,114>>, bool |-> <<98,111,111,108>>]
TStr == <<115,116,114>>
TBytes == <<98,121,116,101,115>>
TUnit == <<117,110,105,116>>
TOption == <<111,112,116,105,111,110,58>>                       \* option:
TSeqFix == <<115,101,113,32,40,108,101,110,103,116,104,32,61,32>>   \* seq (length =
TSeqVar == <<115,101,113,32,40,118,97,114,105,97,98,108,101,32,108,101,110,103,116,104,41,58>>
                                                                \* seq (variable length):
TTuple == <<116,117,112,108,101>>
TStruct == <<115,116,114,117,99,116>>
TEnum == <<101,110,117,109>>
TRecurse == <<114,101,99,117,114,115,101,32,40,108,101,118,101,108,32,61,32>>  \* recurse (level =
TElement == <<101,108,101,109,101,110,116,32>>
TField == <<102,105,101,108,100,32>>
TVariant == <<118,97,114,105,97,110,116,32>>
TName == <<32,40,110,97,109,101,32,61,32>>                      \*  (name =
TBeyond == <<32,45,45,62,32,91,98,101,121,111,110,100,32,114,111,111,116,93>>  \*  --> [beyond root]

TextOf(s) ==
    CASE s.k = "scalar" -> TScalar[s.t]
      [] s.k = "str" -> TStr
      [] s.k = "bytes" -> TBytes
      [] s.k = "unit" -> TUnit
      [] s.k = "option" -> TOption
      [] s.k = "seq" -> IF s.fx THEN TSeqFix \o Decimal(s.ln) \o <<41, 58>> ELSE TSeqVar
      [] s.k = "tuple" -> TTuple
      [] s.k = "struct" -> TStruct
      [] s.k = "enum" -> TEnum
      [] s.k = "recurse" -> TRecurse \o Decimal(s.ln) \o <<41>>

(* A row: its text, whether it is of a node, and the node's position.        *)
NodeRow(s, p) == [text |-> Spaces(4 * Len(p)) \o <<45, 32>> \o TextOf(s), node |-> TRUE, p |-> p]
LabelRow(s, p, i) ==
    [text |-> Spaces(4 * Len(p) + 2)
              \o (CASE s.k = "tuple" -> TElement [] s.k = "struct" -> TField [] s.k = "enum" -> TVariant)
              \o Decimal(NatBytes(i - 1))
              \o (IF s.k = "tuple" THEN <<>> ELSE TName \o Quoted(s.n[i]) \o <<41>>) \o <<58>>,
     node |-> FALSE, p |-> Append(p, i)]

RECURSIVE Rows(_,_)
Rows(s, p) ==
    LET Labelled == s.k \in {"tuple", "struct", "enum"}
        f[i \in 0..Len(s.c)] ==
            IF i = 0 THEN <<NodeRow(s, p)>>
            ELSE f[i-1] \o (IF Labelled THEN <<LabelRow(s, p, i)>> ELSE <<>>) \o Rows(s.c[i], Append(p, i))
    IN f[Len(s.c)]

----------------------------------------------------------------------------
(* Is this a faithful print of schema s?                                     *)

Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
SPACE == 32  BAR == 124  DASH == 45  HEAD == 60  FOOT == 47  CORNER == 92
At(line, k) == IF k <= Len(line) THEN line[k] ELSE SPACE
(* Where a recurse row's line ends: the column of its FOOT, or 0.            *)
RECURSIVE FootFrom(_,_)
FootFrom(line, k) == IF At(line, k) = DASH THEN FootFrom(line, k + 1)
                     ELSE IF At(line, k) = FOOT THEN k ELSE 0
(* From the corner at column k leftwards there is a drawn line that reaches  *)
(* the head, right behind the text, or another line that does.               *)
RECURSIVE Reaches(_,_,_)
Reaches(line, k, from) ==
    IF k < from THEN FALSE
    ELSE CASE line[k] = HEAD -> k = from
           [] line[k] = BAR -> TRUE
           [] line[k] \in {DASH, CORNER} -> Reaches(line, k - 1, from)
           [] OTHER -> FALSE
Count(lines, rows, x) ==
    LET n(i) == Len(SelectSeq(SubSeq(lines[i], Len(rows[i].text) + 1, Len(lines[i])), LAMBDA y : y = x))
        f[i \in 0..Len(lines)] == IF i = 0 THEN 0 ELSE f[i-1] + n(i)
    IN f[Len(lines)]

PrettyProblem(s, lines) ==
    LET rows == Rows(s, <<>>) IN
    IF Len(lines) # Len(rows) THEN "wrong number of lines"
    ELSE IF \E i \in DOMAIN rows : ~Prefix(rows[i].text, lines[i]) THEN "wrong text"
    ELSE LET
        recs == {i \in DOMAIN rows : rows[i].node /\ NodeAt(s, rows[i].p).k = "recurse"}
        IsRec(i) == i \in recs
        IsLegal(i) == IsRec(i) /\ Legal(s, rows[i].p)
        IsZero(i) == IsRec(i) /\ NodeAt(s, rows[i].p).ln = <<>>
        IsBeyond(i) == IsRec(i) /\ ~IsZero(i) /\ ~IsLegal(i)
        TargetRow(i) == CHOOSE j \in DOMAIN rows : rows[j].node /\ rows[j].p = Target(s, rows[i].p)
        n(i) == Len(rows[i].text)
        Rest(i) == SubSeq(lines[i], n(i) + 1, Len(lines[i]))
        Drawn(i) == IF IsBeyond(i) THEN SubSeq(Rest(i), Len(TBeyond) + 1, Len(Rest(i))) ELSE Rest(i)
        Foot(i) == IF At(lines[i], n(i) + 1) = SPACE /\ At(lines[i], n(i) + 2) = DASH
                   THEN FootFrom(lines[i], n(i) + 2) ELSE 0
        legal == {i \in DOMAIN rows : IsLegal(i)}
       IN
        IF \E i \in DOMAIN rows : IsBeyond(i) /\ ~Prefix(TBeyond, Rest(i)) THEN "recurse beyond root is not marked"
        ELSE IF \E i \in DOMAIN rows : \E k \in DOMAIN Drawn(i) :
                    Drawn(i)[k] \notin {SPACE, BAR, DASH, HEAD, FOOT, CORNER} THEN "something else is drawn"
        ELSE IF \E i \in legal : Foot(i) = 0 THEN "no line starts at recurse"
        ELSE IF \E i \in legal : LET f == Foot(i) IN \E j \in TargetRow(i)+1 .. i-1 : At(lines[j], f) # BAR
             THEN "line is interrupted"
        ELSE IF \E i \in legal : At(lines[TargetRow(i)], Foot(i)) # CORNER THEN "line does not turn at the target"
        ELSE IF \E i \in legal : ~Reaches(lines[TargetRow(i)], Foot(i), n(TargetRow(i)) + 2)
             THEN "line does not reach the target"
        ELSE IF Count(lines, rows, FOOT) # (LET f[i \in 0..Len(rows)] ==
                        IF i = 0 THEN 0 ELSE f[i-1] + IF IsLegal(i) THEN 1 ELSE 0 IN f[Len(rows)])
             THEN "lines too many"
        ELSE IF Count(lines, rows, FOOT) # Count(lines, rows, CORNER) THEN "corners too many"
        ELSE ""
=============================================================================
