------------------------------- MODULE Report -------------------------------
(* What the coder tells of itself: the frames which its debug representation *)
(* shows, also the one within the error of a refused call, and the lines     *)
(* which every call adds to a debug log. Texts are ASCII codes; a line is a  *)
(* record of its indentation i and its text t. How the progress of a frame   *)
(* is worded is left open, but not the numbers in it.                        *)
EXTENDS Coder, Pretty

TCoder  == <<67,111,100,101,114,83,116,97,116,101,32,123>>               \* CoderState {
TSound  == <<98,114,111,107,101,110,58,32,102,97,108,115,101,44>>        \* broken: false,
TBroken == <<98,114,111,107,101,110,58,32,116,114,117,101,44>>           \* broken: true,
TStack  == <<115,116,97,99,107,58>>                                      \* stack:
TEndOf  == <<125>>                                                       \* }
TSchema == <<46,32,115,99,104,101,109,97,58,32>>                         \* . schema: 
TState  == <<115,116,97,116,101,58,32>>                                  \* state: 
KOption == <<111,112,116,105,111,110,40,46,46,41>>                       \* option(..)
KSeq    == <<115,101,113,40,46,46,41,40,46,46,41>>                       \* seq(..)(..)
KTuple  == <<116,117,112,108,101,32,123,46,46,125>>                      \* tuple {..}
KStruct == <<115,116,114,117,99,116,32,123,46,46,125>>                   \* struct {..}
KEnum   == <<101,110,117,109,32,123,46,46,125>>                          \* enum {..}
KRecurse== <<114,101,99,117,114,115,101,40,95,41>>                       \* recurse(_)
LScalar == <<60,83,99,97,108,97,114,40>>                                 \* <Scalar(
LStr    == <<60,83,116,114,47,62>>                                       \* <Str/>
LBytes  == <<60,66,121,116,101,115,47,62>>                               \* <Bytes/>
LUnit   == <<60,85,110,105,116,47,62>>                                   \* <Unit/>
LNone   == <<60,110,111,110,101,47,62>>                                  \* <none/>
LSome   == <<60,115,111,109,101,62>>                                     \* <some>
LFix    == <<60,115,101,113,44,32,102,105,120,101,100,32,108,101,110,61>>  \* <seq, fixed len=
LVar    == <<60,115,101,113,44,32,118,97,114,32,108,101,110,61>>         \* <seq, var len=
LTuple  == <<60,116,117,112,108,101,62>>                                 \* <tuple>
LStruct == <<60,115,116,114,117,99,116,62>>                              \* <struct>
LField  == <<60,98,101,103,105,110,32,115,116,114,117,99,116,32,102,105,101,108,100,32>>  \* <begin struct field 
LEnum   == <<60,101,110,117,109,62>>                                     \* <enum>
LOrd    == <<60,118,97,114,105,97,110,116,32,111,114,100,32,61,32>>      \* <variant ord = 
LName   == <<60,118,97,114,105,97,110,116,32,110,97,109,101,32,61,32>>   \* <variant name = 
LEnd    == <<47,62>>                                                     \* />
DScalar == [u8 |-> <<85,56>>, u16 |-> <<85,49,54>>, u32 |-> <<85,51,50>>, u64 |-> <<85,54,52>>, u128 |-> <<85,49,50,56>>, i8 |-> <<73,56>>, i16 |-> <<73,49,54>>, i32 |-> <<73,51,50>>, i64 |-> <<73,54,52>>, i128 |-> <<73,49,50,56>>, f32 |-> <<70,51,50>>, f64 |-> <<70,54,52>>, char |-> <<67,104,97,114>>, bool |-> <<66,111,111,108>>]

KindShown(s) ==
    CASE s.k = "scalar" -> TScalar[s.t]
      [] s.k = "str" -> TStr
      [] s.k = "bytes" -> TBytes
      [] s.k = "unit" -> TUnit
      [] s.k = "option" -> KOption
      [] s.k = "seq" -> KSeq
      [] s.k = "tuple" -> KTuple
      [] s.k = "struct" -> KStruct
      [] s.k = "enum" -> KEnum
      [] s.k = "recurse" -> KRecurse

IsDigit(x) == x >= 48 /\ x <= 57
Wording(t) == SelectSeq(t, LAMBDA x : ~IsDigit(x))
(* The numbers in a text, as they are written.                               *)
RECURSIVE Numbers_(_,_,_)
Numbers_(t, i, cur) ==
    LET done == IF cur = <<>> THEN <<>> ELSE <<cur>> IN
    IF i > Len(t) THEN done
    ELSE IF IsDigit(t[i]) THEN Numbers_(t, i + 1, Append(cur, t[i]))
    ELSE done \o Numbers_(t, i + 1, <<>>)
Numbers(t) == Numbers_(t, 1, <<>>)

Progress(f) ==
    CASE f.a = "seq" -> <<Decimal(f.ln), Decimal(NatBytes(f.nx))>>
      [] f.a \in {"tuple", "struct"} -> <<Decimal(NatBytes(f.nx))>>
      [] f.a = "enum" -> <<Decimal(f.ln)>>
      [] OTHER -> <<>>
Tells(t, f) == LET n == Numbers(t) p == Progress(f) IN
               n = p \/ (Len(p) = 2 /\ n = <<p[2], p[1]>>)
After(t, k) == SubSeq(t, k + 1, Len(t))
TwoDigits(n) == LET d == Decimal(NatBytes(n)) IN IF Len(d) < 2 THEN <<48>> \o d ELSE d

(* Whether lines (texts) show coder state st.                                *)
ShowsState(st, lines) ==
    LET n == Len(st.stack)
        frame(i) == st.stack[n + 1 - i]
        state(i) == After(lines[3 + 2 * i], Len(TState))
    IN
    /\ Len(lines) >= 3
    /\ lines[1] = TCoder
    /\ lines[2] = (IF st.broken THEN TBroken ELSE TSound)
    /\ ~st.broken =>
        /\ lines[3] = TStack
        /\ Len(lines) = 2 * n + 4
        /\ lines[2 * n + 4] = TEndOf
        /\ \A i \in 1..n :
            /\ lines[2 + 2 * i] = TwoDigits(i - 1) \o TSchema \o KindShown(NodeAt(st.root, frame(i).p))
            /\ Prefix(TState, lines[3 + 2 * i])
            /\ Tells(state(i), frame(i))
        (* the innermost differs from the others, which have begun *)
        /\ \A i \in 2..n : (frame(i).a = frame(1).a) = (Wording(state(i)) = Wording(state(1)))

----------------------------------------------------------------------------
(* The debug log                                                             *)

Depth_(st) == Len(SelectSeq(st.stack, LAMBDA f : f.a # "need"))

IsClose(t) == Len(t) > 2 /\ t[1] = 60 /\ t[2] = 47 /\ t[Len(t)] = 62
IsLeaf(t) == Len(t) > 2 /\ t[1] = 60 /\ t[2] # 47 /\ t[Len(t)] = 62 /\ t[Len(t) - 1] = 47
IsOpen(t) == Len(t) > 2 /\ t[1] = 60 /\ t[2] # 47 /\ t[Len(t)] = 62 /\ t[Len(t) - 1] # 47

(* Lines open and close from depth d to depth e.                             *)
RECURSIVE Nests(_,_,_,_)
Nests(lines, k, d, e) ==
    IF k > Len(lines) THEN d = e
    ELSE LET x == lines[k] IN
        /\ x.i = 2 * d
        /\ CASE IsOpen(x.t) -> Nests(lines, k + 1, d + 1, e)
             [] IsClose(x.t) -> d > 0 /\ Nests(lines, k + 1, d - 1, e)
             [] IsLeaf(x.t) -> Nests(lines, k + 1, d, e)
             [] OTHER -> FALSE

Ascii(b) == \A i \in DOMAIN b : b[i] < 128
(* What an accepted call logs before it closes anything: texts at depths     *)
(* from the present one. A text of which only the beginning is known (a name *)
(* that is not ASCII) is marked.                                             *)
Text(i, t) == [i |-> i, t |-> t, open |-> FALSE]
Named(i, t, n) == IF Ascii(n) THEN Text(i, t \o Quoted(n) \o LEnd) ELSE [i |-> i, t |-> t, open |-> TRUE]
Logs(enc, st, o, a) ==
    CASE o.op = "scalar" -> <<Text(0, LScalar \o DScalar[o.t] \o <<41>> \o LEnd)>>
      [] o.op \in {"str", "str_into"} -> <<Text(0, LStr)>>
      [] o.op \in {"bytes", "bytes_into"} -> <<Text(0, LBytes)>>
      [] o.op = "unit" -> <<Text(0, LUnit)>>
      [] o.op = "none" -> <<Text(0, LNone)>>
      [] o.op = "begin_some" -> <<Text(0, LSome)>>
      [] o.op = "begin_option" -> <<Text(0, IF a.b = <<>> THEN LNone ELSE LSome)>>
      [] o.op = "begin_fixed_len_seq" -> <<Text(0, LFix \o Decimal(o.ln) \o <<62>>)>>
      [] o.op = "begin_var_len_seq" -> <<Text(0, LVar \o Decimal(IF enc THEN o.ln ELSE a.b) \o <<62>>)>>
      [] o.op = "begin_tuple" -> <<Text(0, LTuple)>>
      [] o.op = "begin_struct" -> <<Text(0, LStruct)>>
      [] o.op = "begin_struct_field" -> <<Named(0, LField, o.nm)>>
      [] o.op = "begin_enum" ->
            <<Text(0, LEnum), Text(1, LOrd \o Decimal(IF enc THEN o.ln ELSE a.b) \o LEnd)>>
            \o (IF enc THEN <<Named(1, LName, o.nm)>> ELSE <<>>)
      [] o.op = "begin_enum_variant" -> <<Named(0, LName, o.nm)>>
      [] OTHER -> <<>>   \* elements and finishing

LogFits(enc, st, o, a, lines) ==
    LET e == Logs(enc, st, o, a)
        d == Depth_(st)
        rest == SubSeq(lines, Len(e) + 1, Len(lines))
    IN
    /\ Len(lines) >= Len(e)
    /\ \A k \in DOMAIN e :
        /\ lines[k].i = 2 * (d + e[k].i)
        /\ IF e[k].open THEN Prefix(e[k].t, lines[k].t) /\ IsLeaf(lines[k].t) ELSE lines[k].t = e[k].t
    (* and what is finished by that, from the inside out *)
    /\ \A k \in DOMAIN rest : IsClose(rest[k].t)
    /\ Nests(lines, 1, d, Depth_(a.st))

(* What was reported with call o: the log's lines, the state thereafter, and *)
(* the state in the error, if any.                                           *)
ReportProblem(enc, st, o, x, a, whole, faulty) ==
    LET sound == x.r = "ok" \/ (~a.st.broken /\ ~faulty)
        inEnum == enc /\ o.op = "begin_enum" /\ Fits(st, "enum", "")
    IN
    IF whole THEN
        IF x.r # "ok" THEN ""
        ELSE IF ~Nests(x.rep.log, 1, Depth_(st), Depth_(a.st)) THEN "the log does not nest"
        ELSE IF ~ShowsState(a.st, x.rep.now) THEN "shows another state"
        ELSE ""
    ELSE IF x.r = "ok" THEN
        IF ~LogFits(enc, st, o, a, x.rep.log) THEN "the log tells something else"
        ELSE IF ~ShowsState(a.st, x.rep.now) THEN "shows another state"
        ELSE ""
    ELSE IF ~sound THEN
        IF ~ShowsState(Break(st), x.rep.now) THEN "not shown to be broken" ELSE ""
    ELSE IF ~(IF inEnum THEN Nests(x.rep.log, 1, Depth_(st), Depth_(st)) ELSE x.rep.log = <<>>)
        THEN "a refused call is in the log"
    ELSE IF ~ShowsState(st, x.rep.now) THEN "shows another state after a refused call"
    ELSE IF x.rep.err = <<>> THEN "an error without the state"
    (* an enum is begun and cancelled, so that its error may show it as begun *)
    ELSE IF ~inEnum /\ ~ShowsState(st, x.rep.err) THEN "the error shows another state"
    ELSE ""
=============================================================================
