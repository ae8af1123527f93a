----------------------------- MODULE TraceSerde -----------------------------
(* Are recorded serializations and deserializations those of Serde.tla?      *)
(*                                                                           *)
(* A case serializes data sv (if has_sv) under schema s, and deserializes    *)
(* shape sh from what was written if it finished, or from b (if has_b),      *)
(* followed by tail. If match, the data is known to match the schema. If cut, *)
(* so does the shape, and the reader fails or ends within the message. If    *)
(* lean, every element takes bytes, so that memory is for bytes present.     *)
EXTENDS Serde, TLC, Json, IOUtils, SequencesExt

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c, why, done
vars == <<c, why, done>>

(* The data as it comes back. *)
RECURSIVE Norm(_)
Norm(d) == IF d.k = "skip" THEN D("none", <<>>)
           ELSE IF d.k = "hr" THEN D("newtype_struct", <<Norm(d.c[2])>>)
           ELSE [d EXCEPT !.t = IF d.k \in {"seq", "map"} THEN "" ELSE @,
                          !.c = [j \in DOMAIN @ |-> Norm(@[j])]]

(* Whether an error raised by the data or the visitor arrived as it was.     *)
IsOwn(x) == x.r = "Other" /\ x.why = "own"

MemoryFor(n) == 1000000 + 4096 * n

SerProblem(k) ==
    LET a == SerRun(NewCoder(k.s), k.sv)
        x == k.res.ser[1]
    IN IF x.r = "panic" THEN "panic"
       ELSE IF ~x.agree THEN "is_finished and is_finished_or_err disagree"
       ELSE IF k.match /\ ~(Good(a) /\ Finished(a.st)) THEN "workload: data does not match"
       ELSE IF Good(a) THEN
            IF x.r # "ok" THEN "matching data refused: " \o x.r
            ELSE IF x.fin # Finished(a.st) THEN "finished = " \o ToString(x.fin)
            ELSE IF x.out # a.out THEN "wrong bytes"
            ELSE ""
       ELSE IF x.r = "ok" THEN "data that does not match was accepted"
       ELSE IF x.r \notin a.ks THEN "answered " \o x.r \o ", expected " \o ToString(a.ks)
       ELSE IF x.fin THEN "finished although data does not match"
       ELSE IF a.ks = Own /\ ~IsOwn(x) THEN "the data's own error was lost: " \o x.r
       ELSE IF a.ks = Own /\ ~IsPrefix(x.out, a.out) THEN "not a prefix was written"
       ELSE ""

DeProblem(k, inp, x) ==
    LET a == DeRun(NewCoder(k.s), k.sh, inp, 1) IN
    IF x.r = "panic" THEN "panic"
    ELSE IF ~x.agree THEN "is_finished and is_finished_or_err disagree"
    ELSE IF k.lean /\ x.peak > MemoryFor(Len(inp)) THEN "allocated out of proportion"
    ELSE IF Good(a) THEN
        IF x.r # "ok" THEN "matching shape refused: " \o x.r
        ELSE IF x.fin # Finished(a.st) THEN "after deserializing, finished = " \o ToString(x.fin)
        ELSE IF x.n # a.i - 1 THEN "wrong number of bytes consumed"
        ELSE IF Trees(x.v) # <<a.v>> THEN "wrong data deserialized"
        ELSE IF k.match /\ k.has_sv /\ Trees(x.v) # <<Norm(k.sv)>> THEN "other data came back"
        ELSE ""
    ELSE IF k.match THEN "workload: shape does not match"
    ELSE IF x.r = "ok" THEN "shape that does not match was accepted"
    ELSE IF x.fin /\ ~Finished(a.st) THEN "finished although it failed"
    ELSE IF x.r \notin a.ks THEN "answered " \o x.r \o ", expected " \o ToString(a.ks)
    ELSE IF a.ks = Own /\ ~IsOwn(x) THEN "the visitor's own error was lost: " \o x.r
    ELSE IF a.ks = Own /\ x.fin THEN "finished although the visitor failed"
    ELSE IF a.ks = Own /\ x.n >= a.i THEN "consumed too much"
    ELSE IF k.cut THEN
        IF a.ks # StreamErr THEN "workload: not cut off"
        ELSE IF x.fin THEN "finished although the stream failed"
        ELSE IF x.r # "Io" \/ (k.endm = "err" /\ x.why # "stream") THEN "the stream's error was lost: " \o x.r
        ELSE ""
    ELSE ""

Problem(k) ==
    LET p == IF k.has_sv THEN SerProblem(k) ELSE "" IN
    IF p # "" THEN p
    ELSE IF k.res.de = <<>> THEN ""
    ELSE DeProblem(k, (IF k.has_b THEN k.b ELSE k.res.ser[1].out) \o k.tail, k.res.de[1])

Grown(k) == LET a == [k EXCEPT !.s = Tree(@)]
                b == IF "sv" \in DOMAIN k THEN [a EXCEPT !.sv = Tree(@)] ELSE a
            IN IF "sh" \in DOMAIN k THEN [b EXCEPT !.sh = Tree(@)] ELSE b
Init == c \in 1..Len(Cases) /\ why = "" /\ done = FALSE
Next == ~done /\ done' = TRUE /\ why' = Problem(Grown(Cases[c])) /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
Conforms == why = ""
=============================================================================
