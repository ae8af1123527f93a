----------------------------- MODULE TraceValue -----------------------------
(* Are the recorded dynamic encodings and decodings of whole messages right? *)
(*                                                                           *)
(* A "val" case encodes value v under schema s (res.enc) and decodes what    *)
(* was written, followed by tail (res.dec). A "bytes" case decodes b.        *)
EXTENDS Coder, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c, why, done
vars == <<c, why, done>>

(* Decoding may only use memory in proportion to the bytes that are there. *)
MemoryFor(n) == 1000000 + 4096 * n

DecProblem(root, inp, x, endm) ==
    LET d == DecodeAll(root, inp) IN
    IF x.r = "panic" THEN "panic"
    ELSE IF ~x.agree THEN "is_finished and is_finished_or_err disagree"
    ELSE IF x.peak > MemoryFor(Len(inp)) THEN "allocated out of proportion"
    ELSE IF d.st = "ok" THEN
        IF x.r # "ok" THEN "valid message refused: " \o x.r
        ELSE IF ~x.fin THEN "not finished"
        ELSE IF x.n # d.i - 1 THEN "wrong number of bytes consumed"
        ELSE IF Trees(x.v) # <<d.v>> THEN "wrong value decoded"
        ELSE ""
    ELSE IF x.r \notin (CASE d.st = "eof" -> StreamErr [] d.st = "bad" -> BadData
                           [] d.st = "big" -> TooBig [] OTHER -> Illegal)
        THEN "decoding answered " \o x.r \o " where the message is " \o d.st
    ELSE IF d.st = "eof" /\ x.why # (IF endm = "err" THEN "stream" ELSE "UnexpectedEof") THEN "the stream's error was lost"
    ELSE IF x.why = "not shown" THEN "error without its cause"
    ELSE IF x.fin THEN "finished after error"
    ELSE IF x.n > Len(inp) THEN "read beyond input"
    ELSE ""

EncProblem(root, v, x) ==
    IF ~Conf(root, <<>>, v) THEN "workload: value does not conform"
    ELSE IF x.r # "ok" THEN "encoding answered " \o x.r
    ELSE IF ~x.fin THEN "not finished"
    ELSE IF ~x.agree THEN "is_finished and is_finished_or_err disagree"
    ELSE IF x.out # Enc(root, <<>>, v) THEN "wrong bytes"
    ELSE ""

Problem(k) ==
    IF k.do = "val" THEN
        LET p == EncProblem(k.s, k.v, k.res.enc) IN
        IF p # "" THEN p
        ELSE LET q == DecProblem(k.s, k.res.enc.out \o k.tail, k.res.dec[1], k.endm) IN
            IF q # "" THEN q
            ELSE IF Trees(k.res.dec[1].v) # <<k.v>> \/ k.res.dec[1].n # Len(k.res.enc.out)
                 THEN "decoding does not return the value"
            ELSE ""
    ELSE DecProblem(k.s, k.b, k.res, k.endm)

Grown(k) == IF k.do = "val" THEN [k EXCEPT !.s = Tree(@), !.v = Tree(@)] ELSE [k EXCEPT !.s = Tree(@)]
Init == c \in 1..Len(Cases) /\ why = "" /\ done = FALSE
Next == ~done /\ done' = TRUE /\ why' = Problem(Grown(Cases[c])) /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
Conforms == why = ""
=============================================================================
