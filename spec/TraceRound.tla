----------------------------- MODULE TraceRound -----------------------------
(* Do recorded encodings, decoded again, return the value? Nothing is said   *)
(* about the bytes in between.                                               *)
(*                                                                           *)
(* A "val" case goes through the dynamic value type, a "round" case through  *)
(* the calls of encoder and decoder one by one, where res.inp are the bytes  *)
(* which the encoder wrote.                                                  *)
EXTENDS Coder, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c, why, done
vars == <<c, why, done>>

(* What the calls CallsOf(FALSE, v) have to return.                          *)
RECURSIVE RetsOf(_)
RetsOf(v) ==
    LET R(neg, b) == [neg |-> neg, b |-> b]
        nothing == R(FALSE, <<>>)
        f[j \in 0..Len(v.c)] == IF j = 0 THEN <<>> ELSE f[j-1] \o <<nothing>> \o RetsOf(v.c[j])
        len == R(FALSE, NatBytes(Len(v.c)))
    IN CASE v.k = "scalar" -> <<R(v.neg, v.b)>>
         [] v.k \in {"str", "bytes"} -> <<R(FALSE, v.b)>>
         [] v.k = "unit" -> <<nothing>>
         [] v.k = "option" -> IF v.c = <<>> THEN <<nothing>> ELSE <<R(FALSE, <<1>>)>> \o RetsOf(v.c[1])
         [] v.k = "fseq" -> <<nothing>> \o f[Len(v.c)] \o <<nothing>>
         [] v.k = "vseq" -> <<len>> \o f[Len(v.c)] \o <<nothing>>
         [] v.k \in {"tuple", "struct"} -> <<nothing>> \o f[Len(v.c)] \o <<nothing>>
         [] v.k = "enum" -> <<R(FALSE, v.b), nothing>> \o RetsOf(v.c[1])

RECURSIVE Sum(_)
Sum(ns) == IF ns = <<>> THEN 0 ELSE Head(ns) + Sum(Tail(ns))

ByCalls(k) ==
    LET e == k.res.runs[1]
        d == k.res.runs[2]
        rets == RetsOf(k.v)
        N == Len(k.runs[1].ops)
        M == Len(k.runs[2].ops)
    IN IF ~Conf(k.s, <<>>, k.v) THEN "workload: value does not conform"
       ELSE IF [j \in 1..N |-> Call(k.runs[1].ops[j].op, k.runs[1].ops[j].t, k.runs[1].ops[j].neg,
                    k.runs[1].ops[j].b, k.runs[1].ops[j].ln, k.runs[1].ops[j].nm)] # CallsOf(TRUE, k.v)
            THEN "workload: not the calls of the value"
       ELSE IF Len(e.steps) # N \/ \E j \in 1..N : e.steps[j].r # "ok" THEN "encoding failed"
       ELSE IF ~e.steps[N].fin THEN "encoding is not finished"
       ELSE IF Len(d.steps) # M \/ \E j \in 1..M : d.steps[j].r # "ok" THEN "decoding failed"
       ELSE IF ~d.steps[M].fin THEN "decoding is not finished"
       ELSE IF Sum([j \in 1..M |-> d.steps[j].n]) # Sum([j \in 1..N |-> Len(e.steps[j].out)])
            THEN "not exactly the written bytes were consumed"
       ELSE IF M # Len(rets) \/ \E j \in 1..M : [neg |-> d.steps[j].neg, b |-> d.steps[j].b] # rets[j]
            THEN "decoding returned something else"
       ELSE ""

Dynamically(k) ==
    LET e == k.res.enc IN
    IF ~Conf(k.s, <<>>, k.v) THEN "workload: value does not conform"
    ELSE IF e.r # "ok" THEN "encoding answered " \o e.r
    ELSE IF ~e.fin \/ ~e.agree THEN "encoding is not finished"
    ELSE LET d == k.res.dec[1] IN
        IF d.r # "ok" THEN "decoding answered " \o d.r
        ELSE IF ~d.fin \/ ~d.agree THEN "decoding is not finished"
        ELSE IF d.n # Len(e.out) THEN "not exactly the written bytes were consumed"
        ELSE IF Trees(d.v) # <<k.v>> THEN "decoding returned something else"
        ELSE ""

Grown(k) == [k EXCEPT !.s = Tree(@), !.v = Tree(@)]
Init == c \in 1..Len(Cases) /\ why = "" /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED c
        /\ why' = IF Cases[c].do = "val" THEN Dynamically(Grown(Cases[c])) ELSE ByCalls(Grown(Cases[c]))
Spec == Init /\ [][Next]_vars
Conforms == why = ""
=============================================================================
