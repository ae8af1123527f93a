----------------------------- MODULE TraceTypes -----------------------------
(* Do the known schemas fit their types, and do values of the types round-   *)
(* trip under them? A case has the type (root, defs), the known schema       *)
(* res.s, and what came of some values (res.vals): what serde was given (sv, *)
(* and canon: with unordered containers sorted), the encoding and decoding.  *)
(*                                                                           *)
(* If the case is not about the known schema (~schema), a schema which does   *)
(* not fit is nothing to complain about here.                                *)
(*                                                                           *)
(* First all values are looked at (ty = <<>>), then the pairs of type and    *)
(* schema position that can be reached from the roots.                       *)
EXTENDS Types, Serde, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c, ty, p, why
vars == <<c, ty, p, why>>

ValProblem(schema, s, x) ==
    LET a == SerRun(NewCoder(s), x.sv)
        d == x.dec[1]
    IN IF ~schema /\ ~(Good(a) /\ Finished(a.st)) THEN ""
       ELSE IF x.enc.r # "ok" THEN "serializing answered " \o x.enc.r
       ELSE IF ~x.enc.fin THEN "serializing did not finish"
       ELSE IF ~(Good(a) /\ Finished(a.st)) THEN "a value does not match its type's known schema"
       ELSE IF x.enc.out # a.out THEN "wrong bytes"
       ELSE IF d.r # "ok" THEN "deserializing answered " \o d.r
       ELSE IF ~d.fin THEN "deserializing did not finish"
       ELSE IF d.n # Len(a.out) THEN "wrong number of bytes consumed"
       ELSE IF d.sv # <<x.canon>> THEN "a different value came back"
       ELSE ""
RECURSIVE ValProblems(_,_,_)
ValProblems(schema, s, xs) ==
    IF xs = <<>> THEN ""
    ELSE LET w == ValProblem(schema, s, Head(xs)) IN IF w # "" THEN w ELSE ValProblems(schema, s, Tail(xs))

Init == c \in 1..Len(Cases) /\ ty = <<>> /\ p = <<>> /\ why = ""

Values ==
    /\ ty = <<>>
    /\ LET k == Cases[c] IN
       why' = IF k.res.r # "ok" THEN IF k.schema THEN "no known schema: " \o k.res.r ELSE ""
              ELSE LET w == ValProblems(k.schema, k.res.s[1], k.res.vals) IN
                   IF w # "" THEN w
                   ELSE IF k.schema THEN Misfit(k.defs, k.root, k.res.s[1], <<>>)
                   ELSE ""
    /\ ty' = <<Cases[c].root>>
    /\ UNCHANGED <<c, p>>
Down ==
    /\ ty # <<>> /\ why = "" /\ Cases[c].schema
    /\ LET k == Cases[c]
           s == k.res.s[1]
       IN \E w \in Within(k.defs, ty[1], s, p) :
            /\ ty' = <<w[1]>>
            /\ p' = w[2]
            /\ why' = Misfit(k.defs, w[1], s, w[2])
    /\ UNCHANGED c
Next == Values \/ Down
Spec == Init /\ [][Next]_vars
Conforms == why = ""
=============================================================================
