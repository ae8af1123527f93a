----------------------------- MODULE TraceMacro -----------------------------
(* Invocations of schema! (tt: the contents) and what came of them: accepted *)
(* or refused by the compiler, and if accepted, the schema (res.s), and      *)
(* whether it was equal to that schema built from its parts (res.eq), also   *)
(* after cloning, and equal to others (k.others).                              *)
EXTENDS Macro, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c, why, done
vars == <<c, why, done>>

Problem(k) ==
    LET s == MacroSchema(k.tt)
        r == k.res
    IN IF s = <<>> THEN
            IF r.r = "refused" THEN "" ELSE "a text which denotes no schema was accepted"
       ELSE IF r.r = "refused" THEN "the macro refused a schema"
       ELSE IF r.r = "accepted" THEN ""     \* only whether it is a schema was asked
       ELSE IF r.r # "ok" THEN "making a schema answered " \o r.r
       ELSE IF r.s # s THEN "not the schema that was written"
       ELSE IF ~r.eq THEN "a schema is unequal to itself"
       ELSE IF r.others # [i \in DOMAIN k.others |-> k.others[i] = s[1]] THEN "a schema is equal to another one"
       ELSE ""

Init == c \in 1..Len(Cases) /\ why = "" /\ done = FALSE
Next == ~done /\ done' = TRUE /\ why' = Problem(Cases[c]) /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
Conforms == why = ""
=============================================================================
