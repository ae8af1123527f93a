---------------------------- MODULE TracePretty ----------------------------
(* Are the recorded prints faithful?                                         *)
EXTENDS Pretty, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, why
Problem(x) == IF x.res.r # "ok" THEN "panic" ELSE PrettyProblem(Tree(x.s), x.res.lines)
Init == c \in 1..Len(Cases) /\ why = "?"
Next == why = "?" /\ why' = Problem(Cases[c]) /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, why>>
Conforms == why \in {"", "?"}
=============================================================================
