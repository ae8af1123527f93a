------------------------------ MODULE GenCoder ------------------------------
(* The reachable states of the coder on the catalog, printed with all their  *)
(* transitions, so that each can be replayed on the real code (bin/graph.py) *)
(* and judged by TraceCoder. What was written is no part of a state here, so *)
(* that there are few.                                                        *)
EXTENDS Catalog, TLC, Json, SequencesExt, IOUtils

CONSTANTS Depth,   \* bound on the stack
          Height   \* bound on the values of which decoder inputs are made

VARIABLES sid, enc, stack, broken, inp, pos
vars == <<sid, enc, stack, broken, inp, pos>>
st == [root |-> Catalog[sid], stack |-> stack, broken |-> broken]

(* Messages, also cut off, damaged, and followed by something.               *)
Msgs(s) == {Enc(s, <<>>, v) : v \in Values(s, <<>>, Height)}
Damaged(m) == {SubSeq(m, 1, n) : n \in 0..Len(m)} \cup {Append(m, 7)}
              \cup {[m EXCEPT ![i] = x] : i \in DOMAIN m, x \in {2, 255}}
Inputs(s) == {<<>>} \cup UNION {Damaged(m) : m \in {x \in Msgs(s) : Len(x) <= 4}}
             \cup (IF LegalSchema(s) THEN {} ELSE {<<1, 1, 1>>, <<0, 2>>})
InputsOf == [i \in DOMAIN Catalog |-> Inputs(Catalog[i])]

Calls_ == [i \in DOMAIN Catalog |-> [e \in BOOLEAN |-> SetToSeq(Universe(Catalog[i], e))]]
ASSUME PrintT("@U" \o ToJson([i \in DOMAIN Catalog |->
    [s |-> Catalog[i], enc |-> Calls_[i][TRUE], dec |-> Calls_[i][FALSE]]]))

Init == /\ sid \in DOMAIN Catalog
        /\ enc \in BOOLEAN
        /\ stack = NewCoder(Catalog[sid]).stack
        /\ broken = FALSE
        /\ inp \in IF enc THEN {<<>>} ELSE InputsOf[sid]
        /\ pos = 0

Step(o) == IF enc THEN EStep(st, o) ELSE DStep(st, o, inp, pos + 1)
Next == /\ ~broken
        /\ \E j \in DOMAIN Calls_[sid][enc] :
            LET a == Step(Calls_[sid][enc][j]) IN
            /\ a.ks = {"ok"} \/ a.st.broken
            /\ stack' = a.st.stack /\ broken' = a.st.broken
            /\ pos' = pos + a.n
        /\ UNCHANGED <<sid, enc, inp>>
Spec == Init /\ [][Next]_vars
Bounded == Len(stack) <= Depth

Key(stk, ps) == ToString(<<[i \in DOMAIN stk |-> <<stk[i].p, stk[i].a, stk[i].nx, stk[i].ln>>], ps, inp>>)
Emit == broken \/
    LET as == [j \in DOMAIN Calls_[sid][enc] |-> Step(Calls_[sid][enc][j])] IN
    PrintT("@S" \o ToJson([
        i |-> sid, e |-> enc, inp |-> inp, k |-> Key(stack, pos), f |-> (stack = <<>>),
        t |-> [j \in DOMAIN as |->
            IF as[j].ks = {"ok"} THEN <<1, Key(as[j].st.stack, pos + as[j].n), Len(as[j].out)>>
            ELSE IF as[j].st.broken THEN <<2>> ELSE <<0>>]]))
=============================================================================
