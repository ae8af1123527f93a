------------------------------ MODULE MCCoder ------------------------------
(* The state spaces of encoder and decoder on the schemas of the catalog,    *)
(* with every call of the universe tried in every state.                     *)
EXTENDS Catalog, TLC

CONSTANTS Depth,   \* bound on the stack
          Height   \* bound on the values of which decoder inputs are made

VARIABLES sid, enc, stack, broken,
          io,      \* encoder: bytes written; decoder: the input
          pos      \* decoder: bytes consumed
vars == <<sid, enc, stack, broken, io, pos>>
st == [root |-> Catalog[sid], stack |-> stack, broken |-> broken]

(* Messages, also truncated, damaged, and followed by something.             *)
Msgs(s) == {Enc(s, <<>>, v) : v \in Values(s, <<>>, Height)}
Damaged(m) == {SubSeq(m, 1, n) : n \in 0..Len(m)} \cup {Append(m, 7)}
              \cup {[m EXCEPT ![i] = x] : i \in DOMAIN m, x \in {2, 128, 255}}
Shortest(s) == {m \in s : Len(m) <= 4}
Inputs(s) == {<<>>} \cup UNION {Damaged(m) : m \in Shortest(Msgs(s))}
             \cup (IF LegalSchema(s) THEN {} ELSE {<<1, 1, 1>>, <<0, 2>>})

Init == /\ sid \in DOMAIN Catalog
        /\ enc \in BOOLEAN
        /\ stack = NewCoder(Catalog[sid]).stack
        /\ broken = FALSE
        /\ io \in IF enc THEN {<<>>} ELSE Inputs(Catalog[sid])
        /\ pos = 0

Step(o) == IF enc THEN EStep(st, o) ELSE DStep(st, o, io, pos + 1)
Do(o) == LET a == Step(o) IN
    /\ a.ks = {"ok"} \/ a.st.broken # broken
    /\ stack' = a.st.stack /\ broken' = a.st.broken
    /\ io' = IF enc THEN io \o a.out ELSE io
    /\ pos' = pos + a.n
    /\ UNCHANGED <<sid, enc>>
Next == \E o \in Universe(Catalog[sid], enc) : Do(o)
Spec == Init /\ [][Next]_vars
Bounded == Len(stack) <= Depth /\ Len(io) <= 8

----------------------------------------------------------------------------
(* What the properties come to in the model                                  *)

Shape == \A i \in DOMAIN stack :
    /\ NodeAt(st.root, stack[i].p).k = "recurse" => i = 1 /\ stack[i].p = <<>> \* C07
    /\ stack[i].a = "need" => i = Len(stack)
    /\ stack[i].a = "auto" => (i < Len(stack) \/ broken)

(* C03: encoder *)
WrittenIsMessage == enc /\ Finished(st) =>
    LET d == DecodeAll(st.root, io) IN
    d.st = "ok" /\ d.i = Len(io) + 1 /\ Conf(st.root, <<>>, d.v) /\ Enc(st.root, <<>>, d.v) = io
(* What was written can always be completed. *)
WrittenIsPrefix == enc /\ LegalSchema(st.root) =>
    DecodeAll(st.root, io).st \in {"ok", "eof"}

(* C03, C05, C06: decoder *)
ReadIsMessage == ~enc /\ Finished(st) =>
    LET d == DecodeAll(st.root, io) IN d.st = "ok" /\ d.i = pos + 1
BrokenIsNotMessage == ~enc /\ broken => DecodeAll(st.root, io).st # "ok"

(* C04, C05 *)
Calls_ == Universe(st.root, enc)
Rejections == \A o \in Calls_ : LET a == Step(o) IN
    /\ a.ks # {"ok"} /\ a.ks \subseteq Reject => a.st = st /\ a.out = <<>> /\ a.n = 0
    /\ a.ks # {"ok"} /\ ~(a.ks \subseteq Reject) => a.st.broken /\ ~Finished(a.st)
    /\ broken => a.ks = {"ApiUsage"} /\ a.st = st
    /\ broken => ~Finished(st)
(* No coder gets stuck: as long as it is neither finished nor broken, some   *)
(* call is accepted or the schema or input turns out to be bad.              *)
Progress == broken \/ stack = <<>> \/ Needed(st).k = "recurse" \/ \E o \in Calls_ :
    LET a == Step(o) IN a.ks = {"ok"} \/ a.st.broken \/ Needed(st).k \in {"seq"}

----------------------------------------------------------------------------
(* C01, C02 in the model: on all values of the catalog's schemas             *)
ASSUME \A i \in DOMAIN Catalog :
    LET s == Catalog[i] IN
    \A v \in Values(s, <<>>, Height) :
        LET m == Enc(s, <<>>, v) IN
        /\ Conf(s, <<>>, v)
        /\ DecodeAll(s, m) = [st |-> "ok", v |-> v, i |-> Len(m) + 1]
        /\ DecodeAll(s, m \o <<1, 2>>) = [st |-> "ok", v |-> v, i |-> Len(m) + 1]
        /\ \A n \in 0..Len(m)-1 : DecodeAll(s, SubSeq(m, 1, n)).st # "bad"

(* The calls of a value encode it. *)
RECURSIVE RunCalls(_,_,_)
RunCalls(s, cs, out) == IF cs = <<>> THEN [st |-> s, out |-> out]
    ELSE LET a == EStep(s, Head(cs)) IN
         IF a.ks # {"ok"} THEN [st |-> Break(s), out |-> out] ELSE RunCalls(a.st, Tail(cs), out \o a.out)
ASSUME \A i \in DOMAIN Catalog :
    LET s == Catalog[i] IN
    \A v \in Values(s, <<>>, Height) :
        LET r == RunCalls(NewCoder(s), CallsOf(TRUE, v), <<>>) IN
        Finished(r.st) /\ r.out = Enc(s, <<>>, v)
=============================================================================
