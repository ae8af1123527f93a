----------------------------- MODULE TraceCoder -----------------------------
(* Are the recorded call sequences behaviours of the coder?                  *)
(*                                                                           *)
(* Every case is a sequence of runs which share a coder allocation. Every    *)
(* run was made on the real Encoder or Decoder: it has the schema, the input *)
(* or the writer's limit, and per call what was answered, written, consumed, *)
(* whether the coder then was finished, and what it then needed. A state of  *)
(* this specification is the state of the model of Coder.tla after the first *)
(* l calls of a run; why is "" unless the real coder left the model.         *)
EXTENDS Coder, Serde, Report, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c, r, l, stack, broken, pos, why
vars == <<c, r, l, stack, broken, pos, why>>

Run(cc, rr) == Cases[cc].runs[rr]
Fact(cc, rr) == Cases[cc].res.runs[rr]
NoLimit == 2000000000
Limit(run) == IF run.lim < 0 THEN NoLimit ELSE run.lim

Init == /\ c \in 1..Len(Cases)
        /\ r = 1 /\ l = 0
        /\ stack = NewCoder(Tree(Run(c, r).s)).stack /\ broken = FALSE
        /\ pos = 0
        /\ why = IF Fact(c, r).fin0 THEN "finished before it began" ELSE ""

(* What was recorded about need() fits state st. *)
NeedFits(st, nd) ==
    IF st.broken THEN nd.r # "panic"
    ELSE IF ~NeedsSomething(st) THEN nd.r \notin {"ok", "new", "panic"}
    ELSE IF Needed(st).k = "recurse" THEN nd.r \notin {"ok", "new", "panic"}
    ELSE \/ nd.r = "ok" /\ NodeAt(st.root, nd.p) = Needed(st)
         \/ nd.r = "new" /\ Tree(nd.s[1]) = Needed(st)

IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

(* Calls which code a whole value dynamically. *)
Whole == {"dyn", "ser", "any", "skip", "de"}
Answer(st, run, o) ==
    IF o.op \in Whole THEN WholeStep(st, run.enc, o, run.inp, pos + 1)
    ELSE IF run.enc THEN EStep(st, o)
    ELSE DStep(st, [o EXCEPT !.op = IF @ = "str_into" THEN "str"
                                    ELSE IF @ = "bytes_into" THEN "bytes" ELSE @],
               run.inp, pos + 1)

(* What a failed decoding left in the caller's buffer is nothing but what it *)
(* read: a part of it for bytes cut off.                                     *)
LeftFits(st, run, o, x) ==
    \/ x.left = <<>>
    \/ \E k \in 0..x.n : x.left = SubSeq(run.inp, pos + 1 + k, pos + k + Len(x.left))

(* The stream's own error is found behind an error which it caused; where it *)
(* just ended or took no more, the cause says so.                            *)
OwnIoErr(run, x) == CASE run.enc /\ run.endm # "zero" -> x.why = "stream"
                      [] ~run.enc /\ run.endm = "err" -> x.why = "stream"
                      [] OTHER -> x.why = IF run.enc THEN "WriteZero" ELSE "UnexpectedEof"

Problem(st, run, o, x, a) ==
    LET faulty == run.enc /\ a.ks \in {{"ok"}, Own} /\ Limit(run) - pos < Len(a.out)
        ks == IF faulty THEN StreamErr ELSE a.ks
    IN
    IF x.r = "panic" THEN "panic"
    ELSE IF x.r \notin ks THEN "answered " \o x.r \o ", expected " \o ToString(ks)
    ELSE IF ks = StreamErr /\ ~OwnIoErr(run, x) THEN "the stream's error was lost: " \o x.why
    ELSE IF ks = Own /\ x.why # "own" THEN "the data's or visitor's own error was lost"
    ELSE IF x.why = "not shown" THEN "error without its cause"
    ELSE IF ~LeftFits(st, run, o, x) THEN "something else was left in the buffer"
    ELSE IF x.r = "ok" THEN
        IF x.out # a.out THEN "wrong bytes written"
        ELSE IF x.n # a.n THEN "wrong number of bytes consumed"
        ELSE IF ~run.enc /\ o.op \in Whole /\ o.op # "skip" /\ Tree(x.v) # a.v THEN "wrong value"
        ELSE IF ~run.enc /\ o.op \notin Whole /\ (x.neg # a.neg \/ x.b # a.b) THEN "wrong value returned"
        ELSE IF x.fin # Finished(a.st) THEN "finished = " \o ToString(x.fin)
        ELSE IF ~NeedFits(a.st, x.need) THEN "wrong need"
        ELSE ""
    ELSE IF o.op \in Whole /\ ~a.st.broken THEN
        IF x.fin /\ ~Finished(st) THEN "finished after error" ELSE ""
    ELSE IF x.fin # (~faulty /\ Finished(a.st)) THEN "after error, finished = " \o ToString(x.fin)
    ELSE IF ~a.st.broken /\ ~faulty THEN
        IF x.out # <<>> THEN "rejected call wrote"
        ELSE IF x.n # 0 THEN "rejected call read"
        ELSE IF ~NeedFits(st, x.need) THEN "wrong need after rejected call"
        ELSE ""
    ELSE IF st.broken /\ (x.out # <<>> \/ x.n # 0) THEN "broken coder transferred data"
    ELSE IF faulty /\ ~(IsPrefixOf(x.out, a.out) /\ Len(x.out) <= Limit(run) - pos)
        THEN "not a prefix was written"
    ELSE IF a.ks \in {BadData, TooBig} /\ x.n > a.n THEN "read too much"
    ELSE IF x.need.r = "panic" THEN "panic in need"
    ELSE ""

(* A rejected composite call leaves the coder somewhere within.    *)
Lost(o, x, a) == o.op \in Whole /\ x.r # "ok" /\ ~a.st.broken

EndOfRun ==
    LET f == Fact(c, r)
        run == Run(c, r)
        twin == run.twin
    IN IF ~f.agree THEN "is_finished and is_finished_or_err disagree"
       ELSE IF twin > 0 /\ Fact(c, twin).steps # f.steps THEN "differs from twin run"
       ELSE IF run.reuses /\ ~f.same THEN "allocation not reused"
       ELSE IF r = Len(Cases[c].runs) THEN
            IF Cases[c].res.badfree # 0 THEN "bad free"
            ELSE IF Cases[c].res.leak # 0 THEN "leak"
            ELSE ""
       ELSE ""

(* Texts are recorded by their number among all of the run.                  *)
Reported(x, texts) ==
    [x EXCEPT !.rep = [now |-> [k \in DOMAIN @.now |-> texts[@.now[k]]],
                       err |-> [k \in DOMAIN @.err |-> texts[@.err[k]]],
                       log |-> [k \in DOMAIN @.log |-> [i |-> @.log[k].i, t |-> texts[@.log[k].t]]]]]

StepCall ==
    /\ l < Len(Fact(c, r).steps)
    /\ LET run == Run(c, r)
           st == [root |-> Tree(run.s), stack |-> stack, broken |-> broken]
           o == run.ops[l+1]
           x == Fact(c, r).steps[l+1]
           a == Answer(st, run, o)
           faulty == x.r # "ok" /\ a.ks = {"ok"}
           p1 == Problem(st, run, o, x, a)
           p == IF p1 # "" \/ "rep" \notin DOMAIN x THEN p1
                ELSE ReportProblem(run.enc, st, o, Reported(x, Fact(c, r).texts), a, o.op \in Whole, faulty)
       IN /\ why' = p
          /\ stack' = a.st.stack
          /\ broken' = (a.st.broken \/ faulty)
          /\ pos' = pos + x.n + Len(x.out)
          /\ IF p = "" /\ Lost(o, x, a) THEN l' = Len(Fact(c, r).steps) ELSE l' = l + 1
          /\ UNCHANGED <<c, r>>

StepRun ==
    /\ l = Len(Fact(c, r).steps)
    /\ LET p == EndOfRun IN
       /\ why' = p
       /\ r' = r + 1
       /\ IF p = "" /\ r < Len(Cases[c].runs)
          THEN /\ l' = 0 /\ pos' = 0 /\ broken' = FALSE
               /\ stack' = NewCoder(Tree(Run(c, r+1).s)).stack
          ELSE /\ l' = -1 /\ pos' = 0 /\ broken' = FALSE /\ stack' = <<>>
       /\ UNCHANGED c

Next == why = "" /\ l >= 0 /\ (StepCall \/ StepRun)
Spec == Init /\ [][Next]_vars
Conforms == why = ""
=============================================================================
