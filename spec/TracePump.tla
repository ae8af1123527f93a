----------------------------- MODULE TracePump -----------------------------
(* Are long runs of calls behaviours of the coder?                           *)
(*                                                                           *)
(* A case is a sequence of blocks of calls; a block is made once, n times    *)
(* ("all") or n - 1 times ("most"). Recorded are the answers in its first    *)
(* repetition, and whether all others were the same. The model takes 2 for   *)
(* n if it is more, which leads through the same states but for the height   *)
(* of the stack and the number of elements: nothing it does depends on how   *)
(* often it did it before. Calls marked len have n for their length, for     *)
(* which the model then puts what it repeats. If fx, the schema is a         *)
(* fixed-len seq of n.                                                       *)
EXTENDS Coder, Serde, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c, blk, i, l, stack, broken, pos, why
vars == <<c, blk, i, l, stack, broken, pos, why>>

Few(k) == IF k.n < 2 THEN k.n ELSE 2
Times(b, n) == CASE b.rep = "all" -> n [] b.rep = "most" -> n - 1 [] OTHER -> 1
FewTimes(k, b) == Times(b, Few(k))
Root(k) == IF k.fx THEN [k.s EXCEPT !.ln = NatBytes(Few(k))] ELSE k.s

Init == /\ c \in 1..Len(Cases)
        /\ blk = 1 /\ i = 1 /\ l = 0 /\ pos = 0 /\ why = ""
        /\ stack = NewCoder(Cases[c].s).stack /\ broken = FALSE

Whole == {"dyn", "ser", "any", "skip", "de"}
Answer(st, k, b, o) ==
    IF o.op \in Whole THEN WholeStep(st, k.enc, o, b.b, pos + 1)
    ELSE IF k.enc THEN EStep(st, o)
    ELSE DStep(st, [o EXCEPT !.op = IF @ = "str_into" THEN "str"
                                    ELSE IF @ = "bytes_into" THEN "bytes" ELSE @], b.b, pos + 1)

(* The call as the real coder got it, and as the model takes it.             *)
AsCalled(k, o) == IF o.len THEN [o EXCEPT !.ln = NatBytes(k.n)] ELSE o
Answered(st, k, b, o) ==
    IF o.len /\ o.op = "begin_fixed_len_seq"
    THEN Answer(st, k, b, [o EXCEPT !.ln = NatBytes(Few(k))])
    ELSE LET a == Answer(st, k, b, AsCalled(k, o)) IN
         IF o.len /\ a.ks = {"ok"} THEN [a EXCEPT !.st = SetTop(@, "seq", 0, NatBytes(Few(k)))] ELSE a

Problem(k, o, x, a) ==
    IF x.r = "panic" THEN "panic"
    ELSE IF ~x.agree THEN "is_finished and is_finished_or_err disagree"
    ELSE IF x.r \notin a.ks THEN "answered " \o x.r \o ", expected " \o ToString(a.ks)
    ELSE IF x.fin # Finished(a.st) THEN "finished = " \o ToString(x.fin)
    ELSE IF x.r = "ok" THEN
        IF x.out # a.out THEN "wrong bytes written"
        ELSE IF x.n # a.n THEN "wrong number of bytes consumed"
        ELSE IF ~k.enc /\ o.op \in Whole \ {"skip"} /\ x.v # <<a.v>> THEN "wrong value"
        ELSE IF ~k.enc /\ o.op \notin Whole /\ (x.neg # a.neg \/ x.b # a.b) THEN "wrong value returned"
        ELSE ""
    ELSE IF ~a.st.broken /\ (x.out # <<>> \/ x.n # 0) THEN "rejected call transferred data"
    ELSE ""

(* At the beginning of a block, or of a repetition of it, or within it.      *)
StepCall ==
    LET k == Cases[c]
        b == k.blocks[blk]
    IN
    /\ blk <= Len(k.blocks) /\ i <= FewTimes(k, b) /\ l < Len(b.ops)
    /\ LET st == [root |-> Root(k), stack |-> stack, broken |-> broken]
           o == b.ops[l+1]
           x == k.res.blocks[blk].first[l+1]
           a == Answered(st, k, b, o)
       IN /\ why' = Problem(k, o, x, a)
          /\ stack' = a.st.stack /\ broken' = a.st.broken
          /\ l' = l + 1 /\ pos' = pos + x.n
          /\ UNCHANGED <<c, blk, i>>

StepRepeat ==
    LET k == Cases[c]
        b == k.blocks[blk]
    IN
    /\ blk <= Len(k.blocks) /\ i <= FewTimes(k, b) /\ l = Len(b.ops)
    /\ i' = i + 1 /\ l' = 0 /\ pos' = 0
    /\ UNCHANGED <<c, blk, stack, broken, why>>

StepBlock ==
    LET k == Cases[c]
        b == k.blocks[blk]
        f == k.res.blocks[blk]
        st == [root |-> Root(k), stack |-> stack, broken |-> broken]
    IN
    /\ blk <= Len(k.blocks) /\ i > FewTimes(k, b)
    /\ why' = IF ~f.alike THEN "the same calls were answered differently: " \o f.first[Len(f.first)].r
              ELSE IF f.did # Times(b, k.n) THEN "ended early"
              ELSE IF blk < Len(k.blocks) THEN ""
              ELSE IF ~k.res.agree THEN "is_finished and is_finished_or_err disagree"
              ELSE IF k.res.fin # Finished(st) THEN "at the end, finished = " \o ToString(k.res.fin)
              ELSE ""
    /\ blk' = blk + 1 /\ i' = 1 /\ l' = 0 /\ pos' = 0
    /\ UNCHANGED <<c, stack, broken>>

Next == why = "" /\ (StepCall \/ StepRepeat \/ StepBlock)
Spec == Init /\ [][Next]_vars
Conforms == why = ""
=============================================================================
