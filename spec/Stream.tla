------------------------------- MODULE Stream -------------------------------
(* What a stream may do to a message, and what coding must make of it.       *)
(*                                                                           *)
(* A message of Size bytes is transferred by requests for some bytes each.   *)
(* The stream answers a request by transferring any number of the bytes      *)
(* asked for, by an interruption, which means to ask again, or, when its     *)
(* bytes have run out, by an end or an error, which is final. The            *)
(* invariants say that nothing of all that can be seen by who makes the      *)
(* requests, but whether the bytes ran out. All behaviours of the stream     *)
(* with one request for everything are printed, since any other requests     *)
(* meet parts of those, to be acted out with the real code (w_fragments).    *)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS Sizes,         \* sizes of the message
          Interruptions  \* how many there are at most

VARIABLES size,   \* of the message
          there,  \* bytes which the stream has
          reqs,   \* requests yet to be made: their sizes
          left,   \* bytes yet to be transferred for the current request
          got,    \* indices of the bytes transferred
          said,   \* how many bytes were transferred each time, 0: interruption
          how     \* "going", "ok" or "failed"
vars == <<size, there, reqs, left, got, said, how>>

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
RECURSIVE Compositions(_)
Compositions(n) ==
    IF n = 0 THEN {<<>>}
    ELSE UNION {{<<k>> \o c : c \in Compositions(n - k)} : k \in 1..n}
Zeros(s) == Len(SelectSeq(s, LAMBDA x : x = 0))

Init == /\ size \in Sizes /\ there \in 0..size
        /\ reqs \in Compositions(size)
        /\ left = 0 /\ got = <<>> /\ said = <<>> /\ how = "going"

Request == /\ how = "going" /\ left = 0 /\ reqs # <<>>
           /\ left' = Head(reqs) /\ reqs' = Tail(reqs)
           /\ UNCHANGED <<size, there, got, said, how>>
Transfer(n) == /\ how = "going" /\ n <= left /\ Len(got) + n <= there
               /\ left' = left - n
               /\ got' = got \o [i \in 1..n |-> Len(got) + i]
               /\ said' = Append(said, n)
               /\ UNCHANGED <<size, there, reqs, how>>
Interrupt == /\ how = "going" /\ left > 0 /\ Len(got) < there
             /\ Zeros(said) < Interruptions
             /\ said' = Append(said, 0)
             /\ UNCHANGED <<size, there, reqs, left, got, how>>
Fail == /\ how = "going" /\ left > 0 /\ Len(got) = there
        /\ how' = "failed"
        /\ UNCHANGED <<size, there, reqs, left, got, said>>
Finish == /\ how = "going" /\ left = 0 /\ reqs = <<>>
          /\ how' = "ok"
          /\ UNCHANGED <<size, there, reqs, left, got, said>>
Next == Request \/ (\E n \in 1..size : Transfer(n)) \/ Interrupt \/ Fail \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* The bytes come in order, without gaps.                                    *)
InOrder == got = [i \in 1..Len(got) |-> i]
Accounted == how = "going" => Len(got) + left + Sum(reqs) = size
(* All is well exactly if the bytes did not run out; then all were           *)
(* transferred, and else those that were there.                              *)
Outcome == /\ how = "ok" => there >= size /\ Len(got) = size
           /\ how = "failed" => there < size /\ Len(got) = there
Ends == <>(how # "going")

Emit == how = "going" \/ Len(reqs) + Len(got) + left > size \/ reqs # <<>> \/ (how = "failed" /\ left + Len(got) # size)
        \/ PrintT("@F" \o ToJson([size |-> size, there |-> there, said |-> said]))
=============================================================================
