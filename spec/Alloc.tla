-------------------------------- MODULE Alloc --------------------------------
(* The life of a coder allocation: it is made, lent to coders one after      *)
(* another, each of which codes something under some schema as far as it     *)
(* gets, and handed on, cloned or dropped. There is memory behind it from    *)
(* the first coder on, with room for as many levels as a coder of it ever    *)
(* had. The invariants: memory has one owner, is released exactly once, and  *)
(* a coder starts out the same whatever came before. All histories of        *)
(* Sessions coders are printed, to be carried out with the real code         *)
(* (w_lives), on an instrumented heap.                                       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Sessions,  \* number of coders
          Deep       \* levels of the deeper schema

Uses == [enc : BOOLEAN, deep : BOOLEAN, far : {"untouched", "midway", "done", "broken"}]
Ends == {"alloc", "drop", "clone"}
Levels(u) == IF u.far = "untouched" THEN 1 ELSE IF u.deep THEN Deep ELSE 2

VARIABLES
    owner,  \* of the memory: who has it, "alloc" or "coder"; "" before there is any
    room,   \* levels that the memory has room for
    made, released,   \* numbers of memories made and released
    stack,  \* levels a coder has, 0 if there is none
    now,    \* "idle", or the use which the coder has been put to
    past    \* sessions so far
vars == <<owner, room, made, released, stack, now, past>>

Idle == [far |-> "idle"]
Init == owner = "" /\ room = 0 /\ made = 0 /\ released = 0 /\ stack = 0 /\ now = Idle /\ past = <<>>

(* A coder is made: it takes over the memory, and has one level.             *)
Take == /\ now = Idle /\ stack = 0 /\ Len(past) < Sessions
        /\ owner' = "coder" /\ stack' = 1
        /\ IF owner = "" THEN room' = 1 /\ made' = made + 1 ELSE UNCHANGED <<room, made>>
        /\ UNCHANGED <<released, now, past>>
(* Something is coded: the memory grows as it must, moving or not.           *)
Code(u) == /\ stack = 1 /\ now = Idle
           /\ now' = u
           /\ stack' = IF u.far = "done" THEN 0 ELSE Levels(u)
           /\ room' = IF Levels(u) > room THEN Levels(u) ELSE room
           /\ UNCHANGED <<owner, made, released, past>>
(* The coder ends: by being dropped, or turned into an allocation again,     *)
(* which may then be cloned, upon which the original is dropped: a clone is  *)
(* a new allocation.                                                         *)
End(e) == /\ now # Idle
          /\ past' = Append(past, <<now, e>>)
          /\ now' = Idle /\ stack' = 0
          /\ IF e = "alloc" THEN owner' = "alloc" /\ UNCHANGED <<room, released>>
             ELSE owner' = "" /\ room' = 0 /\ released' = released + 1
          /\ UNCHANGED made
(* At last the allocation is dropped.                                        *)
Drop == /\ Len(past) = Sessions /\ now = Idle /\ owner = "alloc"
        /\ owner' = "" /\ room' = 0 /\ released' = released + 1
        /\ UNCHANGED <<made, stack, now, past>>
Next == Take \/ (\E u \in Uses : Code(u)) \/ (\E e \in Ends : End(e)) \/ Drop
Spec == Init /\ [][Next]_vars

OneOwner == (owner = "") = (made = released) /\ made - released \in {0, 1}
Fits == stack <= room
Fresh == now = Idle /\ owner = "coder" => stack = 1
Balanced == Len(past) = Sessions /\ owner = "" => made = released

Emit == Len(past) < Sessions \/ owner # ""
        \/ PrintT("@L" \o ToJson([i \in DOMAIN past |-> past[i][1] @@ [end |-> past[i][2]]]))
=============================================================================
