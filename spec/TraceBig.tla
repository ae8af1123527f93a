------------------------------ MODULE TraceBig ------------------------------
(* Is data of very many equal elements encoded and decoded right?            *)
(*                                                                           *)
(* A case encodes a seq of n elements, a map of n entries, or a string or    *)
(* bytes of n equal parts, dynamically (via value: element v) or through     *)
(* serde (element or entry sv, shape sh); then it decodes what was written   *)
(* followed by a byte, and once more without its last byte. Recorded of the  *)
(* message are what comes before n equal units, and the unit; of the data    *)
(* decoded the first element and whether all are equal.                      *)
EXTENDS Serde, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c, why, done
vars == <<c, why, done>>

Blob(k) == k.kind \in {"str", "bytes"}
Fixed(k) == ~Blob(k) /\ k.s.fx
Root(k, m) == IF Fixed(k) THEN [k.s EXCEPT !.ln = NatBytes(m)] ELSE k.s
RECURSIVE Repeat(_,_)
Repeat(q, m) == IF m = 0 THEN <<>> ELSE q \o Repeat(q, m - 1)

(* What the data starts with, in the message.                                *)
Header(k, m) == CASE Blob(k) -> VarUint(NatBytes(m * (IF k.via = "serde" THEN Len(k.sv[1].b) ELSE Len(k.v.b))))
                  [] Fixed(k) -> <<>>
                  [] OTHER -> VarUint(NatBytes(m))

(* The same with m elements only, according to the specification.            *)
Value(k, m) == IF Blob(k) THEN [k.v EXCEPT !.b = Repeat(@, m)]
               ELSE Val(k.kind, "", FALSE, <<>>, Repeat(<<k.v>>, m), <<>>)
Data(k, m) == IF Blob(k) THEN [k.sv[1] EXCEPT !.b = Repeat(@, m)]
              ELSE Val(k.kind, "", FALSE, <<>>, Repeat(k.sv, m), <<>>)
Message(k, m) ==
    IF k.via = "serde" THEN SerRun(NewCoder(Root(k, m)), Data(k, m)).out
    ELSE Enc(Root(k, m), <<>>, Value(k, m))
Back(k, m) ==
    IF k.via = "serde" THEN DeRun(NewCoder(Root(k, m)), k.sh, Message(k, m), 1).v
    ELSE DecodeAll(Root(k, m), Message(k, m)).v

Unit(k) == LET m == Message(k, 1) h == Len(Header(k, 1)) IN SubSeq(m, h + 1, Len(m))
(* What is said here about many elements is so of few.                       *)
IsUniform(k) ==
    LET one == Back(k, 1) IN
    /\ IF k.via = "serde" THEN Good(SerRun(NewCoder(Root(k, 1)), Data(k, 1)))
       ELSE Conf(Root(k, 1), <<>>, Value(k, 1))
    /\ \A m \in {0, 1, 3} :
        /\ Message(k, m) = Header(k, m) \o Repeat(Unit(k), m)
        /\ Back(k, m) = [one EXCEPT !.c = Repeat(@, m), !.b = Repeat(@, m)]

(* About 1000000 + 4096 * n, in numbers that TLC has.                        *)
TooMuch(peak, n) == peak \div 4096 > n + 250

Total(k) == Len(Header(k, k.n)) + k.n * Len(Unit(k))

EncProblem(k, x) ==
    IF x.r # "ok" THEN "encoding answered " \o x.r
    ELSE IF ~x.fin THEN "not finished"
    ELSE IF ~x.agree THEN "is_finished and is_finished_or_err disagree"
    ELSE IF x.out.len # Total(k) THEN "wrong number of bytes"
    ELSE IF x.out.head # Header(k, k.n) THEN "wrong bytes before the elements"
    ELSE IF k.n > 0 /\ x.out.unit # Unit(k) THEN "wrong bytes for the first element"
    ELSE IF ~x.out.alike THEN "wrong bytes for a later element"
    ELSE ""

DecProblem(k, x) ==
    LET one == Back(k, 1) IN
    IF x.r # "ok" THEN "valid message refused: " \o x.r
    ELSE IF ~x.fin THEN "not finished"
    ELSE IF ~x.agree THEN "is_finished and is_finished_or_err disagree"
    ELSE IF x.n # Total(k) THEN "wrong number of bytes consumed"
    ELSE IF Len(Unit(k)) > 0 /\ TooMuch(x.peak, x.n) THEN "allocated out of proportion"
    ELSE IF x.k # one.k THEN "something else decoded: " \o x.k
    ELSE IF x.count # k.n * Len(one.c) THEN "wrong number of elements decoded"
    ELSE IF k.n > 0 /\ x.first # one.c THEN "wrong first element decoded"
    ELSE IF x.blob.len # k.n * Len(one.b) \/ x.blob.head # <<>> \/ (k.n > 0 /\ x.blob.unit # one.b)
         THEN "wrong text or bytes decoded"
    ELSE IF ~x.alike \/ ~x.blob.alike THEN "wrong later element decoded"
    ELSE ""

CutProblem(k, x) ==
    IF Total(k) = 0 THEN ""
    ELSE IF x.r = "panic" THEN "panic"
    ELSE IF x.r # "Io" THEN "cut message: answered " \o x.r
    ELSE IF x.why # "UnexpectedEof" THEN "cut message: the stream's error was lost"
    ELSE IF x.fin THEN "cut message: finished"
    ELSE IF ~x.agree THEN "is_finished and is_finished_or_err disagree"
    ELSE IF Len(Unit(k)) > 0 /\ TooMuch(x.peak, Total(k)) THEN "allocated out of proportion"
    ELSE ""

Problem(k) ==
    IF ~IsUniform(k) THEN "workload: not uniform"
    ELSE LET p == EncProblem(k, k.res.enc) IN
    IF p # "" THEN p
    ELSE LET q == DecProblem(k, k.res.dec[1]) IN
    IF q # "" THEN q
    ELSE CutProblem(k, k.res.dec[2])

Init == c \in 1..Len(Cases) /\ why = "" /\ done = FALSE
Next == ~done /\ done' = TRUE /\ why' = Problem(Cases[c]) /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
Conforms == why = ""
=============================================================================
