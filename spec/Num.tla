-------------------------------- MODULE Num --------------------------------
(* Numbers as they occur in binschema. TLC's integers have 32 bits, but      *)
(* binschema's have up to 128, so naturals are "NatBytes": base-256 digits,  *)
(* least significant first, without leading zeros (zero is <<>>). A signed   *)
(* int is a pair (neg, mag) denoting mag if ~neg and -mag-1 if neg, which is *)
(* the pair that FORMAT.txt's var-len sint encoding stores.                  *)
EXTENDS Naturals, Integers, Sequences, SequencesExt

P2 == [i \in 0..16 |-> 2^i]

RECURSIVE Strip(_)
Strip(b) == IF b # <<>> /\ b[Len(b)] = 0 THEN Strip(SubSeq(b, 1, Len(b)-1)) ELSE b

Pad(b, w) == [i \in 1..w |-> IF i <= Len(b) THEN b[i] ELSE 0]
Compl(b) == [i \in 1..Len(b) |-> 255 - b[i]]

BigNat == 1000000000   \* stands for any natural of more than 3 bytes
RECURSIVE NatOf(_)
NatOf(b) == IF b = <<>> THEN 0
            ELSE IF Len(b) > 3 THEN BigNat
            ELSE b[1] + 256 * NatOf(Tail(b))
RECURSIVE NatBytes(_)
NatBytes(n) == IF n = 0 THEN <<>> ELSE <<n % 256>> \o NatBytes(n \div 256)

(* a <= c on NatBytes *)
RECURSIVE LeqFrom(_,_,_)
LeqFrom(a, c, i) == IF i = 0 THEN TRUE
                    ELSE IF a[i] # c[i] THEN a[i] < c[i]
                    ELSE LeqFrom(a, c, i-1)
Leq(a, c) == IF Len(a) # Len(c) THEN Len(a) < Len(c) ELSE LeqFrom(a, c, Len(a))

----------------------------------------------------------------------------
(* Var-len ints (FORMAT.txt, "variable length int encodings")               *)

Byte(b, i) == IF i + 1 <= Len(b) THEN b[i+1] ELSE 0
(* 7 bits of b starting at bit p *)
Bits7(b, p) == ((Byte(b, p \div 8) + 256 * Byte(b, p \div 8 + 1)) \div P2[p % 8]) % 128
(* 7-bit groups of b from bit s on, without leading zeros *)
Groups(b, s) == Strip([j \in 1..((8*Len(b) + 6) \div 7) |-> Bits7(b, s + 7*(j-1))])
More(g) == [i \in 1..Len(g) |-> IF i < Len(g) THEN g[i] + 128 ELSE g[i]]

VarUint(b) == LET g == Groups(b, 0) IN IF g = <<>> THEN <<0>> ELSE More(g)

VarSint(neg, b) ==
    LET g == <<(Byte(b, 0) % 64) + (IF neg THEN 64 ELSE 0)>> \o Groups(b, 6)
    IN More(g)

(* The bytes of a var-len int at inp[i..]: how many there are, or 0 if the   *)
(* input ends within it, or -1 if it has more than 19 bytes.                 *)
RECURSIVE VarSpan(_,_,_)
VarSpan(inp, i, n) ==
    IF n = 19 THEN -1
    ELSE IF i + n > Len(inp) THEN 0
    ELSE IF inp[i+n] < 128 THEN n + 1
    ELSE VarSpan(inp, i, n + 1)

Lesser(a, b) == IF a < b THEN a ELSE b
(* Reassemble groups: g has 7-bit digits, bits from 128 on are lost.         *)
Ungroup(g) == Strip([k \in 1..Lesser(16, (7*Len(g) + 7) \div 8) |->
    LET p == 8*(k-1)
        w == Byte(g, p \div 7) + 128 * Byte(g, p \div 7 + 1)
    IN (w \div P2[p % 7]) % 256])
(* Same, but the first digit has only 6 bits. *)
Ungroup6(g) == Strip([k \in 1..Lesser(16, (7*Len(g) + 7) \div 8) |->
    IF k = 1 THEN g[1] + 64 * (Byte(g, 1) % 4)
    ELSE LET p == 8*(k-1) - 6
             h == Tail(g)
             w == Byte(h, p \div 7) + 128 * Byte(h, p \div 7 + 1)
         IN (w \div P2[p % 7]) % 256])

Lo7(inp, i, n) == [j \in 1..n |-> inp[i+j-1] % 128]
(* Readers: st is "ok", "eof" or "over"; n is the number of bytes.           *)
ReadVarUint(inp, i) ==
    LET n == VarSpan(inp, i, 0) IN
    IF n = 0 THEN [st |-> "eof", n |-> 0, neg |-> FALSE, b |-> <<>>]
    ELSE IF n = -1 THEN [st |-> "over", n |-> 19, neg |-> FALSE, b |-> <<>>]
    ELSE [st |-> "ok", n |-> n, neg |-> FALSE, b |-> Ungroup(Lo7(inp, i, n))]

ReadVarSint(inp, i) ==
    LET n == VarSpan(inp, i, 0) IN
    IF n = 0 THEN [st |-> "eof", n |-> 0, neg |-> FALSE, b |-> <<>>]
    ELSE IF n = -1 THEN [st |-> "over", n |-> 19, neg |-> FALSE, b |-> <<>>]
    ELSE LET g == Lo7(inp, i, n)
             neg == g[1] >= 64
             raw == Ungroup6([g EXCEPT ![1] = @ % 64])
             wraps == Len(raw) = 16 /\ raw[16] >= 128  \* beyond 127 bits: wraps as a 128 bit int
         IN [st |-> "ok", n |-> n,
             neg |-> IF wraps THEN ~neg ELSE neg,
             b |-> IF wraps THEN Strip(Compl(raw)) ELSE raw]

(* Ordinal encoding: width for a number of variants.                         *)
RECURSIVE WidthOf(_)
WidthOf(max) == IF max = 0 THEN 0 ELSE 1 + WidthOf(max \div 256)
OrdWidth(numVariants) == WidthOf(numVariants - 1)

----------------------------------------------------------------------------
(* UTF-8 (Unicode table 3-7)                                                 *)
In(x, lo, hi) == lo <= x /\ x <= hi
(* The bytes are followed by a state <<n, lo, hi>>: n bytes are missing from  *)
(* the char begun, and the next of them must be in lo..hi.                   *)
Utf8Step(q, x) ==
    IF q[1] < 0 THEN q
    ELSE IF q[1] > 0 THEN IF In(x, q[2], q[3]) THEN <<q[1] - 1, 128, 191>> ELSE <<-1, 0, 0>>
    ELSE IF x < 128 THEN q
    ELSE IF In(x, 194, 223) THEN <<1, 128, 191>>
    ELSE IF x = 224 THEN <<2, 160, 191>>
    ELSE IF x = 237 THEN <<2, 128, 159>>
    ELSE IF In(x, 225, 239) THEN <<2, 128, 191>>
    ELSE IF x = 240 THEN <<3, 144, 191>>
    ELSE IF x = 244 THEN <<3, 128, 143>>
    ELSE IF In(x, 241, 243) THEN <<3, 128, 191>>
    ELSE <<-1, 0, 0>>
IsUtf8(b) == FoldLeft(Utf8Step, <<0, 0, 0>>, b)[1] = 0
=============================================================================
