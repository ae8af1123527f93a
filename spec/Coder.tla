------------------------------- MODULE Coder -------------------------------
(* The coder: the state machine behind Encoder and Decoder. One operator     *)
(* EStep / DStep gives, for every public call in every state, what it may    *)
(* answer, what it writes or reads, and the state it leaves. The state       *)
(* machines in MCCoder, TraceCoder and GenCoder take these as their actions; *)
(* the serde layer (Serde.tla) composes them.                                *)
(*                                                                           *)
(* Coder state: root   the schema                                            *)
(*              stack  frames, innermost last; a frame is                    *)
(*                       p   position in the schema tree (never a recurse)   *)
(*                       a   "need"  has to be coded, not begun              *)
(*                           "auto"  finishes when the frame above does      *)
(*                           "seq" "tuple" "struct"  begun, next is nx       *)
(*                           "enum"  decoding: ordinal ln known, name not    *)
(*                       nx  number of elements begun                        *)
(*                       ln  seq: length; enum: ordinal (NatBytes)           *)
(*              broken                                                       *)
(*                                                                           *)
(* Calls are records: op; t, neg, b (scalar or blob); ln (length or ordinal) *)
(* and nm (name). Answers are sets of error kinds, or {"ok"}.                *)
EXTENDS Format

Frame(p, a, nx, ln) == [p |-> p, a |-> a, nx |-> nx, ln |-> ln]
NewCoder(root) == [root |-> root, stack |-> <<Frame(<<>>, "need", 0, <<>>)>>, broken |-> FALSE]

Top(st) == st.stack[Len(st.stack)]
Finished(st) == st.stack = <<>> /\ ~st.broken
Break(st) == [st EXCEPT !.broken = TRUE]

RECURSIVE Unwind(_)
Unwind(stack) == IF stack # <<>> /\ stack[Len(stack)].a = "auto"
                 THEN Unwind(SubSeq(stack, 1, Len(stack)-1)) ELSE stack
Pop(st) == [st EXCEPT !.stack = Unwind(SubSeq(@, 1, Len(@)-1))]
SetTop(st, a, nx, ln) == [st EXCEPT !.stack[Len(st.stack)] = Frame(@.p, a, nx, ln)]
(* Frame for the schema at position p, which may be a recurse.               *)
Push(st, p) == [st EXCEPT !.stack = Append(@, Frame(Target(st.root, p), "need", 0, <<>>))]

(* What is needed: [ok, p]. *)
NeedsSomething(st) == st.stack # <<>> /\ Top(st).a = "need"
Needed(st) == NodeAt(st.root, Top(st).p)

Reject   == {"SchemaNonConformance", "ApiUsage"}  \* coder unchanged
BadData  == {"MalformedData"}                     \* coder broken
TooBig   == {"MalformedData", "PlatformLimits"}   \* coder broken
StreamErr == {"Io"}                               \* coder broken
Illegal  == {"IllegalSchema"}                     \* coder broken

----------------------------------------------------------------------------
(* Answers of a call: ks kinds, st state left, n bytes consumed, out bytes   *)
(* written, r value returned (neg, b).                                       *)
Ans(ks, st, out, n, neg, b) == [ks |-> ks, st |-> st, out |-> out, n |-> n, neg |-> neg, b |-> b]
Ok(st) == Ans({"ok"}, st, <<>>, 0, FALSE, <<>>)
OkOut(st, out) == Ans({"ok"}, st, out, 0, FALSE, <<>>)
OkIn(st, n, neg, b) == Ans({"ok"}, st, <<>>, n, neg, b)
Refuse(st, ks) == Ans(ks, st, <<>>, 0, FALSE, <<>>)
Fail(st, ks) == Ans(ks, Break(st), <<>>, 0, FALSE, <<>>)

(* Answer of a call which does not fit the state at all: of one which begins *)
(* or is a value (not what is needed, or nothing is), and of another one.    *)
Unfit(st) ==
    IF st.broken \/ ~NeedsSomething(st) THEN Refuse(st, {"ApiUsage"})
    ELSE Refuse(st, {"SchemaNonConformance"})
Misplaced(st) ==
    IF st.broken \/ st.stack = <<>> THEN Refuse(st, {"ApiUsage"})
    ELSE Refuse(st, Reject)

(* The top frame needs a schema of kind k (and scalar type t).               *)
Fits(st, k, t) ==
    /\ ~st.broken
    /\ NeedsSomething(st)
    /\ Needed(st).k = k
    /\ Needed(st).t = t
In_(st, a) == ~st.broken /\ st.stack # <<>> /\ Top(st).a = a

----------------------------------------------------------------------------
(* Calls which encoder and decoder have in common                            *)

(* Code the inner schema at position p next, given the state with the frame  *)
(* of the outer schema already updated.                                      *)
Into(st, p, out, n, b) ==
    IF Legal(st.root, p) THEN Ans({"ok"}, Push(st, p), out, n, FALSE, b)
    ELSE Fail(st, Illegal)

BeginFixedLenSeq(st, len) ==
    IF ~Fits(st, "seq", "") \/ ~Needed(st).fx THEN Unfit(st)
    ELSE IF Needed(st).ln # len THEN Refuse(st, {"SchemaNonConformance"})
    ELSE Ok(SetTop(st, "seq", 0, len))

BeginSeqElem(st) ==
    IF ~In_(st, "seq") THEN Misplaced(st)
    ELSE LET f == Top(st) IN
        IF f.nx >= NatOf(f.ln) THEN Refuse(st, Reject)
        ELSE Into(SetTop(st, "seq", f.nx + 1, f.ln), Append(f.p, 1), <<>>, 0, <<>>)

FinishSeq(st) ==
    IF ~In_(st, "seq") THEN Misplaced(st)
    ELSE IF NatBytes(Top(st).nx) # Top(st).ln THEN Refuse(st, Reject)
    ELSE Ok(Pop(st))

BeginProduct(st, k) == IF Fits(st, k, "") THEN Ok(SetTop(st, k, 0, <<>>)) ELSE Unfit(st)
FinishProduct(st, k) ==
    IF ~In_(st, k) THEN Misplaced(st)
    ELSE IF Top(st).nx # Len(NodeAt(st.root, Top(st).p).c) THEN Refuse(st, Reject)
    ELSE Ok(Pop(st))

BeginTupleElem(st) ==
    IF ~In_(st, "tuple") THEN Misplaced(st)
    ELSE LET f == Top(st) IN
        IF f.nx = Len(NodeAt(st.root, f.p).c) THEN Refuse(st, Reject)
        ELSE Into(SetTop(st, "tuple", f.nx + 1, <<>>), Append(f.p, f.nx + 1), <<>>, 0, <<>>)

BeginStructField(st, name) ==
    IF ~In_(st, "struct") THEN Misplaced(st)
    ELSE LET f == Top(st)
             s == NodeAt(st.root, f.p)
         IN IF f.nx = Len(s.c) THEN Refuse(st, Reject)
            ELSE IF s.n[f.nx + 1] # name THEN Refuse(st, {"SchemaNonConformance"})
            ELSE Into(SetTop(st, "struct", f.nx + 1, <<>>), Append(f.p, f.nx + 1), <<>>, 0, <<>>)

Common(st, o) ==
    CASE o.op = "begin_fixed_len_seq" -> BeginFixedLenSeq(st, o.ln)
      [] o.op = "begin_seq_elem" -> BeginSeqElem(st)
      [] o.op = "finish_seq" -> FinishSeq(st)
      [] o.op = "begin_tuple" -> BeginProduct(st, "tuple")
      [] o.op = "begin_tuple_elem" -> BeginTupleElem(st)
      [] o.op = "finish_tuple" -> FinishProduct(st, "tuple")
      [] o.op = "begin_struct" -> BeginProduct(st, "struct")
      [] o.op = "begin_struct_field" -> BeginStructField(st, o.nm)
      [] o.op = "finish_struct" -> FinishProduct(st, "struct")

----------------------------------------------------------------------------
(* Encoder                                                                   *)

EStep(st, o) ==
    CASE o.op = "scalar" ->
            IF Fits(st, "scalar", o.t) THEN OkOut(Pop(st), ScalarBytes(o.t, o.neg, o.b)) ELSE Unfit(st)
      [] o.op \in {"str", "bytes"} ->
            IF Fits(st, o.op, "") THEN OkOut(Pop(st), VarUint(NatBytes(Len(o.b))) \o o.b) ELSE Unfit(st)
      [] o.op = "unit" -> IF Fits(st, "unit", "") THEN Ok(Pop(st)) ELSE Unfit(st)
      [] o.op = "none" -> IF Fits(st, "option", "") THEN OkOut(Pop(st), <<0>>) ELSE Unfit(st)
      [] o.op = "begin_some" ->
            IF Fits(st, "option", "")
            THEN Into(SetTop(st, "auto", 0, <<>>), Append(Top(st).p, 1), <<1>>, 0, <<>>)
            ELSE Unfit(st)
      [] o.op = "begin_var_len_seq" ->
            IF Fits(st, "seq", "") /\ ~Needed(st).fx
            THEN OkOut(SetTop(st, "seq", 0, o.ln), VarUint(o.ln)) ELSE Unfit(st)
      [] o.op = "begin_enum" ->
            IF ~Fits(st, "enum", "") THEN Unfit(st)
            ELSE LET s == Needed(st)
                     ord == NatOf(o.ln)
                 IN IF ord >= Len(s.c) THEN Refuse(st, {"SchemaNonConformance"})
                    ELSE IF s.n[ord + 1] # o.nm THEN Refuse(st, {"SchemaNonConformance"})
                    ELSE Into(SetTop(st, "auto", 0, <<>>), Append(Top(st).p, ord + 1),
                              Pad(o.ln, OrdWidth(Len(s.c))), 0, <<>>)
      [] OTHER -> Common(st, o)

(* The same with a writer that fails after accepting k more bytes.           *)
EStepFaulty(st, o, k) ==
    LET a == EStep(st, o) IN
    IF a.ks = {"ok"} /\ k < Len(a.out)
    THEN [Fail(a.st, StreamErr) EXCEPT !.out = SubSeq(a.out, 1, k)]
    ELSE a

----------------------------------------------------------------------------
(* Decoder, reading inp from position i; the end of inp is where the reader  *)
(* fails or ends.                                                            *)

FromRead(st, r, okSt) ==
    IF r.st = "ok" THEN OkIn(okSt, r.n, r.neg, r.b)
    ELSE IF r.st = "eof" THEN Fail(st, StreamErr)
    ELSE [Fail(st, IF r.st = "big" THEN TooBig ELSE BadData) EXCEPT !.n = r.n]

DStep(st, o, inp, i) ==
    CASE o.op = "scalar" ->
            IF Fits(st, "scalar", o.t) THEN FromRead(st, ReadScalar(o.t, inp, i), Pop(st)) ELSE Unfit(st)
      [] o.op \in {"str", "bytes"} ->
            IF Fits(st, o.op, "") THEN FromRead(st, ReadBlob(o.op = "str", inp, i), Pop(st)) ELSE Unfit(st)
      [] o.op = "unit" -> IF Fits(st, "unit", "") THEN Ok(Pop(st)) ELSE Unfit(st)
      [] o.op = "begin_option" ->
            IF ~Fits(st, "option", "") THEN Unfit(st)
            ELSE IF i > Len(inp) THEN Fail(st, StreamErr)
            ELSE IF inp[i] = 0 THEN OkIn(Pop(st), 1, FALSE, <<>>)
            ELSE IF inp[i] = 1 THEN
                Into(SetTop(st, "auto", 0, <<>>), Append(Top(st).p, 1), <<>>, 1, <<1>>)
            ELSE [Fail(st, BadData) EXCEPT !.n = 1]
      [] o.op = "begin_var_len_seq" ->
            IF Fits(st, "seq", "") /\ ~Needed(st).fx
            THEN LET r == ReadLen(inp, i) IN FromRead(st, r, SetTop(st, "seq", 0, r.b))
            ELSE Unfit(st)
      [] o.op = "begin_enum" ->
            IF ~Fits(st, "enum", "") THEN Unfit(st)
            ELSE LET r == ReadOrd(Len(Needed(st).c), inp, i) IN FromRead(st, r, SetTop(st, "enum", 0, r.b))
      [] o.op = "begin_enum_variant" ->
            IF ~In_(st, "enum") THEN Misplaced(st)
            ELSE LET f == Top(st)
                     s == NodeAt(st.root, f.p)
                     ord == NatOf(f.ln)
                 IN IF s.n[ord + 1] # o.nm THEN Refuse(st, {"SchemaNonConformance"})
                    ELSE Into(SetTop(st, "auto", 0, <<>>), Append(f.p, ord + 1), <<>>, 0, <<>>)
      [] OTHER -> Common(st, o)

----------------------------------------------------------------------------
(* Calls *)
Call(op, t, neg, b, ln, nm) == [op |-> op, t |-> t, neg |-> neg, b |-> b, ln |-> ln, nm |-> nm]
C0(op) == Call(op, "", FALSE, <<>>, <<>>, <<>>)
CScalar(t, neg, b) == Call("scalar", t, neg, b, <<>>, <<>>)
CBlob(op, b) == Call(op, "", FALSE, b, <<>>, <<>>)
CLen(op, len) == Call(op, "", FALSE, <<>>, len, <<>>)
CName(op, nm) == Call(op, "", FALSE, <<>>, <<>>, nm)
CEnum(ord, nm) == Call("begin_enum", "", FALSE, <<>>, ord, nm)

(* The calls which encode (enc) or decode a value.                           *)
RECURSIVE CallsOf(_,_)
RECURSIVE CallsOfAll(_,_,_)
CallsOf(enc, v) ==
    CASE v.k = "scalar" -> <<CScalar(v.t, v.neg, v.b)>>
      [] v.k \in {"str", "bytes"} -> <<CBlob(v.k, v.b)>>
      [] v.k = "unit" -> <<C0("unit")>>
      [] v.k = "option" ->
            IF v.c = <<>> THEN <<C0(IF enc THEN "none" ELSE "begin_option")>>
            ELSE <<C0(IF enc THEN "begin_some" ELSE "begin_option")>> \o CallsOf(enc, v.c[1])
      [] v.k = "fseq" -> <<CLen("begin_fixed_len_seq", NatBytes(Len(v.c)))>>
                         \o CallsOfAll(enc, v, C0("begin_seq_elem")) \o <<C0("finish_seq")>>
      [] v.k = "vseq" -> <<CLen("begin_var_len_seq", NatBytes(Len(v.c)))>>
                         \o CallsOfAll(enc, v, C0("begin_seq_elem")) \o <<C0("finish_seq")>>
      [] v.k = "tuple" -> <<C0("begin_tuple")>>
                         \o CallsOfAll(enc, v, C0("begin_tuple_elem")) \o <<C0("finish_tuple")>>
      [] v.k = "struct" -> <<C0("begin_struct")>>
                         \o CallsOfAll(enc, v, C0("begin_struct_field")) \o <<C0("finish_struct")>>
      [] v.k = "enum" -> (IF enc THEN <<CEnum(v.b, v.n[1])>>
                          ELSE <<C0("begin_enum"), CName("begin_enum_variant", v.n[1])>>)
                         \o CallsOf(enc, v.c[1])
CallsOfAll(enc, v, before) ==
    LET f[j \in 0..Len(v.c)] ==
            IF j = 0 THEN <<>>
            ELSE f[j-1] \o <<[before EXCEPT !.nm = IF v.k = "struct" THEN v.n[j] ELSE <<>>]>>
                 \o CallsOf(enc, v.c[j])
    IN f[Len(v.c)]
=============================================================================
