------------------------------ MODULE TraceMeta ------------------------------
(* Are schemas encoded and decoded as values of the meta-schema?             *)
(*                                                                           *)
(* "meta": schema s is encoded under the known schema of schemas (res.enc);  *)
(* b, or if ~has_b what was written, is decoded as a schema (res.dec) and as *)
(* a dynamic value (res.dyn). "known_meta": res.s is the known schema.       *)
EXTENDS Meta, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c, why, done
vars == <<c, why, done>>

Problem(k) ==
    IF k.do = "known_meta" THEN
        IF k.res.s = MetaSchema THEN "" ELSE "the known schema of schemas is not the meta-schema"
    ELSE
    LET s == Tree(k.s)
        v == SchemaValue(s)
        e == k.res.enc
        d == k.res.dec[1]
        y == k.res.dyn[1]
    IN IF ~Conf(MetaSchema, <<>>, v) \/ ValueSchema(v) # s THEN "workload: SchemaValue is wrong"
       ELSE IF e.r # "ok" THEN "encoding a schema answered " \o e.r
       ELSE IF ~e.fin THEN "encoding a schema did not finish"
       ELSE IF e.out # Enc(MetaSchema, <<>>, v) THEN "wrong bytes"
       ELSE IF ~k.has_b THEN
            IF d.r # "ok" THEN "decoding a schema answered " \o d.r
            ELSE IF ~d.fin THEN "decoding a schema did not finish"
            ELSE IF d.n # Len(e.out) THEN "wrong number of bytes consumed"
            ELSE IF Trees(d.s) # <<s>> \/ ~d.eq THEN "a different schema came back"
            ELSE IF y.r # "ok" \/ ~y.fin \/ Trees(y.v) # <<v>> THEN "the schema is not a value of the meta-schema"
            ELSE ""
       ELSE LET m == DecodeAll(MetaSchema, k.b) IN
            IF m.st = "ok" THEN
                IF d.r # "ok" THEN "valid schema refused: " \o d.r
                ELSE IF ~d.fin THEN "decoding a schema did not finish"
                ELSE IF d.n # m.i - 1 THEN "wrong number of bytes consumed"
                ELSE IF Trees(d.s) # <<ValueSchema(m.v)>> THEN "wrong schema decoded"
                ELSE ""
            ELSE IF d.r \in {"ok", "panic"} \/ d.fin THEN "decoding an invalid schema answered " \o d.r
            ELSE ""

Init == c \in 1..Len(Cases) /\ why = "" /\ done = FALSE
Next == ~done /\ done' = TRUE /\ why' = Problem(Cases[c]) /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
Conforms == why = ""
=============================================================================
