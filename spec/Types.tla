------------------------------- MODULE Types -------------------------------
(* Rust types, as their serde structure, and when a schema fits them.        *)
(*                                                                           *)
(* A type is a record [k, t, i, c, n]:                                       *)
(*   scalar (t) str unit option seq map (c: key, value) array (i: length)    *)
(*   tuple struct (n: field names) enum (n: variant names, c: what variants  *)
(*   hold) schema; transp (Box, Cow, newtypes: is c[1]); ref (definition i); *)
(*   attr (c[1], declared to be a recurse of level i)                        *)
(*                                                                           *)
(* Fitting is a simulation between two graphs, of the types and of the       *)
(* schema with its recurses followed: a pair of a type and a position in the *)
(* schema matches if they agree here and all pairs it leads to match.        *)
EXTENDS Meta

RECURSIVE Bare(_,_)
Bare(defs, ty) ==
    CASE ty.k \in {"transp", "attr"} -> Bare(defs, ty.c[1])
      [] ty.k = "ref" -> Bare(defs, defs[ty.i])
      [] OTHER -> ty

(* The level which an attribute on the way to the bare type declares, or 0.  *)
RECURSIVE Declared(_)
Declared(ty) == CASE ty.k = "attr" -> ty.i
                  [] ty.k = "transp" -> Declared(ty.c[1])
                  [] OTHER -> 0

(* Problem of the pair itself, or "".                                        *)
Misfit(defs, ty, root, p) ==
    LET raw == NodeAt(root, p)
        b == Bare(defs, ty)
        d == Declared(ty)
    IN IF ~Legal(root, p) THEN "illegal recurse"
       ELSE IF d # 0 /\ raw # SRecurse(d) THEN "attribute is not followed"
       ELSE LET s == NodeAt(root, Target(root, p))
                Agree(kind) == IF s.k = kind THEN "" ELSE "type is " \o b.k \o ", schema is " \o s.k
            IN CASE b.k = "scalar" -> IF s.k = "scalar" /\ s.t = b.t THEN "" ELSE "wrong scalar for " \o b.t
                 [] b.k \in {"str", "unit", "option"} -> Agree(b.k)
                 [] b.k = "seq" -> IF s.k = "seq" /\ s.fx THEN "fixed length for a seq" ELSE Agree("seq")
                 [] b.k = "array" ->
                        IF s.k = "seq" /\ (~s.fx \/ s.ln # NatBytes(b.i)) THEN "wrong length for an array"
                        ELSE Agree("seq")
                 [] b.k = "map" ->
                        IF s.k # "seq" THEN Agree("seq")
                        ELSE IF s.fx THEN "fixed length for a map"
                        ELSE LET q == Append(Target(root, p), 1) IN
                             IF ~Legal(root, q) THEN "illegal recurse"
                             ELSE LET e == NodeAt(root, Target(root, q)) IN
                                  IF e.k # "tuple" \/ Len(e.c) # 2 THEN "map entries are not pairs" ELSE ""
                 [] b.k = "tuple" -> IF s.k = "tuple" /\ Len(s.c) # Len(b.c) THEN "wrong tuple length" ELSE Agree("tuple")
                 [] b.k \in {"struct", "enum"} -> IF s.k = b.k /\ s.n # b.n THEN "wrong names" ELSE Agree(b.k)
                 [] b.k = "schema" -> IF s = MetaSchema THEN "" ELSE "not the meta-schema"

(* Pairs it leads to, if it is not a misfit.                                 *)
Within(defs, ty, root, p) ==
    LET q == Target(root, p)
        b == Bare(defs, ty)
    IN CASE b.k \in {"option", "seq", "array"} -> {<<b.c[1], Append(q, 1)>>}
         [] b.k = "map" -> LET e == Target(root, Append(q, 1)) IN {<<b.c[j], Append(e, j)>> : j \in {1, 2}}
         [] b.k \in {"tuple", "struct", "enum"} -> {<<b.c[j], Append(q, j)>> : j \in DOMAIN b.c}
         [] OTHER -> {}
=============================================================================
