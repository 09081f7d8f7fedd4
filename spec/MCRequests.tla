----------------------------- MODULE MCRequests -----------------------------
(* Every part class with up to NV settings given, on its own or after another. *)
EXTENDS Requests, Json
CONSTANTS NV
VARIABLES c, a, i
\* go through the arguments of the class, giving or leaving each
Init == c \in Classes /\ a = <<>> /\ i = 0
Optional(p) == p.def # Req
NOptional == Cardinality({j \in DOMAIN a : \E q \in DOMAIN Args(c) : Args(c)[q].arg = a[j][1] /\ Optional(Args(c)[q])})
Next == /\ i < Len(Args(c)) /\ i' = i + 1 /\ c' = c
        /\ LET p == Args(c)[i + 1] IN
           \/ Optional(p) /\ a' = a
           \/ (~Optional(p) \/ NOptional < NV) /\ \E v \in ValuesOf(p.ty) \cup (IF p.def = Opt THEN {Opt} ELSE {}) : a' = Append(a, <<p.arg, v, p.ty>>)
Done == i = Len(Args(c))
\* the settings of a part can be told from the request
Told == Done => \A j \in DOMAIN Kinds[c].ps :
            LET p == Kinds[c].ps[j] v == ValueOf(a, p) IN
            {x[3] : x \in {y \in Settings(c, a) : y[1] = p.key}} = IF v = Opt THEN {} ELSE {v}
KeysDiffer == i = 0 => \A j, q \in DOMAIN Kinds[c].ps : j # q => Kinds[c].ps[j].key # Kinds[c].ps[q].key
Typed == i = 0 => \A j \in DOMAIN Args(c) : LET p == Args(c)[j] IN p.def \notin {Req, Opt} /\ p.ty \in DOMAIN Enums => p.def \in Enums[p.ty]
\* enumerations are sent under the names and with the values the backend knows
Emit == /\ i # 0 \/ PrintT("CASE " \o ToJson([c |-> c, k |-> "class", op |-> Kinds[c].op, keys |-> Kinds[c].keys, ps |-> Kinds[c].ps]))
        /\ ~Done \/ PrintT("CASE " \o ToJson([c |-> c, k |-> "use", a |-> a]))
=============================================================================
