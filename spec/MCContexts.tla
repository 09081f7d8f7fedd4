----------------------------- MODULE MCContexts -----------------------------
(* All part sequences before a block and inside it.  The block works on its  *)
(* own copy of the entry table; objects are shared.  content[o] counts the   *)
(* in-place edits made to object o.                                          *)
EXTENDS Contexts, Json
CONSTANTS NPre, NIn
VARIABLES phase, ctx, ictx, n, pre, inner, kind, content, before
vars == <<phase, ctx, ictx, n, pre, inner, kind, content, before>>

Bump(c, o) == IF o \in DOMAIN c THEN [c EXCEPT ![o] = @ + 1] ELSE [x \in DOMAIN c \cup {o} |-> IF x = o THEN 1 ELSE c[x]]
Ver(c, o) == IF o \in DOMAIN c THEN c[o] ELSE 0
\* in-place editing keeps the object: entries of the table that refer to it see the edit
AfterObj(p, c, m) == IF InPlace(p) THEN [After(p, c, m) EXCEPT !["log"] = c["log"]] ELSE After(p, c, m)

Init == /\ phase = "outer" /\ ctx = Start(1) /\ ictx = Start(1) /\ n = 1 /\ pre = <<>> /\ inner = <<>> /\ kind = ""
        /\ content = [x \in {} |-> 0] /\ before = [x \in {} |-> 0]
Outer(p) == /\ phase = "outer" /\ Len(pre) < NPre /\ ~InPlace(p) /\ Enabled(p, ctx)
            /\ ctx' = After(p, ctx, n) /\ n' = n + 3 /\ pre' = Append(pre, p)
            /\ UNCHANGED <<phase, ictx, inner, kind, content, before>>
Enter(kd) == /\ phase = "outer" /\ phase' = "inner" /\ kind' = kd
             /\ kd = "each" => Has(ctx, "activities_logs")
             /\ ictx' = IF kd = "each" THEN [Start(n + 1) EXCEPT !["activity_name_key"] = [o |-> n + 2, b |-> n + 1]] ELSE ctx
             /\ n' = n + 2 /\ before' = content
             /\ UNCHANGED <<ctx, pre, inner, content>>
Inner(p) == /\ phase = "inner" /\ Len(inner) < NIn /\ Enabled(p, ictx)
            /\ ictx' = AfterObj(p, ictx, n) /\ n' = n + 3 /\ inner' = Append(inner, p)
            /\ content' = IF InPlace(p) THEN Bump(content, ictx["log"].o) ELSE content
            /\ UNCHANGED <<phase, ctx, pre, kind, before>>
Leave == /\ phase = "inner" /\ Len(inner) > 0 /\ phase' = "done"
         /\ UNCHANGED <<ctx, ictx, n, pre, inner, kind, content, before>>
Next == (\E p \in PartNames : Outer(p) \/ Inner(p)) \/ (\E kd \in {"copy", "par", "each"} : Enter(kd)) \/ Leave

\* a block changes nothing its surroundings can see, unless a documented in-place edit ran in it
Isolated == phase \in {"inner", "done"} =>
    \A k \in Keys : Ver(content, ctx[k].o) # Ver(before, ctx[k].o) => (k = "log" /\ \E i \in DOMAIN inner : InPlace(inner[i]))
\* a part only needs what an earlier part produced
TypeOK == \A k \in Keys : ctx[k] = None \/ ctx[k].o > 0
Emit == phase = "done" => PrintT("CASE " \o ToJson([pre |-> pre, inner |-> inner, kind |-> kind]))
=============================================================================
