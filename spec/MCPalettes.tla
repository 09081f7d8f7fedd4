----------------------------- MODULE MCPalettes -------------------------------
(* Sequences of diagrams in an execution with nested pipelines; which colours  *)
(* are taken is arbitrary.                                                    *)
EXTENDS Diagrams, Json, TLC
CONSTANTS NSteps, NColours
VARIABLES prog, depth, palette, shown
vars == <<prog, depth, palette, shown>>
\* what a diagram of each kind shows
Shows == [all |-> {"n1", "n2"}, some |-> {"n2"}, acts |-> {"n2", "n3"}]
Free == (1..NColours) \ ({0} \cup {palette[n] : n \in DOMAIN palette})
Init == prog = <<>> /\ depth = 0 /\ palette = <<>> /\ shown = {}
Draw(d) == LET new == Shows[d] \ DOMAIN palette IN
    \E f \in [new -> Free] : /\ Cardinality({f[n] : n \in new}) = Cardinality(new)
                             /\ palette' = [n \in DOMAIN palette \cup new |-> IF n \in new THEN f[n] ELSE palette[n]]
                             /\ shown' = shown \cup {<<n, palette'[n]>> : n \in Shows[d]}
                             /\ prog' = Append(prog, d) /\ UNCHANGED depth
Enter(how) == depth < 2 /\ depth' = depth + 1 /\ prog' = Append(prog, how) /\ UNCHANGED <<palette, shown>>
Leave == depth > 0 /\ depth' = depth - 1 /\ prog' = Append(prog, "leave") /\ UNCHANGED <<palette, shown>>
Next == /\ Len(prog) < NSteps
        /\ (\E d \in DOMAIN Shows : Draw(d)) \/ (\E h \in {"copy", "same"} : Enter(h)) \/ Leave
OneColour == \A a, b \in shown : (a[1] = b[1]) <=> (a[2] = b[2])
NotBlack == \A a \in shown : a[2] # 0
Keeps == [][Extends(palette, palette')]_vars
Injective == OneToOne(palette)
Emit == PrintT("CASE " \o ToJson([prog |-> prog]))
=============================================================================
