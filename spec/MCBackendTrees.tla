--------------------------- MODULE MCBackendTrees ---------------------------
(* All pipelines of up to NT parts, built bottom up.                          *)
EXTENDS Backend, TLC, Json
CONSTANTS NT
VARIABLES tree, n
Leaves == {[k |-> "plain", id |-> 0], [k |-> "num", id |-> 0], [k |-> "info", id |-> 0], [k |-> "names", id |-> 0]}
Wraps == {"until", "each", "cluster", "around"}
Init == tree = <<>> /\ n = 0
AddLeaf == n < NT /\ n' = n + 1 /\ \E l \in Leaves \cup {[k |-> "cb", id |-> i] : i \in {1, n + 1}} : tree' = Append(tree, l)
Wrap == n < NT /\ n' = n + 1 /\ \E w \in Wraps, i \in 0..Len(tree) :
            tree' = Append(SubSeq(tree, 1, i), [k |-> w, id |-> 0, b |-> SubSeq(tree, i + 1, Len(tree))])
Next == AddLeaf \/ Wrap
\* wrapping adds no receiver but its own
RECURSIVE Count(_)
Count(s) == IF s = <<>> THEN 0
            ELSE Count(Tail(s)) + (CASE Head(s).k = "plain" -> 0
                                     [] Head(s).k \in {"until", "each"} -> Count(Head(s).b)
                                     [] Head(s).k = "cluster" -> 1 + Count(Head(s).b)
                                     [] Head(s).k = "around" -> 2 + Count(Head(s).b)
                                     [] OTHER -> 1)
Every == Len(Waiting(tree)) = Count(tree)
Emit == PrintT("CASE " \o ToJson([tree |-> tree, w |-> Len(Waiting(tree))]))
=============================================================================
