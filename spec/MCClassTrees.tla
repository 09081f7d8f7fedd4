----------------------------- MODULE MCClassTrees -----------------------------
(* Class trees grow layer by layer, names of a layer in any order.            *)
EXTENDS Graphs, Json, TLC
CONSTANTS NC, NX
VARIABLES cs, xs, trees, rest, new
vars == <<cs, xs, trees, rest, new>>
Pool == {"n" \o ToString(i) : i \in 1..NC}
Leaf(n) == [name |-> n, kids |-> <<>>]
Init == \E c \in SUBSET Pool : /\ cs = c /\ xs = <<>> /\ rest = {} /\ new = <<>>
                               /\ trees = [i \in 1..Cardinality(c) |-> Leaf(SetToSeq(c)[i])]
\* a new extractor, defined on the names of the last layer
Extractor == /\ rest = {} /\ new = <<>> /\ Len(xs) < NX
             /\ \E x \in [{trees[j].name : j \in DOMAIN trees} -> Pool] : xs' = Append(xs, x)
             /\ rest' = DOMAIN trees /\ UNCHANGED <<cs, trees, new>>
Place == /\ rest # {}
         /\ \E j \in rest :
            LET n == xs[Len(xs)][trees[j].name]
                at == {i \in DOMAIN new : new[i].name = n} IN
            /\ rest' = rest \ {j}
            /\ new' = IF at = {} THEN Append(new, [name |-> n, kids |-> <<trees[j]>>])
                      ELSE [new EXCEPT ![CHOOSE i \in at : TRUE].kids = Append(@, trees[j])]
         /\ UNCHANGED <<cs, xs, trees>>
Close == rest = {} /\ new # <<>> /\ trees' = new /\ new' = <<>> /\ UNCHANGED <<cs, xs, rest>>
Next == Extractor \/ Place \/ Close
-------------------------------------------------------------------------------
Whole == rest = {} /\ new = <<>> => IsClassTree(trees, cs, xs)
RECURSIVE Leaves(_)
Leaves(ts) == UNION {IF ts[j].kids = <<>> THEN {ts[j].name} ELSE Leaves(ts[j].kids) : j \in DOMAIN ts}
LeavesAreClasses == rest = {} /\ new = <<>> => Leaves(trees) = cs
Emit == rest = {} /\ new = <<>> => PrintT("CASE " \o ToJson([classes |-> cs, exts |-> xs]))
===============================================================================
