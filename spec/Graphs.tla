-------------------------------- MODULE Graphs --------------------------------
(* Event class trees and the graphs drawn from forests of nodes.              *)
(* A class tree: L0 are the classes of the log, the i-th extractor maps names *)
(* of L(i-1) to names of L(i).  A forest: nodes with a name, a level and a    *)
(* sequence of children (numbers of nodes), children may be shared, and the   *)
(* roots of the forest; its graph has names as vertices.                      *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
RootName == "root"
RECURSIVE Layer(_, _, _)
Layer(cs, xs, i) == IF i = 0 THEN cs ELSE {xs[i][n] : n \in Layer(cs, xs, i - 1)}
\* the sequence of trees is the part of layer i with these names, with everything below
RECURSIVE IsForest(_, _, _, _, _)
IsForest(trees, names, cs, xs, i) ==
    /\ Len(trees) = Cardinality(names)
    /\ {trees[j].name : j \in DOMAIN trees} = names
    /\ \A j \in DOMAIN trees :
        IF i = 0 THEN trees[j].kids = <<>>
        ELSE IsForest(trees[j].kids, {n \in Layer(cs, xs, i - 1) : xs[i][n] = trees[j].name}, cs, xs, i - 1)
IsClassTree(trees, cs, xs) == IsForest(trees, Layer(cs, xs, Len(xs)), cs, xs, Len(xs))
-------------------------------------------------------------------------------
Kids(f, n) == ToSet(f.nodes[n].kids)
RECURSIVE Below(_, _)
Below(f, S) == LET T == S \cup UNION {Kids(f, n) : n \in S} IN IF T = S THEN S ELSE Below(f, T)
Reached(f) == Below(f, ToSet(f.tops))
Named(f, S) == {f.nodes[n].name : n \in S}
Vertices(f, root) == Named(f, Reached(f)) \cup (IF root /\ f.tops # <<>> THEN {RootName} ELSE {})
\* edges go from children to parents
Edges(f, root) == {<<f.nodes[c].name, f.nodes[p].name>> : <<c, p>> \in {x \in Reached(f) \X Reached(f) : x[1] \in Kids(f, x[2])}}
                  \cup (IF root THEN {<<f.nodes[n].name, RootName>> : n \in ToSet(f.tops)} ELSE {})
\* links between nodes: no more edges than these are drawn
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET n == CHOOSE n \in S : TRUE IN Len(f.nodes[n].kids) + Sum(f, S \ {n})
Links(f, root) == Sum(f, Reached(f)) + (IF root THEN Len(f.tops) ELSE 0)
\* the part of a forest of activities at one level
OfLevel(f, l) == [f EXCEPT !.tops = SelectSeq(f.tops, LAMBDA n : f.nodes[n].level = l)]
LevelsOf(f) == {f.nodes[n].level : n \in ToSet(f.tops)}
Built(f, root) == [vs |-> Vertices(f, root), es |-> Edges(f, root)]
===============================================================================
