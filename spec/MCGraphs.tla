------------------------------- MODULE MCGraphs -------------------------------
(* All small forests; their graphs are built by walking over the nodes in any *)
(* order: every order ends in the same graph.                                 *)
EXTENDS Graphs, Json, TLC
CONSTANTS NN, NM, NL
VARIABLES f, todo, seen, vs, es
vars == <<f, todo, seen, vs, es>>
Sorted(S) == SetToSortSeq(S, <)
Parented(k) == UNION {k[n] : n \in DOMAIN k}
Init == \E k \in [1..NN -> SUBSET (1..NN)] :
        /\ \A n \in 1..NN : \A c \in k[n] : c < n
        /\ \E nm \in [1..NN -> 1..NM], lv \in [1..NN -> 0..(NL - 1)], extra \in SUBSET Parented(k) :
            /\ \A n \in 1..NN : \A c \in k[n] : lv[c] = lv[n]
            /\ f = [nodes |-> [n \in 1..NN |-> [name |-> "n" \o ToString(nm[n]), level |-> lv[n], kids |-> Sorted(k[n])]],
                    tops |-> Sorted(((1..NN) \ Parented(k)) \cup extra)]
        /\ todo = {<<n, 0>> : n \in ToSet(f.tops)} /\ seen = {} /\ vs = {} /\ es = {}
Visit == \E x \in todo :
    /\ seen' = seen \cup {x[1]}
    /\ vs' = vs \cup {f.nodes[x[1]].name}
    /\ es' = IF x[2] = 0 THEN es ELSE es \cup {<<f.nodes[x[1]].name, f.nodes[x[2]].name>>}
    /\ todo' = (todo \ {x}) \cup (IF x[1] \in seen THEN {} ELSE {<<c, x[1]>> : c \in Kids(f, x[1])})
    /\ UNCHANGED f
Next == Visit
-------------------------------------------------------------------------------
Inside == vs \subseteq Vertices(f, FALSE) /\ es \subseteq Edges(f, FALSE) /\ seen \subseteq Reached(f)
Confluent == todo = {} => vs = Vertices(f, FALSE) /\ es = Edges(f, FALSE)
Bounded == Cardinality(Edges(f, TRUE)) <= Links(f, TRUE)
\* the levels split the forest
Split == seen = {} => /\ \A l \in LevelsOf(f) : \A n \in Reached(OfLevel(f, l)) : f.nodes[n].level = l
                      /\ UNION {Vertices(OfLevel(f, l), TRUE) : l \in LevelsOf(f)} = Vertices(f, TRUE)
                      /\ UNION {Edges(OfLevel(f, l), TRUE) : l \in LevelsOf(f)} = Edges(f, TRUE)
Emit == seen = {} => PrintT("CASE " \o ToJson(f))
===============================================================================
