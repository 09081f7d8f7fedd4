------------------------------ MODULE MCRsGraphs ------------------------------
EXTENDS RsGraphs, TLC, Json
CONSTANTS Part, NC, NT, NL, ND
VARIABLES g, hist, log, q
vars == <<g, hist, log, q>>

--------------------------------------------------- (* histories of a graph *)
Do(op, new) == g' = new /\ hist' = Append(hist, op) /\ UNCHANGED <<log, q>>
OpsInit == Part = "ops" /\ g = AddNode(AddNode(NoGraph, {1}), {2}) /\ hist = <<>> /\ log = <<>> /\ q = 0
OpsNext == /\ Len(hist) < ND
           /\ \/ g.next < 6 /\ Do([op |-> "add", a |-> 0, b |-> 0, w |-> 0, c |-> <<>>], AddNode(g, {g.next}))
              \/ \E a, b \in 1..(g.next - 1) : \/ Do([op |-> "connect", a |-> a, b |-> b, w |-> Len(hist), c |-> <<>>], Connect(g, a, b, Len(hist)))
                                               \/ (Linked(g, a, b) \/ a = b) /\ Do([op |-> "cut", a |-> a, b |-> b, w |-> 0, c |-> <<>>], Disconnect(g, a, b))
              \/ \E C \in SUBSET Ids(g) : C # {} /\ Do([op |-> "merge", a |-> 0, b |-> 0, w |-> 0, c |-> SetToSeq(C)], Merge(g, C))

----------------------------------------------------------- (* fuzzy graphs *)
Times(k) == CASE k = 1 -> 0 [] k = 2 -> 60 [] k = 3 -> 240 [] OTHER -> 300
Traces == UNION {[1..n -> 1..NC] : n \in 0..NL}
Qs == {[un |-> un, bi |-> bi, pres |-> p, ratio |-> r, rate |-> ra, edge |-> e, node |-> nd] :
         un \in {0, 1}, bi \in {0, 1}, p \in {0, 60}, r \in {10}, ra \in {0, 3}, e \in {0, 40}, nd \in {0, 2, 9}}
FuzzyInit == /\ Part = "fuzzy" /\ g = NoGraph /\ hist = <<>> /\ q \in Qs
             /\ \E ts \in UNION {[1..n -> Traces] : n \in 1..NT} : log = [t \in DOMAIN ts |-> [i \in DOMAIN ts[t] |-> <<ts[t][i], Times(i)>>]]
Init == OpsInit \/ FuzzyInit
Next == Part = "ops" /\ OpsNext
Emit == IF Part = "ops" THEN Len(hist) = ND => PrintT("CASE " \o ToJson(hist)) ELSE PrintT("CASE " \o ToJson([log |-> log, q |-> q]))

\* edges join nodes, no two edges join the same nodes in the same direction
Sound == \A e \in g.edges : {e[1], e[2]} \subseteq Ids(g) /\ (\A f \in g.edges : e[1] = f[1] /\ e[2] = f[2] => e = f)
\* merging keeps what nodes stand for and what flows between a cluster and the rest, in both directions
MergeKeeps == Part = "ops" => \A C \in SUBSET Ids(g) \ {{}} :
    LET m == Merge(g, C)
        n == g.next
    IN /\ UNION {x[2] : x \in m.nodes} = UNION {x[2] : x \in g.nodes}
       /\ Ids(m) = (Ids(g) \ C) \cup {n}
       /\ Weight({e \in m.edges : e[1] = n}) = FoldSet(LAMBDA e, s : s + (IF e[3] < 0 THEN 0 ELSE e[3]), 0, {e \in g.edges : e[1] \in C /\ e[2] \notin C})
       /\ \A a \in Ids(g) \ C : (n \in Neighbours(m, a)) <=> (Neighbours(g, a) \cap C # {})
       /\ \A D \in SUBSET (Ids(g) \ C) \ {{}} : LET x == Merge(m, D) y == Merge(Merge(g, D), C)
             IN {n2[2] : n2 \in x.nodes} = {n2[2] : n2 \in y.nodes} /\ Cardinality(x.edges) = Cardinality(y.edges)
F == Part = "fuzzy"
\* every class that is frequent enough is in exactly one block; classes above the cutoff stay alone
NothingLost == F => Clusterings(log, q) # {} /\ \A P \in Clusterings(log, q) :
    LET B == Blocks(log, q, P) IN
    /\ UNION {x[2] : x \in B} = Kept(log, q)
    /\ \A x, y \in B : x # y => x[2] \cap y[2] = {}
    /\ \A C \in P : C # {} /\ C \subseteq Rare(log, q)
\* relations of the graph are relations of the log
Real == F => LET S == Settled(log, q)
                 U == Useful(log, q)
             IN /\ U \subseteq S /\ \A e \in S : Follows(log, e[1], e[2]) > q.bi
                \* a node keeps its best incoming relation
                /\ \A b \in Kept(log, q) : (\E e \in S : e[2] = b) => \E e \in U : e[2] = b
                \* without thresholds the graph is the directly-follows graph
                /\ q.un = 0 /\ q.bi = 0 /\ q.pres = 0 /\ q.edge = 0 => U = {<<a, b>> \in ClassesIn(log) \X ClassesIn(log) : Follows(log, a, b) > 0}
=============================================================================
