----------------------------- MODULE TraceRsGraphs -----------------------------
EXTENDS RsGraphs, TLC, IOUtils, Json
VARIABLES t, k
Hist == ndJsonDeserialize(IOEnv.TRACES)
Failing(cs) == {c[1] : c \in {x \in cs : ~x[2]}}

Step(g, s) ==
    CASE s.op = "add" -> AddNode(g, IF s.w < 0 THEN {} ELSE {g.next})
      [] s.op = "connect" -> Connect(g, s.a, s.b, s.w)
      [] s.op = "cut" -> Disconnect(g, s.a, s.b)
      [] s.op = "merge" -> Merge(g, ToSet(s.c))
      [] OTHER -> g
After(h, j) == FoldLeft(Step, NoGraph, SubSeq(h.steps, 1, j))
Bag(s, S) == ToSet(s) = S /\ Len(s) = Cardinality(S)
Ops(h, j) ==
    LET s == h.steps[j]
        o == s.obs
        g == After(h, j)
        A == 1..(g.next - 1)
    IN Failing({<<"nodes", Bag([i \in DOMAIN o.nodes |-> <<o.nodes[i][1], ToSet(o.nodes[i][2])>>], g.nodes)
                           /\ \A i \in DOMAIN o.nodes : Len(o.nodes[i][2]) = Cardinality(ToSet(o.nodes[i][2]))>>,
                <<"edges", Bag(o.edges, g.edges)>>, <<"edges have identifiers", o.distinct>>,
                <<"cut", o.ret = (s.op = "cut" /\ Linked(After(h, j - 1), s.a, s.b))>>}
               \cup (IF s.op = "default" THEN {} ELSE IF Len(o.around) # g.next - 1 THEN {<<"all nodes", FALSE>>} ELSE
                     {<<"successors", \A a \in A : Bag(o.around[a].out, Outgoing(g, a))>>,
                      <<"predecessors", \A a \in A : Bag(o.around[a].in, Incoming(g, a))>>,
                      <<"neighbours", \A a \in A : ToSet(o.around[a].near) = Neighbours(g, a)>>,
                      <<"linked", \A a \in A : Bag(o.around[a].linked, {b \in A : Linked(g, a, b)})>>,
                      <<"there", \A a \in A : o.around[a].there = (a \in Ids(g))>>}))
Fuzzy(h, j) ==
    LET s == h.steps[j]
        o == s.obs
        q == s.q
        log == h.log
        bs == [i \in DOMAIN o.blocks |-> <<o.blocks[i][1], ToSet(o.blocks[i][2])>>]
        B == ToSet(bs)
        P == {x[2] : x \in {y \in B : y[1]}}
        fit == /\ Len(bs) = Cardinality(B) /\ \A i \in DOMAIN o.blocks : Len(o.blocks[i][2]) = Cardinality(bs[i][2])
               /\ B = Blocks(log, q, P)
        es == [i \in DOMAIN o.edges |-> <<bs[o.edges[i][1]], bs[o.edges[i][2]], o.edges[i][3]>>]
        joined == \A i \in DOMAIN o.edges : o.edges[i][1] \in DOMAIN bs /\ o.edges[i][2] \in DOMAIN bs
    IN Failing({<<"log changed", o.log = log>>, <<"classes", fit>>, <<"edges join nodes", joined>>}
               \cup (IF ~fit \/ ~joined THEN {} ELSE {<<"clusters", P \in Clusterings(log, q)>>, <<"relations", Bag(es, BlockEdges(log, q, B))>>}))
Why(h, j) == IF h.steps[j].obs.err # "" THEN {"raised: " \o h.steps[j].obs.err} ELSE IF h.kind = "ops" THEN Ops(h, j) ELSE Fuzzy(h, j)
TraceInit == t \in 1..Len(Hist) /\ k = 0
TraceNext == /\ k < Len(Hist[t].steps) /\ k' = k + 1 /\ t' = t
             /\ LET v == Why(Hist[t], k + 1)
                IN IF v = {} THEN TRUE ELSE PrintT("BAD " \o ToJson([h |-> t, k |-> k + 1, why |-> v]))
=============================================================================
