------------------------------ MODULE TraceGraphs -----------------------------
EXTENDS Graphs, Json, IOUtils, TLC
Hist == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, k
Failing(S) == {c[1] : c \in {x \in S : ~x[2]}}
Drawn(f, root, g) ==
    {<<"one vertex per name", ToSet(g.vs) = Vertices(f, root)>>,
     <<"an edge from every child to each of its parents", ToSet(g.es) = Edges(f, root)>>,
     <<"no more edges than links", Len(g.es) <= Links(f, root)>>}
Why(h, j) ==
    LET s == h.steps[j]
        o == s.obs IN
    IF o.err # "" THEN {s.op \o ": " \o o.err}
    ELSE CASE s.op = "tree" -> Failing({
            <<"class tree", IsClassTree(o.trees, ToSet(s.classes), s.exts)>>,
            <<"log unchanged", o.same>>})
      [] s.op = "graph" -> Failing(Drawn(s, s.root, o))
      [] s.op = "level" -> Failing(Drawn(OfLevel(s, s.level), s.root, o) \cup {
            <<"only activities of the level", \A n \in Reached(OfLevel(s, s.level)) : s.nodes[n].level = s.level>>})
      [] s.op = "levels" -> Failing(UNION {Drawn(OfLevel(s, g.level), s.root, g) : g \in ToSet(o.graphs)} \cup {
            <<"one graph per level", Len(o.graphs) = Cardinality(LevelsOf(s)) /\ {g.level : g \in ToSet(o.graphs)} = LevelsOf(s)>>})
      [] s.op = "text" -> Failing({
            <<"the text does not depend on the order", \A a, b \in DOMAIN s.forests : s.forests[a].g = s.forests[b].g => o.texts[a] = o.texts[b]>>,
            <<"different graphs have different texts", \A a, b \in DOMAIN s.forests : o.texts[a] = o.texts[b] => Built(s.forests[a], s.root) = Built(s.forests[b], s.root)>>})
      [] OTHER -> {"unknown step"}
TraceInit == t \in 1..Len(Hist) /\ k = 0
TraceNext == /\ k < Len(Hist[t].steps)
             /\ LET w == Why(Hist[t], k + 1) IN
                IF w = {} THEN TRUE ELSE PrintT("BAD " \o ToJson([h |-> t, k |-> k + 1, why |-> w]))
             /\ k' = k + 1 /\ t' = t
===============================================================================
