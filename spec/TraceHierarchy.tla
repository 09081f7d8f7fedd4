--------------------------- MODULE TraceHierarchy ---------------------------
EXTENDS Hierarchy, TLC, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, k
Norm(rs) == [i \in DOMAIN rs |-> rs[i][2]]
\* nodes: [set, parent, level, len, name, pos]; sets are sequences of classes
NodeSets(ns) == [i \in DOMAIN ns |-> SeqSet(ns[i].set)]
TreeWhy(fam, ns, level) ==
    LET S == NodeSets(ns) IN Failing({
        <<"an activity is listed twice", DistinctSeq(S)>>,
        <<"activities are not the distinct class sets of the patterns", SeqSet(S) = fam>>,
        <<"size of an activity", \A i \in DOMAIN ns : ns[i].len = Cardinality(S[i])>>,
        <<"level of an activity", \A i \in DOMAIN ns : ns[i].level = level>>,
        <<"a root is contained in another activity", \A i \in DOMAIN ns : ns[i].parent = 0 => \A x \in fam : ~Strict(S[i], x)>>,
        <<"child is not strictly contained in its parent", \A i \in DOMAIN ns : ns[i].parent # 0 => Strict(S[i], S[ns[i].parent])>>,
        <<"parent is not a smallest containing activity", \A i \in DOMAIN ns : (ns[i].parent # 0 /\ Above(SeqSet(S), S[i]) # {}) =>
                S[ns[i].parent] \in Smallest(Above(SeqSet(S), S[i]))>>})
Why(h, s) ==
    LET log == Mapped(s.map, h.log)
        o == s.obs IN
    IF o.err # "" THEN {s.op \o " failed: " \o o.err}
    ELSE Failing({<<"the log was altered", o.same>>}) \cup
    (CASE s.op = "sets" ->
            Failing({<<"repeat sets", o.sets = Norm(RepeatSets(log, h.patterns))>>})
      [] s.op = "tree" ->
            LET rs == Norm(RepeatSets(log, h.patterns)) IN
            TreeWhy({SetOf(log, rs[i]) : i \in DOMAIN rs}, o.nodes, s.level)
            \cup Failing({<<"a repeat set is not in the hierarchy once", DistinctSeq(o.poss) /\ SeqSet(o.poss) = SeqSet(rs)>>,
                          <<"name of an activity", o.named>>})
      [] s.op = "discover" ->
            TreeWhy(Family(s.kind, s.bound, s.merged, log), o.nodes, s.level)
            \cup Failing({<<"name of an activity", o.named>>, <<"other context entries", o.rest>>}))
TraceInit == t \in 1..Len(Hist) /\ k = 0
TraceNext == /\ k < Len(Hist[t].steps) /\ k' = k + 1 /\ t' = t
             /\ LET v == Why(Hist[t], Hist[t].steps[k + 1]) IN
                IF v = {} THEN TRUE ELSE PrintT("BAD " \o ToJson([h |-> t, k |-> k + 1, why |-> v]))
=============================================================================
