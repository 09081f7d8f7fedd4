----------------------------- MODULE MCVariants -----------------------------
EXTENDS Variants, TLC, Json
CONSTANTS NC, NT, NL, NE
VARIABLES log, phase, groups, pos
LB == INSTANCE LogBuilder
vars == <<log, phase, groups, pos>>
Init == LB!BuildInit /\ phase = "build" /\ groups = {} /\ pos = 0
Build == phase = "build" /\ LB!BuildNext /\ UNCHANGED <<phase, groups, pos>>
Start == phase = "build" /\ phase' = "split" /\ groups' = ByLength(log) /\ pos' = 0 /\ UNCHANGED log
Split == /\ phase = "split" /\ pos < NL /\ pos' = pos + 1 /\ groups' = Refine(log, groups, pos') /\ UNCHANGED <<log, phase>>
Finish == phase = "split" /\ pos = NL /\ phase' = "done" /\ UNCHANGED <<log, groups, pos>>
Next == Build \/ Start \/ Split \/ Finish
IsPartition == phase # "build" => /\ UNION groups = DOMAIN log
                                  /\ \A g, h \in groups : g = h \/ g \cap h = {}
NeverSeparatesEqual == phase # "build" => \A t, u \in DOMAIN log : log[t] = log[u] => \E g \in groups : t \in g /\ u \in g
Exact == phase = "done" => groups = Partition(log)
Evs == [t \in DOMAIN log |-> [i \in DOMAIN log[t] |-> <<log[t][i], 10 * t + i>>]]
Sep(t) == <<<<-1, t>>>>
MergeModel == phase = "build" =>
    LET m == FoldLeft(LAMBDA a, t : a \o Evs[t] \o Sep(t), <<>>, [t \in DOMAIN log |-> t]) IN MergedOk(Evs, m)
Emit == phase = "build" => PrintT("CASE " \o ToJson([log |-> log]))
=============================================================================
