------------------------------ MODULE Variants ------------------------------
(* Variants of a log.  A trace index stands for the trace object.            *)
EXTENDS Logs

\* the partition a variant grouping has to produce
SameVariant(log, a, b) == log[a] = log[b]
Partition(log) == {{u \in DOMAIN log : SameVariant(log, t, u)} : t \in DOMAIN log}

\* refinement machine: groups of equal length, split position by position
ByLength(log) == {{u \in DOMAIN log : Len(log[u]) = Len(log[t])} : t \in DOMAIN log}
AtPos(log, t, i) == IF i <= Len(log[t]) THEN log[t][i] ELSE -1
Refine(log, groups, i) == UNION {{{u \in g : AtPos(log, u, i) = AtPos(log, t, i)} : t \in g} : g \in groups}

\* a merged trace: <<class, id>> for events, <<-1, k>> for a separator with the k-th unknown name
MergedOk(evs, m) ==   \* evs: traces of <<class, id>>
    LET real == SelectSeq(m, LAMBDA e : e[1] # -1)
        seps == SelectSeq(m, LAMBDA e : e[1] = -1)
        flat == FoldLeft(LAMBDA a, b : a \o b, <<>>, evs)
        owner(id) == CHOOSE t \in DOMAIN evs : \E i \in DOMAIN evs[t] : evs[t][i][2] = id
    IN /\ real = flat
       /\ DistinctSeq(seps)
       /\ \A i \in 1..(Len(m) - 1) : (m[i][1] # -1 /\ m[i + 1][1] # -1) => owner(m[i][2]) = owner(m[i + 1][2])
       /\ \A t \in DOMAIN evs : \A i \in 1..(Len(evs[t]) - 1) :
            \E j \in 1..(Len(m) - 1) : m[j] = evs[t][i] /\ m[j + 1] = evs[t][i + 1]
=============================================================================
