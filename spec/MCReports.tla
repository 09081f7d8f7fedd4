------------------------------ MODULE MCReports ------------------------------
(* Every small forest of activities with shared children and shared names,   *)
(* every small log: lists written line by line, histograms, followers.       *)
EXTENDS Reports, TLC, Json
CONSTANTS NA, NN, NV, ND, NT, NL
VARIABLES kids, name, level, m, log
vars == <<kids, name, level, m, log>>
Ids == 1..NA
N == [n \in Ids |-> [name |-> name[n], uname |-> n, level |-> level[n], kids |-> SetToSortSeq(kids[n], <)]]
Roots == SelectSeq([n \in Ids |-> n], LAMBDA n : \A p \in Ids : n \notin kids[p])
L == RootsAt(N, Roots, 0)
Init == /\ kids \in {f \in [Ids -> SUBSET Ids] : \A n \in Ids : \A c \in f[n] : c > n}
        /\ name \in [Ids -> 0..(NN - 1)] /\ name[1] = 0
        /\ level \in {f \in [Ids -> 0..(NV - 1)] : f[1] = 0}
        /\ m = Begin(N, L) /\ log = <<>>
Write == m.todo # <<>> /\ m' = Line(N, m) /\ UNCHANGED <<kids, name, level, log>>
\* the log varies for the plain forest only
Plain == \A n \in Ids : kids[n] = {} /\ name[n] = 0 /\ level[n] = 0
Grow == /\ m.todo = <<>> /\ Plain
        /\ \/ Len(log) < NT /\ log' = Append(log, <<>>)
           \/ log # <<>> /\ Len(log[Len(log)]) < NL /\ \E c \in 0..(ND - 1) : log' = [log EXCEPT ![Len(log)] = Append(@, c)]
        /\ UNCHANGED <<kids, name, level, m>>
Next == Write \/ Grow
Done == m.todo = <<>>
EveryNameOnce == /\ Done => SeqSet(m.out) = NamesOf(N, Reached(N, L))
                 /\ DistinctSeq(m.out)
OnlyReached == m.done \subseteq Reached(N, L) /\ SeqSet(m.out) \subseteq NamesOf(N, m.done)
LevelsPartition == UNION {SeqSet(RootsAt(N, Roots, lv)) : lv \in LevelsOf(N, Roots)} = SeqSet(Roots)
Bars == LET h == VariantSizes(log) IN SumSeq(h) = Len(log) /\ \A i \in 1..(Len(h) - 1) : h[i] <= h[i + 1]
Steps == LET f == Followers(log, ClassesOf(log) \cup {START, END}) IN
    SumSeq([t \in DOMAIN log |-> IF log[t] = <<>> THEN 0 ELSE Len(log[t]) + 1])
         = SumSeq([i \in 1..Cardinality(f) |-> SetToSeq(f)[i][3]])
Emit == IF Done /\ log = <<>> THEN PrintT("CASE " \o ToJson([kids |-> [n \in Ids |-> SetToSortSeq(kids[n], <)], name |-> name, level |-> level]))
        ELSE IF Done THEN PrintT("CASE " \o ToJson([log |-> log])) ELSE TRUE
=============================================================================
