------------------------------ MODULE MCRsActs ------------------------------
(* The machine of MCActivities; in addition what the backend's filter keeps. *)
EXTENDS MCActivities, RsActivities
Small(n, g) == [filter |-> "DefaultFilter", min |-> n, gap |-> g, narrow |-> IF narrow THEN "NarrowDown" ELSE "DontNarrow"]
FilterKeeps == Done => \A n \in 0..2 :
    LET xs == RsInstances(N, L, tr, Small(n, 0))
        all == Extract(N, L, tr, narrow)
    IN SeqSet(xs) \subseteq SeqSet(all) /\ \A i \in DOMAIN xs : 2 * xs[i][3] > Size(N, CHOOSE x \in xs[i][1] : TRUE) - 1
\* filling an empty trace is finding; filling twice adds nothing when nothing is filtered
FillFinds == Done => LET f == RsFill(N, L, tr, <<>>, [Small(0, 0) EXCEPT !.filter = "NoFilter"])
                         c == [i \in DOMAIN f |-> <<CHOOSE n \in f[i][1] : TRUE, f[i][2], f[i][3]>>]
                     IN /\ f = Extract(N, L, tr, narrow)
                        /\ RsFill(N, L, tr, c, [Small(0, 0) EXCEPT !.filter = "NoFilter"]) = [i \in DOMAIN c |-> <<{c[i][1]}, c[i][2], c[i][3]>>]
Ev2 == <<Ev>>
LogsCover == Done => LET a == <<Abstract(N, Ev, is, FALSE, "none")>> IN
    SumSet({SumSeq([i \in DOMAIN p[2] |-> Len(p[2][i])]) * 100 + p[1] : p \in LogsOfEvents(a)})
      = SumSet({SumSeq([i \in DOMAIN p[2] |-> Len(p[2][i])]) * 100 + p[1] : p \in LogsOfInstances(N, Ev2, <<is>>, 0)})
=============================================================================
