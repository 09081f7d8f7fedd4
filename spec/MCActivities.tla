---------------------------- MODULE MCActivities ----------------------------
(* The extraction machine for every small family of activities and trace;    *)
(* afterwards the gaps are filled from a second family, the instances are    *)
(* abstracted and expanded again, for two rounds.                            *)
EXTENDS Activities, TLC, Json
CONSTANTS NC, NL, NS
VARIABLES fam, tr, narrow, phase, m, is
vars == <<fam, tr, narrow, phase, m, is>>
All == (SUBSET (0..(NC - 1))) \ {{}}
\* a hierarchy over the family; larger sets first
Seq0(F) == SetToSortSeq(F, LAMBDA a, b : Cardinality(a) > Cardinality(b) \/ (Cardinality(a) = Cardinality(b) /\ SumSet(a) < SumSet(b)))
ParentOf(F, s) == LET u == Above(F, s) IN IF u = {} THEN {} ELSE CHOOSE x \in Smallest(u) : TRUE
NodesOf(F) == LET q == Seq0(F) IN
    [i \in DOMAIN q |-> [set |-> SetToSeq(q[i]), rank |-> i, level |-> 0, nc |-> 200 + i, uc |-> 300 + i,
                         kids |-> SetToSeq({j \in DOMAIN q : ParentOf(F, q[j]) = q[i]})]]
RootsOf(F) == LET q == Seq0(F) IN SelectSeq([i \in DOMAIN q |-> i], LAMBDA i : ParentOf(F, q[i]) = {})
N == NodesOf(fam)
L == RootsOf(fam)
Fresh == Cardinality(SeqSet(tr))

Init == /\ fam \in {F \in SUBSET All : Cardinality(F) <= NS}
        /\ tr = <<>> /\ narrow \in BOOLEAN /\ phase = "build" /\ m = Boot /\ is = <<>>
Build == /\ phase = "build" /\ Len(tr) < NL /\ \E c \in 0..(NC - 1) : tr' = Append(tr, c)
         /\ UNCHANGED <<fam, narrow, phase, m, is>>
Start == phase = "build" /\ phase' = "run" /\ UNCHANGED <<fam, tr, narrow, m, is>>
Run == phase = "run" /\ ~m.fin /\ m' = Step(N, L, tr, narrow, m) /\ UNCHANGED <<fam, tr, narrow, phase, is>>
Finish == /\ phase = "run" /\ m.fin /\ phase' = "done"
          /\ is' = [i \in DOMAIN m.out |-> <<CHOOSE n \in m.out[i][1] : TRUE, m.out[i][2], m.out[i][3]>>]
          /\ UNCHANGED <<fam, tr, narrow, m>>
Next == Build \/ Start \/ Run \/ Finish

Done == phase = "done"
Sound == Done => Ordered(is) /\ Inside(is, Len(tr)) /\ OwnEvents(N, is, tr)
Progress == phase = "run" => (\A i \in DOMAIN m.out : m.out[i][2] + m.out[i][3] <= m.i) /\ (m.n # 0 => m.seen \subseteq USet(N, m.n))
\* an event is left out only if it belongs to no activity
Complete == Done => \A p \in 0..(Len(tr) - 1) : ~Covered(is, p) => \A i \in DOMAIN L : tr[p + 1] \notin USet(N, L[i])
\* narrowing changes the assigned activity and nothing else, and assigns a smallest one that covers what was seen
NarrowOnlyAssigns == Done => LET a == Extract(N, L, tr, TRUE)  b == Extract(N, L, tr, FALSE) IN
    /\ Len(a) = Len(b)
    /\ \A i \in DOMAIN a : /\ a[i][2] = b[i][2] /\ a[i][3] = b[i][3]
                           /\ LET w == SeqSet(Slice(tr, a[i][2], a[i][3])) IN \A n \in a[i][1] : w \subseteq USet(N, n)
Ev == [i \in DOMAIN tr |-> <<tr[i], i, <<>>>>]
Some == SelectSeq(is, LAMBDA x : x[2] % 2 = 0)
\* unattached and attached events partition the trace; filling keeps what is there and stays ordered
Rest == Done => LET u == Unattached(Ev, Some)
                    att == UNION {SeqSet(Slice(Ev, Some[i][2], Some[i][3])) : i \in DOMAIN Some} IN
    /\ SeqSet(u) \cup att = SeqSet(Ev) /\ SeqSet(u) \cap att = {}
    /\ Len(u) = SumSeq([g \in 1..Cardinality(Gaps(Len(tr), Some)) |-> LET q == SetToSeq(Gaps(Len(tr), Some))[g] IN q[2] - q[1]])
FillKeeps == Done => \A mn \in 1..3 :
    LET f == Fill(N, L, tr, Some, narrow, [k |-> "all"], mn)
        c == [i \in DOMAIN f |-> <<CHOOSE n \in f[i][1] : TRUE, f[i][2], f[i][3]>>] IN
    /\ Ordered(c) /\ Inside(c, Len(tr)) /\ SeqSet(Some) \subseteq SeqSet(c)
    /\ \A i \in DOMAIN c : c[i] \in SeqSet(Some) \/ \E g \in Gaps(Len(tr), Some) : g[1] <= c[i][2] /\ c[i][2] + c[i][3] <= g[2] /\ g[2] - g[1] >= mn
\* abstraction with all events kept is undone by expansion, also after a second round over the abstracted trace
Lossless == Done =>
    LET a == Abstract(N, Ev, is, TRUE, "all")
        i2 == IF Len(a) >= 2 THEN <<<<1, 0, 2>>>> ELSE <<>>
        b == IF fam = {} THEN a ELSE Abstract(N, a, i2, FALSE, "all") IN
    /\ Expand(a) = Ev /\ Expand(b) = Ev /\ Len(a) <= Len(tr)
    /\ Len(Abstract(N, Ev, is, TRUE, "none")) = Len(is)
    /\ Len(Abstract(N, Ev, is, TRUE, "single")) = Len(is) + Cardinality(Gaps(Len(tr), is))
Emit == Done => PrintT("CASE " \o ToJson([sets |-> [i \in DOMAIN Seq0(fam) |-> SetToSeq(Seq0(fam)[i])], tr |-> tr, narrow |-> narrow]))
=============================================================================
