------------------------------- MODULE Reports -------------------------------
(* What printed and saved reports say about the log, the activities and      *)
(* their instances in a context.                                             *)
(*                                                                           *)
(* N: sequence of activities [name, uname, level, kids]; L: the roots; inst: *)
(* per trace <<activity, start, length>>.  Different activities may have the *)
(* same name and an activity several parents.  An event is <<class, id,      *)
(* underlying>> as in module Activities.                                     *)
EXTENDS LogInfo

RECURSIVE Under(_, _)
Under(N, n) == {n} \cup UNION {Under(N, c) : c \in SeqSet(N[n].kids)}
Reached(N, L) == UNION {Under(N, n) : n \in SeqSet(L)}
LevelsOf(N, L) == {N[n].level : n \in SeqSet(L)}
RootsAt(N, L, lv) == SelectSeq(L, LAMBDA n : N[n].level = lv)
NamesOf(N, S) == {N[n].name : n \in S}
\* <<level, names>>, lowest level first, for activities saved by level
Saved(N, L) == [i \in 1..Cardinality(LevelsOf(N, L)) |->
    LET lv == SetToSortSeq(LevelsOf(N, L), <)[i] IN <<lv, NamesOf(N, Reached(N, RootsAt(N, L, lv)))>>]
Used(inst) == UNION {{inst[t][i][1] : i \in DOMAIN inst[t]} : t \in DOMAIN inst}
Indices(N, inst) == [t \in DOMAIN inst |-> [i \in DOMAIN inst[t] |-> <<N[inst[t][i][1]].uname, inst[t][i][2], inst[t][i][3]>>]]
AtLevel(N, inst, lv) == [t \in DOMAIN inst |-> SelectSeq(inst[t], LAMBDA x : N[x[1]].level = lv)]

Classes(log) == [t \in DOMAIN log |-> [i \in DOMAIN log[t] |-> log[t][i][1]]]
InfoOf(cl) == <<Len(cl), SumSeq([t \in DOMAIN cl |-> Len(cl[t])]), Cardinality(ClassesOf(cl))>>
RECURSIVE Leaves(_)
Leaves(tr) == IF tr = <<>> THEN 0 ELSE (IF Head(tr)[3] = <<>> THEN 1 ELSE Leaves(Head(tr)[3])) + Leaves(Tail(tr))
LeavesOf(log) == SumSeq([t \in DOMAIN log |-> Leaves(log[t])])
Followers(cl, sel) == {p \in PairsSpec(cl, {}, TRUE) : p[1] \in sel}
\* sizes of the groups of equal traces, smallest first
VariantSizes(cl) ==
    LET vs == {cl[t] : t \in DOMAIN cl}
        many(v) == Cardinality({t \in DOMAIN cl : cl[t] = v})
        RECURSIVE flat(_)
        flat(S) == IF S = {} THEN <<>> ELSE LET v == CHOOSE x \in S : \A y \in S : many(x) <= many(y) IN <<many(v)>> \o flat(S \ {v})
    IN flat(vs)

--------------------------------------------- (* the list is written line by line *)
\* stack of activities, lines written, activities done
Begin(N, L) == [todo |-> L, out |-> <<>>, done |-> {}]
Line(N, m) == LET n == m.todo[Len(m.todo)]
                  rest == SubSeq(m.todo, 1, Len(m.todo) - 1)
              IN IF n \in m.done THEN [m EXCEPT !.todo = rest]
                 ELSE [todo |-> rest \o N[n].kids, done |-> m.done \cup {n},
                       out |-> IF N[n].name \in SeqSet(m.out) THEN m.out ELSE Append(m.out, N[n].name)]
=============================================================================
