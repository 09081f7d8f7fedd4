------------------------------- MODULE RsLogs -------------------------------
(* The event log of the Rust backend: a log is edited step by step; whatever *)
(* is derived from it (statistics, positions, variants, directly-follows     *)
(* graph, entropies) describes the log as it is after the last edit.         *)
(* -3 and -4 are the artificial first and last events.                       *)
EXTENDS Entropy

ASTART == -3
AEND == -4

Renamed(log, C, c) == [t \in DOMAIN log |-> [i \in DOMAIN log[t] |-> IF log[t][i] \in C THEN c ELSE log[t][i]]]
Artificial(log, s, e) ==
    [t \in DOMAIN log |-> (IF s THEN <<ASTART>> ELSE <<>>) \o log[t] \o (IF e THEN <<AEND>> ELSE <<>>)]
NotShort(log, n) == SelectSeq(log, LAMBDA tr : Len(tr) >= n)
FirstOfVariant(log, t) == \A u \in 1..(t - 1) : log[u] # log[t]
RECURSIVE KeepFirst(_, _)
KeepFirst(log, t) == IF t > Len(log) THEN <<>>
                     ELSE (IF FirstOfVariant(log, t) THEN <<log[t]>> ELSE <<>>) \o KeepFirst(log, t + 1)

Apply(log, s) ==
    CASE s.op = "look" -> log
      [] s.op = "clone" -> log
      [] s.op = "name" -> RemoveClasses(log, {s.c})
      [] s.op = "names" -> RemoveClasses(log, SeqSet(s.set))
      [] s.op = "regex" -> RemoveClasses(log, SeqSet(s.set))
      [] s.op = "rename" -> Renamed(log, SeqSet(s.set), s.c)
      [] s.op = "art" -> Artificial(log, s.s, s.e)
      [] s.op = "short" -> NotShort(log, s.n)
      [] s.op = "variants" -> KeepFirst(log, 1)
      [] s.op = "push" -> [log EXCEPT ![s.at + 1] = Append(@, s.c)]
      [] s.op = "insert" -> [log EXCEPT ![s.at + 1] = <<s.c>> \o @]
      [] s.op = "add" -> Append(log, s.tr)

\* ---- derived ----------------------------------------------------------------
\* 0-based indices, groups by first member
Sorted(S) == SetToSortSeq(S, <)
Group(log, t) == {u \in DOMAIN log : log[u] = log[t]}
GroupsSpec(log) ==
    LET firsts == Sorted({t \in DOMAIN log : FirstOfVariant(log, t)})
    IN [i \in DOMAIN firsts |-> [j \in 1..Cardinality(Group(log, firsts[i])) |-> Sorted(Group(log, firsts[i]))[j] - 1]]
SplitSpec(log) == LET g == GroupsSpec(log) IN [i \in DOMAIN g |-> [j \in DOMAIN g[i] |-> log[g[i][j] + 1]]]
PositionsSpec(tr) == {<<c, Sorted({i - 1 : i \in {i \in DOMAIN tr : tr[i] = c}})>> : c \in SeqSet(tr)}
FollowRel(log, ign, fake) == PairSet(log, ign, fake)
StartClasses(log) == {log[t][1] : t \in {t \in DOMAIN log : log[t] # <<>>}}
EndClasses(log) == {log[t][Len(log[t])] : t \in {t \in DOMAIN log : log[t] # <<>>}}

Kept(log, ign) == [t \in DOMAIN log |-> SelectSeq(log[t], LAMBDA c : c \notin ign)]
\* two logs of labels that distinguish the same events
RECURSIVE Flat(_)
Flat(log) == IF log = <<>> THEN <<>> ELSE Head(log) \o Flat(Tail(log))
SameShape(a, b) == /\ DOMAIN a = DOMAIN b /\ \A t \in DOMAIN a : DOMAIN a[t] = DOMAIN b[t]
SameKernel(a, b) ==
    /\ SameShape(a, b)
    /\ LET fa == Flat(a) fb == Flat(b) ps == {<<fa[i], fb[i]>> : i \in DOMAIN fa}
       IN Cardinality(ps) = Cardinality({p[1] : p \in ps}) /\ Cardinality(ps) = Cardinality({p[2] : p \in ps})
=============================================================================
