-------------------------------- MODULE Logs --------------------------------
(* Event logs.  A log is a sequence of traces, a trace is a sequence of      *)
(* event classes (natural numbers; the order of the numbers is the           *)
(* lexicographic order of the class names).  Positions reported by the       *)
(* implementation are 0-based.                                               *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

SeqSet(s) == {s[i] : i \in DOMAIN s}

\* 0-based, half-open slice s[pos : pos+n]
Slice(s, pos, n) == [i \in 1..n |-> s[pos + i]]

InBounds(s, pos, n) == pos >= 0 /\ n >= 0 /\ pos + n <= Len(s)

ClassesOf(log) == UNION {SeqSet(log[t]) : t \in DOMAIN log}

CountIn(tr, c) == Cardinality({i \in DOMAIN tr : tr[i] = c})

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

EventsCount(log) == SumSeq([t \in DOMAIN log |-> Len(log[t])])

\* removal of every event whose class is in set C; emptied traces disappear
Keep(tr, C) == SelectSeq(tr, LAMBDA c : c \notin C)
NonEmpty(tr) == tr # <<>>
RemoveClasses(log, C) == SelectSeq([t \in DOMAIN log |-> Keep(log[t], C)], NonEmpty)

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Abs(x) == IF x < 0 THEN -x ELSE x

\* set of pairs/triples given as a sequence, checked to be duplicate free
DistinctSeq(s) == Cardinality(SeqSet(s)) = Len(s)

\* named clauses: the set of the names of those clauses that do not hold
Failing(clauses) == {c[1] : c \in {d \in clauses : ~d[2]}}
=============================================================================
