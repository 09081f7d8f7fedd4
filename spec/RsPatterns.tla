----------------------------- MODULE RsPatterns -----------------------------
(* Repeats found over all traces of a log at once: the traces are joined, a  *)
(* separator (one symbol, -5) follows each of them; a trace begins like no   *)
(* other.  Loops and the repeats of single traces are those of Patterns.     *)
EXTENDS Patterns

SEP == -5
RECURSIVE Joined(_)
Joined(log) == IF log = <<>> THEN <<>> ELSE Head(log) \o <<SEP>> \o Joined(Tail(log))
RECURSIVE Offset(_, _)
Offset(log, i) == IF i = 1 THEN 0 ELSE Offset(log, i - 1) + Len(log[i - 1]) + 1

NoSep(w) == SEP \notin SeqSet(w)
\* all separator-free words of the traces
LogWords(log) == UNION {SubWords(log[i]) : i \in DOMAIN log}
JOcc(j, w) == {p \in 0..(Len(j) - Len(w)) : Slice(j, p, Len(w)) = w}
JLeft(j, p) == IF p = 0 \/ j[p] = SEP THEN -(10 + p) ELSE j[p]
JRight(j, w, p) == j[p + Len(w) + 1]
\* the right neighbour when every trace end is unlike anything else
URight(j, w, p) == IF JRight(j, w, p) = SEP THEN -(10 + p) ELSE JRight(j, w, p)

\* The last separator looks like the others, so the last occurrences of what
\* the joined trace ends with can go unnoticed: everything at the positions
\* before the longest such ending is found (strict: everything at all).
RECURSIVE EndRun(_, _)
EndRun(j, n) == IF n >= Len(j) \/ Cardinality(JOcc(j, Slice(j, Len(j) - n - 1, n + 1))) < 2 THEN n ELSE EndRun(j, n + 1)
Found(j, strict) == IF strict THEN Len(j) ELSE Len(j) - EndRun(j, 0)

MergedMax(log, strict) == LET j == Joined(log) f == Found(j, strict) IN
    {w \in LogWords(log) : LET o == {p \in JOcc(j, w) : p < f} IN
        /\ Cardinality(o) >= 2
        /\ Cardinality({JLeft(j, p) : p \in o}) > 1
        /\ Cardinality({JRight(j, w, p) : p \in o}) > 1}
MergedMaxU(log) == LET j == Joined(log) IN
    {w \in LogWords(log) : LET o == JOcc(j, w) IN
        /\ Cardinality(o) >= 2
        /\ Cardinality({JLeft(j, p) : p \in o}) > 1
        /\ Cardinality({URight(j, w, p) : p \in o}) > 1}
=============================================================================
