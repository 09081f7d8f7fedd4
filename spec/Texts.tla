-------------------------------- MODULE Texts -------------------------------
(* Logs as text: traces of names joined by separators, and back.             *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
\* a text is a sequence of characters; separators are non-empty texts
Join(parts, sep) == IF parts = <<>> THEN <<>> ELSE FoldLeft(LAMBDA a, b : a \o sep \o b, parts[1], Tail(parts))
IsAt(t, sep, i) == i + Len(sep) - 1 <= Len(t) /\ SubSeq(t, i, i + Len(sep) - 1) = sep
\* left to right, non overlapping
RECURSIVE CutFrom(_, _, _, _)
CutFrom(t, sep, i, cur) ==
    IF i > Len(t) THEN <<cur>>
    ELSE IF IsAt(t, sep, i) THEN <<cur>> \o CutFrom(t, sep, i + Len(sep), <<>>)
    ELSE CutFrom(t, sep, i + 1, Append(cur, t[i]))
Cut(t, sep) == CutFrom(t, sep, 1, <<>>)
Occurs(t, sep) == \E i \in DOMAIN t : IsAt(t, sep, i)
\* a log is a sequence of traces of names
WriteLog(log, ts, es) == Join([i \in DOMAIN log |-> Join(log[i], es)], ts)
WriteLogs(logs, ls, ts, es) == Join([i \in DOMAIN logs |-> WriteLog(logs[i], ts, es)], ls)
ReadLog(lines, es) == [i \in DOMAIN lines |-> Cut(lines[i], es)]
=============================================================================
