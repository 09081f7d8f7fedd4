----------------------------- MODULE MCDiagrams -------------------------------
(* All small logs with all instances on them.                                 *)
EXTENDS Diagrams, Json, TLC
CONSTANTS NTr, NEv, NCl, NAct
VARIABLES log, marks
vars == <<log, marks>>
Init == log = <<>> /\ marks = <<>>
Total == FoldLeft(LAMBDA a, b : a + Len(b), 0, log)
NoMarks == \A i \in DOMAIN marks : marks[i] = <<>>
AddTrace == NoMarks /\ Len(log) < NTr /\ log' = Append(log, <<>>) /\ marks' = Append(marks, <<>>)
AddEvent == /\ NoMarks /\ log # <<>> /\ Total < NEv
            /\ \E c \in 1..NCl : log' = [log EXCEPT ![Len(log)] = Append(@, "c" \o ToString(c))]
            /\ UNCHANGED marks
\* instances are added from left to right, traces in any order
AddMark == \E i \in DOMAIN log : \E s \in 0..(Len(log[i]) - 1) : \E l \in 1..(Len(log[i]) - s), n \in 1..NAct :
    /\ \A j \in (i + 1)..Len(log) : marks[j] = <<>>
    /\ marks[i] # <<>> => s >= marks[i][Len(marks[i])].s + marks[i][Len(marks[i])].l
    /\ marks' = [marks EXCEPT ![i] = Append(@, [s |-> s, l |-> l, n |-> "a" \o ToString(n)])]
    /\ UNCHANGED log
Next == AddTrace \/ AddEvent \/ AddMark
D(k, short) == [k |-> k, log |-> log, marks |-> marks, sel |-> <<"c1">>, who |-> "a1", diff |-> FALSE, short |-> short, ws |-> 2, hs |-> 3]
All == {D("classes", FALSE), D("placement", FALSE), D("activities", FALSE), D("activities", TRUE), D("single", FALSE)}
-------------------------------------------------------------------------------
Well == \A i \in DOMAIN log : Ordered(marks[i], Len(log[i]))
\* one row per trace, in order, not overlapping
Rows == \A d \in All : \A i \in DOMAIN log : \A tl \in ToSet(RowsOf(d)[i]) : tl.y = (i - 1) * d.hs /\ tl.h = d.hs
\* adjacent from the left edge, in total as long as the trace
Width(r) == FoldLeft(LAMBDA a, tl : a + tl.w, 0, r)
Adjacent == \A d \in All : \A i \in DOMAIN log : LET r == RowsOf(d)[i] IN
    /\ \A j \in DOMAIN r : r[j].w > 0 /\ r[j].x = (IF j = 1 THEN 0 ELSE r[j - 1].x + r[j - 1].w)
    /\ Width(r) = d.ws * (IF d.short THEN Len(r) ELSE Len(log[i]))
\* every event is under exactly one tile, of what it belongs to
Under(i, p) == IF \E m \in ToSet(marks[i]) : m.s <= p /\ p < m.s + m.l THEN (CHOOSE m \in ToSet(marks[i]) : m.s <= p /\ p < m.s + m.l).n ELSE Gap
Exact == \A d \in All : ~d.short => \A i \in DOMAIN log : \A p \in 0..(Len(log[i]) - 1) :
    LET over == {tl \in ToSet(RowsOf(d)[i]) : tl.x <= p * d.ws /\ p * d.ws < tl.x + tl.w} IN
    /\ Cardinality(over) = 1
    /\ \A tl \in over : tl.who = (CASE d.k \in {"classes", "placement"} -> log[i][p + 1]
                                    [] d.k = "single" -> IF Under(i, p) = d.who THEN d.who ELSE Gap
                                    [] OTHER -> Under(i, p))
\* the short diagram has the blocks of the full one
Short == [i \in DOMAIN log |-> [j \in DOMAIN RowsOf(D("activities", TRUE))[i] |-> RowsOf(D("activities", TRUE))[i][j].who]]
         = [i \in DOMAIN log |-> [j \in DOMAIN RowsOf(D("activities", FALSE))[i] |-> RowsOf(D("activities", FALSE))[i][j].who]]
Legends == \A d \in All : Legend(d) \subseteq {"c1", "c2", "c3", "a1", "a2", "a3", Gap} /\ (d.k = "classes" => Legend(d) = ToSet(Flat(log)))
Emit == PrintT("CASE " \o ToJson([log |-> log, marks |-> marks]))
=============================================================================
