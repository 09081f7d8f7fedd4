------------------------------- MODULE MCTexts ------------------------------
EXTENDS Texts, TLC, Json
CONSTANTS NC, NL
VARIABLES t, es, mode
\* characters 1..NC; separators of one and two characters
Seps == {<<1>>, <<1, 2>>, <<1, 1>>}
Init == t = <<>> /\ es \in Seps /\ mode = "line"
Next == Len(t) < NL /\ (\E c \in 1..NC : t' = Append(t, c)) /\ UNCHANGED <<es, mode>>
ReadsBack == Join(Cut(t, es), es) = t
Clean == \A i \in DOMAIN Cut(t, es) : ~Occurs(Cut(t, es)[i], es)
\* names without any character of the separators come back
Back == LET log == Cut(t, <<3>>) IN
        (\A i \in DOMAIN log : \A j \in DOMAIN log[i] : log[i][j] \notin {es[x] : x \in DOMAIN es}) => Cut(Join(log, es), es) = log
Emit == PrintT("CASE " \o ToJson([t |-> t, es |-> es]))
=============================================================================
