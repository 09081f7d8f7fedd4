------------------------------ MODULE LogInfo ------------------------------
(* Log statistics: how often each event class occurs and how often one class *)
(* directly follows another.  START and END are the artificial endpoints.    *)
EXTENDS Logs

START == -1
END == -2

\* ---- what the numbers mean ------------------------------------------------
Visible(tr, ign) == SelectSeq(tr, LAMBDA c : c \notin ign)
Framed(tr, fake) == IF fake /\ tr # <<>> THEN <<START>> \o tr \o <<END>> ELSE tr
PairsOfTrace(tr) == {<<i, tr[i], tr[i + 1]>> : i \in 1..(Len(tr) - 1)}

ClassCount(log, ign, c) == SumSeq([t \in DOMAIN log |-> CountIn(Visible(log[t], ign), c)])
PairCount(log, ign, fake, a, b) ==
    SumSeq([t \in DOMAIN log |->
        Cardinality({p \in PairsOfTrace(Framed(Visible(log[t], ign), fake)) : p[2] = a /\ p[3] = b})])

PairSet(log, ign, fake) ==
    UNION {{<<p[2], p[3]>> : p \in PairsOfTrace(Framed(Visible(log[t], ign), fake))} : t \in DOMAIN log}

CountsSpec(log, ign) == {<<c, ClassCount(log, ign, c)>> : c \in ClassesOf(log) \ ign}
PairsSpec(log, ign, fake) ==
    {<<p[1], p[2], PairCount(log, ign, fake, p[1], p[2])>> : p \in PairSet(log, ign, fake)}
SingleSpec(log, ign, fake) ==
    LET ps == PairSet(log, ign, fake)
    IN {a \in {p[1] : p \in ps} : Cardinality({p \in ps : p[1] = a}) = 1}
TraceCountsSpec(log) ==
    [t \in DOMAIN log |-> [n |-> Len(log[t]), cs |-> {<<c, CountIn(log[t], c)>> : c \in SeqSet(log[t])}]]

\* classes all of whose events satisfy the predicate; here: the event's id is not in the set Odd
HoldClasses(log, ids, bad) ==
    {c \in ClassesOf(log) :
        \A t \in DOMAIN log : \A i \in DOMAIN log[t] : log[t][i] = c => ids[t][i] \notin bad}

\* ---- how they are computed: one pass, event by event ----------------------
Bump(f, x) == IF x \in DOMAIN f THEN [f EXCEPT ![x] = @ + 1]
              ELSE [y \in DOMAIN f \cup {x} |-> IF y = x THEN 1 ELSE f[y]]

NOPREV == -9
ScanStart == [t |-> 1, i |-> 0, prev |-> NOPREV, cnt |-> [x \in {} |-> 0], prs |-> [x \in {} |-> 0]]
ScanDone(s, log) == s.t > Len(log)
ScanEvent(s, log, ign, fake) ==
    LET tr == log[s.t] IN
    IF s.i = Len(tr)
    THEN [s EXCEPT !.t = @ + 1, !.i = 0, !.prev = NOPREV,
                   !.prs = IF fake /\ s.prev # NOPREV THEN Bump(@, <<s.prev, END>>) ELSE @]
    ELSE LET c == tr[s.i + 1] IN
         IF c \in ign THEN [s EXCEPT !.i = @ + 1]
         ELSE [s EXCEPT !.i = @ + 1, !.prev = c, !.cnt = Bump(@, c),
                        !.prs = IF s.prev # NOPREV THEN Bump(@, <<s.prev, c>>)
                                ELSE IF fake THEN Bump(@, <<START, c>>) ELSE @]

AsCounts(f) == {<<c, f[c]>> : c \in DOMAIN f}
AsPairs(f) == {<<p[1], p[2], f[p]>> : p \in DOMAIN f}
=============================================================================
