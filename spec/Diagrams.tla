------------------------------ MODULE Diagrams -------------------------------
(* Diagrams of a log: each trace is a row of adjacent tiles. A log is a       *)
(* sequence of traces of classes; marks[i] are the instances (or patterns)    *)
(* of trace i: [s, l, n] (first position from 0, length, what it is an        *)
(* instance of), in order and without overlap.                                *)
(* A tile is [x, y, w, h, who]; who is a name, or Gap. Scales are integers.    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
Gap == "gap"
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Ordered(ms, n) == \A i \in DOMAIN ms : /\ ms[i].l >= 1 /\ ms[i].s >= 0 /\ ms[i].s + ms[i].l <= n
                                       /\ i > 1 => ms[i].s >= ms[i - 1].s + ms[i - 1].l
\* blocks of a trace: instances and the gaps between them
RECURSIVE BlocksFrom(_, _, _)
BlocksFrom(ms, n, at) ==
    IF ms = <<>> THEN (IF at < n THEN <<[s |-> at, l |-> n - at, who |-> Gap]>> ELSE <<>>)
    ELSE LET m == Head(ms) IN
         (IF at < m.s THEN <<[s |-> at, l |-> m.s - at, who |-> Gap]>> ELSE <<>>)
         \o <<[s |-> m.s, l |-> m.l, who |-> m.n]>> \o BlocksFrom(Tail(ms), n, m.s + m.l)
Blocks(ms, n) == BlocksFrom(ms, n, 0)
Events(tr) == [i \in DOMAIN tr |-> [s |-> i - 1, l |-> 1, who |-> tr[i]]]
Row(bs, short, y, ws, hs) == [j \in DOMAIN bs |-> [x |-> (IF short THEN j - 1 ELSE bs[j].s) * ws, y |-> y * hs,
                                                   w |-> (IF short THEN 1 ELSE bs[j].l) * ws, h |-> hs, who |-> bs[j].who]]
Only(ms, who) == SelectSeq(ms, LAMBDA m : m.n = who)
\* d: the diagram; d.k its kind
RowsOf(d) == [i \in DOMAIN d.log |->
    CASE d.k \in {"classes", "placement"} -> Row(Events(d.log[i]), FALSE, i - 1, d.ws, d.hs)
      [] d.k \in {"activities", "patterns"} -> Row(Blocks(d.marks[i], Len(d.log[i])), d.short, i - 1, d.ws, d.hs)
      [] d.k = "single" -> Row(Blocks(Only(d.marks[i], d.who), Len(d.log[i])), FALSE, i - 1, d.ws, d.hs)]
TilesOf(d) == Flat(RowsOf(d))
Black(d, who) == who = Gap \/ (d.k = "placement" /\ who \notin ToSet(d.sel))
\* what the legend has to name
Legend(d) == {tl.who : tl \in ToSet(TilesOf(d))}
\* occurrences of a single activity may be told apart by colours
Coloured(d) == IF d.k = "single" /\ d.diff THEN {} ELSE {w \in Legend(d) : ~Black(d, w)}
-------------------------------------------------------------------------------
\* palettes: partial functions from names to colours
Extends(p, q) == DOMAIN p \subseteq DOMAIN q /\ \A n \in DOMAIN p : q[n] = p[n]
OneToOne(p) == \A a, b \in DOMAIN p : p[a] = p[b] => a = b
=============================================================================
