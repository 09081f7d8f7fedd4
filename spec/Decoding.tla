------------------------------ MODULE Decoding -------------------------------
(* What the backend sends and what is drawn of it. Identifiers, texts and     *)
(* real numbers are tokens (naturals) that the binding makes concrete.        *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions
NoText == 0                        \* the empty text
NoMark == [has |-> FALSE, ms |-> <<>>]
EmptyNet == [places |-> <<>>, trans |-> <<>>, im |-> NoMark, fm |-> NoMark]
EmptyGraph == [nodes |-> <<>>, edges |-> <<>>]
-------------------------------------------------------------------------------
\* identifiers of a net: places, transitions and arcs draw from one supply
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
ArcsOf(tr) == tr.inc \o tr.out
NetArcs(n) == Flat([i \in DOMAIN n.trans |-> ArcsOf(n.trans[i])])
IdsOf(s) == [i \in DOMAIN s |-> s[i].id]
NetIds(n) == IdsOf(n.places) \o IdsOf(n.trans) \o IdsOf(NetArcs(n))
Fresh(n) == Len(NetIds(n)) + 1
PlaceIds(n) == ToSet(IdsOf(n.places))
GoodNet(n) == /\ IsInjective(NetIds(n))
              /\ \A i \in DOMAIN NetArcs(n) : NetArcs(n)[i].place \in PlaceIds(n)
              /\ \A i \in DOMAIN n.im.ms : n.im.ms[i].place \in PlaceIds(n)
              /\ \A i \in DOMAIN n.fm.ms : n.fm.ms[i].place \in PlaceIds(n)
\* the content of a message is the value: elements, their order and their fields
DecodeNet(n) == n
DecodeGraph(g) == g
-------------------------------------------------------------------------------
(* Pictures: vertices and edges as bags (sequences up to order)              *)
MarkedBy(m) == {m.ms[i].place : i \in DOMAIN m.ms}
MarkOf(n, p) == IF p \in MarkedBy(n.im) THEN (IF p \in MarkedBy(n.fm) THEN "both" ELSE "initial")
                ELSE IF p \in MarkedBy(n.fm) THEN "final" ELSE "none"
\* ann: sequence of [ent, val]; a label of an edge is <<"val", v>> or <<"none">>
LabelOf(ann, id) == IF \E i \in DOMAIN ann : ann[i].ent = id
                    THEN ann[CHOOSE i \in DOMAIN ann : ann[i].ent = id].val ELSE -1
NetVertices(n, show) ==
    [i \in DOMAIN n.places |-> [id |-> n.places[i].id, kind |-> "place", mark |-> MarkOf(n, n.places[i].id),
        text |-> IF MarkOf(n, n.places[i].id) = "none" /\ show THEN n.places[i].name ELSE NoText]]
    \o [i \in DOMAIN n.trans |-> [id |-> n.trans[i].id, kind |-> "transition", mark |-> "none", text |-> n.trans[i].data]]
NetEdges(n, ann) ==
    Flat([i \in DOMAIN n.trans |->
        [j \in DOMAIN n.trans[i].inc |-> [from |-> n.trans[i].inc[j].place, to |-> n.trans[i].id, label |-> LabelOf(ann, n.trans[i].inc[j].id)]]
        \o [j \in DOMAIN n.trans[i].out |-> [from |-> n.trans[i].id, to |-> n.trans[i].out[j].place, label |-> LabelOf(ann, n.trans[i].out[j].id)]]])
GraphVertices(g) == [i \in DOMAIN g.nodes |-> [id |-> g.nodes[i].id, text |-> g.nodes[i].data]]
GraphEdges(g) == [i \in DOMAIN g.edges |-> [from |-> g.edges[i].from, to |-> g.edges[i].to, text |-> g.edges[i].data]]
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A x \in ToSet(a) \cup ToSet(b) : Count(a, x) = Count(b, x)
-------------------------------------------------------------------------------
(* Coloured logs: a trace is a sequence of blocks [c, start, len, name]      *)
Before(tr, j) == FoldLeft(LAMBDA a, b : a + b.len, 0, SubSeq(tr, 1, j - 1))
\* scales and coordinates are in halves of a unit; a rectangle is [x, y, w, h, c]
Tile(log, i, j, ws, hs) == [x |-> Before(log[i], j) * ws, y |-> (i - 1) * hs, w |-> log[i][j].len * ws, h |-> hs, c |-> log[i][j].c]
Tiles(log, ws, hs) == Flat([i \in DOMAIN log |-> [j \in DOMAIN log[i] |-> Tile(log, i, j, ws, hs)]])
Width(tr) == Before(tr, Len(tr) + 1)
\* the legend: every name, with its colour
LegendOf(log) == {[name |-> b.name, c |-> b.c] : b \in ToSet(Flat(log))}
\* the colour of a name is unique
Coherent(log) == \A a, b \in ToSet(Flat(log)) : a.name = b.name => a.c = b.c
Moved(ts, dx, dy) == [i \in DOMAIN ts |-> [ts[i] EXCEPT !.x = @ + dx, !.y = @ + dy]]
-------------------------------------------------------------------------------
(* Data sets: rows of integers (their squared distances survive a rotation), *)
(* names of columns and rows, one label and one colour per row               *)
RECURSIVE Dist(_, _)
Dist(a, b) == IF a = <<>> THEN 0 ELSE (Head(a) - Head(b)) * (Head(a) - Head(b)) + Dist(Tail(a), Tail(b))
RowsWith(labels, l) == SetToSortSeq({i \in DOMAIN labels : labels[i] = l}, <)
ColourOf(d, l) == d.colors[Max({i \in DOMAIN d.labels : d.labels[i] = l})]
Groups(d) == LET ls == SetToSortSeq(ToSet(d.labels), <) IN
    [i \in DOMAIN ls |-> [label |-> ls[i], c |-> ColourOf(d, ls[i]), rows |-> RowsWith(d.labels, ls[i])]]
Gaps(rows, order) == [i \in DOMAIN order |-> [j \in DOMAIN order |-> Dist(rows[order[i]], rows[order[j]])]]
=============================================================================
