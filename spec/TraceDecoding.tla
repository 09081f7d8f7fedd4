---------------------------- MODULE TraceDecoding ----------------------------
EXTENDS Decoding, Json, IOUtils, TLC
Hist == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, k
Failing(S) == {c[1] : c \in {x \in S : ~x[2]}}
\* the place of both markings may be drawn as either
Plain(v) == IF v.mark = "both" THEN {[v EXCEPT !.mark = "initial"], [v EXCEPT !.mark = "final"]} ELSE {v}
SameVertices(vs, o) == /\ Len(vs) = Len(o) /\ IsInjective(IdsOf(o))
                       /\ \A i \in DOMAIN vs : \E v \in Plain(vs[i]) : v \in ToSet(o)
SamePlaces(a, b) == a.places = b.places /\ [i \in DOMAIN a.trans |-> a.trans[i]] = [i \in DOMAIN b.trans |-> b.trans[i]]
\* one shift for all rectangles
SameTiles(ts, o) == IF ts = <<>> THEN o = <<>>
                    ELSE \E q \in ToSet(o) : SameBag(Moved(ts, q.x - ts[1].x, q.y - ts[1].y), o)
Why(h, j) ==
    LET s == h.steps[j]
        o == s.obs IN
    IF o.err # "" THEN {s.op \o ": " \o o.err}
    ELSE CASE s.op = "net" -> Failing({
            <<"net decoded", SamePlaces(o.dec, s.msg)>>,
            <<"markings decoded", o.dec.im = s.msg.im /\ o.dec.fm = s.msg.fm>>,
            <<"annotation decoded", SameBag(o.ann, s.ann)>>,
            <<"one vertex per place and transition", SameVertices(NetVertices(s.msg, s.show), o.vs)>>,
            <<"one edge per arc", SameBag(NetEdges(s.msg, s.ann), o.es)>>,
            <<"the same picture again", o.same>>})
      [] s.op = "graph" -> Failing({
            <<"graph decoded", o.dec = s.msg>>,
            <<"one vertex per node", SameBag(GraphVertices(s.msg), o.vs)>>,
            <<"one edge per edge", SameBag(GraphEdges(s.msg), o.es)>>})
      [] s.op = "svg" -> Failing({
            <<"vertices of the exported picture", IF s.kind = "net" THEN SameVertices(NetVertices(s.msg, s.show), o.vs) ELSE SameBag(GraphVertices(s.msg), o.vs)>>,
            <<"edges of the exported picture", SameBag(IF s.kind = "net" THEN NetEdges(s.msg, <<>>) ELSE GraphEdges(s.msg), o.es)>>})
      [] s.op = "colors" -> Failing({
            <<"coloured log decoded", o.dec = s.msg>>,
            <<"one rectangle per block, adjacent, in its colour", IF s.how = "plot" THEN SameBag(Tiles(s.msg, s.scale[1], s.scale[2]), o.rects)
                                                            ELSE SameTiles(Tiles(s.msg, s.scale[1], s.scale[2]), o.rects)>>,
            <<"legend", ~s.legend => o.legend = <<>>>>,
            <<"legend names what is painted", s.legend => ToSet(o.legend) = LegendOf(s.msg) /\ IsInjective(o.legend)>>})
      [] s.op = "dataset" -> LET g == Groups(s.msg) IN Failing({
            <<"data set decoded", o.dec = s.msg>>,
            <<"one group per label, in its colour, with all its rows",
                IF s.labelled THEN [i \in DOMAIN g |-> [label |-> g[i].label, c |-> g[i].c, n |-> Len(g[i].rows)]] = o.groups
                ELSE Len(o.groups) = 1 /\ o.groups[1].n = Len(s.msg.rows)>>,
            <<"points are as far from each other as their rows",
                o.gaps = Gaps(s.msg.rows, IF s.labelled THEN Flat([i \in DOMAIN g |-> g[i].rows]) ELSE [i \in DOMAIN s.msg.rows |-> i])>>,
            <<"legend of clusters", s.labelled => o.legend = [i \in DOMAIN g |-> g[i].label]>>})
      [] OTHER -> Failing({<<"decoded", o.dec = s.msg>>})
TraceInit == t \in 1..Len(Hist) /\ k = 0
TraceNext == /\ k < Len(Hist[t].steps) /\ k' = k + 1 /\ t' = t
             /\ LET v == Why(Hist[t], k + 1) IN
                IF v = {} THEN TRUE ELSE PrintT("BAD " \o ToJson([h |-> t, k |-> k + 1, why |-> v]))
=============================================================================
