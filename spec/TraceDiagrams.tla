---------------------------- MODULE TraceDiagrams ----------------------------
EXTENDS Diagrams, Json, IOUtils, TLC
Hist == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, k
Failing(S) == {c[1] : c \in {x \in S : ~x[2]}}
Black0 == "#000000"
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
Box(r) == <<r.x, r.y, r.w, r.h>>
Boxes(s) == [i \in DOMAIN s |-> Box(s[i])]
SameBag(a, b) == Len(a) = Len(b) /\ \A x \in ToSet(a) \cup ToSet(b) : Count(a, x) = Count(b, x)
\* tiles never overlap: the colour at a tile is that of the rectangle with its coordinates
ColourAt(o, tl) == (CHOOSE r \in ToSet(o.rects) : Box(r) = Box(tl)).c
\* patterns are told from patterns, classes and activities from each other
Seen(s) == {<<tl.who, ColourAt(s.obs, tl), s.k = "patterns">> : tl \in {x \in ToSet(TilesOf(s)) : x.who \in Coloured(s)}}
Fits(s) == SameBag(Boxes(TilesOf(s)), Boxes(s.obs.rects))
\* what earlier diagrams of the same execution have shown
RunOf(s) == IF "run" \in DOMAIN s THEN s.run ELSE 0
Past(h, j) == UNION {Seen(h.steps[i]) : i \in {x \in 1..(j - 1) : h.steps[x].obs.err = "" /\ RunOf(h.steps[x]) = RunOf(h.steps[j]) /\ Fits(h.steps[x])}}
Agree(S) == \A a, b \in S : a[3] = b[3] => (a[1] = b[1]) <=> (a[2] = b[2])
Why(h, j) ==
    LET s == h.steps[j]
        o == s.obs IN
    IF o.err # "" THEN {s.k \o ": " \o o.err}
    ELSE IF ~Fits(s) THEN {"tiles at their positions, with their lengths"}
    ELSE LET seen == Seen(s) ts == ToSet(TilesOf(s)) IN Failing({
        <<"gaps and what is not selected are black", \A tl \in ts : Black(s, tl.who) => ColourAt(o, tl) = Black0>>,
        <<"nothing else is black", \A tl \in ts : ~Black(s, tl.who) => ColourAt(o, tl) # Black0>>,
        <<"one colour for one name", Agree(seen)>>,
        <<"the colours of earlier diagrams", Agree(seen) => Agree(seen \cup Past(h, j))>>,
        <<"no legend unless requested", s.legend \/ o.legend = <<>>>>,
        <<"the legend names what is painted",
            s.legend => /\ Len(o.legend) = Cardinality(Legend(s))
                        /\ IF s.k = "patterns"
                           THEN /\ Gap \in Legend(s) <=> [who |-> Gap, c |-> Black0] \in ToSet(o.legend)
                                /\ {l.c : l \in ToSet(o.legend)} = {ColourAt(o, tl) : tl \in ts}
                           ELSE /\ {l.who : l \in ToSet(o.legend)} = Legend(s)
                                /\ \A l \in ToSet(o.legend) : \E tl \in ts : tl.who = l.who /\ ColourAt(o, tl) = l.c>>})
TraceInit == t \in 1..Len(Hist) /\ k = 0
TraceNext == /\ k < Len(Hist[t].steps) /\ k' = k + 1 /\ t' = t
             /\ LET v == Why(Hist[t], k + 1) IN
                IF v = {} THEN TRUE ELSE PrintT("BAD " \o ToJson([h |-> t, k |-> k + 1, why |-> v]))
=============================================================================
