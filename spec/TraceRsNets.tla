----------------------------- MODULE TraceRsNets ------------------------------
EXTENDS RsNets, TLC, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, k
Failing(X) == {x[1] : x \in {y \in X : ~y[2]}}
Discovered(op, s, log, net) ==
    LET got == BagOf(PlacesOf(net)) C == Classes(log) IN
    IF op = "heur" THEN Failing({<<op \o ": one transition per class", OnePerClass(net, C)>>,
                                 <<op \o ": places", got = BagOf(HeurPlaces(log, s.p))>>})
    ELSE LET red == IF op = "alpha" THEN log ELSE Without(log, OneLoops(log)) IN
         Failing({<<op \o ": one transition per class", OnePerClass(net, C)>>,
                  <<op \o ": nothing is silent", \A i \in DOMAIN net.trans : net.trans[i].label # "">>,
                  <<op \o ": single arcs", SingleArcs(net)>>,
                  <<op \o ": places", IF op = "alpha" THEN got = BagOf(AlphaPlaces(log))
                                      ELSE got = BagOf(PlusPlaces(log, log)) \/ got = BagOf(PlusPlaces(log, red))>>,
                  <<op \o ": initial marking", net.hasim /\ OneTokenAt(net, net.im, <<{}, VS(Firsts(red))>>)>>,
                  <<op \o ": final marking", net.hasfm /\ OneTokenAt(net, net.fm, <<VS(Lasts(red)), {}>>)>>})
\* start and end places are added, the rest stays
Ensured(log, old, net) ==
    LET F == Firsts(log) \cap Labels(old) L == Lasts(log) \cap Labels(old) IN
    Failing({<<"marking: places", BagOf(PlacesOf(net)) = BagOf(PlacesOf(old) \o << <<{}, VS(F)>>, <<VS(L), {}>> >>)>>,
             <<"marking: transitions", Len(net.trans) = Len(old.trans)>>,
             <<"marking: one token at the start", net.hasim /\ OneTokenAt(net, net.im, <<{}, VS(F)>>)>>})
ReplayWhy(log, net, r) ==
    IF ~net.hasim THEN Failing({<<"replay without initial marking", Len(log) = 0 \/ ~r.some>>})
    ELSE IF ~r.some \/ Len(r.traces) # Len(log) THEN {"replay: one result per trace"}
    ELSE UNION {LET x == r.traces[i] IN
        IF x.some THEN Failing({<<"replay: not a firing sequence of the trace", IsReplay(net, log[i], x.fired)>>})
        ELSE Failing({<<"replay: the trace can be replayed", ~Replayable(net, log[i])>>}) : i \in DOMAIN log}
\* -1: no value
Vals(a, i) == {a.arcs[i].pre[j] : j \in DOMAIN a.arcs[i].pre} \cup {a.arcs[i].post[j] : j \in DOMAIN a.arcs[i].post}
Near(v, n, d) == LET x == (n * 1000000) \div d IN v >= x - 1 /\ v <= x + 2
AnnWhy(op, s, log, net, a) ==
    LET all == \A w \in Range2(log) : Replayable(net, w) IN
    IF ~net.hasim THEN Failing({<<op \o " without initial marking", Len(log) = 0 \/ ~a.some>>})
    ELSE IF s.term /\ ~all THEN Failing({<<op \o ": some trace cannot be replayed", ~a.some>>})
    ELSE IF ~a.some THEN {op \o ": no annotation"}
    ELSE IF Determined(net) THEN
         LET tot == TotalArcs(net, log) IN
         Failing({<<op \o ": values", \A i \in DOMAIN net.trans : \A v \in Vals(a, i) :
                    LET n == Fires(net, log, i) IN
                    IF n = 0 THEN v \in {-1, 0}
                    ELSE CASE op = "count" -> v = n
                           [] op = "freq" -> Near(v, n, tot)
                           [] OTHER -> Near(v, n, Len(log))>>})
    ELSE Failing({<<op \o ": the arcs of a transition differ", \A i \in DOMAIN net.trans : Cardinality(Vals(a, i) \ {-1}) <= 1>>,
                  <<op \o ": events", op # "count" \/ \A c \in Labels(net) :
                       LET T == {i \in DOMAIN net.trans : net.trans[i].label = c} IN
                       (\A i \in T : Vals(a, i) # {}) =>
                       FoldLeft(LAMBDA x, i : x + (IF i \in T THEN Max(Vals(a, i) \cup {0}) ELSE 0), 0, [i \in DOMAIN net.trans |-> i]) = Occurs(Replayed(net, log), c)>>})
Why(h, j) ==
    LET s == h.steps[j] o == s.obs op == s.op IN
    IF o.err # "" THEN {op \o " failed: " \o o.err}
    ELSE CASE op \in {"alpha", "plus", "plusplus", "heur"} -> Discovered(op, s, h.log, o.net)
           [] op = "given" -> {}
           [] op = "ensure" -> Ensured(h.log, h.steps[j - 1].obs.net, o.net)
           [] op = "replay" -> ReplayWhy(h.log, o.net, o.res) \cup Failing({<<"replay changed the net", o.net = h.steps[j - 1].obs.net>>})
           [] OTHER -> AnnWhy(op, s, h.log, o.net, o.res) \cup Failing({<<"annotation changed the net", o.net = h.steps[j - 1].obs.net>>})
TraceInit == t \in 1..Len(Hist) /\ k = 0
TraceNext == /\ k < Len(Hist[t].steps) /\ k' = k + 1 /\ t' = t
             /\ LET v == Why(Hist[t], k + 1) IN
                IF v = {} THEN TRUE ELSE PrintT("BAD " \o ToJson([h |-> t, k |-> k + 1, why |-> v]))
===============================================================================
