----------------------------- MODULE TraceRsLogs -----------------------------
EXTENDS RsLogs, TLC, IOUtils
Hist == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, k

IsSet(s, S) == DistinctSeq(s) /\ SeqSet(s) = S
InfoWhy(tag, o, l, ign, fake) ==
    LET ps == PairsSpec(l, ign, fake) IN
    Failing({<<tag \o "class counts", IsSet(o.counts, CountsSpec(l, ign))>>,
             <<tag \o "directly-follows counts", IsSet(o.pairs, ps)>>,
             <<tag \o "directly-follows relation", IsSet(o.rel, {<<p[1], p[2]>> : p \in ps})>>,
             <<tag \o "followers", IsSet(o.fol, ps)>>,
             <<tag \o "predecessors", IsSet(o.pre, ps)>>,
             <<tag \o "single followers", IsSet(o.single, SingleSpec(l, ign, fake))>>,
             <<tag \o "number of traces", o.traces = Len(l)>>,
             <<tag \o "number of classes", o.nclasses = Cardinality(ClassesOf(l) \ ign)>>,
             <<tag \o "number of events", ign # {} \/ o.events = EventsCount(l)>>,
             <<tag \o "start classes", IsSet(o.start, StartClasses(Kept(l, ign)))>>,
             <<tag \o "end classes", IsSet(o.end, EndClasses(Kept(l, ign)))>>})
GraphWhy(tag, g, l) ==
    Failing({<<tag \o "graph nodes", IsSet(g.nodes, ClassesOf(l))>>,
             <<tag \o "graph edges", IsSet(g.edges, PairsSpec(l, {}, FALSE))>>})
AsMap(s, D) == /\ DistinctSeq(s) /\ {p[1] : p \in SeqSet(s)} = D /\ Len(s) = Cardinality(D)
ValOf(s, c) == (CHOOSE p \in SeqSet(s) : p[1] = c)[2]
CloseMap(s, f, tol) == AsMap(s, DOMAIN f) /\ \A c \in DOMAIN f : Close(ValOf(s, c), f[c], tol)
EntWhy(o, l, ign) ==
    Failing({<<"neighbourhood entropies", CloseMap(o.neigh, NeighAll(l, ign, FALSE), 8)>>,
             <<"neighbourhood entropies, Laplace", CloseMap(o.lap, NeighAll(l, ign, TRUE), 8)>>,
             <<"position entropies", CloseMap(o.pos, PosAll(l, ign), 4)>>,
             <<"position entropies, fast", CloseMap(o.fast, PosAll(l, ign), 4)>>})
Keyed(l, key) == [i \in DOMAIN l |-> [j \in DOMAIN l[i] |-> ValOf(key, l[i][j])]]

Why(h, j) ==
    LET s == h.steps[j] o == s.obs
        prev == IF j = 1 THEN h.log ELSE h.steps[j - 1].obs.log
        l == Apply(prev, s) ign == SeqSet(s.ign)
    IN IF o.err # "" THEN {"raised: " \o o.err}
       ELSE IF o.log # l THEN {"edited log"}
       ELSE Failing({<<"names of the traces", o.vecs = l>>,
                     <<"trace information", DOMAIN o.infos = DOMAIN l /\ \A i \in DOMAIN l :
                            o.infos[i].n = Len(l[i]) /\ IsSet(o.infos[i].cs, TraceCountsSpec(l)[i].cs)>>,
                     <<"event positions", DOMAIN o.poss = DOMAIN l /\ \A i \in DOMAIN l : IsSet(o.poss[i], PositionsSpec(l[i]))>>,
                     <<"variant groups", o.groups = GroupsSpec(l)>>,
                     <<"split by variants", o.split = SplitSpec(l)>>,
                     <<"hashes", SameKernel(o.hashes, l)>>})
            \cup InfoWhy("", o.info, l, ign, s.fake) \cup GraphWhy("", o.dfg, l)
            \cup (IF h.ent THEN EntWhy(o, l, ign) ELSE {})
            \cup (IF h.kind # "pipe" THEN {}
                  ELSE InfoWhy("pipeline: ", o.pinfo, l, {}, FALSE) \cup GraphWhy("pipeline: ", o.pdfg, l)
                       \cup Failing({<<"pipeline: names", o.pnames = l>>,
                                     <<"pipeline: hashes", SameKernel(o.phashes, IF "key" \in DOMAIN s THEN Keyed(l, s.key) ELSE l)>>}))
TraceInit == t \in 1..Len(Hist) /\ k = 0
TraceNext == /\ k < Len(Hist[t].steps) /\ k' = k + 1 /\ t' = t
             /\ LET v == Why(Hist[t], k + 1)
                IN IF v = {} THEN TRUE ELSE PrintT("BAD " \o ToJson([h |-> t, k |-> k + 1, why |-> v]))
=============================================================================
