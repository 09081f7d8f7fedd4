--------------------------- MODULE TraceActivities --------------------------
(* Recorded histories of activity discovery, adjusting, abstraction and      *)
(* splitting.  Each step records the whole context after it; it is judged    *)
(* against the transition the specification allows from the context before.  *)
EXTENDS Activities, TLC, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, k

Pre(h, j) == IF j = 1 THEN h.init ELSE h.steps[j - 1].obs.st
RECURSIVE AllBelow(_, _)
AllBelow(N, L) == SeqSet(L) \cup UNION {Below(N, L[i]) : i \in DOMAIN L}
InstOk(N, is, ctr) == Failing({
    <<"instances overlap or are out of order", Ordered(is)>>,
    <<"an instance is outside of its trace", Inside(is, Len(ctr))>>,
    <<"an instance holds an event of another activity", OwnEvents(N, is, ctr)>>})
\* new activities of one discovery
NewOk(N, new, fam, level) ==
    LET all == AllBelow(N, new) IN Failing({
    <<"new activities are not those of the patterns", {USet(N, n) : n \in all} = fam /\ Cardinality(all) = Cardinality(fam)>>,
    <<"level of new activities", \A n \in all : N[n].level = level>>})
Same(a, b, what) == Failing({<<what, a = b>>})

ExtractWhy(N, L, log, inst, map, narrow, f) ==
    IF Len(inst) # Len(log) THEN {"one list of instances per trace"}
    ELSE UNION {LET c == MapTr(map, Cls(log[i])) IN
                InstOk(N, inst[i], c) \cup
                Failing({<<"instances are not those of the extraction",
                           SameInst(inst[i], Filtered(N, f, Extract(N, L, c, narrow)))>>}) : i \in DOMAIN log}
FillWhy(N, L, log, old, inst, map, narrow, f, mn) ==
    IF Len(inst) # Len(log) THEN {"one list of instances per trace"}
    ELSE UNION {LET c == MapTr(map, Cls(log[i])) IN
                (InstOk(N, inst[i], c) \ {"an instance holds an event of another activity"}) \cup
                Failing({<<"an existing instance was changed or lost", SeqSet(old[i]) \subseteq SeqSet(inst[i])>>,
                         <<"filled gaps are not those of the extraction",
                           SameInst(inst[i], Fill(N, L, c, old[i], narrow, f, mn))>>}) : i \in DOMAIN log}
\* several levels: positions after each level are determined, nodes up to equal candidates
\* of equally small candidates the recorded one is taken, if it is among them
Concrete(xs, rec) == [i \in DOMAIN xs |->
    LET r == {x \in SeqSet(rec) : x[2] = xs[i][2] /\ x[3] = xs[i][3] /\ x[1] \in xs[i][1]} IN
    <<IF r = {} THEN CHOOSE n \in xs[i][1] : TRUE ELSE (CHOOSE x \in r : TRUE)[1], xs[i][2], xs[i][3]>>]
FillAll(N, L, log, inst, map, narrow, f, mn) ==
    [i \in DOMAIN log |-> Fill(N, L, MapTr(map, Cls(log[i])), inst[i], narrow, f, mn)]
RECURSIVE LevelsWhy(_, _, _, _, _, _, _)
LevelsWhy(N, s, log, acts, known, inst, j) ==
    \* known: activities before level j; inst: instances before level j (positions)
    IF j > Len(s.maps) THEN
        Failing({<<"activities of no requested level were added", Len(acts) = Len(known)>>,
                 <<"instances after all levels", \A i \in DOMAIN log : s.obs.st.inst[i] = inst[i]>>})
    ELSE LET level == s.level + j - 1
             rest == SubSeq(acts, Len(known) + 1, Len(acts))
             n == Cardinality({q \in DOMAIN rest : \A p \in 1..q : N[rest[p]].level = level})
             new == SubSeq(rest, 1, n)
             src == MapLog(s.maps[j], ClsLog(IF s.whole THEN log ELSE UnattachedLog(log, inst)))
             all == known \o new
             filled == FillAll(N, all, log, inst, s.maps[j], s.narrow, s.filter, s.min)
         IN NewOk(N, new, Family("maximal", 0, s.merged, src), level)
            \cup LevelsWhy(N, s, log, acts, all, [i \in DOMAIN log |-> Concrete(filled[i], s.obs.st.inst[i])], j + 1)

AbsLog(N, log, inst, hashes, strategy) == [i \in DOMAIN log |-> Abstract(N, log[i], inst[i], hashes, strategy)]
\* one round of repeated discovery; the nodes are given by their names only
RoundWhy(AN, s, r, i, prev) ==
    LET exp == [u \in DOMAIN r.pre |->
                  LET is == [q \in DOMAIN r.inst[u] |-> <<q, r.inst[u][q][2], r.inst[u][q][3]>>]
                      N == [q \in DOMAIN r.inst[u] |-> [uc |-> r.names[u][q][1], nc |-> r.names[u][q][2]]]
                  IN IF Ordered(is) /\ Inside(is, Len(r.pre[u])) THEN Abstract(N, r.pre[u], is, s.hashes, "all") ELSE <<>>]
    IN Failing({
        <<"a round does not start from the result of the one before", r.pre = prev>>,
        <<"instances of a round overlap or are out of order", \A u \in DOMAIN r.pre : Ordered(r.inst[u]) /\ Inside(r.inst[u], Len(r.pre[u]))>>,
        <<"log after a round", r.post = exp>>,
        <<"a round lost or gained events", ExpandLog(r.post) = ExpandLog(r.pre)>>,
        <<"level of a round", SeqSet(r.levels) \subseteq {s.level + (IF s.inc THEN i - 1 ELSE 0)}>>})
    \* with unique names a round is a discovery like any other
    \cup (IF ~s.hashes THEN {} ELSE
          NewOk(AN, r.acts, Family("maximal", 0, s.merged, MapLog(s.map, ClsLog(r.pre))), s.level + (IF s.inc THEN i - 1 ELSE 0))
          \cup ExtractWhy(AN, r.acts, r.pre, r.inst, s.map, s.narrow, s.filter))
\* repeated discovery stops only where nothing is found or a round changed nothing
StopOk(s, p, q) == IF ~s.hashes \/ s.filter.k # "all" THEN TRUE ELSE
    \/ Family("maximal", 0, s.merged, MapLog(s.map, ClsLog(q.log))) = {}
    \/ s.obs.rounds # <<>> /\ LET r == s.obs.rounds[Len(s.obs.rounds)] IN EventsCount(r.pre) = EventsCount(r.post)

Logs2(o) == [i \in DOMAIN o.logs |-> o.logs[i][1]]
SplitWhy(N, s, log, inst, Sel(_, _), Ren(_, _)) ==
    LET o == s.obs
        nms == NamesFor(N, log, inst, Sel) IN Failing({
        <<"activities that have a log", SeqSet(Logs2(o)) = nms /\ DistinctSeq(Logs2(o))>>,
        <<"log of an activity", \A i \in DOMAIN o.logs : o.logs[i][1] \in nms => o.logs[i][2] = LogFor(N, log, inst, o.logs[i][1], Sel, Ren)>>,
        <<"an activity log shares its events with the log", o.own>>,
        <<"pipeline per activity log: not once per activity on its log and name",
            /\ Len(o.each) = Len(o.logs)
            /\ {<<o.each[i][1], o.each[i][2]>> : i \in DOMAIN o.each} = {<<o.logs[i][1], o.logs[i][2]>> : i \in DOMAIN o.logs}
            /\ \A i \in DOMAIN o.each : o.each[i][3]>>,
        <<"pipeline per activity log changed the surrounding context", o.kept>>})

Why(h, j) ==
    LET s == h.steps[j]
        o == s.obs
        N == h.nodes IN
    IF o.err # "" THEN {s.op \o " failed: " \o o.err}
    ELSE LET p == Pre(h, j)  q == o.st IN
    Failing({<<"events or activities were altered", o.intact>>}) \cup
    (CASE s.op \in {"discover", "sets", "given", "clear"} -> Same(q.log, p.log, "the log was altered")
      [] s.op = "instances" -> Same(q.log, p.log, "the log was altered") \cup Same(q.acts, p.acts, "activities were altered")
            \cup ExtractWhy(N, q.acts, q.log, q.inst, s.map, s.narrow, s.filter)
      [] s.op = "high" -> Same(q.log, p.log, "the log was altered")
            \cup ExtractWhy(N, q.acts, q.log, q.inst, s.map, s.narrow, s.filter)
            \cup NewOk(N, q.acts, Family(s.kind, s.bound, s.merged, MapLog(s.map, ClsLog(p.log))), s.level)
      [] s.op = "unattached" -> Same(q, p, "the context was altered")
            \cup Same(o.rest, UnattachedLog(p.log, p.inst), "unattached events")
            \cup LET n == EventsCount(p.log)  m == EventsCount(UnattachedLog(p.log, p.inst)) IN
                 Failing({<<"share of unattached events",
                    IF n = 0 THEN TRUE ELSE o.share * n - m * 1000000 <= n /\ m * 1000000 - o.share * n <= n>>})
      [] s.op = "fill" -> Same(q.log, p.log, "the log was altered") \cup Same(q.acts, p.acts, "activities were altered")
            \cup FillWhy(N, q.acts, p.log, p.inst, q.inst, s.map, s.narrow, s.filter, s.min)
      [] s.op = "adjust" -> Same(q.log, p.log, "the log was altered")
            \cup Failing({<<"known activities were removed or reordered", IsPrefix(p.acts, q.acts)>>})
            \cup (IF ~IsPrefix(p.acts, q.acts) THEN {} ELSE
                  NewOk(N, SubSeq(q.acts, Len(p.acts) + 1, Len(q.acts)),
                        Family("maximal", 0, s.merged, MapLog(s.map, ClsLog(IF s.whole THEN p.log ELSE UnattachedLog(p.log, p.inst)))),
                        s.level))
            \cup FillWhy(N, q.acts, p.log, p.inst, q.inst, s.map, s.narrow, s.filter, s.min)
      [] s.op = "levels" -> Same(q.log, p.log, "the log was altered")
            \cup (IF ~IsPrefix(p.acts, q.acts) THEN {"known activities were removed or reordered"}
                  ELSE IF Len(q.inst) # Len(q.log) THEN {"one list of instances per trace"}
                  ELSE LevelsWhy(N, s, p.log, q.acts, p.acts, p.inst, 1))
      [] s.op = "abstract" ->
            Failing({<<"abstracted log", q.log = AbsLog(N, p.log, p.inst, s.hashes, s.strategy)>>,
                     <<"activities of abstracted events", q.stands = [i \in DOMAIN p.log |-> StandFor(p.stands[i], p.inst[i], s.strategy)]>>,
                     <<"abstraction lost or gained events", s.strategy # "all" \/ ExpandLog(q.log) = ExpandLog(p.log)>>,
                     <<"underlying events are not copies", o.copies>>})
      [] s.op = "substitute" -> Failing({<<"substituted log", q.log = ExpandLog(p.log)>>})
      [] s.op = "count" -> Same(q, p, "the context was altered") \cup
            Failing({<<"number of underlying events", o.n = UnderlyingCount(p.log) /\ o.printed = o.n>>})
      [] s.op = "until" ->
            UNION {RoundWhy(N, s, o.rounds[i], i, IF i = 1 THEN p.log ELSE o.rounds[i - 1].post) : i \in DOMAIN o.rounds}
            \cup Failing({<<"result is not the last round", q.log = (IF o.rounds = <<>> THEN p.log ELSE o.rounds[Len(o.rounds)].post)>>,
                          <<"repeated discovery lost or gained events", ExpandLog(q.log) = ExpandLog(p.log)>>,
                          <<"number of underlying events", o.n = UnderlyingCount(p.log)>>,
                          <<"repeated discovery stopped early", StopOk(s, p, q)>>})
      [] s.op = "split" -> Same(q, p, "the context was altered") \cup
            SplitWhy(N, s, p.log, p.inst, LAMBDA u, x : N[x[1]].level = s.level, LAMBDA x, tr : Named(s.map, tr))
      [] s.op = "promote" -> Same(q, p, "the context was altered") \cup
            LET up(x, tr) == {ThroughLevels(s.maps, N[x[1]].level, s.level, tr[i][1]) : i \in DOMAIN tr}
                own(x) == {M(s.maps[s.level + 1], c) : c \in USet(N, x[1])} IN
            SplitWhy(N, s, p.log, p.inst,
                LAMBDA u, x : \/ N[x[1]].level = s.level
                              \/ N[x[1]].level < s.level /\ up(x, Slice(p.log[u], x[2], x[3])) = own(x),
                LAMBDA x, tr : IF ~s.adjust THEN tr
                               ELSE [i \in DOMAIN tr |-> <<ThroughLevels(s.maps, N[x[1]].level, s.level, tr[i][1]), tr[i][2], tr[i][3]>>]))

TraceInit == t \in 1..Len(Hist) /\ k = 0
TraceNext == /\ k < Len(Hist[t].steps) /\ k' = k + 1 /\ t' = t
             /\ LET v == Why(Hist[t], k + 1) IN
                IF v = {} THEN TRUE ELSE PrintT("BAD " \o ToJson([h |-> t, k |-> k + 1, why |-> v]))
=============================================================================
