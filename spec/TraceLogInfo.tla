--------------------------- MODULE TraceLogInfo ---------------------------
(* Validates recorded calls of the log statistics functions.                 *)
EXTENDS LogInfo, TLC, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, k

InfoVerdict(s) ==
    LET o == s.obs  ign == SeqSet(s.ign) IN
    IF o.err # "" THEN {"raised: " \o o.err}
    ELSE Failing({
        <<"occurrence counts", DistinctSeq(o.counts) /\ SeqSet(o.counts) = CountsSpec(s.log, ign)>>,
        <<"directly-follows counts", DistinctSeq(o.pairs) /\ SeqSet(o.pairs) = PairsSpec(s.log, ign, s.fake)>>,
        <<"followers per class", DistinctSeq(o.foll) /\ SeqSet(o.foll) = PairsSpec(s.log, ign, s.fake)>>,
        <<"single-follower set", DistinctSeq(o.single) /\ SeqSet(o.single) = SingleSpec(s.log, ign, s.fake)>>})

PerTraceVerdict(s) ==
    LET o == s.obs IN
    IF o.err # "" THEN {"raised: " \o o.err}
    ELSE Failing({
        <<"per-trace counts", [i \in DOMAIN o.tc |-> [n |-> o.tc[i].n, cs |-> SeqSet(o.tc[i].cs)]] = TraceCountsSpec(s.log)
                               /\ \A i \in DOMAIN o.tc : DistinctSeq(o.tc[i].cs)>>,
        <<"total number of events", o.total = EventsCount(s.log)>>,
        <<"classes satisfying predicate", SeqSet(o.hold) = HoldClasses(s.log, s.ids, SeqSet(s.bad))>>})

Verdict(s) == CASE s.op = "info" -> InfoVerdict(s)
                [] s.op = "pertrace" -> PerTraceVerdict(s)

TraceInit == t \in 1..Len(Hist) /\ k = 0
TraceNext == /\ k < Len(Hist[t].steps) /\ k' = k + 1 /\ t' = t
             /\ LET v == Verdict(Hist[t].steps[k + 1])
                IN IF v = {} THEN TRUE ELSE PrintT("BAD " \o ToJson([h |-> t, k |-> k + 1, why |-> v]))
=============================================================================
