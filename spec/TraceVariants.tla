---------------------------- MODULE TraceVariants ---------------------------
EXTENDS Variants, TLC, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, k
AsSets(gs) == {SeqSet(gs[i]) : i \in DOMAIN gs}
Why(h, s) ==
    LET log == h.log
        o == s.obs IN
    IF o.err # "" THEN {s.op \o " failed: " \o o.err}
    ELSE Failing({<<"the given log was altered", o.given = h.events>>,
                  <<"other attributes were altered", o.rest>>})
    \cup (CASE s.op = "split" -> Failing({
            <<"groups are not the variants", AsSets(o.groups) = Partition(log)>>,
            <<"a trace is in several groups or twice in one",
              SumSeq([i \in DOMAIN o.groups |-> Len(o.groups[i])]) = Len(log)>>})
          [] s.op = "filter" -> Failing({
            <<"kept traces are not one per variant",
                 /\ SeqSet(o.kept) \subseteq DOMAIN log
                 /\ DistinctSeq(o.kept)
                 /\ \A g \in Partition(log) : Cardinality(g \cap SeqSet(o.kept)) = 1>>,
            <<"a kept trace was altered", \A i \in DOMAIN o.kept : o.kept[i] \in DOMAIN log => o.log[i] = h.events[o.kept[i]]>>})
          [] s.op = "merge" -> Failing({<<"merged log is not one trace", Len(o.merged) = 1>>,
                <<"merged trace", Len(o.merged) # 1 \/ MergedOk(h.events, o.merged[1])>>}))
TraceInit == t \in 1..Len(Hist) /\ k = 0
TraceNext == /\ k < Len(Hist[t].steps) /\ k' = k + 1 /\ t' = t
             /\ LET v == Why(Hist[t], Hist[t].steps[k + 1]) IN
                IF v = {} THEN TRUE ELSE PrintT("BAD " \o ToJson([h |-> t, k |-> k + 1, why |-> v]))
=============================================================================
