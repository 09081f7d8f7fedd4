----------------------------- MODULE TraceEdits -----------------------------
EXTENDS Edits, TLC, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, k, cur
\* obs: log after the step, the log that was handed in as it is after the step, digests of all other attributes intact
Why(s) ==
    LET o == s.obs IN
    IF o.err # "" THEN {"operation failed: " \o o.err}
    ELSE Failing({
        <<"log after " \o s.op, o.log = Apply(s, cur)>>,
        <<"removal altered the log it was given", s.op \notin Removal \/ o.given = cur>>,
        <<"other attributes were altered", o.rest>>})
TraceInit == t \in 1..Len(Hist) /\ k = 0 /\ cur = Hist[t].init
TraceNext == /\ k < Len(Hist[t].steps) /\ k' = k + 1 /\ t' = t
             /\ LET s == Hist[t].steps[k + 1] IN
                /\ cur' = Apply(s, cur)
                /\ LET v == Why(s) IN IF v = {} THEN TRUE ELSE PrintT("BAD " \o ToJson([h |-> t, k |-> k + 1, why |-> v]))
=============================================================================
