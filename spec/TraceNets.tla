------------------------------- MODULE TraceNets ------------------------------
EXTENDS Nets, Json, IOUtils, TLC
Hist == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, k
Failing(S) == {c[1] : c \in {x \in S : ~x[2]}}
Why(h, j) ==
    LET s == h.steps[j]
        o == s.obs IN
    IF o.err # "" THEN {s.op \o ": " \o o.err}
    ELSE IF ~IsNet(o.net) THEN {"not a net with markings of its own"}
    ELSE Failing({
        <<"every trace is replayed", \A w \in ToSet(s.log) : Replays(o.net, w)>>,
        <<"visible labels are the classes", Labels(o.net) = Classes(s.log)>>,
        <<"markings belong to the net", o.own>>,
        <<"log unchanged", o.log>>,
        <<"other entries unchanged", o.entries>>})
TraceInit == t \in 1..Len(Hist) /\ k = 0
TraceNext == /\ k < Len(Hist[t].steps) /\ k' = k + 1 /\ t' = t
             /\ LET v == Why(Hist[t], k + 1) IN
                IF v = {} THEN TRUE ELSE PrintT("BAD " \o ToJson([h |-> t, k |-> k + 1, why |-> v]))
===============================================================================
