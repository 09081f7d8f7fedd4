---------------------------- MODULE TraceRequests ----------------------------
EXTENDS Requests, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, k
Failing(S) == {c[1] : c \in {x \in S : ~x[2]}}
RECURSIVE Clean(_)
Clean(s) == \A i \in DOMAIN s : s[i].c # "junk" /\ Clean(s[i].b)
\* observed entries carry their settings as sequences
RECURSIVE Ops(_), Sets(_), Once(_), Whos(_)
Ops(r) == [i \in DOMAIN r |-> <<r[i].op, r[i].mode, r[i].keys, r[i].nested, IF r[i].nested THEN Ops(r[i].sub) ELSE <<>>>>]
Sets(r) == [i \in DOMAIN r |-> <<ToSet(r[i].ps), IF r[i].nested THEN Sets(r[i].sub) ELSE <<>>>>]
Once(r) == \A i \in DOMAIN r : Len(r[i].ps) = Cardinality(ToSet(r[i].ps)) /\ (~r[i].nested \/ Once(r[i].sub))
Whos(r) == IF r = <<>> THEN <<>> ELSE <<r[1].who>> \o (IF r[1].nested THEN Whos(r[1].sub) ELSE <<>>) \o Whos(Tail(r))
RECURSIVE Listed(_)
Listed(r) == [i \in DOMAIN r |-> <<r[i].ps, IF r[i].nested THEN Listed(r[i].sub) ELSE <<>>>>]
RECURSIVE AllSpec(_, _), AllObs(_, _)
AllSpec(h, j) == IF j = 0 THEN <<>> ELSE AllSpec(h, j - 1) \o (IF h.steps[j].op = "request" /\ Clean(h.steps[j].tree) THEN Whos(Request(h.steps[j].tree)) ELSE <<>>)
AllObs(h, j) == IF j = 0 THEN <<>> ELSE AllObs(h, j - 1) \o (IF h.steps[j].op = "request" /\ h.steps[j].obs.err = "" THEN Whos(h.steps[j].obs.req) ELSE <<>>)
SameParts(a, b) == Len(a) = Len(b) /\ \A i, j \in DOMAIN a : (a[i] = a[j]) <=> (b[i] = b[j])
Nones(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : (a[i] = 0) <=> (b[i] = 0)
Why(h, j) ==
    LET s == h.steps[j]
        o == s.obs IN
    IF s.op = "names" THEN Failing({<<"the backend knows the names", o.unknown = <<>>>>})
    ELSE IF ~Clean(s.tree) THEN Failing({<<"what is not a part is rejected", o.err # "">>, <<"nothing is sent when it is", o.sent = 0>>})
    ELSE IF o.err # "" THEN {"request: " \o o.err}
    ELSE LET r == Request(s.tree) IN Failing({
        <<"one request", o.sent = 1>>,
        <<"operations in order at every level, with their keys", Ops(o.req) = Ops(r)>>,
        <<"settings under their names", Ops(o.req) = Ops(r) => Sets(o.req) = Listed(r)>>,
        <<"each setting once", Once(o.req)>>,
        <<"parts that expect results carry an identifier", Nones(Whos(o.req), Whos(r))>>,
        <<"identifiers are those of the parts in every request", SameParts(AllObs(h, j), AllSpec(h, j))>>,
        <<"values of the initial context", ToSet(o.ctx) = ToSet(s.ctx) /\ Len(o.ctx) = Len(s.ctx)>>,
        <<"pipeline as a message", o.same>>})
TraceInit == t \in 1..Len(Hist) /\ k = 0
TraceNext == /\ k < Len(Hist[t].steps) /\ k' = k + 1 /\ t' = t
             /\ LET v == Why(Hist[t], k + 1) IN
                IF v = {} THEN TRUE ELSE PrintT("BAD " \o ToJson([h |-> t, k |-> k + 1, why |-> v]))
=============================================================================
