---------------------------- MODULE TraceBackend ----------------------------
EXTENDS Backend, TLC, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, k
Failing(S) == {c[1] : c \in {x \in S : ~x[2]}}
Pairs(v) == {v[i] : i \in DOMAIN v}
\* what a callback was given, per message: the values of that message
ValuesRight(o, script) == \A i \in DOMAIN o.eff : o.eff[i][1] = "cb" /\ o.eff[i][3] \in DOMAIN script =>
                              Pairs(o.vals[i]) = Pairs(script[o.eff[i][3]].v)
Only(eff, ks) == SelectSeq(eff, LAMBDA e : e[1] \in ks)
Why(h, j) ==
    LET s == h.steps[j]
        o == s.obs
        r == Ran(s.tree, s.script) IN
    IF o.err # "" THEN {"execution: " \o o.err}
    ELSE Failing({
        <<"one request to the backend of the context", o.reqs = <<s.addr>>>>,
        <<"the parts that expect results are in the request", o.waiting = Len(Waiting(s.tree))>>,
        <<"results delivered once, in order, to the addressed parts",
            Only(o.eff, {"cb", "num", "info", "names"}) = Only(r.eff, {"cb", "num", "info", "names"})>>,
        <<"delivered values are those sent", ValuesRight(o, s.script)>>,
        <<"log messages printed in order", Only(o.eff, {"log"}) = Only(r.eff, {"log"})>>,
        <<"results and log messages in order", Only(o.eff, {"cb", "num", "info", "names", "log"}) = Only(r.eff, {"cb", "num", "info", "names", "log"})>>,
        <<"result released once after success only, with its identifier, at the end", Only(o.eff, {"drop"}) = Only(r.eff, {"drop"})
            /\ \A i \in DOMAIN o.eff : o.eff[i][1] = "drop" => i = Len(o.eff)>>,
        <<"final message given to the caller", r.out \in {"ok", "fail"} => o.out = "final" /\ o.fin = r.pos>>,
        <<"failures reach the caller", r.out = "raise" => o.out = "raise">>,
        <<"no success without a final message", r.out = "end" => ~(o.out = "final")>>,
        <<"context of the caller unchanged", o.ctx>>,
        <<"same request as before", o.same>>})
TraceInit == t \in 1..Len(Hist) /\ k = 0
TraceNext == /\ k < Len(Hist[t].steps) /\ k' = k + 1 /\ t' = t
             /\ LET v == Why(Hist[t], k + 1) IN
                IF v = {} THEN TRUE ELSE PrintT("BAD " \o ToJson([h |-> t, k |-> k + 1, why |-> v]))
=============================================================================
