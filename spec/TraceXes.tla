------------------------------ MODULE TraceXes ------------------------------
(* Recorded writing and reading.  A step "save" writes the log held (init or *)
(* the one read last) and reads the file; "doc" reads a given document.      *)
EXTENDS Xes, TLC, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, k
SeqSet(s) == {s[i] : i \in DOMAIN s}
\* recorded dictionaries are sequences of pairs
D(s) == SeqSet(s)
L(x) == [attrs |-> D(x.attrs), exts |-> D(x.exts), cls |-> D(x.cls), props |-> D(x.props),
         globs |-> {<<g[1], D(g[2])>> : g \in D(x.globs)},
         traces |-> [i \in DOMAIN x.traces |-> [attrs |-> D(x.traces[i].attrs),
                        events |-> [j \in DOMAIN x.traces[i].events |-> D(x.traces[i].events[j])]]]]
Held(h, j) == IF j = 1 THEN h.init ELSE h.steps[j - 1].obs.log
Failing(S) == {c[1] : c \in {x \in S : ~x[2]}}
Compare(a, b) == Failing({
    <<"number of traces", Len(a.traces) = Len(b.traces)>>,
    <<"number of events of a trace", Len(a.traces) # Len(b.traces) \/
        \A i \in DOMAIN a.traces : Len(a.traces[i].events) = Len(b.traces[i].events)>>,
    <<"trace attributes", Len(a.traces) # Len(b.traces) \/ \A i \in DOMAIN a.traces : a.traces[i].attrs = b.traces[i].attrs>>,
    <<"events", Len(a.traces) # Len(b.traces) \/ \A i \in DOMAIN a.traces : a.traces[i].events = b.traces[i].events>>,
    <<"log attributes", a.attrs = b.attrs>>,
    <<"extensions", a.exts = b.exts>>,
    <<"classifiers", a.cls = b.cls>>,
    <<"log properties", a.props = b.props>>,
    <<"global defaults", a.globs = b.globs>>})
\* scopes without a default that can be written may be there or not
NoEmpty(l) == [l EXCEPT !.globs = {g \in @ : g[2] # {}}]
Why(h, j) ==
    LET s == h.steps[j]
        o == s.obs IN
    IF o.err # "" THEN {s.op \o " failed: " \o o.err}
    ELSE Failing({<<"writing changed the log", o.same>>, <<"reading twice gives different logs", o.twice>>}) \cup
    CASE s.op = "save" -> Compare(NoEmpty(L(o.log)), NoEmpty(Normal(L(Held(h, j)))))
      [] s.op = "doc" -> Compare(NoEmpty(L(o.log)), NoEmpty(Read([attrs |-> D(s.doc.attrs), items |-> s.doc.items])))
TraceInit == t \in 1..Len(Hist) /\ k = 0
TraceNext == /\ k < Len(Hist[t].steps) /\ k' = k + 1 /\ t' = t
             /\ LET v == Why(Hist[t], k + 1) IN
                IF v = {} THEN TRUE ELSE PrintT("BAD " \o ToJson([h |-> t, k |-> k + 1, why |-> v]))
=============================================================================
