------------------------------ MODULE TraceRsXes ------------------------------
EXTENDS RsXes, TLC, IOUtils, Json
VARIABLES t, k
Hist == ndJsonDeserialize(IOEnv.TRACES)
Failing(cs) == {c[1] : c \in {x \in cs : ~x[2]}}

\* logs come as JSON: dictionaries are arrays of pairs
LogIn(o) == [exts |-> o.exts, cls |-> o.cls, props |-> o.props, globs |-> {<<g[1], ToSet(g[2])>> : g \in ToSet(o.globs)},
             traces |-> [i \in DOMAIN o.traces |-> [j \in DOMAIN o.traces[i] |-> [name |-> o.traces[i][j].name, time |-> o.traces[i][j].time, data |-> ToSet(o.traces[i][j].data)]]]]
Prev(h, j) == LogIn(h.steps[j - 1].obs.log)
Changed(l, s) == [l EXCEPT !.traces[s.i][s.j] = CASE s.key = NameKey -> [@ EXCEPT !.name = s.v] [] s.key = TimeKey -> [@ EXCEPT !.time = s.v]
                                                 [] OTHER -> [@ EXCEPT !.data = Put(@, s.key, s.v)]]
Parts(got, want) == {<<"extensions", got.exts = want.exts>>, <<"classifiers", got.cls = want.cls>>, <<"properties", BagOf(got.props) = BagOf(want.props)>>,
                     <<"defaults", got.globs = want.globs>>, <<"traces", got.traces = want.traces>>}
OnceEach(s, S) == ToSet(s) = S /\ Len(s) = Cardinality(S)
Why(h, j) ==
    LET s == h.steps[j]
        o == s.obs
    IN IF o.err # "" THEN {"raised: " \o o.err}
       ELSE CASE s.op = "read" -> Failing({<<"no log", o.some>>} \cup IF ~o.some THEN {} ELSE Parts(LogIn(o.log), IF s.whole THEN Meaning(s.doc) ELSE ReadTags(s.tags)))
              [] s.op = "nothing" -> Failing({<<"a log out of nothing", ~o.some>>})
              [] s.op = "set" -> Failing(Parts(LogIn(o.log), Changed(Prev(h, j), s)))
              [] s.op = "write" -> LET l == Prev(h, j)
                                   IN Failing({<<"well formed", o.formed>>, <<"log changed", LogIn(o.log) = l>>}
                                              \cup IF o.formed THEN {<<"written " \o c[1], c[2]>> : c \in Parts(Meaning(o.doc), Kept(l))} ELSE {})
              [] s.op = "reread" -> Failing({<<"no log", o.some>>} \cup IF ~o.some THEN {} ELSE Parts(LogIn(o.log), Kept(Prev(h, j))))
              [] s.op = "net" -> Failing({<<"well formed", o.formed>>} \cup IF ~o.formed THEN {} ELSE
                    {<<"places", OnceEach(o.places, DOMAIN s.net.places)>>,
                     <<"transitions", OnceEach(o.trans, {<<i, s.net.trans[i].data>> : i \in DOMAIN s.net.trans})>>,
                     <<"arcs", OnceEach(o.arcs, ArcsOf(s.net))>>, <<"identifiers", o.unique>>})
TraceInit == t \in 1..Len(Hist) /\ k = 0
TraceNext == /\ k < Len(Hist[t].steps) /\ k' = k + 1 /\ t' = t
             /\ LET v == Why(Hist[t], k + 1)
                IN IF v = {} THEN TRUE ELSE PrintT("BAD " \o ToJson([h |-> t, k |-> k + 1, why |-> v]))
=============================================================================
