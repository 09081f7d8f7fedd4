-------------------------- MODULE TraceRsActivities --------------------------
EXTENDS RsActivities, TLC, IOUtils, Json
VARIABLES t, k
Hist == ndJsonDeserialize(IOEnv.TRACES)

None(h) == [log |-> h.log, hl |-> <<>>, chl |-> <<>>, pats |-> <<>>, L |-> <<>>, inst |-> <<>>, hasacts |-> FALSE, hasinst |-> FALSE]
Pre(h, j) == IF j = 1 THEN None(h) ELSE h.steps[j - 1].obs
SameFlat(a, b) ==
    /\ DOMAIN a = DOMAIN b /\ \A x \in DOMAIN a : DOMAIN a[x] = DOMAIN b[x]
    /\ LET fa == Whole(a) fb == Whole(b) ps == {<<fa[i], fb[i]>> : i \in DOMAIN fa}
       IN Cardinality(ps) = Cardinality({p[1] : p \in ps}) /\ Cardinality(ps) = Cardinality({p[2] : p \in ps})
KeyOf(pairs, c) == LET p == {q \in SeqSet(pairs) : q[1] = c} IN IF p = {} THEN c ELSE (CHOOSE q \in p : TRUE)[2]
Labels(s, log) == LET c == ClsLog(log) IN
    IF "key" \in DOMAIN s THEN [x \in DOMAIN c |-> [i \in DOMAIN c[x] |-> KeyOf(s.key, c[x][i])]] ELSE c
Word(h, s, c) == IF c = -3 THEN "UNDEFINED_ACTIVITY" ELSE IF c >= 1000 THEN h.more[c - 999]
                 ELSE IF "pre" \in DOMAIN s THEN s.pre[c + 1] ELSE h.names[c + 1]
Old(h, p) == IF p.hasinst THEN p.inst ELSE [x \in DOMAIN p.log |-> <<>>]
AllOk(log, is, P(_)) == \A x \in DOMAIN log : P(x)
SortedSizes(S) == SortSeq(S, <)

Activities2(h, s, p, o) ==
    LET N == h.N
        R == Reach(N, o.L)
        es == RepeatSets(p.chl, p.pats)
    IN Failing({<<"one activity per class set", Cardinality({USet(N, n) : n \in R}) = Cardinality(R)>>,
                <<"class sets", {USet(N, n) : n \in R} = {SetOf(p.chl, es[i][2]) : i \in DOMAIN es}>>,
                <<"level", \A n \in R : N[n].level = s.level>>,
                <<"first occurrence", {<<USet(N, n), N[n].rep>> : n \in R} = {<<SetOf(p.chl, es[i][2]), es[i][2]>> : i \in DOMAIN es}>>,
                <<"hierarchy", RsHierarchyOk(N, R, o.L)>>,
                <<"name", \A n \in R : LET w == Slice(p.log[N[n].rep[1] + 1], N[n].rep[2], N[n].rep[3])
                                      IN N[n].name = Joined([i \in DOMAIN w |-> Word(h, s, w[i][1])])>>})
Instances2(h, L, log, lab, is, want(_)) ==
    LET N == h.N IN
    Failing({<<"instances", DOMAIN is = DOMAIN log /\ \A x \in DOMAIN is : SameInst(is[x], want(x))>>,
             <<"overlap", \A x \in DOMAIN is : Ordered(is[x])>>,
             <<"outside the trace", \A x \in DOMAIN is : Inside(is[x], Len(log[x]))>>})
Why(h, j) ==
    LET s == h.steps[j]
        o == s.obs
        p == Pre(h, j)
        N == h.N
        same == {<<"log changed", o.log = p.log>>}
        sacts == {<<"activities changed", o.hasacts = p.hasacts /\ SeqSet(o.L) = SeqSet(p.L) /\ Len(o.L) = Len(p.L)>>}
        sinst == {<<"instances changed", o.hasinst = p.hasinst /\ o.inst = p.inst>>}
        spats == {<<"patterns changed", o.pats = p.pats>>}
    IN IF o.err # "" THEN {"raised: " \o o.err}
       ELSE CASE s.op = "given" -> Failing(same \cup {<<"tree", Len(o.L) = Len(s.roots)>>, <<"hashes", o.chl = ClsLog(p.log)>>})
              [] s.op = "find" -> Failing(same \cup sacts \cup sinst \cup
                    {<<"hashes", SameFlat(o.chl, Labels(s, p.log))>>,
                     <<"patterns outside", \A x \in DOMAIN o.pats : \A i \in DOMAIN o.pats[x] : InBounds(p.log[x], o.pats[x][i][1], o.pats[x][i][2])>>})
              [] s.op = "activities" -> Failing(same \cup sinst \cup spats) \cup Activities2(h, s, p, o)
              [] s.op = "instances" -> Failing(same \cup sacts \cup spats)
                    \cup (LET want(x) == RsInstances(N, p.L, p.chl[x], s) IN Instances2(h, p.L, p.log, p.chl, o.inst, want))
              [] s.op = "fill" -> Failing(same \cup sacts \cup spats)
                    \cup (LET want(x) == RsFill(N, p.L, o.hl[x], Old(h, p)[x], s) IN Instances2(h, p.L, p.log, o.hl, o.inst, want))
              [] s.op = "abstract" -> Failing(sacts \cup sinst \cup spats \cup
                    {<<"abstraction", o.log = [x \in DOMAIN p.log |-> Abstract(N, p.log[x], p.inst[x], FALSE, Strategy(s))]>>,
                     <<"abstraction cannot be undone", Strategy(s) # "all" \/ ExpandLog(o.log) = ExpandLog(p.log)>>})
              [] s.op = "expand" -> Failing(sacts \cup sinst \cup spats \cup {<<"expansion", o.log = ExpandLog(p.log)>>})
              [] s.op = "clear" -> Failing(same \cup {<<"not cleared", ~o.hasacts /\ ~o.hasinst /\ o.pats = <<>>>>})
              [] s.op = "forget" -> {}
              [] s.op = "count" -> Failing(same \cup sacts \cup sinst \cup spats \cup {<<"underlying events", o.count = UnderlyingCount(p.log)>>})
              [] s.op = "unattached" -> Failing(same \cup sacts \cup sinst \cup spats \cup {<<"unattached events", o.rest = UnattachedLog(p.log, p.inst)>>})
              [] s.op = "logs" ->
                    LET want == IF s.source = "Log" THEN LogsOfEvents(p.log) ELSE LogsOfInstances(N, p.log, p.inst, s.level)
                        ws == SetToSeq(want)
                    IN Failing(same \cup sacts \cup sinst \cup spats \cup
                        {<<"logs of activities", SeqSet(o.logs) = want /\ Len(o.logs) = Cardinality(want)>>,
                         <<"pipelines over activities", o.sizes = SortedSizes([i \in DOMAIN ws |-> UnderlyingCount(ws[i][2])])>>})
              [] s.op = "several" -> Failing(same \cup spats \cup
                    {<<"levels one by one", o.one = o.two>>,
                     <<"activities lost", SeqSet(p.L) \subseteq SeqSet(o.L)>>,
                     <<"instances lost", \A x \in DOMAIN o.inst : SeqSet(Old(h, p)[x]) \subseteq SeqSet(o.inst[x])>>,
                     <<"overlap", \A x \in DOMAIN o.inst : Ordered(o.inst[x]) /\ Inside(o.inst[x], Len(p.log[x]))>>})
              [] s.op = "until" -> Failing(
                    {<<"rounds one by one", o.one = o.two>>,
                     <<"pipeline after each round", o.ran = o.due>>,
                     <<"not cleared", ~o.hasacts /\ ~o.hasinst /\ o.pats = <<>>>>,
                     <<"abstraction cannot be undone", Strategy(s) # "all" \/ ExpandLog(o.log) = ExpandLog(p.log)>>})
TraceInit == t \in 1..Len(Hist) /\ k = 0
TraceNext == /\ k < Len(Hist[t].steps) /\ k' = k + 1 /\ t' = t
             /\ LET v == Why(Hist[t], k + 1)
                IN IF v = {} THEN TRUE ELSE PrintT("BAD " \o ToJson([h |-> t, k |-> k + 1, why |-> v]))
=============================================================================
