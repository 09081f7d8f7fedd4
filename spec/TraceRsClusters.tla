---------------------------- MODULE TraceRsClusters ----------------------------
(* Checks recorded clusterings against RsClusters; what comes before them in  *)
(* a history is checked by TraceRsActivities.                                 *)
EXTENDS RsClusters, IOUtils, Json
VARIABLES t, k
Hist == ndJsonDeserialize(IOEnv.TRACES)
Failing(cs) == {c[1] : c \in {x \in cs : ~x[2]}}
None(h) == [log |-> h.log, L |-> <<>>, inst |-> <<>>, hasacts |-> FALSE, hasinst |-> FALSE, pats |-> <<>>]
Pre(h, j) == IF j = 1 THEN None(h) ELSE h.steps[j - 1].obs
Map(s) == IF "shown" \in DOMAIN s THEN s.shown ELSE <<>>
NoDup(xs) == Cardinality(ToSet(xs)) = Len(xs)
BadCls(s) == "bad" \in DOMAIN s
Leafs(tr) == Sum(LAMBDA i : Len(Leaves(tr[i])), DOMAIN tr)

------------------------------------------------------- (* tables of counts *)
\* ws: words in the order of the rows
ValOk(ws, c, i, v) == LET xs == {Count(ws[j], c) : j \in DOMAIN ws} r == Max(xs) - Min(xs)
                      IN IF r = 0 THEN v = 6 ELSE 2 * Abs(v * r - 6 * (Count(ws[i], c) - Min(xs))) <= r
TableFails(ds, ws) ==
    IF Len(ds.rows) # Len(ws) \/ ~NoDup(ds.cols) \/ ToSet(ds.cols) # AllIn(ws) THEN {"columns"}
    ELSE IF Len(ds.vals) # Len(ws) \/ \E i \in DOMAIN ws : Len(ds.vals[i]) # Len(ds.cols) THEN {"shape of the table"}
    ELSE Failing({<<"values", \A i \in DOMAIN ws : \A j \in DOMAIN ds.cols : ValOk(ws, ds.cols[j], i, ds.vals[i][j])>>,
                  <<"values between the sixths", Fine(ws) => ds.exact>>})
WordsFails(ds, ws) ==
    IF Len(ds.rows) # Len(ws) \/ Len(ds.vals) # Len(ws) \/ \E i \in DOMAIN ws : Len(ds.vals[i]) # Len(ds.cols) THEN {"shape of the table"}
    ELSE IF \E i \in DOMAIN ws : Len(ws[i]) > Len(ds.cols) THEN {"columns"}
    ELSE Failing({<<"values", ds.exact /\ Alike(ds.vals, [i \in DOMAIN ws |-> ws[i] \o [j \in 1..(Len(ds.cols) - Len(ws[i])) |-> -9]])>>})
\* whether the rows are given exactly and have a distance
Clear(s, ds, ws) == /\ ds.cols # <<>>
                    /\ s.dist # "Levenshtein" => Fine(ws)
                    /\ s.dist = "Cosine" => \A i \in DOMAIN ds.vals : Dot(ds.vals[i], ds.vals[i]) > 0
LabelFails(s, ds, ws) ==
    IF Len(ds.labels) # Len(ws) \/ Len(ds.colors) # Len(ws) THEN {"labels"}
    ELSE Failing({<<"colours", \A i, j \in DOMAIN ws : (ds.colors[i] = ds.colors[j]) <=> (ds.labels[i] = ds.labels[j])>>,
                  <<"clusters", Clear(s, ds, ws) => Clustered(NearTable(s.dist, s.tol, ds.vals), Len(ws), s.mp, ds.labels)>>})

------------------------------------------------------------ (* activities *)
RowsNodes(N, ch, ds) == [i \in DOMAIN ds.rows |-> CHOOSE n \in ch : N[n].nc = ds.rows[i]]
\* clusters of two and more
Big(labels, rows, noise) == LET S == {l \in ToSet(labels) : l \notin noise /\ Count(labels, l) > 1}
                                ls == SetToSeq(S)
                            IN [i \in DOMAIN ls |-> {rows[j] : j \in {m \in DOMAIN rows : labels[m] = ls[i]}}]
Merged(h, s, p, o, ns, big) ==
    LET N == h.N
        want == TLCEval([x \in DOMAIN p.inst |-> Squash(N, big, p.inst[x])])
        at == {<<x, i>> : x \in DOMAIN want, i \in 1..50}
        ps == {a \in at : a[2] \in DOMAIN want[a[1]]}
        ids == {<<want[a[1]][a[2]][1], o.inst[a[1]][a[2]][1]>> : a \in ps}
        new == {q \in ids : q[1][1] = "new"}
        before == UNION {{p.inst[x][i][1] : i \in DOMAIN p.inst[x]} : x \in DOMAIN p.inst}
        from(b) == {n \in ToSet(ns) : N[n].nc \in big[b]}
    IN IF DOMAIN o.inst # DOMAIN want \/ \E x \in DOMAIN want : Len(o.inst[x]) # Len(want[x]) THEN {"merged instances"}
       ELSE Failing({<<"merged instances", \A a \in ps : o.inst[a[1]][a[2]][2] = want[a[1]][a[2]][2] /\ o.inst[a[1]][a[2]][3] = want[a[1]][a[2]][3]>>,
                     <<"other activities", \A q \in ids : q[1][1] = "old" => q[2] = q[1][2]>>,
                     <<"one activity for a cluster", \A q, r \in ids : (q[1] = r[1]) <=> (q[2] = r[2])>>,
                     <<"new activities", \A q \in new : q[2] \notin before /\ N[q[2]].level = s.level /\ N[q[2]].kids = <<>> /\ N[q[2]].rep = <<>>>>,
                     <<"names of clusters", \A q, r \in new : N[q[2]].nc = N[r[2]].nc => q = r>>,
                     <<"classes of clusters", \A q \in new : ToSet(N[q[2]].set) = UNION {ToSet(N[n].set) : n \in from(q[1][2])}>>})
\* whether the part has to succeed; "may" where the libraries decide
Due(s, n, missing) ==
    IF BadCls(s) \/ missing \/ (s.op # "dataset" /\ s.dist = "Levenshtein") THEN "no"
    ELSE CASE s.op = "dataset" -> "yes"
           [] s.op = "dbscan" -> IF s.tol <= 0 \/ s.mp < 2 THEN "no" ELSE IF n = 0 THEN "may" ELSE "yes"
           [] s.op = "kmeans" -> IF s.k = 0 THEN "no" ELSE IF s.k > n THEN "may" ELSE "yes"
           [] OTHER -> IF n < 3 THEN "no" ELSE IF s.dist = "Cosine" THEN "may" ELSE "yes"
Activities(h, s, p, o) ==
    LET N == h.N
        ch == IF p.hasinst THEN Chosen(N, p.inst, s.level) ELSE {}
        missing == ~p.hasinst \/ (s.src = "EventClasses" /\ \E n \in ch : N[n].rep = <<>>)
        due == Due(s, Cardinality(ch), missing)
        same == {<<"instances changed", o.inst = p.inst>>}
    IN IF due = "no" /\ o.ok THEN {"succeeds"}
       ELSE IF ~o.ok THEN Failing(same \cup {<<"fails", due # "yes">>})
       ELSE IF ~NoDup(o.ds.rows) \/ ToSet(o.ds.rows) # {N[n].nc : n \in ch} THEN {"rows"}
       ELSE LET ns == RowsNodes(N, ch, o.ds)
                ws == TLCEval([i \in DOMAIN ns |-> Looks(p.log, N[ns[i]], s.src, Map(s))])
                tf == TableFails(o.ds, ws)
            IN IF tf # {} THEN tf
               ELSE IF s.op = "dataset" THEN Failing(same)
               ELSE IF Len(o.ds.labels) # Len(ns) THEN {"labels"}
               ELSE Merged(h, s, p, o, ns, Big(o.ds.labels, o.ds.rows, IF s.op = "dbscan" THEN {0} ELSE {}))
                    \cup (IF s.op = "dbscan" THEN LabelFails(s, o.ds, ws)
                          ELSE Failing({<<"colours", \A i, j \in DOMAIN ns : (o.ds.colors[i] = o.ds.colors[j]) <=> (o.ds.labels[i] = o.ds.labels[j])>>,
                                        <<"number of clusters", s.op = "kmeans" => Cardinality(ToSet(o.ds.labels)) <= s.k>>}))

---------------------------------------------------------------- (* traces *)
Groups(log, labels) == LET ls == SetToSeq(ToSet(labels))
                       IN [i \in DOMAIN ls |-> LET js == SetToSortSeq({j \in DOMAIN log : labels[j] = ls[i]}, <) IN [m \in DOMAIN js |-> log[js[m]]]]
SameBag(a, b) == Len(a) = Len(b) /\ \A v \in ToSet(a) \cup ToSet(b) : Count(a, v) = Count(b, v)
Traces(h, s, p, o) ==
    LET ws == TLCEval([i \in DOMAIN p.log |-> Word(p.log[i], s.tsrc, Map(s))])
        no == BadCls(s) \/ s.tol <= 0 \/ s.mp < 2
    IN IF no /\ o.ok THEN {"succeeds"}
       ELSE IF ~o.ok THEN Failing({<<"fails", no \/ p.log = <<>>>>})
       ELSE IF o.ds.rows # [i \in DOMAIN p.log |-> i - 1] THEN {"rows"}
       ELSE LET tf == IF s.dist = "Levenshtein" THEN WordsFails(o.ds, ws) ELSE TableFails(o.ds, ws)
                gs == Groups(p.log, o.ds.labels)
            IN IF tf # {} THEN tf
               ELSE IF Len(o.ds.labels) # Len(ws) THEN {"labels"}
               ELSE LabelFails(s, o.ds, ws)
                    \cup Failing({<<"logs of the clusters", s.how # "fn" \/ SameBag(o.logs, gs)>>,
                                  <<"pipelines over the clusters", s.how = "fn" \/ SameBag(o.sizes, [i \in DOMAIN gs |-> Sum(LAMBDA j : Leafs(gs[i][j]), DOMAIN gs[i])])>>})

Why(h, j) ==
    LET s == h.steps[j]
        o == s.obs
        p == Pre(h, j)
        kept == {<<"log changed", o.log = p.log>>, <<"patterns changed", o.pats = p.pats>>,
                 <<"activities changed", o.hasacts = p.hasacts /\ o.L = p.L>>}
    IN IF o.err # "" THEN {"raised: " \o o.err}
       ELSE CASE s.op \in {"dataset", "dbscan", "kmeans", "grid"} -> Failing(kept \cup {<<"instances changed", o.hasinst = p.hasinst>>}) \cup Activities(h, s, p, o)
              [] s.op = "traces" -> Failing(kept \cup {<<"instances changed", o.hasinst = p.hasinst /\ o.inst = p.inst>>}) \cup Traces(h, s, p, o)
              [] OTHER -> {}
TraceInit == t \in 1..Len(Hist) /\ k = 0
TraceNext == /\ k < Len(Hist[t].steps) /\ k' = k + 1 /\ t' = t
             /\ LET v == Why(Hist[t], k + 1)
                IN IF v = {} THEN TRUE ELSE PrintT("BAD " \o ToJson([h |-> t, k |-> k + 1, why |-> v]))
=============================================================================
