---------------------------- MODULE TraceEntropy ----------------------------
EXTENDS EntropyFilter, TLC, IOUtils
Hist == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, k

AsMap(s, D) == /\ DistinctSeq(s) /\ {p[1] : p \in SeqSet(s)} = D /\ Len(s) = Cardinality(D)
ValOf(s, c) == (CHOOSE p \in SeqSet(s) : p[1] = c)[2]
CloseMap(s, f, tol) == AsMap(s, DOMAIN f) /\ \A c \in DOMAIN f : Close(ValOf(s, c), f[c], tol)

DfgWhy(s) ==
    LET o == s.obs f == NeighAll(s.log, SeqSet(s.ign), s.lap) IN
    IF o.err # "" THEN {"raised: " \o o.err}
    ELSE Failing({<<"neighbourhood entropies", CloseMap(o.vals, f, 8)>>,
                  <<"sum of entropies", Close(o.sum, SumOf(f), 8 * (1 + Cardinality(DOMAIN f)))>>,
                  <<"average entropy", Close(o.avg, AvgOf(f), 12)>>})
PosWhy(s) ==
    LET o == s.obs f == PosAll(s.log, SeqSet(s.ign)) IN
    IF o.err # "" THEN {"raised: " \o o.err}
    ELSE Failing({<<"position entropies, fast", CloseMap(o.fast, f, 4)>>,
                  <<"position entropies, fast with precomputed positions", CloseMap(o.cached, f, 4)>>,
                  <<"position entropies, reference", CloseMap(o.ref, f, 4)>>,
                  <<"single class computations", CloseMap(o.one, f, 4)>>,
                  <<"fast and reference computations differ", o.agree>>,
                  <<"sum of position entropies", Close(o.sumfast, SumOf(f), 4 * (1 + Cardinality(DOMAIN f)))
                        /\ Close(o.sumref, SumOf(f), 4 * (1 + Cardinality(DOMAIN f)))>>})

Classes(l) == [i \in DOMAIN l |-> [j \in DOMAIN l[i] |-> l[i][j][1]]]
Drop(l, c) == SelectSeq([i \in DOMAIN l |-> SelectSeq(l[i], LAMBDA e : e[1] # c)], LAMBDA tr : tr # <<>>)
\* res[i]: the log after at most i - 1 removals; full: without limit
StepOk(cfg, a, b) ==
    LET ch == Choice(cfg, Classes(a)) IN
    (b = a /\ ch.stop) \/ \E c \in ch.next : b = Drop(a, c)
FilterWhy(s) ==
    LET o == s.obs
        cfg == [kind |-> s.kind, thr |-> s.thr, prot |-> SeqSet(s.prot), top |-> s.top]
    IN IF o.err # "" THEN {"raised: " \o o.err}
       ELSE Failing({<<"no removal allowed but the log changed", o.res[1] = s.events>>,
                     <<"protected class removed", \A i \in DOMAIN o.res :
                            \A c \in cfg.prot \cap ClassesOf(Classes(s.events)) :
                                SumSeq([j \in DOMAIN o.res[i] |-> CountIn(Classes(o.res[i])[j], c)]) =
                                SumSeq([j \in DOMAIN s.events |-> CountIn(Classes(s.events)[j], c)])>>,
                     <<"removal step", \A i \in 1..(Len(o.res) - 1) : StepOk(cfg, o.res[i], o.res[i + 1])>>,
                     <<"stopping", Choice(cfg, Classes(o.res[Len(o.res)])).stop>>,
                     <<"unlimited run", o.full = o.res[Len(o.res)]>>,
                     <<"input log altered", o.given = s.events>>})

RECURSIVE EndOk(_, _, _, _, _)
EndOk(kind, prot, l, rem, delta) ==
    IF rem = <<>> THEN Cands(l, prot) = {}
    ELSE LET c == Head(rem)[1] nl == RemoveClasses(l, {c})
             tol == 2 * TolWhole(kind, l) IN
         /\ c \in EndChoice(kind, l, prot)
         /\ Close(Head(rem)[2], IF delta THEN EndMetric(kind, l, prot) - EndMetric(kind, nl, prot)
                                ELSE EndMetric(kind, l, prot), tol)
         /\ EndOk(kind, prot, nl, Tail(rem), delta)
EndWhy(s) ==
    IF s.obs.err # "" THEN {"raised: " \o s.obs.err}
    ELSE Failing({<<"till-end removals", EndOk(s.kind, SeqSet(s.prot), s.log, s.obs.rem, s.delta)>>,
                  <<"input log altered", s.obs.given>>})

Verdict(s) == CASE s.op = "dfg" -> DfgWhy(s) [] s.op = "pos" -> PosWhy(s)
                [] s.op = "filter" -> FilterWhy(s) [] s.op = "end" -> EndWhy(s)
TraceInit == t \in 1..Len(Hist) /\ k = 0
TraceNext == /\ k < Len(Hist[t].steps) /\ k' = k + 1 /\ t' = t
             /\ LET v == Verdict(Hist[t].steps[k + 1])
                IN IF v = {} THEN TRUE ELSE PrintT("BAD " \o ToJson([h |-> t, k |-> k + 1, why |-> v]))
=============================================================================
