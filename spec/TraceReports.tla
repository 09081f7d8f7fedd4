----------------------------- MODULE TraceReports -----------------------------
EXTENDS Reports, TLC, IOUtils, Json
VARIABLES t, k
Hist == ndJsonDeserialize(IOEnv.TRACES)

Pre(h, j) == IF j = 1 THEN h.first ELSE h.steps[j - 1].obs.after
BagOf(s) == {<<x, Cardinality({i \in DOMAIN s : s[i] = x})>> : x \in SeqSet(s)}
OnceEach(s, S) == SeqSet(s) = S /\ Len(s) = Cardinality(S)
Sorted(s) == SortSeq(s, <)
Dropped(log, c) == [x \in DOMAIN log |-> SelectSeq(log[x], LAMBDA e : e[1] # c)]
RECURSIVE Flat(_)
Flat(tr) == IF tr = <<>> THEN <<>> ELSE (IF Head(tr)[3] = <<>> THEN <<Head(tr)>> ELSE Flat(Head(tr)[3])) \o Flat(Tail(tr))
Why(h, j) ==
    LET s == h.steps[j]
        o == s.obs
        p == Pre(h, j)
        N == h.N
        cl == Classes(p.log)
        R == Reached(N, p.L)
        same == {<<"report changed the context", o.after = p>>}
    IN IF o.err # "" THEN {"raised: " \o o.err}
       ELSE CASE s.op = "names" -> Failing(same \cup {<<"event names", OnceEach(o.rep, ClassesOf(cl))>>})
              [] s.op = "info" -> Failing(same \cup {<<"numbers", o.rep = InfoOf(cl)>>})
              [] s.op = "around" ->
                    LET after == IF s.inner = "expand" THEN [x \in DOMAIN p.log |-> Flat(p.log[x])] ELSE Dropped(p.log, s.c)
                    IN Failing({<<"before", o.rep[1] = InfoOf(cl)>>, <<"after", o.rep[2] = InfoOf(Classes(after))>>,
                                <<"result", o.after.log = after /\ o.after.L = p.L /\ o.after.inst = p.inst>>})
              [] s.op = "dfg" -> Failing(same \cup {<<"followers", OnceEach(o.rep, Followers(cl, SeqSet(s.sel)))>>})
              [] s.op = "acts" -> Failing(same \cup
                    {<<"names", o.rep = IF s.print THEN [i \in DOMAIN p.L |-> N[p.L[i]].name] ELSE <<>>>>, <<"printed", s.print \/ ~o.printed>>})
              [] s.op = "hashes" -> Failing(same \cup {<<"names", SeqSet(o.rep) = NamesOf(N, R)>>, <<"one hash", o.one>>})
              [] s.op = "saveacts" -> Failing(same \cup
                    {<<"levels", [i \in DOMAIN o.rep |-> o.rep[i][1]] = [i \in DOMAIN Saved(N, p.L) |-> Saved(N, p.L)[i][1]]>>,
                     <<"names", Len(o.rep) # Len(Saved(N, p.L)) \/ \A i \in DOMAIN o.rep : OnceEach(o.rep[i][2], Saved(N, p.L)[i][2])>>})
              [] s.op = "saveinst" -> Failing(same \cup {<<"names", OnceEach(o.rep, {<<N[n].uname, N[n].name>> : n \in Used(p.inst)})>>})
              [] s.op = "indices" -> Failing(same \cup {<<"indices", o.rep = Indices(N, p.inst)>>})
              [] s.op = "count" -> Failing(same \cup {<<"underlying events", o.rep = <<LeavesOf(p.log)>>>>})
              [] s.op = "found" -> Failing(same \cup {<<"number", o.rep = <<Len(p.L)>>>>})
              [] s.op = "level" -> Failing(same \cup {<<"activities", o.rep = RootsAt(N, p.L, s.level)>>, <<"instances", o.ins = AtLevel(N, p.inst, s.level)>>})
              [] s.op = "hist" -> Failing(same \cup {<<"bars", s.save \/ Sorted(o.rep) = VariantSizes(cl)>>, <<"file", o.file>>, <<"title", o.title>>})
              [] s.op = "hists" -> Failing(same \cup
                    {<<"bars", Len(o.rep) = Len(s.logs) /\ \A i \in DOMAIN o.rep : o.rep[i][1] = i /\ Sorted(o.rep[i][2]) = VariantSizes(s.logs[i])>>})
              [] s.op = "entropy" -> Failing(same \cup
                    {<<"bars", OnceEach([i \in DOMAIN o.rep |-> <<o.rep[i][1], o.rep[i][5]>>], SeqSet(o.ent))>>,
                     <<"bars side by side", Sorted([i \in DOMAIN o.rep |-> o.rep[i][2]]) = [i \in DOMAIN o.rep |-> i - 1] /\ \A i \in DOMAIN o.rep : o.rep[i][3] = 1 /\ o.rep[i][4] = 0>>,
                     <<"legend", OnceEach(o.legend, SeqSet(o.ent)) /\ \A i \in 1..(Len(o.legend) - 1) : o.legend[i][2] >= o.legend[i + 1][2]>>,
                     <<"table", OnceEach(o.df, SeqSet(o.ent)) /\ \A i \in 1..(Len(o.df) - 1) : o.df[i][2] >= o.df[i + 1][2]>>,
                     <<"classes", {o.ent[i][1] : i \in DOMAIN o.ent} = ClassesOf(cl)>>})
              [] s.op = "pos" -> Failing(same \cup {<<"classes counted", o.rep = Cardinality(ClassesOf(cl))>>})
              [] s.op = "tillend" -> Failing(same \cup {<<"curve", o.rep = o.want /\ o.xs = [i \in DOMAIN o.want |-> i - 1]>>})
              [] s.op = "scatter" ->
                    LET ls == IF s.lab THEN SeqSet(s.labels) ELSE {-1}
                        row(i) == IF s.dim = 1 THEN <<s.pts[i][1], 0>> ELSE SubSeq(s.pts[i], 1, s.dim)
                        of(l) == SelectSeq([i \in DOMAIN s.pts |-> i], LAMBDA i : ~s.lab \/ s.labels[i] = l)
                    IN Failing(same \cup
                        {<<"clusters", OnceEach([i \in DOMAIN o.rep |-> o.rep[i][1]], ls)>>,
                         <<"points", \A i \in DOMAIN o.rep : BagOf(o.rep[i][2]) = BagOf([x \in DOMAIN of(o.rep[i][1]) |-> row(of(o.rep[i][1])[x])])>>,
                         <<"colour", s.lab => \A i \in DOMAIN o.rep : o.rep[i][3] = IF o.rep[i][1] \in SeqSet(s.known) THEN 1 ELSE 0>>})
TraceInit == t \in 1..Len(Hist) /\ k = 0
TraceNext == /\ k < Len(Hist[t].steps) /\ k' = k + 1 /\ t' = t
             /\ LET v == Why(Hist[t], k + 1)
                IN IF v = {} THEN TRUE ELSE PrintT("BAD " \o ToJson([h |-> t, k |-> k + 1, why |-> v]))
=============================================================================
