----------------------------- MODULE Activities -----------------------------
(* Activity instances in traces, the events left over, abstraction of        *)
(* instances into activity events and back, and logs per activity.           *)
(*                                                                           *)
(* N: sequence of nodes [set, rank, level, kids, nc, uc]: class set (as a    *)
(*    sequence), rank of the name among all names, level, indices of the     *)
(*    children, class code of its name and of its unique name.               *)
(* L: sequence of node indices, the activities of the context.               *)
(* An event is <<class, id, underlying>>; underlying is a sequence of events,*)
(* empty for an event that is not an activity.                               *)
(* An instance is <<node, start, length>>, start 0-based.                    *)
EXTENDS Hierarchy

USet(N, n) == SeqSet(N[n].set)
Size(N, n) == Cardinality(USet(N, n))
M(map, c) == IF (c + 1) \in DOMAIN map THEN map[c + 1] ELSE c
Cls(tr) == [i \in DOMAIN tr |-> tr[i][1]]
ClsLog(log) == [t \in DOMAIN log |-> Cls(log[t])]
MapTr(map, tr) == [i \in DOMAIN tr |-> M(map, tr[i])]
MapLog(map, log) == [t \in DOMAIN log |-> MapTr(map, log[t])]

------------------------------------------------------ (* extraction *)
\* positions of L in the order in which activities are tried: size, name, position
Before(N, L, a, b) ==
    LET x == Size(N, L[a])  y == Size(N, L[b]) IN
    x < y \/ (x = y /\ (N[L[a]].rank < N[L[b]].rank \/ (N[L[a]].rank = N[L[b]].rank /\ a < b)))
FirstOf(N, L, S) == IF S = {} THEN 0 ELSE L[CHOOSE a \in S : \A b \in S : a = b \/ Before(N, L, a, b)]
Starting(N, L, e) == FirstOf(N, L, {a \in DOMAIN L : e \in USet(N, L[a])})
Growing(N, L, n, W) == FirstOf(N, L, {a \in DOMAIN L : Size(N, L[a]) >= Size(N, n) /\ W \subseteq USet(N, L[a])})
RECURSIVE Below(_, _)
Below(N, n) == SeqSet(N[n].kids) \cup UNION {Below(N, c) : c \in SeqSet(N[n].kids)}
Narrowed(N, n, seen) ==
    LET d == {c \in Below(N, n) : seen \subseteq USet(N, c)} IN
    IF d = {} THEN {n} ELSE {c \in d : \A e \in d : Size(N, c) <= Size(N, e)}

\* register machine over one trace: i next position, n current activity (0: none), s its start, seen, out
Boot == [i |-> 0, n |-> 0, s |-> 0, seen |-> {}, out |-> <<>>, fin |-> FALSE]
Close(N, m, narrow) == [m EXCEPT !.out = Append(@, <<IF narrow THEN Narrowed(N, m.n, m.seen) ELSE {m.n}, m.s, m.i - m.s>>),
                                 !.n = 0, !.seen = {}]
Step(N, L, tr, narrow, m) ==
    IF m.i = Len(tr) THEN IF m.n = 0 THEN [m EXCEPT !.fin = TRUE] ELSE [Close(N, m, narrow) EXCEPT !.fin = TRUE]
    ELSE LET e == tr[m.i + 1] IN
    IF m.n = 0 THEN LET a == Starting(N, L, e) IN
         IF a = 0 THEN [m EXCEPT !.i = @ + 1] ELSE [m EXCEPT !.i = @ + 1, !.n = a, !.s = m.i, !.seen = {e}]
    ELSE IF e \in USet(N, m.n) THEN [m EXCEPT !.i = @ + 1, !.seen = @ \cup {e}]
    ELSE LET b == Growing(N, L, m.n, m.seen \cup {e}) IN
         IF b = 0 THEN Close(N, m, narrow)        \* the event is looked at again
         ELSE [m EXCEPT !.i = @ + 1, !.n = b, !.seen = @ \cup {e}]
RECURSIVE RunFrom(_, _, _, _, _)
RunFrom(N, L, tr, narrow, m) == IF m.fin THEN m.out ELSE RunFrom(N, L, tr, narrow, Step(N, L, tr, narrow, m))
\* the instances before filtering: <<possible nodes, start, length>>
Extract(N, L, tr, narrow) == RunFrom(N, L, tr, narrow, Boot)

\* instance filters, by name
Accept(N, f, n, s, l) == CASE f.k = "all" -> TRUE
                           [] f.k = "minlen" -> l >= f.v
                           [] f.k = "maxlen" -> l <= f.v
                           [] f.k = "even" -> s % 2 = 0
                           [] f.k = "size" -> Size(N, n) >= f.v
                           [] f.k = "none" -> FALSE
Filtered(N, f, xs) == SelectSeq(xs, LAMBDA x : Accept(N, f, CHOOSE n \in x[1] : TRUE, x[2], x[3]))
Shift(xs, d) == [i \in DOMAIN xs |-> <<xs[i][1], xs[i][2] + d, xs[i][3]>>]
\* recorded instances against expected ones
SameInst(r, xs) == Len(r) = Len(xs) /\ \A i \in DOMAIN r : r[i][1] \in xs[i][1] /\ r[i][2] = xs[i][2] /\ r[i][3] = xs[i][3]

\* what holds for the instances of a trace, however they were found
Ordered(is) == \A i \in 1..(Len(is) - 1) : is[i][2] + is[i][3] <= is[i + 1][2]
Inside(is, n) == \A i \in DOMAIN is : is[i][3] >= 1 /\ InBounds([j \in 1..n |-> 0], is[i][2], is[i][3])
OwnEvents(N, is, tr) == \A i \in DOMAIN is : \A p \in is[i][2]..(is[i][2] + is[i][3] - 1) :
                            p + 1 \in DOMAIN tr => tr[p + 1] \in USet(N, is[i][1])
Covered(is, p) == \E i \in DOMAIN is : is[i][2] <= p /\ p < is[i][2] + is[i][3]

------------------------------------------------- (* unattached events *)
Unattached(tr, is) == LET keep == SelectSeq([i \in DOMAIN tr |-> i], LAMBDA i : ~Covered(is, i - 1)) IN
                      [j \in DOMAIN keep |-> tr[keep[j]]]
UnattachedLog(log, inst) == [t \in DOMAIN log |-> Unattached(log[t], inst[t])]
\* maximal stretches outside all instances, <<from, to>> half open
Gaps(n, is) == LET starts == {p \in 0..(n - 1) : ~Covered(is, p) /\ (p = 0 \/ Covered(is, p - 1))}
                   upto(p) == CHOOSE q \in (p + 1)..n : (\A r \in p..(q - 1) : ~Covered(is, r)) /\ (q = n \/ Covered(is, q))
               IN {<<p, upto(p)>> : p \in starts}
SortByStart(S) == SetToSortSeq(S, LAMBDA a, b : a[2] < b[2])
\* instances after filling the gaps: existing ones and, in every gap that is large enough, those found there
Fill(N, L, tr, is, narrow, f, minEvents) ==
    LET old == {<<{is[i][1]}, is[i][2], is[i][3]>> : i \in DOMAIN is}
        new == UNION {SeqSet(Shift(Filtered(N, f, Extract(N, L, Slice(tr, g[1], g[2] - g[1]), narrow)), g[1])) :
                        g \in {x \in Gaps(Len(tr), is) : x[2] - x[1] >= minEvents}}
    IN SortByStart(old \cup new)
\* instance filters look at the position inside the gap; only position independent ones are used here

------------------------------------------------------ (* abstraction *)
PLACEHOLDER == -3
ActEvent(N, tr, x, hashes) == <<IF hashes THEN N[x[1]].uc ELSE N[x[1]].nc, 0, Slice(tr, x[2], x[3])>>
GapEvents(tr, g, strategy) == CASE strategy = "all" -> Slice(tr, g[1], g[2] - g[1])
                                [] strategy = "single" -> <<<<PLACEHOLDER, 0, <<>>>>>>
                                [] strategy = "none" -> <<>>
Abstract(N, tr, is, hashes, strategy) ==
    LET gaps == Gaps(Len(tr), is)
        pieces == {<<g[1], GapEvents(tr, g, strategy)>> : g \in gaps}
             \cup {<<is[i][2], <<ActEvent(N, tr, is[i], hashes)>>>> : i \in DOMAIN is}
        srt == SetToSortSeq(pieces, LAMBDA a, b : a[1] < b[1])
    IN FoldLeft(LAMBDA a, b : a \o b[2], <<>>, srt)
\* the activities the events of an abstracted trace stand for, inner ones first; st: those of the events before
StandFor(st, is, strategy) ==
    LET gap(g) == CASE strategy = "all" -> Slice(st, g[1], g[2] - g[1]) [] strategy = "single" -> <<<<>>>> [] OTHER -> <<>>
        pieces == {<<g[1], gap(g)>> : g \in Gaps(Len(st), is)}
             \cup {<<is[i][2], <<Append(FoldLeft(LAMBDA a, b : a \o b, <<>>, Slice(st, is[i][2], is[i][3])), is[i][1])>>>> : i \in DOMAIN is}
        srt == SetToSortSeq(pieces, LAMBDA a, b : a[1] < b[1])
    IN FoldLeft(LAMBDA a, b : a \o b[2], <<>>, srt)
RECURSIVE Expand(_)
Expand(tr) == IF tr = <<>> THEN <<>> ELSE
    (IF Head(tr)[3] = <<>> THEN <<Head(tr)>> ELSE Expand(Head(tr)[3])) \o Expand(Tail(tr))
ExpandLog(log) == [t \in DOMAIN log |-> Expand(log[t])]
UnderlyingCount(log) == SumSeq([t \in DOMAIN log |-> Len(Expand(log[t]))])

------------------------------------------------------- (* per activity *)
Named(map, tr) == [i \in DOMAIN tr |-> <<M(map, tr[i][1]), tr[i][2], tr[i][3]>>]
InstSeq(inst) == FoldLeft(LAMBDA a, b : a \o b, <<>>, [t \in DOMAIN inst |-> [i \in DOMAIN inst[t] |-> <<t, inst[t][i]>>]])
\* traces of the log of the activity with name code c
LogFor(N, log, inst, c, Sel(_, _), Ren(_, _)) ==
    LET xs == SelectSeq(InstSeq(inst), LAMBDA x : N[x[2][1]].nc = c /\ Sel(x[1], x[2])) IN
    [i \in DOMAIN xs |-> Ren(xs[i][2], Slice(log[xs[i][1]], xs[i][2][2], xs[i][2][3]))]
NamesFor(N, log, inst, Sel(_, _)) == {N[x[2][1]].nc : x \in {y \in SeqSet(InstSeq(inst)) : Sel(y[1], y[2])}}
\* apply the maps of levels a..b one after the other
RECURSIVE ThroughLevels(_, _, _, _)
ThroughLevels(maps, a, b, c) == IF a > b THEN c ELSE ThroughLevels(maps, a + 1, b, M(maps[a + 1], c))
=============================================================================
