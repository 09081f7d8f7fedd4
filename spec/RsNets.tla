------------------------------- MODULE RsNets --------------------------------
(* The nets the backend discovers (alpha, alpha+, heuristic miner), as the   *)
(* relations of the log define them, their replay and their annotations.     *)
(* A place is described by who puts into it and who takes from it.           *)
EXTENDS Nets, FiniteSetsExt
Range2(s) == {s[i] : i \in DOMAIN s}
NonEmpty(log) == SelectSeq(log, LAMBDA tr : Len(tr) > 0)
Firsts(log) == {tr[1] : tr \in Range2(NonEmpty(log))}
Lasts(log) == {tr[Len(tr)] : tr \in Range2(NonEmpty(log))}
Without(log, C) == [i \in DOMAIN log |-> SelectSeq(log[i], LAMBDA c : c \notin C)]
Follows(log) == UNION {{<<tr[i], tr[i + 1]>> : i \in 1..(Len(tr) - 1)} : tr \in Range2(log)}
Count(log, a, b) == FoldLeft(LAMBDA s, tr : s + Cardinality({i \in 1..(Len(tr) - 1) : tr[i] = a /\ tr[i + 1] = b}), 0, log)
Triangles(log, a, b) == FoldLeft(LAMBDA s, tr : s + Cardinality({i \in 1..(Len(tr) - 2) : tr[i] = a /\ tr[i + 1] = b /\ tr[i + 2] = a}), 0, log)
OneLoops(log) == {c \in Classes(log) : <<c, c>> \in Follows(log)}

(* --- alpha ---------------------------------------------------------------- *)
Unrelated(D, a, b) == <<a, b>> \notin D /\ <<b, a>> \notin D
Causal(D, R, a, b) == <<a, b>> \in D /\ (<<b, a>> \notin D \/ <<a, b>> \in R)
\* what may be the left and the right of a place; R: pairs in loops of length two
ValidPair(D, R, P) == /\ \A a \in P[1] : \A b \in P[2] : Causal(D, R, a, b)
                      /\ \A a, b \in P[1] : Unrelated(D, a, b)
                      /\ \A a, b \in P[2] : Unrelated(D, a, b)
Sub(P, Q) == P[1] \subseteq Q[1] /\ P[2] \subseteq Q[2]
Pairs(C, D, R) == {P \in ((SUBSET C) \ {{}}) \X ((SUBSET C) \ {{}}) : ValidPair(D, R, P)}
MaxPairs(C, D, R) == LET X == Pairs(C, D, R) IN {P \in X : \A Q \in X : Sub(P, Q) => Q = P}
\* the same, found by joining pairs that agree on one side
Joinable(D, R, P, Q) == (P[1] \subseteq Q[1] \/ P[2] \subseteq Q[2]) /\ ValidPair(D, R, <<P[1] \cup Q[1], P[2] \cup Q[2]>>)
JoinAll(D, R, X) == LET J == {z \in X \X X : z[1] # z[2] /\ Joinable(D, R, z[1], z[2])}
                        used == {z[1] : z \in J} \cup {z[2] : z \in J} IN
                    (X \ used) \cup {<<z[1][1] \cup z[2][1], z[1][2] \cup z[2][2]>> : z \in J}
RECURSIVE Joining(_, _, _)
Joining(D, R, X) == LET Y == JoinAll(D, R, X) IN IF Y = X THEN X ELSE Joining(D, R, Y)
Atoms(C, D, R) == {P \in {<<{a}, {b}>> : a \in C, b \in C} : ValidPair(D, R, P)}

V(c) == [c |-> c, g |-> {}]
VS(C) == {V(c) : c \in C}
BagOf(s) == [x \in Range2(s) |-> Cardinality({i \in DOMAIN s : s[i] = x})]
AlphaPlaces(log) ==
    LET M == MaxPairs(Classes(log), Follows(log), {}) IN
    SetToSeq({<<VS(P[1]), VS(P[2])>> : P \in M}) \o << <<{}, VS(Firsts(log))>>, <<VS(Lasts(log)), {}>> >>
\* loops of length one go to the place between their neighbours
Around(log, l) == LET D == Follows(log) IN
    <<{a \in Classes(log) \ {l} : <<a, l>> \in D}, {b \in Classes(log) \ {l} : <<l, b>> \in D}>>
PlusPlaces(log, trilog) ==
    LET L == OneLoops(log)
        red == Without(log, L)
        C == Classes(log) \ L
        D == Follows(red)
        R == {p \in C \X C : Triangles(trilog, p[1], p[2]) > 0 /\ Triangles(trilog, p[2], p[1]) > 0}
        M == MaxPairs(C, D, R)
        At(P) == {l \in L : Around(log, l) = P}
        new == {Around(log, l) : l \in L} \ M IN
    SetToSeq({<<VS(P[1] \cup At(P)), VS(P[2] \cup At(P))>> : P \in M} \cup {<<VS(At(P)), VS(At(P))>> : P \in new})
    \o << <<{}, VS(Firsts(red))>>, <<VS(Lasts(red)), {}>> >>

(* --- heuristic miner: thresholds are p/64 ---------------------------------- *)
\* measures as fractions <<n, d>>
Dep(log, a, b) == LET x == Count(log, a, b) y == Count(log, b, a) IN
                  IF a = b THEN <<x, x + 1>> ELSE <<x - y, x + y + 1>>
Above(f, t) == f[1] * 64 > t * f[2]
Less(f, g) == f[1] * g[2] < g[1] * f[2]
Followers(log, a, p) ==
    LET X == {b \in Classes(log) : Count(log, a, b) >= p[2] /\ Above(Dep(log, a, b), p[1])}
        best == CHOOSE b \in X : \A c \in X : ~Less(Dep(log, a, b), Dep(log, a, c)) IN
    IF X = {} THEN {} ELSE LET f == Dep(log, a, best) m == <<f[1] * (64 - p[3]), f[2] * 64>> IN {b \in X : ~Less(Dep(log, a, b), m)}
And(log, a, b, c, p) == Above(<<Count(log, b, c) + Count(log, c, b), Count(log, a, b) + Count(log, a, c) + 1>>, p[4])
Groups(log, a, F, p) ==
    LET K == {g \in SUBSET F : Cardinality(g) >= 2 /\ \A b, c \in g : b # c => And(log, a, b, c, p)} IN
    {g \in K : \A h \in K : g \subseteq h => h = g}
TwoLoop(log, a, b, p) == LET x == Triangles(log, a, b) + Triangles(log, b, a) IN a # b /\ Above(<<x, x + 1>>, p[5])
\* silent transitions are told apart by what they start
S(g) == [c |-> "", g |-> g]
HeurPlaces(log, p) ==
    LET C == Classes(log)
        F(a) == Followers(log, a, p)
        G(a) == Groups(log, a, F(a), p)
        direct(a) == F(a) \ UNION G(a)
        partners(B) == {x \in C : \E b \in B : TwoLoop(log, x, b, p)}
        post(a) == <<{V(a)} \cup VS(partners(direct(a))), VS(direct(a)) \cup {S(g) : g \in G(a)} \cup VS(partners({a}))>>
        pre(a) == FlattenSeq([i \in 1..Cardinality(G(a)) |-> LET g == SetToSeq(G(a))[i] IN
                     [j \in 1..Cardinality(g) |-> LET e == SetToSeq(g)[j] IN <<{S(g)} \cup VS(partners({e})), {V(e)}>>]])
        cs == SetToSeq({a \in C : F(a) # {}}) IN
    FlattenSeq([i \in DOMAIN cs |-> <<post(cs[i])>> \o pre(cs[i])])

(* --- nets as they are -------------------------------------------------------- *)
Takes(tr, p) == \E i \in DOMAIN tr.pre : tr.pre[i].p = p
Puts(tr, p) == \E i \in DOMAIN tr.post : tr.post[i].p = p
Who(net, i) == LET tr == net.trans[i] IN
    IF tr.label # "" THEN V(tr.label)
    ELSE S({net.trans[j].label : j \in {j \in DOMAIN net.trans : net.trans[j].label # "" /\ \E p \in 1..net.n : Puts(tr, p) /\ Takes(net.trans[j], p)}})
PlaceOf(net, p) == <<{Who(net, i) : i \in {j \in DOMAIN net.trans : Puts(net.trans[j], p)}},
                     {Who(net, i) : i \in {j \in DOMAIN net.trans : Takes(net.trans[j], p)}}>>
PlacesOf(net) == [p \in 1..net.n |-> PlaceOf(net, p)]
\* each class is one visible transition
Visible(net) == SelectSeq(net.trans, LAMBDA tr : tr.label # "")
OnePerClass(net, C) == Len(Visible(net)) = Cardinality(C) /\ Labels(net) = C /\ \A i \in DOMAIN net.trans : net.trans[i].data = net.trans[i].label
SingleArcs(net) == \A i \in DOMAIN net.trans : \A p \in 1..net.n : Weight(net.trans[i].pre, p) <= 1 /\ Weight(net.trans[i].post, p) <= 1
Tokens(m) == FoldLeft(LAMBDA s, x : s + x, 0, m)
OneTokenAt(net, m, place) == Tokens(m) = 1 /\ \E p \in 1..net.n : m[p] = 1 /\ PlaceOf(net, p) = place

(* --- replay and annotations ---------------------------------------------------- *)
RECURSIVE RSilent(_, _, _)
RStep(net, M, c) == UNION {{Fire(m, net.trans[i]) : m \in {y \in M : Enabled(y, net.trans[i])}} : i \in {j \in DOMAIN net.trans : net.trans[j].label = c}}
RSilent(net, M, new) == IF new = {} THEN M ELSE LET s == RStep(net, new, "") \ M IN RSilent(net, M \cup s, s)
Replayable(net, w) == FoldLeft(LAMBDA M, c : RStep(net, RSilent(net, M, M), c), {net.im}, w) # {}
\* a firing sequence: enabled one after the other, with the labels of the word
RECURSIVE Runs(_, _, _)
Runs(net, m, f) == IF f = <<>> THEN TRUE
                   ELSE LET tr == net.trans[Head(f)] IN Enabled(m, tr) /\ Runs(net, Fire(m, tr), Tail(f))
Spelled(net, f) == SelectSeq([i \in DOMAIN f |-> net.trans[f[i]].label], LAMBDA c : c # "")
IsReplay(net, w, f) == /\ \A i \in DOMAIN f : f[i] \in DOMAIN net.trans
                       /\ Spelled(net, f) = w /\ Runs(net, net.im, f)
Replayed(net, log) == SelectSeq(log, LAMBDA w : Replayable(net, w))
Occurs(log, c) == FoldLeft(LAMBDA s, tr : s + Cardinality({i \in DOMAIN tr : tr[i] = c}), 0, log)
\* how often a transition fires is determined when it has the label for itself
OwnLabel(net, i) == net.trans[i].label # "" /\ \A j \in DOMAIN net.trans : net.trans[j].label = net.trans[i].label => j = i
Determined(net) == \A i \in DOMAIN net.trans : OwnLabel(net, i)
Fires(net, log, i) == Occurs(Replayed(net, log), net.trans[i].label)
Arcs(tr) == Len(tr.pre) + Len(tr.post)
TotalArcs(net, log) == FoldLeft(LAMBDA s, i : s + Arcs(net.trans[i]) * Fires(net, log, i), 0, [i \in DOMAIN net.trans |-> i])
==============================================================================
