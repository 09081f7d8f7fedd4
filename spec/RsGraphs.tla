------------------------------- MODULE RsGraphs -------------------------------
(* The backend's graphs: nodes and edges added, removed and merged; and the  *)
(* fuzzy miner, which drops rare and weak relations and puts rare classes    *)
(* into clusters.                                                            *)
(*                                                                           *)
(* graph [nodes: set of <<id, data>>, edges: set of <<from, to, weight>>,    *)
(* next: next id]; weight -1 for an edge without data                        *)
(* event <<class, time>>; times are multiples of 60 so that averages over    *)
(* up to six pairs are whole numbers                                         *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

NoGraph == [nodes |-> {}, edges |-> {}, next |-> 1]
Ids(g) == {n[1] : n \in g.nodes}
DataOf(g, n) == (CHOOSE x \in g.nodes : x[1] = n)[2]
Linked(g, a, b) == \E e \in g.edges : e[1] = a /\ e[2] = b
AddNode(g, d) == [g EXCEPT !.nodes = @ \cup {<<g.next, d>>}, !.next = @ + 1]
Connect(g, a, b, w) == IF Linked(g, a, b) \/ {a, b} \ Ids(g) # {} THEN g ELSE [g EXCEPT !.edges = @ \cup {<<a, b, w>>}]
Disconnect(g, a, b) == [g EXCEPT !.edges = {e \in @ : ~(e[1] = a /\ e[2] = b)}]
Outgoing(g, a) == {e[2] : e \in {x \in g.edges : x[1] = a}}
Incoming(g, a) == {e[1] : e \in {x \in g.edges : x[2] = a}}
Neighbours(g, a) == Outgoing(g, a) \cup Incoming(g, a)
Weight(es) == FoldSet(LAMBDA e, s : s + (IF e[3] < 0 THEN 0 ELSE e[3]), 0, es)
\* one node instead of those of C: its data is all of theirs, parallel edges add up, inner edges go
Merge(g, C) ==
    LET n == g.next
        outs == {e \in g.edges : e[1] \in C /\ e[2] \notin C}
        ins == {e \in g.edges : e[1] \notin C /\ e[2] \in C}
    IN [nodes |-> {x \in g.nodes : x[1] \notin C} \cup {<<n, UNION {x[2] : x \in {y \in g.nodes : y[1] \in C}}>>}, next |-> n + 1,
        edges |-> {e \in g.edges : e[1] \notin C /\ e[2] \notin C}
            \cup {<<n, b, Weight({e \in outs : e[2] = b})>> : b \in {e[2] : e \in outs}}
            \cup {<<a, n, Weight({e \in ins : e[1] = a})>> : a \in {e[1] : e \in ins}}]

--------------------------------------------------------- (* what a log says *)
ClassesIn(log) == UNION {{log[t][i][1] : i \in DOMAIN log[t]} : t \in DOMAIN log}
SumOver(log, f(_)) == FoldSeq(LAMBDA tr, s : s + f(tr), 0, log)
Freq(log, c) == SumOver(log, LAMBDA tr : Cardinality({i \in DOMAIN tr : tr[i][1] = c}))
Follows(log, a, b) == SumOver(log, LAMBDA tr : Cardinality({i \in 1..(Len(tr) - 1) : tr[i][1] = a /\ tr[i + 1][1] = b}))
\* every b is paired with the last a before it that has not been paired; sum of the times between, number of pairs
Pair(a, b, m, e) ==
    IF e[1] = a THEN [m EXCEPT !.seen = TRUE, !.at = e[2]]
    ELSE IF e[1] = b /\ m.seen THEN [m EXCEPT !.seen = FALSE, !.sum = @ + e[2] - m.at, !.n = @ + 1] ELSE m
PairsIn(log, a, b) == FoldSeq(LAMBDA tr, s : LET m == FoldLeft(LAMBDA x, e : Pair(a, b, x, e), [seen |-> FALSE, at |-> 0, sum |-> 0, n |-> 0], tr)
                                           IN [sum |-> s.sum + m.sum, n |-> s.n + m.n], [sum |-> 0, n |-> 0], log)
Proximity(log, a, b) == LET m == PairsIn(log, a, b) IN IF m.n = 0 THEN 0 ELSE m.sum \div m.n
Exact(log) == \A a, b \in ClassesIn(log) : LET m == PairsIn(log, a, b) IN m.n = 0 \/ m.sum % m.n = 0

--------------------------------------------------------- (* the fuzzy graph *)
\* parameters: un, bi, node counts; pres, ratio in 127ths; rate in quarters; edge in 64ths
Kept(log, q) == {c \in ClassesIn(log) : Freq(log, c) > q.un}
\* how often classes follow each other, how near they are: looked up, not counted again
Counts(log, N) == TLCEval([x \in N \X N |-> Follows(log, x[1], x[2])])
Nearness(log, N) == TLCEval([x \in N \X N |-> Proximity(log, x[1], x[2])])
\* <<numerator, denominator>>
Relative(df, N, a, b) ==
    LET sa == FoldSet(LAMBDA n, s : s + df[<<a, n>>], 0, N)
        sb == FoldSet(LAMBDA n, s : s + df[<<n, b>>], 0, N)
    IN <<df[<<a, b>>] * (sa + sb), 2 * sa * sb>>
Abs(x) == IF x < 0 THEN -x ELSE x
\* what two opposite edges lose
Loses(df, N, q, a, b) ==
    LET x == Relative(df, N, a, b)
        y == Relative(df, N, b, a)
        low == x[1] * 127 < q.pres * x[2] \/ y[1] * 127 < q.pres * y[2]
        d == x[1] * y[2] - y[1] * x[2]
    IN IF ~low THEN {} ELSE IF Abs(d) * 127 > q.ratio * x[2] * y[2] THEN {IF d < 0 THEN <<a, b>> ELSE <<b, a>>} ELSE {<<a, b>>, <<b, a>>}
Settle(df, N, q) ==
    LET E == {x \in N \X N : df[x] > q.bi}
    IN E \ UNION {Loses(df, N, q, e[1], e[2]) : e \in {x \in E : <<x[2], x[1]>> \in E}}
Settled(log, q) == LET N == Kept(log, q) IN Settle(Counts(log, N), N, q)
Use(df, px, N, q) ==
    LET E == Settle(df, N, q)
        u(x) == q.rate * df[x] + (4 - q.rate) * px[x]
        us(b) == {u(e) : e \in {x \in E : x[2] = b}}
        most == TLCEval([b \in N |-> IF us(b) = {} THEN 0 ELSE Max(us(b))])
        least == TLCEval([b \in N |-> IF us(b) = {} THEN 0 ELSE Min(us(b))])
    IN {e \in E : LET b == e[2] IN IF most[b] = least[b] THEN 64 >= q.edge ELSE (u(e) - least[b]) * 64 >= q.edge * (most[b] - least[b])}
Useful(log, q) == LET N == Kept(log, q) IN Use(Counts(log, N), Nearness(log, N), N, q)

------------------------------------------------ (* clusters, in any order *)
Rare(log, q) == {c \in Kept(log, q) : Freq(log, c) < q.node}
Near(E, c) == {e[1] : e \in {x \in E : x[2] = c}} \cup {e[2] : e \in {x \in E : x[1] = c}}
ClusterOf(P, c) == {C \in P : c \in C}
\* a rare class joins the cluster of a neighbour with the highest proximity, or starts one
Best(px, E, c) == LET ns == Near(E, c) \ {c} IN {m \in ns : \A o \in ns : px[<<c, m>>] >= px[<<c, o>>]}
Join(best, P, c) ==
    IF best = {} THEN {P}
    ELSE {IF ClusterOf(P, m) # {} THEN LET C == CHOOSE x \in ClusterOf(P, m) : TRUE IN (P \ {C}) \cup {C \cup {c}} ELSE P \cup {{c}} : m \in best}
RECURSIVE Started(_, _, _)
Started(best, todo, S) ==
    IF \A s \in S : s[1] = todo THEN {s[2] : s \in S}
    ELSE Started(best, todo, UNION {UNION {{<<s[1] \cup {c}, P>> : P \in Join(best[c], s[2], c)} : c \in todo \ s[1]} : s \in S})
Between(px, C, D) == FoldSet(LAMBDA c, s : s + FoldSet(LAMBDA d, r : r + px[<<c, d>>], 0, D), 0, C)
\* a cluster all of whose successors (or predecessors) lie in clusters is merged with the nearest of these
Mates(px, E, P, C, forth) ==
    LET ns == UNION {IF forth THEN {e[2] : e \in {x \in E : x[1] = c}} ELSE {e[1] : e \in {x \in E : x[2] = c}} : c \in C} \ C
        ds == UNION {ClusterOf(P, n) : n \in ns}
    IN IF \E n \in ns : ClusterOf(P, n) = {} THEN {}
       ELSE {D \in ds : \A F \in ds : Between(px, C, D) * Cardinality(F) >= Between(px, C, F) * Cardinality(D)}
Merged(px, E, P) ==
    UNION {LET out == Mates(px, E, P, C, TRUE)
               ms == IF out # {} THEN out ELSE Mates(px, E, P, C, FALSE)
           IN {(P \ {C, D}) \cup {C \cup D} : D \in ms} : C \in P}
RECURSIVE Ends(_, _, _)
Ends(px, E, S) ==
    LET next == TLCEval([P \in S |-> Merged(px, E, P)])
        more == UNION {next[P] : P \in S}
    IN {P \in S : next[P] = {}} \cup (IF more = {} THEN {} ELSE Ends(px, E, more))
Clusterings(log, q) ==
    LET N == Kept(log, q)
        px == Nearness(log, N)
        E == Use(Counts(log, N), px, N, q)
        best == TLCEval([c \in N |-> Best(px, E, c)])
    IN Ends(px, E, Started(best, Rare(log, q), {<<{}, {}>>}))
\* classes that are not in a cluster stand for themselves
Blocks(log, q, P) == {<<TRUE, C>> : C \in P} \cup {<<FALSE, {c}>> : c \in Kept(log, q) \ UNION P}
BlockEdges(log, q, B) ==
    LET E == Useful(log, q)
        es(x, y) == {e \in E : e[1] \in x[2] /\ e[2] \in y[2]}
    IN {<<x, y, FoldSet(LAMBDA e, s : s + Follows(log, e[1], e[2]), 0, es(x, y))>> : <<x, y>> \in {<<x, y>> \in B \X B : es(x, y) # {} /\ (x # y \/ ~x[1])}}
=============================================================================
