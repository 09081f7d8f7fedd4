------------------------------ MODULE RsClusters ------------------------------
(* Clustering in the backend: what traces and activities look like as rows   *)
(* of numbers, which rows are near, density clusters, and what becomes of    *)
(* the instances of activities that fall into one cluster.                   *)
(*                                                                           *)
(* event [c, time, kids]; shown[c + 1]: what the class extractor makes of c  *)
(* rows hold sixths: columns are scaled to 0..6                              *)
(* instance <<node, start, length>>; node [name, level, set, kids, rep]      *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

Class(e) == e[1]
Kids(e) == e[3]
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
RECURSIVE Leaves(_)
Leaves(e) == IF Kids(e) = <<>> THEN <<Class(e)>> ELSE Flat([i \in DOMAIN Kids(e) |-> Leaves(Kids(e)[i])])
Cells(e, src) == CASE src = "Events" -> <<Class(e)>>
                   [] src = "UnderlyingEvents" -> IF Kids(e) = <<>> THEN <<Class(e)>> ELSE [i \in DOMAIN Kids(e) |-> Class(Kids(e)[i])]
                   [] OTHER -> Leaves(e)
Shown(shown, c) == IF c + 1 \in DOMAIN shown THEN shown[c + 1] ELSE c
\* the classes of a stretch of events, one after the other
Word(evs, src, shown) == LET w == Flat([i \in DOMAIN evs |-> Cells(evs[i], src)]) IN [i \in DOMAIN w |-> Shown(shown, w[i])]
Count(w, c) == Cardinality({i \in DOMAIN w : w[i] = c})
AllIn(ws) == UNION {ToSet(ws[i]) : i \in DOMAIN ws}
\* counts of every class, each column scaled so that its least is 0 and its greatest 6; 6 where all are the same
Scaled(ws, c, i) == LET xs == {Count(ws[j], c) : j \in DOMAIN ws}
                    IN IF Max(xs) = Min(xs) THEN 6 ELSE ((Count(ws[i], c) - Min(xs)) * 6) \div (Max(xs) - Min(xs))
Fine(ws) == \A c \in AllIn(ws) : LET xs == {Count(ws[j], c) : j \in DOMAIN ws} IN Max(xs) = Min(xs) \/ (Max(xs) - Min(xs)) \in {1, 2, 3, 6}
Rows(ws, cols) == [i \in DOMAIN ws |-> [j \in DOMAIN cols |-> Scaled(ws, cols[j], i)]]
\* words as rows: numbers for classes, zeros up to one more than the longest
Padded(ws) == LET n == IF ws = <<>> THEN 0 ELSE 1 + Max({Len(ws[i]) : i \in DOMAIN ws})
              IN [i \in DOMAIN ws |-> ws[i] \o [j \in 1..(n - Len(ws[i])) |-> -1]]
\* two tables that differ by the names of the cells only
Alike(a, b) == /\ Len(a) = Len(b) /\ \A i \in DOMAIN a : Len(a[i]) = Len(b[i])
               /\ LET ps == UNION {{<<a[i][j], b[i][j]>> : j \in DOMAIN a[i]} : i \in DOMAIN a}
                  IN \A p, r \in ps : (p[1] = r[1]) <=> (p[2] = r[2])

------------------------------------------------------------- (* distances *)
Sum(f(_), S) == FoldSet(LAMBDA x, s : s + f(x), 0, S)
Abs(x) == IF x < 0 THEN -x ELSE x
Dot(x, y) == Sum(LAMBDA i : x[i] * y[i], DOMAIN x)
\* least number of changes, insertions and removals; one row of the table after the other
Least3(a, b, c) == IF a <= b /\ a <= c THEN a ELSE IF b <= c THEN b ELSE c
NextRow(prev, x, c, j) == FoldLeft(LAMBDA row, i : Append(row, IF x[i] = c THEN prev[i] ELSE 1 + Least3(prev[i + 1], row[i], prev[i])), <<j>>, [i \in DOMAIN x |-> i])
Edit(x, y) == FoldLeft(LAMBDA row, j : NextRow(row, x, y[j], j), [i \in 1..(Len(x) + 1) |-> i - 1], [j \in DOMAIN y |-> j])[Len(x) + 1]
\* tolerances are odd multiples of 1/12 (1/2 for edits), so that nothing lies on the border; for cosines 97ths
Within(dist, tol, x, y) ==
    CASE dist = "L1" -> 2 * Sum(LAMBDA i : Abs(x[i] - y[i]), DOMAIN x) <= tol
      [] dist = "L2" -> 4 * Sum(LAMBDA i : (x[i] - y[i]) * (x[i] - y[i]), DOMAIN x) <= tol * tol
      [] dist = "Cosine" -> Dot(x, x) > 0 /\ Dot(y, y) > 0 /\ Dot(x, y) * Dot(x, y) * 97 * 97 >= (97 - tol) * (97 - tol) * Dot(x, x) * Dot(y, y)
      [] OTHER -> 2 * Edit(x, y) <= tol
NearTable(dist, tol, rows) == TLCEval([p \in (DOMAIN rows) \X (DOMAIN rows) |-> Within(dist, tol, rows[p[1]], rows[p[2]])])

------------------------------------------------------- (* density clusters *)
Around(near, n, i) == {j \in 1..n : near[<<i, j>>]}
Cores(near, n, min) == {i \in 1..n : Cardinality(Around(near, n, i)) >= min}
RECURSIVE Grow(_, _, _)
Grow(near, C, S) == LET T == S \cup {j \in C : \E i \in S : near[<<i, j>>]} IN IF T = S THEN S ELSE Grow(near, C, T)
\* labels: 0 for noise; clusters are the connected cores and what is near them
Clustered(near, n, min, L) ==
    LET C == Cores(near, n, min)
    IN /\ \A i \in 1..n : (L[i] = 0) <=> ~\E j \in C : near[<<j, i>>]
       /\ \A i \in C : {j \in C : L[j] = L[i]} = Grow(near, C, {i})
       /\ \A i \in (1..n) \ C : L[i] # 0 => \E j \in C : near[<<j, i>>] /\ L[j] = L[i]
\* the algorithm: a core that is not labelled yet starts a cluster, which takes what it reaches
RECURSIVE Spread(_, _, _, _, _)
Spread(near, n, C, taken, S) == LET T == S \cup {j \in (1..n) \ taken : \E i \in S \cap C : near[<<i, j>>]} IN IF T = S THEN S ELSE Spread(near, n, C, taken, T)
RECURSIVE Label(_, _, _, _, _, _)
Label(near, n, C, i, k, L) ==
    IF i > n THEN L
    ELSE IF L[i] # 0 \/ i \notin C THEN Label(near, n, C, i + 1, k, L)
    ELSE LET S == Spread(near, n, C, {j \in 1..n : L[j] # 0}, {i}) IN Label(near, n, C, i + 1, k + 1, [j \in 1..n |-> IF j \in S THEN k ELSE L[j]])
DbscanOf(near, n, min) == Label(near, n, Cores(near, n, min), 1, 1, [i \in 1..n |-> 0])

------------------------------------------------------ (* merged activities *)
\* big: sequence of sets of names, each a cluster of at least two; replaced nodes are <<"new", cluster>>
Replaced(N, big, x) == LET ks == {k \in DOMAIN big : N[x[1]].nc \in big[k]} IN IF ks = {} THEN <<"old", x[1]>> ELSE <<"new", CHOOSE k \in ks : TRUE>>
NameOf(N, r) == IF r[1] = "old" THEN <<"old", N[r[2]].nc>> ELSE r
\* instances of the same name that touch become one
Squash(N, big, xs) ==
    FoldLeft(LAMBDA acc, x :
        LET r == Replaced(N, big, x)
            z == acc[Len(acc)]
        IN IF acc # <<>> /\ NameOf(N, z[1]) = NameOf(N, r) /\ z[2] + z[3] = x[2] THEN Append(Front(acc), <<z[1], z[2], z[3] + x[3]>>) ELSE Append(acc, <<r, x[2], x[3]>>), <<>>, xs)
\* the nodes that are clustered: the first of each name on the level
Chosen(N, inst, level) ==
    LET all == SelectSeq(Flat(inst), LAMBDA x : N[x[1]].level = level)
    IN {all[i][1] : i \in {k \in DOMAIN all : \A m \in 1..(k - 1) : N[all[m][1]].nc # N[all[k][1]].nc}}
Stretch(log, rep) == IF rep = <<>> THEN <<>> ELSE SubSeq(log[rep[1] + 1], rep[2] + 1, rep[2] + rep[3])
\* what an activity looks like
Looks(log, node, src, shown) ==
    LET evs == Stretch(log, node.rep)
    IN CASE src = "EventClasses" -> SetToSeq(ToSet(Word(evs, "Events", shown)))
         [] src = "SubTraces" -> Word(evs, "Events", shown)
         [] OTHER -> Word(evs, "Leaves", shown)
=============================================================================
