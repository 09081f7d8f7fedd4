----------------------------- MODULE MCRsClusters -----------------------------
EXTENDS RsClusters, Json
CONSTANTS Part, NC, NT, NL
VARIABLES x, q
Words == UNION {[1..n -> 0..(NC - 1)] : n \in 0..NL}
Logs == UNION {[1..n -> Words] : n \in 1..NT}
Qs == {[dist |-> d, tol |-> t, mp |-> m] : d \in {"L1", "L2", "Levenshtein"}, t \in {1, 3, 9}, m \in {2, 3}} \cup {[dist |-> "Cosine", tol |-> t, mp |-> 2] : t \in {1, 40}}
\* instances: pieces of a trace of length NL over NC activities
Pieces == {s \in UNION {[1..n -> (1..NC) \X (0..NL) \X (1..2)] : n \in 0..NT} : \A i \in DOMAIN s : i < Len(s) => s[i][2] + s[i][3] <= s[i + 1][2]}
Parts == CASE Part = "rows" -> Logs \X Qs [] OTHER -> Pieces \X {<<>>, <<{1, 2}>>, <<{2, 3}>>, <<{1, 2, 3}>>}
Init == \E p \in Parts : x = p[1] /\ q = p[2]
Next == FALSE /\ UNCHANGED <<x, q>>
Emit == Part = "rows" => PrintT("CASE " \o ToJson([log |-> x, q |-> q]))

R == Part = "rows"
Table == IF q.dist = "Levenshtein" THEN Padded(x) ELSE Rows(x, SetToSeq(AllIn(x)))
\* distances: symmetric; edits also obey the triangle and are zero for the same only
Metric == R => LET T == Table IN
    /\ \A i, j \in DOMAIN T : Within(q.dist, q.tol, T[i], T[j]) <=> Within(q.dist, q.tol, T[j], T[i])
    /\ q.dist = "Levenshtein" => \A i, j \in DOMAIN T : /\ (Edit(T[i], T[j]) = 0) <=> (T[i] = T[j])
          /\ Edit(T[i], T[j]) = Edit(T[j], T[i]) /\ Edit(T[i], T[j]) <= Len(T[i])
          /\ \A k \in DOMAIN T : Edit(T[i], T[k]) <= Edit(T[i], T[j]) + Edit(T[j], T[k])
\* the algorithm gives clusters as defined, and only the numbering and border rows are free
Dbscan == R => LET T == Table
                   near == NearTable(q.dist, q.tol, T)
                   n == Len(T)
               IN /\ Clustered(near, n, q.mp, DbscanOf(near, n, q.mp))
                  /\ \A L \in [1..n -> 0..2] : Clustered(near, n, q.mp, L) =>
                        \A i, j \in Cores(near, n, q.mp) : (L[i] = L[j]) <=> (DbscanOf(near, n, q.mp)[i] = DbscanOf(near, n, q.mp)[j])
\* traces with the same classes are together or noise together
SameTogether == R => LET T == Table
                         near == NearTable(q.dist, q.tol, T)
                         L == DbscanOf(near, Len(T), q.mp)
                     IN \A i, j \in DOMAIN T : T[i] = T[j] => (L[i] = 0 <=> L[j] = 0)
NodesN == [i \in 1..NC |-> [nc |-> i]]
M == Part = "merge"
\* merging instances keeps what is covered, their order, and loses none; a second time nothing changes
Covered(xs) == UNION {xs[i][2]..(xs[i][2] + xs[i][3] - 1) : i \in DOMAIN xs}
MergeKeeps == M => LET y == Squash(NodesN, q, x) IN
    /\ Covered(y) = Covered(x)
    /\ \A i \in DOMAIN y : i < Len(y) => y[i][2] + y[i][3] <= y[i + 1][2]
    /\ \A i \in DOMAIN x : \E j \in DOMAIN y : y[j][2] <= x[i][2] /\ x[i][2] + x[i][3] <= y[j][2] + y[j][3] /\ y[j][1] = Replaced(NodesN, q, x[i])
    /\ \A i \in DOMAIN y : i < Len(y) => y[i][2] + y[i][3] < y[i + 1][2] \/ NameOf(NodesN, y[i][1]) # NameOf(NodesN, y[i + 1][1])
=============================================================================
