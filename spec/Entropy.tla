------------------------------ MODULE Entropy ------------------------------
(* Entropies in fixed point.  L[n] is log2(n) * 10^5, rounded.               *)
EXTENDS LogInfo, Json
L == JsonDeserialize("log2.json")

\* entropy of a distribution given by integer weights with sum W, scaled by 10^5
HW(ws, W) == SumSeq([i \in DOMAIN ws |-> ws[i] * (L[W] - L[ws[i]])]) \div W

\* ---- neighbourhood entropy: successors and predecessors, endpoints included -----------------
Succ(log, ign) == SetToSeq(ClassesOf(log) \ ign) \o <<END>>
Pred2(log, ign) == SetToSeq(ClassesOf(log) \ ign) \o <<START>>
Pos1(s) == SelectSeq(s, LAMBDA x : x > 0)
NeighH(log, ign, c, laplace) ==
    LET n == ClassCount(log, ign, c)
        out == [i \in DOMAIN Succ(log, ign) |-> PairCount(log, ign, TRUE, c, Succ(log, ign)[i])]
        inn == [i \in DOMAIN Pred2(log, ign) |-> PairCount(log, ign, TRUE, Pred2(log, ign)[i], c)]
        E1 == Len(out)
        W == E1 + n * n
    IN IF laplace THEN HW([i \in DOMAIN out |-> 1 + n * out[i]], W) + HW([i \in DOMAIN inn |-> 1 + n * inn[i]], W)
       ELSE HW(Pos1(out), n) + HW(Pos1(inn), n)
\* precomputed pair counts make the larger logs affordable
NeighAll(log, ign, laplace) == [c \in (ClassesOf(log) \ ign) |-> NeighH(log, ign, c, laplace)]

\* ---- position entropy, scaled by 10^4 --------------------------------------------------------
NonEmptyCount(log, ign) == Cardinality({t \in DOMAIN log : Visible(log[t], ign) # <<>>})
MaxLen(log) == Max({Len(log[t]) : t \in DOMAIN log} \cup {0})
AtPosition(log, ign, c, j) ==
    Cardinality({t \in DOMAIN log : LET v == Visible(log[t], ign) IN j <= Len(v) /\ v[j] = c})
PosH(log, ign, c) ==
    LET m == NonEmptyCount(log, ign)
        counts == Pos1([j \in 1..MaxLen(log) |-> AtPosition(log, ign, c, j)])
    IN IF m <= 1 THEN 0
       ELSE SumSeq([i \in DOMAIN counts |-> ((L[m] - L[counts[i]]) * 1000) \div (L[m] \div 10)]) \div Len(counts)
PosAll(log, ign) == [c \in (ClassesOf(log) \ ign) |-> PosH(log, ign, c)]

SumOf(f) == FoldSet(LAMBDA c, a : a + f[c], 0, DOMAIN f)
AvgOf(f) == IF DOMAIN f = {} THEN 0 ELSE SumOf(f) \div Cardinality(DOMAIN f)

\* ---- the fast computation: positions in the original trace, shifted by the ignored events before them ----
FastPosition(tr, ign, i) == i - Cardinality({j \in 1..(i - 1) : tr[j] \in ign})
RefPosition(tr, ign, i) == Len(Visible(SubSeq(tr, 1, i), ign))

Close(a, b, tol) == Abs(a - b) <= tol
=============================================================================
