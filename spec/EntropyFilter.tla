--------------------------- MODULE EntropyFilter ---------------------------
(* Filtering by entropy as a transition system: one class per step.          *)
(* cfg: [kind, thr, limit, prot, top]; kind is one of                        *)
(*   pos_direct, pos_indirect (scale 10^4), dfg_direct, dfg_indirect,        *)
(*   lap_direct, lap_indirect (scale 10^5); top = <<a, b>> means fraction a/b*)
(* Values closer than the tolerance are not distinguished.                   *)
EXTENDS Entropy

IsPos(kind) == kind \in {"pos_direct", "pos_indirect"}
IsDirect(kind) == kind \in {"pos_direct", "dfg_direct", "lap_direct"}
IsLap(kind) == kind \in {"lap_direct", "lap_indirect"}
Metrics(kind, log, ign) == IF IsPos(kind) THEN PosAll(log, ign) ELSE NeighAll(log, ign, IsLap(kind))
\* the entropy of the whole log that the indirect variants compare with the threshold
Whole(kind, log, ign) == IF IsPos(kind) THEN SumOf(PosAll(log, ign)) ELSE AvgOf(NeighAll(log, ign, IsLap(kind)))
Tol(kind) == IF IsPos(kind) THEN 4 ELSE 8
TolWhole(kind, log) == IF IsPos(kind) THEN 4 + 3 * Cardinality(ClassesOf(log)) ELSE 12

Cands(log, prot) == ClassesOf(log) \ prot
TopMax(m, S) == Max({m[c] : c \in S})
\* classes that may / must be among the top fraction (ties and near ties)
TopK(log, top) == (Cardinality(ClassesOf(log)) * top[1]) \div top[2]
MayTop(m, k, tol) == {c \in DOMAIN m : Cardinality({d \in DOMAIN m : m[d] > m[c] + tol}) < k}
MustTop(m, k, tol) == {c \in DOMAIN m : Cardinality({d \in DOMAIN m \ {c} : m[d] >= m[c] - tol}) < k}

\* result: [stop: may filtering stop here, next: classes that may be removed next]
DirectChoice(kind, log, thr, prot) ==
    LET S == Cands(log, prot) m == Metrics(kind, log, {}) IN
    IF S = {} THEN [stop |-> TRUE, next |-> {}]
    ELSE LET mx == TopMax(m, S) tol == Tol(kind) IN
         IF mx = 0 /\ thr >= 0 THEN [stop |-> TRUE, next |-> {}]
         ELSE [stop |-> mx <= thr + tol,
               next |-> IF mx > thr - tol THEN {c \in S : m[c] >= mx - tol} ELSE {}]
IndirectChoice(kind, log, thr, prot, top) ==
    LET w == Whole(kind, log, {})  tw == TolWhole(kind, log)
        m == Metrics(kind, log, {})  k == TopK(log, top)
        may == Cands(log, prot) \cap (IF IsPos(kind) THEN ClassesOf(log) ELSE MayTop(m, k, Tol(kind)))
        must == Cands(log, prot) \cap (IF IsPos(kind) THEN ClassesOf(log) ELSE MustTop(m, k, Tol(kind)))
        after == [c \in may \cup must |-> Whole(kind, log, {c})]
    IN IF ClassesOf(log) = {} \/ (w = 0 /\ thr >= 0) THEN [stop |-> TRUE, next |-> {}]
       ELSE [stop |-> w <= thr + tw \/ must = {},
             next |-> IF w > thr - tw THEN {c \in may : \A d \in must : after[c] <= after[d] + tw} ELSE {}]
Choice(cfg, log) ==
    IF IsDirect(cfg.kind) THEN DirectChoice(cfg.kind, log, cfg.thr, cfg.prot)
    ELSE IndirectChoice(cfg.kind, log, cfg.thr, cfg.prot, cfg.top)

\* till the end: the same order without a threshold
EndChoice(kind, log, prot) ==
    IF IsDirect(kind)
    THEN LET S == Cands(log, prot) m == Metrics(kind, log, {}) IN
         IF S = {} THEN {} ELSE {c \in S : m[c] >= TopMax(m, S) - Tol(kind)}
    ELSE LET S == Cands(log, prot)  after == [c \in S |-> Whole(kind, log, {c})] IN
         {c \in S : \A d \in S : after[c] <= after[d] + TolWhole(kind, log)}
\* what is reported as the entropy of the log
EndMetric(kind, log, prot) ==
    IF IsDirect(kind) THEN LET m == Metrics(kind, log, {}) S == Cands(log, prot) IN SumOf([c \in S |-> m[c]])
    ELSE Whole(kind, log, {})
=============================================================================
