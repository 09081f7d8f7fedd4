------------------------------ MODULE MCRsNets -------------------------------
(* Every small log: what alpha builds from it, and the token game on it.       *)
EXTENDS RsNets, TLC, Json
CONSTANTS NC, NT, NL
VARIABLES log, m, tr, at
Cs == {"c1", "c2", "c3"}
Alphabet == {c \in Cs : c = "c1" \/ (NC > 1 /\ c = "c2") \/ (NC > 2 /\ c = "c3")}
Words == UNION {[1..n -> Alphabet] : n \in 0..NL}
\* logs up to the order of their traces; words are numbered
WordSeq == SetToSeq(Words)
Logs0 == {<<>>} \cup {<<WordSeq[i]>> : i \in DOMAIN WordSeq}
         \cup (IF NT < 2 THEN {} ELSE {<<WordSeq[i], WordSeq[j]>> : i \in DOMAIN WordSeq, j \in DOMAIN WordSeq})
         \cup (IF NT < 3 THEN {} ELSE {<<WordSeq[i], WordSeq[j], WordSeq[k]>> : i \in DOMAIN WordSeq, j \in DOMAIN WordSeq, k \in DOMAIN WordSeq})
Small == {l \in Logs0 : \A i \in 1..(Len(l) - 1) : Len(l[i]) <= Len(l[i + 1])}

\* the net that has these places
AlphaNet(L) ==
    LET ps == AlphaPlaces(L)
        cs == SetToSeq(Classes(L))
        arcs(c, d) == LET I == {i \in DOMAIN ps : V(c) \in ps[i][d]} IN [k \in 1..Cardinality(I) |-> [p |-> SetToSeq(I)[k], w |-> 1]] IN
    [n |-> Len(ps), trans |-> [i \in DOMAIN cs |-> [label |-> cs[i], pre |-> arcs(cs[i], 2), post |-> arcs(cs[i], 1)]],
     im |-> [p \in DOMAIN ps |-> IF p = Len(ps) - 1 THEN 1 ELSE 0], fm |-> [p \in DOMAIN ps |-> IF p = Len(ps) THEN 1 ELSE 0]]
Init == log \in Small /\ m = AlphaNet(log).im /\ tr \in DOMAIN log \cup {0} /\ at = 0
\* the token game along a trace of the log
Next == /\ tr > 0 /\ at < Len(log[tr])
        /\ \E i \in DOMAIN AlphaNet(log).trans : LET x == AlphaNet(log).trans[i] IN
             x.label = log[tr][at + 1] /\ Enabled(m, x) /\ m' = Fire(m, x)
        /\ at' = at + 1 /\ UNCHANGED <<log, tr>>
Emit == at = 0 /\ tr = 0 => PrintT("CASE " \o ToJson([log |-> log]))

\* joining pairs step by step finds the maximal ones
JoinFinds == at = 0 /\ tr = 0 =>
    LET C == Classes(log) D == Follows(log) J == Joining(D, {}, Atoms(C, D, {})) IN
    {P \in J : \A Q \in J : Sub(P, Q) => P = Q} = MaxPairs(C, D, {})
\* every trace can start
Starts == tr > 0 /\ at = 0 /\ Len(log[tr]) > 0 =>
    \A i \in DOMAIN AlphaNet(log).trans : LET x == AlphaNet(log).trans[i] IN
      (x.label = log[tr][1] /\ \A a \in Classes(log) : <<a, x.label>> \notin Follows(log)) => Enabled(m, x)
\* the token game reaches exactly the prefixes that can be replayed
Reached == tr > 0 => Replayable(AlphaNet(log), SubSeq(log[tr], 1, at))
NonNegative == \A p \in DOMAIN m : m[p] >= 0
\* nobody both puts into and takes from a place of alpha; no two places are alike
Clean == at = 0 /\ tr = 0 => LET ps == AlphaPlaces(log) IN
    \A i \in DOMAIN ps : ps[i][1] \cap ps[i][2] = {} /\ \A j \in DOMAIN ps : i # j /\ ps[i] = ps[j] => ps[i] = <<{}, {}>>
==============================================================================
