------------------------------ MODULE MCRsPlay -------------------------------
(* Every small net and the token game on it: what can be replayed.             *)
EXTENDS RsNets, TLC, Json
CONSTANTS NP, MaxSteps, MaxTok, Emits
VARIABLES net, m, word, fired
Lab == <<"", "c1", "c2">>
PS == SUBSET (1..NP)
ArcsOf(S1) == [k \in 1..Cardinality(S1) |-> [p |-> SetToSeq(S1)[k], w |-> 1]]
Kinds == {x \in (1..3) \X PS \X PS : x[1] = 1 => Cardinality(x[3]) <= Cardinality(x[2])}
KindSeq == SetToSeq(Kinds)
T(i) == LET x == KindSeq[i] IN [label |-> Lab[x[1]], pre |-> ArcsOf(x[2]), post |-> ArcsOf(x[3])]
Ims == {[p \in 1..NP |-> IF p = 1 THEN k ELSE 0] : k \in 1..MaxTok}
Nets0 == {[n |-> NP, trans |-> <<T(i), T(j)>>, im |-> x, hasim |-> TRUE] : i \in DOMAIN KindSeq, j \in DOMAIN KindSeq, x \in Ims}
Useful(n) == \E i \in DOMAIN n.trans : n.trans[i].label # "" /\ Len(n.trans[i].pre) > 0
Init == net \in {n \in Nets0 : Useful(n)} /\ m = net.im /\ word = <<>> /\ fired = <<>>
Next == /\ Len(fired) < MaxSteps
        /\ \E i \in DOMAIN net.trans : LET x == net.trans[i] IN
             /\ Enabled(m, x) /\ m' = Fire(m, x) /\ fired' = Append(fired, i)
             /\ word' = IF x.label = "" THEN word ELSE Append(word, x.label)
        /\ UNCHANGED net
Emit == Emits /\ fired = <<>> => PrintT("CASE " \o ToJson([net |-> net]))
\* what has been fired is a replay of the word it spells, and such words can be replayed
Sound == IsReplay(net, word, fired) /\ Replayable(net, word)
\* whatever cannot start cannot be replayed
Complete == fired = <<>> => \A c \in {"c1", "c2"} :
    Replayable(net, <<c>>) <=> \E x \in RSilent(net, {net.im}, {net.im}) : \E i \in DOMAIN net.trans : net.trans[i].label = c /\ Enabled(x, net.trans[i])
NonNegative == \A p \in DOMAIN m : m[p] >= 0
==============================================================================
