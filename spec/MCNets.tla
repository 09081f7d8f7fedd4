-------------------------------- MODULE MCNets --------------------------------
(* All small process trees: their nets replay exactly their words.            *)
EXTENDS Nets, Json, TLC
CONSTANTS NL, NW
VARIABLES stack, leaves
vars == <<stack, leaves>>
Init == stack = <<>> /\ leaves = 0
Push == /\ leaves < NL /\ leaves' = leaves + 1
        /\ \E c \in {"", "c" \o ToString(leaves + 1)} : stack' = Append(stack, [op |-> "leaf", c |-> c])
Join == /\ Len(stack) > 1
        /\ \E op \in {"seq", "xor", "and", "loop"} :
           stack' = Append(SubSeq(stack, 1, Len(stack) - 2), [op |-> op, a |-> stack[Len(stack) - 1], b |-> stack[Len(stack)]])
        /\ UNCHANGED leaves
Next == Push \/ Join
Alphabet == {"c" \o ToString(i) : i \in 1..NL}
Words == UNION {[1..l -> Alphabet] : l \in 0..NW}
One == Len(stack) = 1
Exact == One => LET net == NetOf(stack[1])
                    lang == Lang(stack[1], NW) IN
                IsNet(net) /\ \A w \in Words : Replays(net, w) <=> w \in lang
LabelsKept == One => Classes(SetToSeq(Lang(stack[1], NW))) \subseteq Labels(NetOf(stack[1]))
Emit == One => PrintT("CASE " \o ToJson(Lang(stack[1], NW)))
===============================================================================
