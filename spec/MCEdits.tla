------------------------------ MODULE MCEdits ------------------------------
EXTENDS Edits, TLC, Json
CONSTANTS NC, NT, NL, NE, NOps
VARIABLES log, phase, cur, prev, ops
LB == INSTANCE LogBuilder
vars == <<log, phase, cur, prev, ops>>

\* identities 1.. in log order; every second event has a lifecycle attribute
Before(t) == SumSeq([u \in 1..(t - 1) |-> Len(log[u])])
Events(l) == [t \in DOMAIN l |-> [i \in DOMAIN l[t] |-> <<Before(t) + i, l[t][i], (Before(t) + i) % 2, 0>>]]

Preds == {[k |-> "cls", v |-> 0], [k |-> "idmod", m |-> 2, v |-> 1], [k |-> "idmod", m |-> 3, v |-> 1], [k |-> "life"],
          [k |-> "note"], [k |-> "all"]}
Swap == [i \in 1..NC |-> IF i = 1 THEN 1 ELSE IF i = 2 THEN 0 ELSE i - 1]
Join == [i \in 1..NC |-> 0]
Ops == {[op |-> "remove", c |-> c] : c \in 0..(NC - 1)}
   \cup {[op |-> "removemany", cs |-> cs] : cs \in {<<>>, <<0>>, <<0, 1>>}}
   \cup {[op |-> "removepred", p |-> p] : p \in Preds}
   \cup {[op |-> "count", n |-> n] : n \in 0..2}
   \cup {[op |-> "rename", map |-> m] : m \in {Swap, Join}}
   \cup {[op |-> "extract", p |-> p, map |-> m] : p \in {[k |-> "idmod", m |-> 2, v |-> 0], [k |-> "cls", v |-> 1]}, m \in {Swap, Join}}
   \cup {[op |-> "edit", p |-> p, v |-> 7] : p \in {[k |-> "idmod", m |-> 2, v |-> 0]}}
   \cup {[op |-> "lifecycle"], [op |-> "endpoints"]}

Init == LB!BuildInit /\ phase = "build" /\ cur = <<>> /\ prev = <<>> /\ ops = <<>>
Build == phase = "build" /\ LB!BuildNext /\ UNCHANGED <<phase, cur, prev, ops>>
Start == phase = "build" /\ phase' = "run" /\ cur' = Events(log) /\ prev' = Events(log) /\ UNCHANGED <<log, ops>>
Do == /\ phase = "run" /\ Len(ops) < NOps
      /\ \E o \in Ops : ops' = Append(ops, o) /\ prev' = cur /\ cur' = Apply(o, cur)
      /\ UNCHANGED <<log, phase>>
Next == Build \/ Start \/ Do

LastOp == ops[Len(ops)]
\* removal: exactly the matching events go, the rest stays in order, no trace is left empty
RemovalExact == (ops # <<>> /\ LastOp.op \in Removal) =>
    /\ SubSeqOf(Flat(cur), Flat(prev))
    /\ LastOp.op # "count" => /\ SeqSet(Flat(cur)) = {e \in SeqSet(Flat(prev)) : ~Matches(LastOp, e)}
                            /\ \A t \in DOMAIN cur : cur[t] # <<>>
    /\ LastOp.op = "count" => \A t \in DOMAIN prev : (Len(prev[t]) > LastOp.n) <=> (prev[t] \in SeqSet(cur))
\* edits keep every event and its position
EditKeeps == (ops # <<>> /\ LastOp.op \notin Removal /\ LastOp.op # "endpoints") =>
    /\ Len(cur) = Len(prev)
    /\ \A t \in DOMAIN cur : Len(cur[t]) = Len(prev[t]) /\ \A i \in DOMAIN cur[t] : cur[t][i][1] = prev[t][i][1]
\* removing twice is removing once
Idempotent == (ops # <<>> /\ LastOp.op \in Removal) => Apply(LastOp, cur) = cur
Emit == (phase = "run" /\ ops # <<>>) => PrintT("CASE " \o ToJson([log |-> log, ops |-> ops]))
=============================================================================
