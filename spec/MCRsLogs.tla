------------------------------ MODULE MCRsLogs ------------------------------
(* Every small log under every short sequence of edits.                      *)
EXTENDS RsLogs, TLC
CONSTANTS NC, NT, NL, NO
VARIABLES log0, log, ops

Traces == UNION {[1..n -> 0..(NC - 1)] : n \in 0..NL}
Logs0 == UNION {[1..n -> Traces] : n \in 0..NT}
C == 0..(NC - 1)
Op(o) == [op |-> o]
OpsFor(l) ==
    {[op |-> "name", c |-> c] : c \in C} \cup {[op |-> "names", set |-> SetToSeq(S)] : S \in SUBSET C}
    \cup {[op |-> "rename", set |-> <<a>>, c |-> b] : a \in C, b \in C} \cup {[op |-> "art", s |-> s, e |-> ~s] : s \in BOOLEAN}
    \cup {[op |-> "short", n |-> n] : n \in 1..NL} \cup {Op("variants"), Op("clone"), [op |-> "add", tr |-> <<0>>], [op |-> "add", tr |-> <<>>]}
    \cup (IF l = <<>> THEN {} ELSE {[op |-> "push", at |-> Len(l) - 1, c |-> 0], [op |-> "insert", at |-> 0, c |-> NC - 1]})

Init == log0 \in Logs0 /\ log = log0 /\ ops = <<>>
Next == /\ Len(ops) < NO
        /\ \E o \in OpsFor(log) : log' = Apply(log, o) /\ ops' = Append(ops, o)
        /\ UNCHANGED log0
Emit == Len(ops) = NO => PrintT("CASE " \o ToJson([log |-> log0, steps |-> ops]))

\* what the edits promise
NoGhosts == Len(ops) > 0 => LET o == ops[Len(ops)] IN
    /\ o.op \in {"name", "names"} => /\ \A t \in DOMAIN log : log[t] # <<>>
                                     /\ (IF o.op = "name" THEN {o.c} ELSE SeqSet(o.set)) \cap ClassesOf(log) = {}
    /\ o.op = "variants" => \A t, u \in DOMAIN log : t # u => log[t] # log[u]
    /\ o.op = "short" => \A t \in DOMAIN log : Len(log[t]) >= o.n
    /\ o.op = "rename" => o.set[1] = o.c \/ o.set[1] \notin ClassesOf(log)
\* the derived values agree with each other
Consistent ==
    /\ SumOf([c \in ClassesOf(log) |-> ClassCount(log, {}, c)]) = EventsCount(log)
    /\ UNION {SeqSet(GroupsSpec(log)[i]) : i \in DOMAIN GroupsSpec(log)} = {t - 1 : t \in DOMAIN log}
    /\ SumSeq([i \in DOMAIN GroupsSpec(log) |-> Len(GroupsSpec(log)[i])]) = Len(log)
    /\ \A t \in DOMAIN log : UNION {SeqSet(p[2]) : p \in PositionsSpec(log[t])} = {i - 1 : i \in DOMAIN log[t]}
    /\ StartClasses(log) = {p[2] : p \in {p \in PairSet(log, {}, TRUE) : p[1] = START}}
    /\ EndClasses(log) = {p[1] : p \in {p \in PairSet(log, {}, TRUE) : p[2] = END}}
    /\ LET n == SumOf([p \in PairSet(log, {}, FALSE) |-> PairCount(log, {}, FALSE, p[1], p[2])])
       IN n = EventsCount(log) - Len(SelectSeq(log, NonEmpty))
=============================================================================
