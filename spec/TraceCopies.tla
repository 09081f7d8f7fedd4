----------------------------- MODULE TraceCopies ----------------------------
(* Replays a recorded program on the heap model; after every step all handles*)
(* have to show exactly what the model says.                                 *)
EXTENDS Copies, TLC, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, k, h, hs
RECURSIVE Conv(_)
Conv(x) == [a |-> x.a, k |-> x.k, d |-> {<<x.d[i][1], Conv(x.d[i][2])>> : i \in DOMAIN x.d}, s |-> [i \in DOMAIN x.s |-> Conv(x.s[i])]]
Why(s, g, q) ==
    LET o == s.obs IN
    IF o.err # "" THEN {s.op \o " failed: " \o o.err}
    ELSE IF Len(o.all) # Len(q) THEN {"handles"}
    ELSE LET bad == {i \in DOMAIN q : Conv(o.all[i]) # Content(g, q[i])}
             fresh == Len(q) > Len(hs) IN
         (IF fresh /\ Len(q) \in bad THEN {s.op \o " does not give what it should"} ELSE {})
         \cup (IF (bad \ (IF fresh THEN {Len(q)} ELSE {})) # {} THEN {IF fresh THEN s.op \o " altered its source" ELSE "an edit is visible where it must not be, or not where it must be"} ELSE {})
         \cup (IF \A i, j \in DOMAIN q : LET x == Content(g, q[i]) y == Content(g, q[j]) IN
                     x.k = y.k /\ x.k # "pm" /\ g[q[i].r].k # "pm" =>
                         ((<<i, j>> \in {<<o.same[z][1], o.same[z][2]>> : z \in DOMAIN o.same}) <=> Essence(x) = Essence(y)) THEN {} ELSE {"equality"})
         \cup (IF o.eq THEN {} ELSE {s.op \o ": not equal to the original"})
TraceInit == t \in 1..Len(Hist) /\ k = 0 /\ h = Heap0 /\ hs = Root0
TraceNext == /\ k < Len(Hist[t].steps) /\ k' = k + 1 /\ t' = t
             /\ LET s == Hist[t].steps[k + 1]
                    q == Do(h, hs, s.op, s.i, 100 + k)
                    v == Why(s, q[1], q[2]) IN
                /\ h' = q[1] /\ hs' = q[2]
                /\ IF v = {} THEN TRUE ELSE PrintT("BAD " \o ToJson([h |-> t, k |-> k + 1, why |-> v]))
=============================================================================
