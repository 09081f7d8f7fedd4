---------------------------- MODULE TracePatterns ---------------------------
EXTENDS Patterns, TLC, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, k
RECURSIVE AllIn(_, _)
Words(tr, rs) == [i \in DOMAIN rs |-> Slice(tr, rs[i][1], rs[i][2])]
AllIn(tr, rs) == IF rs = <<>> THEN TRUE ELSE InBounds(tr, Head(rs)[1], Head(rs)[2]) /\ AllIn(tr, Tail(rs))
ExpArrays(op, tr, b) == IF op = "tandem_max" THEN MaximalArrays(tr, b) ELSE PrimitiveArrays(tr, b)
ExpWords(op, tr) == CASE op = "maximal" -> MaxRepeats(tr) [] op = "super" -> SuperMax(tr) [] OTHER -> NearSuperMax(tr)
Why(h, s) ==
    LET log == Mapped(s.map, h.log)
        o == s.obs
        r == o.res IN
    IF o.err # "" THEN {s.op \o " failed: " \o o.err}
    ELSE IF Len(r) # Len(log) THEN {"one list of patterns per trace"}
    ELSE Failing({<<"the log was altered", o.same>>}) \cup
         UNION {LET tr == log[i] IN
            IF ~AllIn(tr, r[i]) THEN {s.op \o ": reported outside of the trace"}
            ELSE IF s.op \in {"tandem_max", "tandem_prim"} THEN
                 LET e == ExpArrays(s.op, tr, s.bound) IN Failing({
                    <<s.op \o ": reported something that is no such loop", SeqSet(r[i]) \subseteq e>>,
                    <<s.op \o ": a loop is missing", e \subseteq SeqSet(r[i])>>,
                    <<s.op \o ": reported twice", DistinctSeq(r[i])>>})
            ELSE LET e == ExpWords(s.op, tr)
                     w == Words(tr, r[i]) IN Failing({
                    <<s.op \o ": reported something that is no such repeat", SeqSet(w) \subseteq e>>,
                    <<s.op \o ": a repeat is missing", e \subseteq SeqSet(w)>>,
                    <<s.op \o ": reported twice", DistinctSeq(w)>>}) : i \in DOMAIN log}
TraceInit == t \in 1..Len(Hist) /\ k = 0
TraceNext == /\ k < Len(Hist[t].steps) /\ k' = k + 1 /\ t' = t
             /\ LET v == Why(Hist[t], Hist[t].steps[k + 1]) IN
                IF v = {} THEN TRUE ELSE PrintT("BAD " \o ToJson([h |-> t, k |-> k + 1, why |-> v]))
=============================================================================
