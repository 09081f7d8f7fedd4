-------------------------- MODULE TraceRsPatterns ---------------------------
EXTENDS RsPatterns, TLC, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, k
Words(tr, rs) == [i \in DOMAIN rs |-> Slice(tr, rs[i][1], rs[i][2])]
AllIn(tr, rs) == \A i \in DOMAIN rs : InBounds(tr, rs[i][1], rs[i][2])
ExpArrays(op, tr, b) == IF op = "tandem_max" THEN MaximalArrays(tr, b) ELSE PrimitiveArrays(tr, b)
ExpWords(op, tr) == CASE op = "maximal" -> MaxRepeats(tr) [] op = "super" -> SuperMax(tr) [] OTHER -> NearSuperMax(tr)
Single(s, log, r) ==
    UNION {LET tr == log[i] IN
        IF ~AllIn(tr, r[i]) THEN {s.op \o ": reported outside of the trace"}
        ELSE IF s.op \in {"tandem_max", "tandem_prim"} THEN
             LET e == {<<a[1], a[2]>> : a \in ExpArrays(s.op, tr, s.bound)} IN Failing({
                <<s.op \o ": reported something that is no such loop", SeqSet(r[i]) \subseteq e>>,
                <<s.op \o ": a loop is missing", e \subseteq SeqSet(r[i])>>,
                <<s.op \o ": reported twice", DistinctSeq(r[i])>>,
                <<s.op \o ": number of repetitions", s.how # "fn" \/ SeqSet(s.obs.counts[i]) = ExpArrays(s.op, tr, s.bound)>>})
        ELSE LET e == ExpWords(s.op, tr)
                 w == Words(tr, r[i]) IN Failing({
                <<s.op \o ": reported something that is no such repeat", SeqSet(w) \subseteq e>>,
                <<s.op \o ": a repeat is missing", e \subseteq SeqSet(w)>>,
                <<s.op \o ": reported twice", DistinctSeq(w)>>}) : i \in DOMAIN log}
AllWords(log, r) == UNION {SeqSet(Words(log[i], r[i])) : i \in DOMAIN log}
Merged(s, log, r, strict) ==
    IF \E i \in DOMAIN log : ~AllIn(log[i], r[i]) THEN {s.op \o " (merged): reported outside of the trace"}
    ELSE LET ws == AllWords(log, r) lo == MergedMax(log, strict) hi == MergedMaxU(log) IN
         Failing({<<s.op \o " (merged): reported twice", Cardinality(ws) = SumSeq([i \in DOMAIN r |-> Len(r[i])])>>,
                  <<s.op \o " (merged): reported something that is no maximal repeat", ws \subseteq hi>>,
                  <<s.op \o " (merged): a repeat is missing", s.op # "maximal" \/ lo \subseteq ws>>})
WordsWhy(s, log, strict) ==
    LET tr == IF s.merged THEN Joined(log) ELSE log[1]
        o == s.obs
        occ == IF s.merged THEN JOcc(tr, s.word) ELSE Occ(tr, s.word)
        must == IF s.merged THEN {p \in occ : p < Found(tr, strict)} ELSE occ
        got == {q[1] : q \in SeqSet(o.res)}
    IN IF o.none THEN Failing({<<"a word that occurs is not found", must = {}>>})
       ELSE Failing({<<"occurrences of a word are missing", must \subseteq got>>,
                     <<"no occurrence of the word there", /\ DistinctSeq(o.res) /\ \A q \in SeqSet(o.res) : q[1] \in occ /\ q[2] = q[1] + Len(s.word)>>})
Why(h, s) ==
    LET o == s.obs
        log == IF "map" \in DOMAIN s THEN Mapped(s.map, h.log) ELSE h.log IN
    IF o.err # "" THEN {s.op \o " failed: " \o o.err}
    ELSE IF s.op = "words" THEN WordsWhy(s, log, h.t = "last-trace-ending")
    ELSE IF Len(o.res) # Len(log) THEN {"one list of patterns per trace"}
    ELSE IF s.merged /\ s.op \notin {"tandem_max", "tandem_prim"} THEN Merged(s, log, o.res, h.t = "last-trace-ending")
    ELSE Single(s, log, o.res)
TraceInit == t \in 1..Len(Hist) /\ k = 0
TraceNext == /\ k < Len(Hist[t].steps) /\ k' = k + 1 /\ t' = t
             /\ LET v == Why(Hist[t], Hist[t].steps[k + 1]) IN
                IF v = {} THEN TRUE ELSE PrintT("BAD " \o ToJson([h |-> t, k |-> k + 1, why |-> v]))
=============================================================================
