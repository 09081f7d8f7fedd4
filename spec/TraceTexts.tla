----------------------------- MODULE TraceTexts -----------------------------
EXTENDS Texts, TLC, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, k
Failing(S) == {c[1] : c \in {x \in S : ~x[2]}}
Why(h, j) ==
    LET s == h.steps[j]
        o == s.obs IN
    IF o.err # "" THEN {s.op \o " failed: " \o o.err}
    ELSE CASE s.op = "parse" -> Failing({<<"names of a log built from text", o.log = ReadLog(s.lines, s.es)>>,
                                         <<"writing a log built from text", o.text = Join(s.lines, s.ts)>>})
           [] s.op = "write" -> Failing({<<"text of a log", o.text = WriteLog(s.log, s.ts, s.es)>>,
                                         <<"log read from its text", o.log = s.log>>})
           [] s.op = "writeall" -> Failing({<<"text of several logs", o.text = WriteLogs(s.logs, s.ls, s.ts, s.es)>>})
TraceInit == t \in 1..Len(Hist) /\ k = 0
TraceNext == /\ k < Len(Hist[t].steps) /\ k' = k + 1 /\ t' = t
             /\ LET v == Why(Hist[t], k + 1) IN
                IF v = {} THEN TRUE ELSE PrintT("BAD " \o ToJson([h |-> t, k |-> k + 1, why |-> v]))
=============================================================================
