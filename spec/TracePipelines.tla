--------------------------- MODULE TracePipelines ---------------------------
(* A recorded history: a pipeline is built from a list, edited and executed. *)
(* The state is the part list; every execution is compared with its meaning. *)
EXTENDS Pipelines, TLC, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, k, parts

Real(s) == SelectSeq(s, LAMBDA x : x.k # "none")
\* effect of a step on the part list
After(s, p) ==
    CASE s.op = "build" -> IF s.valid THEN Real(s.items) ELSE p
      [] s.op = "append" -> EditAppend(p, s.item)
      [] s.op = "insert" -> EditInsert(p, s.i, s.item)
      [] s.op = "remove" -> EditRemove(p, s.i)
      [] OTHER -> p
Why(s, p) ==
    CASE s.op = "build" -> IF s.valid
                           THEN IF s.obs.err = "" THEN {} ELSE {"a valid list of parts was rejected: " \o s.obs.err}
                           ELSE IF s.obs.err # "" THEN {} ELSE {"something that is not a part was accepted"}
      [] s.op = "exec" ->
            LET r == EvalSeq(p, s.ctx) IN
            {c[1] : c \in {d \in {
                <<"parts executed, their order and inputs", s.obs.calls = r.calls>>,
                <<"errors end the execution and reach the caller", s.obs.raised = r.err>>,
                <<"result of the execution", r.err \/ s.obs.raised \/ s.obs.ctx = r.ctx>>,
                <<"executing again gives the same", s.obs.again>>} : ~d[2]}}
      [] OTHER -> IF s.obs.err = "" THEN {} ELSE {"editing the pipeline failed: " \o s.obs.err}

TraceInit == t \in 1..Len(Hist) /\ k = 0 /\ parts = <<>>
TraceNext == /\ k < Len(Hist[t].steps) /\ k' = k + 1 /\ t' = t
             /\ LET s == Hist[t].steps[k + 1] IN
                /\ parts' = After(s, parts)
                /\ LET v == Why(s, parts) IN
                   IF v = {} THEN TRUE ELSE PrintT("BAD " \o ToJson([h |-> t, k |-> k + 1, why |-> v]))
=============================================================================
