-------------------------- MODULE TraceRsPipelines --------------------------
(* Runs of pipelines recorded from the Rust backend, against RsPipelines.    *)
EXTENDS RsPipelines, TLC, IOUtils
VARIABLES t, k
Hist == ndJsonDeserialize(IOEnv.TRACES)

RECURSIVE Before(_, _)
After(h, j) == LET s == h.steps[j] IN Run(s.prog, Dropped(Before(h, j), s.drop), s.fail)
Before(h, j) == IF j = 1 THEN Ctx0((IF h.haslog THEN {"event_log"} ELSE {}) \cup SeqSet(h.given), h.log) ELSE After(h, j - 1).ctx

NotNotes(m) == SelectSeq(m, LAMBDA x : x # "note")
Free(prog) == \E i \in DOMAIN prog : prog[i].op \notin LogOps
Last2(s) == s[Len(s)]
Tracked == {"event_log", "patterns", "hashes_event_log", "activities", "trace_activities", "petri_net", "names_event_log", "event_log_info",
            "colors_event_log", "graph", "underlying_events_count"}
Plain(col) == [a \in DOMAIN col |-> [i \in DOMAIN col[a] |-> <<col[a][i][1], col[a][i][2], col[a][i][3]>>]]
Paint(h, j) == UNION {{<<p[1], p[4]>> : p \in SeqSet(Flat(h.steps[m].obs.colors))} : m \in 1..j}
SameBag(sorted, log) == LET f == Flat(log) IN
    /\ Len(sorted) = Len(f)
    /\ \A c \in SeqSet(f) : Cardinality({i \in DOMAIN f : f[i] = c}) = Cardinality({i \in DOMAIN sorted : sorted[i] = c})

\* the part that was running when it stopped
Running(prog, m) == LET n == NotNotes(m) IN IF Len(n) % 2 = 1 /\ (Len(n) + 1) \div 2 <= Len(prog) THEN prog[(Len(n) + 1) \div 2] ELSE [op |-> "none"]

\* parts that may refuse, or that need something only sometimes, end the part of the history that is followed
Refused(s) == /\ Free(s.prog) /\ Running(s.prog, s.obs.msgs).op # "none"
              /\ LET x == Running(s.prog, s.obs.msgs)
                 IN \/ (s.obs.res = "raw" /\ MayRefuse(x))
                    \/ \E q \in MayMiss(x) : s.obs.res = "missing:" \o q
Why(h, j) ==
    LET s == h.steps[j]
        o == s.obs
    IN IF o.err # "" THEN {"panic"}
       ELSE IF Refused(s) THEN {}
       ELSE LET r == After(h, j)
                c == r.ctx
            IN (IF (r.res = {} /\ o.res = "ok") \/ o.res \in r.res THEN {} ELSE {"result"})
               \cup (IF (IF Free(s.prog) THEN NotNotes(o.msgs) = NotNotes(r.msgs) ELSE o.msgs = r.msgs) THEN {} ELSE {"messages"})
               \cup (IF ~c.knowshas \/ SeqSet(o.has) = c.has \cap Tracked THEN {} ELSE {"context"})
               \cup (IF ~c.knowslog \/ ("event_log" \notin c.has) \/ o.log = c.log THEN {} ELSE {"log"})
               \cup (IF ~c.knowslog \/ ("names_event_log" \notin c.has) \/ o.names = c.names THEN {} ELSE {"names"})
               \cup (IF ~c.knowslog \/ ("hashes_event_log" \notin c.has) \/ SameKernel(o.hashes, c.hashes) THEN {} ELSE {"hashes"})
               \cup (IF ~c.knowslog \/ ("event_log_info" \notin c.has) \/ SameBag(o.info, c.info) THEN {} ELSE {"info"})
               \cup (IF ~c.knowslog \/ ~c.knowscol \/ ("colors_event_log" \notin c.has) \/ Plain(o.colors) = c.colors THEN {} ELSE {"colours"})
               \cup (IF ~c.knowscol \/ (\A p, q \in Paint(h, j) : (p[1] = q[1]) = (p[2] = q[2])) THEN {} ELSE {"one-colour-per-name"})
               \cup (IF \A p \in Paint(h, j) : (p[1] = -5) = (p[2] = 0) THEN {} ELSE {"black-is-undefined"})
TraceInit == t \in 1..Len(Hist) /\ k = 0
TraceNext == /\ k < Len(Hist[t].steps) /\ k' = k + 1 /\ t' = t
             /\ LET v == Why(Hist[t], k + 1)
                IN IF v = {} THEN TRUE ELSE PrintT("BAD " \o ToJson([h |-> t, k |-> k + 1, why |-> v]))
=============================================================================
