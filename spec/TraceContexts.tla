---------------------------- MODULE TraceContexts ----------------------------
EXTENDS Contexts, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, k, ctx, n
SetOf(s) == {s[i] : i \in DOMAIN s}
Bad(cl) == {c[1] : c \in {d \in cl : ~d[2]}}

\* obs.keys: entries after the step; obs.changed: entries that existed before and after and whose content differs
PartWhy(s) ==
    LET o == s.obs  nx == After(s.part, ctx, n) IN
    IF o.err # "" THEN {"part " \o s.part \o " failed: " \o o.err}
    ELSE IF o.skipped THEN {}
    ELSE Bad({
        <<"entries after part " \o s.part, SetOf(o.keys) = PresentKeys(nx)>>,
        <<"part " \o s.part \o " altered an entry it does not produce",
          SetOf(o.changed) \subseteq Produced(s.part) \cup (IF InPlace(s.part) THEN {"log"} ELSE {})>>,
        <<"part " \o s.part \o " altered a value it received",
          SetOf(o.mutated) \subseteq (IF InPlace(s.part) THEN {"log"} ELSE {})>>})
\* obs.mutated: entries of the surrounding context whose stored content differs after the block
BlockWhy(s) ==
    LET o == s.obs  edits == \E i \in DOMAIN s.inner : InPlace(s.inner[i]) IN
    IF o.err # "" THEN {"block failed: " \o o.err}
    ELSE Bad({
        <<"block changed the set of entries", SetOf(o.keys) = PresentKeys(ctx)>>,
        <<"block replaced an entry", s.kind = "par" \/ o.same>>,
        <<"block altered the content of an entry",
            SetOf(o.mutated) \subseteq (IF edits THEN {"log", "activities_logs"} ELSE {})>>,
        <<"sibling branch saw other entries", SetOf(o.sibkeys) = PresentKeys(ctx)>>,
        <<"sibling branch saw altered content",
            SetOf(o.sibchanged) \subseteq (IF edits THEN {"log", "activities_logs"} ELSE {})>>})
MissingWhy(s) ==
    Bad({<<"an absent entry did not raise", SetOf(s.obs.raised) = Keys \ PresentKeys(ctx)>>})

TraceInit == t \in 1..Len(Hist) /\ k = 0 /\ ctx = Start(1) /\ n = 1
TraceNext ==
    /\ k < Len(Hist[t].steps) /\ k' = k + 1 /\ t' = t
    /\ LET s == Hist[t].steps[k + 1] IN
       /\ ctx' = IF s.op = "part" /\ s.obs.err = "" /\ ~s.obs.skipped THEN After(s.part, ctx, n) ELSE ctx
       /\ n' = n + 3
       /\ LET v == CASE s.op = "part" -> PartWhy(s) [] s.op = "block" -> BlockWhy(s) [] s.op = "missing" -> MissingWhy(s)
          IN IF v = {} THEN TRUE ELSE PrintT("BAD " \o ToJson([h |-> t, k |-> k + 1, why |-> v]))
=============================================================================
