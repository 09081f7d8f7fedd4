------------------------------ MODULE Contexts ------------------------------
(* The pipeline context: entries referring to shared objects.  Every library *)
(* part is described by what it needs, what it produces and whether it edits *)
(* the log in place.  An entry is [o, b]: the object and the log object it   *)
(* was computed from (positions are only meaningful in that log).            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Keys == {"log", "activities", "repeat_sets", "traces_activities", "patterns", "petri_net", "event_class_tree",
         "activities_logs", "serialized_graph", "graph", "activity_name_key"}
None == [o |-> 0, b |-> 0]
Has(ctx, k) == ctx[k] # None

\* needs: required entries; pos: required entries (if present) that hold positions of the current log;
\* makes: produced entries computed from the current log; other: produced entries not tied to the current log;
\* log: "same" | "new" (a new log object) | "edit" (edits the log it got); drop: starts a context with the log only
Part(needs, pos, makes, other, lg, drop) ==
    [needs |-> {"log"} \cup needs, pos |-> pos, makes |-> makes, other |-> other, log |-> lg, drop |-> drop]
Plain(needs, makes) == Part(needs, {}, makes, {}, "same", FALSE)
Parts ==
  [ tandem_max |-> Plain({}, {"patterns"}), tandem_prim |-> Plain({}, {"patterns"}),
    repeats_max |-> Plain({}, {"patterns"}), repeats_super |-> Plain({}, {"patterns"}),
    repeats_near |-> Plain({}, {"patterns"}),
    all_patterns |-> Part({"patterns"}, {"patterns"}, {"patterns"}, {}, "same", FALSE),
    repeat_sets |-> Part({"patterns"}, {"patterns"}, {"repeat_sets"}, {}, "same", FALSE),
    activities0 |-> Part({"repeat_sets"}, {"repeat_sets"}, {"activities"}, {}, "same", FALSE),
    activities1 |-> Part({"repeat_sets"}, {"repeat_sets"}, {"activities"}, {}, "same", FALSE),
    in_traces |-> Plain({"activities"}, {"traces_activities"}),
    in_traces_wide |-> Plain({"activities"}, {"traces_activities"}),
    from_patterns |-> Plain({}, {"patterns", "activities"}),
    from_patterns_merged |-> Part({}, {}, {"activities"}, {"patterns"}, "same", FALSE),
    from_tandem |-> Plain({}, {"patterns", "activities", "traces_activities"}),
    from_repeats |-> Plain({}, {"patterns", "activities", "traces_activities"}),
    unattached_sub |-> Part({"activities", "traces_activities"}, {"traces_activities"}, {"traces_activities"}, {}, "same", FALSE),
    adjust_gaps |-> Part({}, {"traces_activities"}, {"activities", "traces_activities"}, {}, "same", FALSE),
    adjust_all |-> Part({}, {"traces_activities"}, {"activities", "traces_activities"}, {}, "same", FALSE),
    levels |-> Part({}, {"traces_activities"}, {"activities", "traces_activities"}, {}, "same", FALSE),
    until_no_more |-> Part({}, {}, {}, {"activities", "traces_activities", "repeat_sets", "patterns"}, "new", FALSE),
    clear |-> Plain({}, {"activities", "traces_activities", "repeat_sets", "patterns"}),
    abstract_all |-> Part({"traces_activities"}, {"traces_activities"}, {}, {}, "new", FALSE),
    abstract_one |-> Part({"traces_activities"}, {"traces_activities"}, {}, {}, "new", FALSE),
    abstract_none |-> Part({"traces_activities"}, {"traces_activities"}, {}, {}, "new", FALSE),
    substitute |-> Part({}, {}, {}, {}, "new", FALSE),
    activity_logs0 |-> Part({"traces_activities"}, {"traces_activities"}, {"activities_logs"}, {}, "same", FALSE),
    activity_logs1 |-> Part({"traces_activities"}, {"traces_activities"}, {"activities_logs"}, {}, "same", FALSE),
    print_activities |-> Plain({"activities"}, {}), print_hashes |-> Plain({"activities"}, {}),
    print_unattached |-> Part({"traces_activities"}, {"traces_activities"}, {}, {}, "same", FALSE),
    percentage |-> Part({"traces_activities"}, {"traces_activities"}, {}, {}, "same", FALSE),
    underlying |-> Plain({}, {}),
    class_tree |-> Plain({}, {"event_class_tree"}),
    class_graph |-> Plain({"event_class_tree"}, {"graph"}),
    activity_graph |-> Plain({"activities"}, {"graph"}),
    serialize_graph |-> Plain({"graph"}, {"serialized_graph"}),
    petri |-> Plain({}, {"petri_net"}),
    remove_name |-> Part({}, {}, {}, {}, "new", TRUE), remove_names |-> Part({}, {}, {}, {}, "new", TRUE),
    remove_pred |-> Part({}, {}, {}, {}, "new", FALSE), by_count |-> Part({}, {}, {}, {}, "new", FALSE),
    variants |-> Part({}, {}, {}, {}, "new", FALSE),
    entropy_pos |-> Part({}, {}, {}, {}, "new", TRUE), entropy_dfg |-> Part({}, {}, {}, {}, "new", TRUE),
    rename |-> Part({}, {}, {}, {}, "edit", TRUE), edit_events |-> Part({}, {}, {}, {}, "edit", FALSE),
    class_extract |-> Part({}, {}, {}, {}, "edit", FALSE), lifecycle |-> Part({}, {}, {}, {}, "edit", FALSE),
    endpoints |-> Part({}, {}, {}, {}, "edit", FALSE),
    annotate |-> Part({"traces_activities"}, {"traces_activities"}, {}, {}, "edit", FALSE) ]
PartNames == DOMAIN Parts
InPlace(p) == Parts[p].log = "edit"

\* may the part run on this context (all entries present and positions up to date)
Fresh(ctx, k) == Has(ctx, k) => ctx[k].b = ctx["log"].o
Enabled(p, ctx) == /\ \A k \in Parts[p].needs : Has(ctx, k)
                   /\ \A k \in Parts[p].pos : Fresh(ctx, k)

\* new objects are numbered from n + 1; editing the log moves it to a new version, other positions become stale
Produced(p) == Parts[p].makes \cup Parts[p].other \cup (IF Parts[p].log = "new" THEN {"log"} ELSE {})
After(p, ctx, n) ==
    LET d == Parts[p]
        lo == IF d.log = "same" THEN ctx["log"].o ELSE n + 1
    IN [k \in Keys |->
          IF k = "log" THEN [o |-> lo, b |-> lo]
          ELSE IF k \in d.makes THEN [o |-> n + 2, b |-> lo]
          ELSE IF k \in d.other THEN [o |-> n + 3, b |-> -1]
          ELSE IF d.drop THEN None ELSE ctx[k]]
Start(n) == [k \in Keys |-> IF k = "log" THEN [o |-> n, b |-> n] ELSE None]
PresentKeys(ctx) == {k \in Keys : Has(ctx, k)}
=============================================================================
