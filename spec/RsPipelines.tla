----------------------------- MODULE RsPipelines -----------------------------
(* Pipelines of the Rust backend: a tree of parts runs on one context. Every  *)
(* part that starts sends a message, every part that ends well sends another. *)
(* A part that misses something it needs fails with an error naming it and    *)
(* changes nothing; nothing after it runs. A nested pipeline is the same as   *)
(* its parts written out. What was taken from the log (names, hashes, counts, *)
(* colours) stays as it was when the log is edited later.                     *)
EXTENDS RsLogs

Ctx0(has, log) == [has |-> has, log |-> log, names |-> <<>>, hashes |-> <<>>, info |-> <<>>, colors |-> <<>>,
                   knowslog |-> TRUE, knowscol |-> TRUE, knowshas |-> TRUE]

LogOps == {"FilterEventsByName", "FilterEventsByRegex", "FilterLogByVariants", "FilterTracesByEventsCount", "GetNamesEventLog",
           "UseNamesEventLog", "GetHashesEventLog", "GetEventLogInfo", "AddArtificialStartEndEvents", "AddArtificialStartEvents",
           "AddArtificialEndEvents", "ExecuteFrontendPipeline", "ApplyClassExtractor", "TracesDiversityDiagram",
           "DrawPlacementOfEventByName", "DrawPlacementOfEventsByRegex", "GetUnderlyingEventsCount", "DiscoverDirectlyFollowsGraph"}

Tandem == {"PrimitiveTandemArrays", "MaximalTandemArrays"}
Kind(x) == IF "kind" \in DOMAIN x THEN x.kind ELSE "MaximalRepeats"
FindCfg(x) == IF Kind(x) \in Tandem THEN {"tandem_array_length"} ELSE {"patterns_discovery_strategy"}
Source(x) == IF "source" \in DOMAIN x THEN x.source ELSE "TracesActivities"

\* what a part takes from the context
NeedsCtx(x) ==
    CASE x.op \in {"ExecuteFrontendPipeline", "ClearActivities"} -> {}
      [] x.op = "UseNamesEventLog" -> {"names_event_log"}
      [] x.op \in {"ReadLogFromXes"} -> {"path"}
      [] x.op = "DiscoverActivities" -> {"event_log", "patterns", "hashes_event_log"}
      [] x.op = "DiscoverActivitiesInstances" -> {"activities", "hashes_event_log"}
      [] x.op \in {"CreateLogFromActivities", "DrawFullActivitiesDiagram", "DrawShortActivitiesDiagram"} -> {"event_log", "trace_activities"}
      [] x.op = "DiscoverActivitiesInUnattachedSubTraces" -> {"event_log", "activities"}
      [] x.op = "ExecuteWithEachActivityLog" -> {"event_log"} \cup (IF Source(x) = "Log" THEN {} ELSE {"trace_activities"})
      [] x.op = "SerializePetriNet" -> {"petri_net"}
      [] x.op \in {"EnsureInitialMarking", "AnnotatePetriNetWithCount", "AnnotatePetriNetWithFrequency", "AnnotatePetriNetWithTraceFrequency"} ->
           {"event_log", "petri_net"}
      [] OTHER -> {"event_log"}
\* what it takes from its configuration
NeedsCfg(x) ==
    CASE x.op \in {"FilterEventsByName", "DrawPlacementOfEventByName"} -> {"event_name"}
      [] x.op \in {"FilterEventsByRegex", "DrawPlacementOfEventsByRegex"} -> {"regex"}
      [] x.op = "FilterTracesByEventsCount" -> {"events_count"}
      [] x.op = "ExecuteFrontendPipeline" -> {"pipeline"}
      [] x.op = "ApplyClassExtractor" -> {"event_class_regex", "regex"}
      [] x.op = "WriteLogToXes" -> {"path"}
      [] x.op \in {"FindMaximalRepeats", "FindSuperMaximalRepeats", "FindNearSuperMaximalRepeats"} -> {"patterns_discovery_strategy"}
      [] x.op \in {"FindPrimitiveTandemArrays", "FindMaximalTandemArrays"} -> {"tandem_array_length"}
      [] x.op = "DiscoverActivities" -> {"activity_level"}
      [] x.op = "DiscoverActivitiesInstances" -> {"narrow_activities", "min_activity_length", "activity_filter_kind"}
      [] x.op = "CreateLogFromActivities" -> {"undef_activity_handling_strategy"}
      [] x.op = "DiscoverActivitiesInUnattachedSubTraces" -> {"narrow_activities", "events_count", "min_activity_length", "activity_filter_kind"}
      [] x.op = "DiscoverActivitiesForSeveralLevels" ->
           {"event_classes_regexes", "activity_level", "patterns_kind", "adjusting_mode", "patterns_discovery_strategy", "narrow_activities",
            "events_count", "min_activity_length", "activity_filter_kind"} \cup FindCfg(x)
      [] x.op = "DiscoverActivitiesUntilNoMore" ->
           {"activity_level", "execute_only_on_last_extraction", "patterns_kind", "narrow_activities", "min_activity_length",
            "activity_filter_kind"} \cup FindCfg(x)
      [] x.op = "ExecuteWithEachActivityLog" -> {"pipeline", "activities_logs_source"} \cup (IF Source(x) = "Log" THEN {} ELSE {"activity_level"})
      [] x.op = "SerializePetriNet" -> {"path", "pnml_use_names_as_ids"}
      [] x.op = "DiscoverPetriNetHeuristic" ->
           {"dependency_threshold", "positive_observations_threshold", "relative_to_best_threshold", "and_threshold", "loop_length_two_threshold"}
      [] x.op = "DiscoverFuzzyGraph" ->
           {"unary_frequency_threshold", "binary_significance_threshold", "preserve_threshold", "ratio_threshold", "utility_rate",
            "edge_cutoff_threshold", "node_cutoff_threshold"}
      [] x.op \in {"AnnotatePetriNetWithCount", "AnnotatePetriNetWithFrequency", "AnnotatePetriNetWithTraceFrequency"} ->
           {"terminate_on_unreplayable_traces"}
      [] OTHER -> {}
\* needed only in some runs of the part: naming it when it is missing is right, too, and so is not needing it
MayNeed(x) == IF x.op = "DiscoverActivitiesUntilNoMore" THEN {"undef_activity_handling_strategy"} ELSE {}

Missing(x, ctx) == (NeedsCtx(x) \ ctx.has) \cup (NeedsCfg(x) \ SeqSet(x.cfg))
MayMiss(x) == MayNeed(x) \ SeqSet(x.cfg)
\* a regular expression that is none
Bad(x) == "bad" \in DOMAIN x /\ x.bad
\* parts that may refuse what they are given, for reasons the model does not follow
MayRefuse(x) == x.op \in {"AnnotatePetriNetWithCount", "AnnotatePetriNetWithFrequency", "AnnotatePetriNetWithTraceFrequency", "ReadLogFromXes",
                          "SerializePetriNet", "WriteLogToXes"}
Errors(x, ctx) == {"missing:" \o k : k \in Missing(x, ctx)} \cup (IF Bad(x) THEN {"raw"} ELSE {})
\* a part made of several others may have done some of them before it fails
Composite(x) == x.op \in {"DiscoverActivitiesForSeveralLevels", "DiscoverActivitiesUntilNoMore", "ExecuteWithEachActivityLog"}

Puts(x) ==
    CASE x.op = "GetNamesEventLog" -> {"names_event_log"}
      [] x.op = "UseNamesEventLog" -> {"event_log"}
      [] x.op = "GetHashesEventLog" -> {"hashes_event_log"}
      [] x.op = "GetEventLogInfo" -> {"event_log_info"}
      [] x.op \in {"TracesDiversityDiagram", "DrawPlacementOfEventByName", "DrawPlacementOfEventsByRegex", "DrawFullActivitiesDiagram",
                   "DrawShortActivitiesDiagram"} -> {"colors_event_log"}
      [] x.op = "GetUnderlyingEventsCount" -> {"underlying_events_count"}
      [] x.op \in {"DiscoverDirectlyFollowsGraph", "DiscoverFuzzyGraph"} -> {"graph"}
      [] x.op \in {"FindMaximalRepeats", "FindSuperMaximalRepeats", "FindNearSuperMaximalRepeats", "FindPrimitiveTandemArrays",
                   "FindMaximalTandemArrays"} -> {"patterns", "hashes_event_log"}
      [] x.op = "DiscoverActivities" -> {"activities"}
      [] x.op \in {"DiscoverActivitiesInstances", "DiscoverActivitiesInUnattachedSubTraces"} -> {"trace_activities"}
      [] x.op = "DiscoverActivitiesForSeveralLevels" -> {"activities", "trace_activities"}
      [] x.op = "ReadLogFromXes" -> {"event_log"}
      [] x.op \in {"DiscoverPetriNetAlpha", "DiscoverPetriNetAlphaPlus", "DiscoverPetriNetAlphaPlusPlus", "DiscoverPetriNetAlphaPlusPlusNfc",
                   "DiscoverPetriNetHeuristic"} -> {"petri_net"}
      [] x.op = "DiscoverActivitiesUntilNoMore" -> {"hashes_event_log"}
      [] OTHER -> {}
Takes(x) == IF x.op \in {"ClearActivities", "DiscoverActivitiesUntilNoMore"} THEN {"activities", "trace_activities", "patterns"} ELSE {}

Squares(log, C) == [t \in DOMAIN log |-> [i \in DOMAIN log[t] |-> <<IF log[t][i] \in C THEN log[t][i] ELSE -5, i - 1, 1>>]]
To(pairs, c) == LET p == {q \in SeqSet(pairs) : q[1] = c} IN IF p = {} THEN c ELSE (CHOOSE q \in p : TRUE)[2]
Through(pairs, log) == [t \in DOMAIN log |-> [i \in DOMAIN log[t] |-> To(pairs, log[t][i])]]
Classes(log) == SeqSet(Flat(log))
Edit(x, log) ==
    CASE x.op = "FilterEventsByName" -> RemoveClasses(log, {x.c})
      [] x.op = "FilterEventsByRegex" -> RemoveClasses(log, SeqSet(x.set))
      [] x.op = "FilterLogByVariants" -> KeepFirst(log, 1)
      [] x.op = "FilterTracesByEventsCount" -> NotShort(log, x.n)
      [] x.op = "AddArtificialStartEndEvents" -> Artificial(log, TRUE, TRUE)
      [] x.op = "AddArtificialStartEvents" -> Artificial(log, TRUE, FALSE)
      [] x.op = "AddArtificialEndEvents" -> Artificial(log, FALSE, TRUE)
      [] x.op = "ApplyClassExtractor" -> Through(x.ren, log)
      [] OTHER -> log
Effect(x, ctx) ==
    LET l == ctx.log
        h == [ctx EXCEPT !.has = (@ \ Takes(x)) \cup Puts(x)]
    IN CASE x.op = "GetNamesEventLog" -> [h EXCEPT !.names = l]
         [] x.op = "UseNamesEventLog" -> [h EXCEPT !.log = ctx.names]
         [] x.op = "GetHashesEventLog" -> [h EXCEPT !.hashes = IF "event_class_regex" \in SeqSet(x.cfg) THEN Through(x.key, l) ELSE l]
         [] x.op \in {"FindMaximalRepeats", "FindSuperMaximalRepeats", "FindNearSuperMaximalRepeats", "FindPrimitiveTandemArrays",
                      "FindMaximalTandemArrays"} -> [h EXCEPT !.hashes = IF "event_class_regex" \in SeqSet(x.cfg) THEN Through(x.key, l) ELSE l]
         [] x.op = "GetEventLogInfo" -> [h EXCEPT !.info = l]
         [] x.op = "TracesDiversityDiagram" -> [h EXCEPT !.colors = Squares(l, Classes(l)), !.knowscol = TRUE]
         [] x.op = "DrawPlacementOfEventByName" -> [h EXCEPT !.colors = Squares(l, {x.c}), !.knowscol = TRUE]
         [] x.op = "DrawPlacementOfEventsByRegex" -> [h EXCEPT !.colors = Squares(l, SeqSet(x.set)), !.knowscol = TRUE]
         [] x.op \in {"DrawFullActivitiesDiagram", "DrawShortActivitiesDiagram"} -> [h EXCEPT !.knowscol = FALSE]
         [] x.op \in {"CreateLogFromActivities", "DiscoverActivitiesUntilNoMore", "ReadLogFromXes"} -> [h EXCEPT !.knowslog = FALSE]
         [] OTHER -> [h EXCEPT !.log = Edit(x, l)]

\* ---- a whole run, in one go --------------------------------------------------
\* the program written out: start of a part, its needs, its work, its end
RECURSIVE Tokens(_)
Tokens(prog) ==
    IF prog = <<>> THEN <<>>
    ELSE LET x == Head(prog)
             inside == IF x.op = "ExecuteFrontendPipeline" /\ "pipeline" \in SeqSet(x.cfg) THEN Tokens(x.sub) ELSE <<>>
             note == IF x.op = "GetUnderlyingEventsCount" THEN <<[k |-> "note", x |-> x]>> ELSE <<>>
         IN <<[k |-> "start", x |-> x], [k |-> "needs", x |-> x]>> \o note \o <<[k |-> "work", x |-> x]>> \o inside
            \o <<[k |-> "end", x |-> x]>> \o Tokens(Tail(prog))

\* res: {} while all is well, otherwise the errors that may be given
Say(st, m, fail) == LET n == [st EXCEPT !.msgs = Append(@, m)] IN IF Len(n.msgs) = fail THEN [n EXCEPT !.res = {"handler"}] ELSE n
Work(st, x) == [st EXCEPT !.ctx = Effect(x, @)]
Need(st, x) == LET e == Errors(x, st.ctx)
               IN IF e = {} THEN st
                  ELSE [st EXCEPT !.res = e, !.ctx = IF Composite(x) THEN [@ EXCEPT !.knowshas = FALSE, !.knowslog = FALSE] ELSE @]
Step1(st, tk, fail) ==
    CASE st.res # {} -> st
      [] tk.k \in {"start", "end"} -> Say(st, tk.x.op, fail)
      [] tk.k = "note" -> Say(st, "note", fail)
      [] tk.k = "needs" -> Need(st, tk.x)
      [] tk.k = "work" -> Work(st, tk.x)
RECURSIVE Fold2(_, _, _, _)
Fold2(st, tks, i, fail) == IF i > Len(tks) THEN st ELSE Fold2(Step1(st, tks[i], fail), tks, i + 1, fail)
Run(prog, ctx, fail) == Fold2([ctx |-> ctx, msgs |-> <<>>, res |-> {}], Tokens(prog), 1, fail)
Dropped(ctx, ks) == [ctx EXCEPT !.has = @ \ SeqSet(ks)]
=============================================================================
