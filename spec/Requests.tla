------------------------------ MODULE Requests ------------------------------
(* What a composed pipeline asks the backend to do.                           *)
(*                                                                            *)
(* item ::= [c, a, id, b]  a part of class c with the settings a (a sequence  *)
(*          of <<argument, value>>), the instance id and the nested pipeline  *)
(*          b (a sequence of items; <<>> where there is none, n = FALSE)      *)
(* All values are texts; "None" is the absent value.                          *)
(*                                                                            *)
(* request ::= sequence of entries                                            *)
(* entry ::= [op, mode, keys, ps, who, sub, nested]                           *)
(*   mode: "do" | "get" (simple request for keys) | "doget"                   *)
(*   ps: set of <<key, type, value>>; who: the instance that gets the result  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

\* ---- the operations of the backend ------------------------------------------
P(arg, key, ty, def) == [arg |-> arg, key |-> key, ty |-> ty, def |-> def]
Req == "!required"
Opt == "None"
Do(op, ps) == [op |-> op, mode |-> "do", keys |-> <<>>, ps |-> ps]
Get(key) == [op |-> "", mode |-> "get", keys |-> <<key>>, ps |-> <<>>]
DoGet(op, keys, ps) == [op |-> op, mode |-> "doget", keys |-> keys, ps |-> ps]

Level == P("activity_level", "activity_level", "uint32", "0")
Extractor == P("class_extractor", "event_class_regex", "string", Opt)
Strategy(d) == P("strategy", "patterns_discovery_strategy", "PatternsDiscoveryStrategy", d)
Narrow == P("narrow_activities", "narrow_activities", "ActivityNarrowingKind", "NarrowDown")
FilterKind == P("activity_filter_kind", "activity_in_trace_filter_kind", "ActivityInTraceFilterKind", "DefaultFilter")
Adjusting == P("adjusting_mode", "adjusting_mode", "AdjustingMode", "FromAllLog")
Length(d) == P("max_array_length", "tandem_array_length", "uint32", d)
Patterns(d) == P("patterns_kind", "patterns_kind", "PatternsKindDto", d)
Fl(a, d) == P(a, a, "float", d)
Repeats(op) == Do(op, <<Strategy(Req), Extractor>>)
Tandem(op) == Do(op, <<Length(Req), Extractor>>)
Colors(op, ps) == DoGet(op, <<"colors_event_log">>, ps)
ReprSource == P("activities_repr_source", "activities_repr_source", "ActivityRepresentationSource", "EventClasses")
Distances == P("distance", "distance", "FicusDistance", "Cosine")
Tolerance == P("tolerance", "tolerance", "float", "1e-05")
Cluster(op, ps) == DoGet(op, <<"labeled_traces_activities_dataset">>, <<Level, Tolerance, ReprSource, Distances, Extractor>> \o ps)
Iterations == P("learning_iterations_count", "learning_iterations_count", "uint32", "200")
MinCluster == P("min_events_count_in_cluster", "min_events_in_cluster_count", "uint32", "1")
Annotate(op, key) == DoGet(op, <<"petri_net", key>>, <<P("terminate_on_unreplayable_trace", "terminate_on_unreplayable_traces", "bool", "False")>>)
Path == P("save_path", "path", "string", Req)
Regex == P("regex", "regex", "string", Req)
EventName == P("event_name", "event_name", "string", Req)

Kinds ==
    [ ReadLogFromXes2 |-> Do("ReadLogFromXes", <<>>), WriteLogToXes2 |-> Do("WriteLogToXes", <<Path>>),
      ReadLogFromBxes2 |-> Do("ReadLogFromBxes", <<>>), WriteLogToBxes2 |-> Do("WriteLogToBxes", <<Path>>),
      UseNamesEventLog2 |-> Do("UseNamesEventLog", <<>>),
      AddStartEndArtificialEvents2 |-> Do("AddArtificialStartEndEvents", <<>>),
      AddStartArtificialEvents2 |-> Do("AddArtificialStartEvents", <<>>), AddEndArtificialEvents2 |-> Do("AddArtificialEndEvents", <<>>),
      FilterTracesByEventsCount2 |-> Do("FilterTracesByEventsCount", <<P("min_events_in_trace", "events_count", "uint32", Req)>>),
      FilterEventsByName2 |-> Do("FilterEventsByName", <<EventName>>), FilterEventsByRegex2 |-> Do("FilterEventsByRegex", <<Regex>>),
      FilterLogByVariants2 |-> Do("FilterLogByVariants", <<>>),
      FindMaximalRepeats2 |-> Repeats("FindMaximalRepeats"), FindSuperMaximalRepeats2 |-> Repeats("FindSuperMaximalRepeats"),
      FindNearSuperMaximalRepeats2 |-> Repeats("FindNearSuperMaximalRepeats"),
      FindPrimitiveTandemArrays2 |-> Tandem("FindPrimitiveTandemArrays"), FindMaximalTandemArrays2 |-> Tandem("FindMaximalTandemArrays"),
      DiscoverActivities2 |-> Do("DiscoverActivities", <<P("activity_level", "activity_level", "uint32", Req)>>),
      DiscoverActivitiesInstances2 |-> Do("DiscoverActivitiesInstances",
          <<Narrow, P("min_events_in_activity", "min_activity_length", "uint32", "0"), FilterKind>>),
      CreateLogFromActivitiesInstances2 |-> Do("CreateLogFromActivities",
          <<P("strategy", "undef_activity_handling_strategy", "UndefActivityHandlingStrategyDto", "DontInsert")>>),
      DiscoverActivitiesForSeveralLevels2 |-> Do("DiscoverActivitiesForSeveralLevels",
          <<P("event_classes", "event_classes_regexes", "strings", Req), Patterns(Req), Narrow, Level, Strategy("FromAllTraces"), Length("20"),
            Adjusting, P("min_events_in_unattached_subtrace_count", "events_count", "uint32", "0"),
            P("min_events_in_activity_count", "min_activity_length", "uint32", "0"), FilterKind>>),
      DiscoverActivitiesUntilNoMore2 |-> Do("DiscoverActivitiesUntilNoMore",
          <<P("event_class", "event_class_regex", "string", Opt), Patterns("MaximalRepeats"), Narrow, Level, Strategy("FromAllTraces"),
            P("undef_strategy", "undef_activity_handling_strategy", "UndefActivityHandlingStrategyDto", "DontInsert"), Length("20"), Adjusting,
            P("min_events_in_unattached_subtrace_count", "events_count", "uint32", "0"),
            P("min_events_in_activity_count", "min_activity_length", "uint32", "0"), FilterKind,
            P("execute_only_on_last_extraction", "execute_only_on_last_extraction", "bool", "False")>>),
      DiscoverActivitiesFromPatterns2 |-> Do("ExecuteFrontendPipeline", <<>>),
      ExecuteWithEachActivityLog2 |-> Do("ExecuteWithEachActivityLog",
          <<P("activities_logs_source", "activities_logs_source", "ActivitiesLogsSourceDto", Req), P("activity_level", "activity_level", "uint32", Req)>>),
      SubstituteUnderlyingEvents2 |-> Do("SubstituteUnderlyingEvents", <<>>),
      ClearActivitiesRelatedStuff2 |-> Do("ClearActivities", <<>>),
      ApplyClassExtractor2 |-> Do("ApplyClassExtractor",
          <<P("class_extractor_regex", "event_class_regex", "string", Req), P("filter_regex", "regex", "string", ".*")>>),
      DiscoverPetriNetAlpha2 |-> Do("DiscoverPetriNetAlpha", <<>>), DiscoverPetriNetAlphaPlus2 |-> Do("DiscoverPetriNetAlphaPlus", <<>>),
      DiscoverPetriNetAlphaPlusPlus2 |-> Do("DiscoverPetriNetAlphaPlusPlus", <<>>),
      DiscoverPetriNetAlphaPlusPlusNfc2 |-> Do("DiscoverPetriNetAlphaPlusPlusNfc", <<>>),
      DiscoverPetriNetHeuristic2 |-> Do("DiscoverPetriNetHeuristic",
          <<Fl("dependency_threshold", "0.5"), P("positive_observations_threshold", "positive_observations_threshold", "uint32", "1"),
            Fl("relative_to_best_threshold", "1.0"), Fl("and_threshold", "0.1"), Fl("loop_length_two_threshold", "0.5")>>),
      DiscoverFuzzyGraph |-> Do("DiscoverFuzzyGraph",
          <<Fl("unary_frequency_threshold", "0.0"), P("binary_significance_threshold", "binary_frequency_significance_threshold", "float", "0.0"),
            Fl("preserve_threshold", "0.0"), Fl("ratio_threshold", "0.0"), Fl("utility_rate", "0.0"), Fl("edge_cutoff_threshold", "0.0"),
            Fl("node_cutoff_threshold", "0.0")>>),
      SerializePetriNetToPNML2 |-> Do("SerializePetriNet", <<Path, P("use_names_as_ids", "pnml_use_names_as_ids", "bool", "False")>>),
      EnsureInitialMarking |-> Do("EnsureInitialMarking", <<>>),
      PrintEventlogInfoBeforeAfter |-> Do("ExecuteFrontendPipeline", <<>>),
      PrintEventLog2 |-> DoGet("GetNamesEventLog", <<"names_event_log">>, <<>>),
      PrintEventLogInfo2 |-> DoGet("GetEventLogInfo", <<"event_log_info">>, <<>>),
      PrintNumberOfUnderlyingEvents2 |-> DoGet("GetUnderlyingEventsCount", <<"underlying_events_count">>, <<>>),
      TracesDiversityDiagram2 |-> Colors("TracesDiversityDiagram", <<>>), TracesDiversityDiagram2Canvas |-> Colors("TracesDiversityDiagram", <<>>),
      DrawPlacementsOfEventByName2 |-> Colors("DrawPlacementOfEventByName", <<EventName>>),
      DrawPlacementsOfEventByName2Canvas |-> Colors("DrawPlacementOfEventByName", <<EventName>>),
      DrawPlacementOfEventsByRegex2 |-> Colors("DrawPlacementOfEventsByRegex", <<Regex>>),
      DrawPlacementOfEventsByRegex2Canvas |-> Colors("DrawPlacementOfEventsByRegex", <<Regex>>),
      DrawFullActivitiesDiagram2 |-> Colors("DrawFullActivitiesDiagram", <<>>), DrawFullActivitiesDiagram2Canvas |-> Colors("DrawFullActivitiesDiagram", <<>>),
      DrawShortActivitiesDiagram2 |-> Colors("DrawShortActivitiesDiagram", <<>>), DrawShortActivitiesDiagram2Canvas |-> Colors("DrawShortActivitiesDiagram", <<>>),
      ClusterizeActivitiesFromTracesKMeans |-> Cluster("ClusterizeActivitiesFromTracesKMeans",
          <<P("clusters_count", "clusters_count", "uint32", "10"), Iterations>>),
      ClusterizeActivitiesFromTracesKMeansGridSearch |-> Cluster("ClusterizeActivitiesFromTracesKMeansGridSearch", <<Iterations>>),
      ClusterizeActivitiesFromTracesDbscan |-> Cluster("ClusterizeActivitiesFromTracesDbscan", <<MinCluster>>),
      VisualizeTracesActivities2 |-> DoGet("CreateTracesActivitiesDataset", <<"traces_activities_dataset">>, <<Level, Extractor, ReprSource>>),
      ClusterizeLogTracesDbscan |-> DoGet("ClusterizeLogTraces", <<"labeled_log_traces_dataset">>,
          <<Tolerance, Distances, P("traces_repr_source", "traces_repr_source", "TracesRepresentationSource", "Events"), MinCluster, Extractor>>),
      ViewPetriNet2 |-> Get("petri_net"), ViewGraph2 |-> Get("graph"),
      ViewDirectlyFollowsGraph2 |-> DoGet("DiscoverDirectlyFollowsGraph", <<"graph">>, <<>>),
      AnnotatePetriNetWithCount2 |-> Annotate("AnnotatePetriNetWithCount", "petri_net_count_annotation"),
      AnnotatePetriNetWithFrequency2 |-> Annotate("AnnotatePetriNetWithFrequency", "petri_net_frequency_annotation"),
      AnnotatePetriNetWithTraceFrequency2 |-> Annotate("AnnotatePetriNetWithTraceFrequency", "petri_net_trace_frequency_annotation") ]
Classes == DOMAIN Kinds
Nesting == [ DiscoverActivitiesUntilNoMore2 |-> "optional", ExecuteWithEachActivityLog2 |-> "required", ClusterizeLogTracesDbscan |-> "required",
             PrintEventlogInfoBeforeAfter |-> "required" ]

Enums == [ PatternsDiscoveryStrategy |-> {"FromAllTraces", "FromSingleMergedTrace"},
           PatternsKindDto |-> {"PrimitiveTandemArrays", "MaximalTandemArrays", "MaximalRepeats", "SuperMaximalRepeats", "NearSuperMaximalRepeats"},
           AdjustingMode |-> {"FromAllLog", "FromUnattachedSubTraces"},
           UndefActivityHandlingStrategyDto |-> {"DontInsert", "InsertAsSingleEvent", "InsertAllEvents"},
           ActivityNarrowingKind |-> {"DontNarrow", "StayTheSame", "NarrowUp", "NarrowDown"},
           ActivityInTraceFilterKind |-> {"NoFilter", "DefaultFilter"},
           ActivitiesLogsSourceDto |-> {"Log", "TracesActivities"},
           ActivityRepresentationSource |-> {"EventClasses", "SubTraces", "SubTracesUnderlyingEvents"},
           FicusDistance |-> {"Cosine", "L1", "L2", "Levenshtein"},
           TracesRepresentationSource |-> {"Events", "UnderlyingEvents", "DeepestUnderlyingEvents"} ]
ValuesOf(ty) == CASE ty = "uint32" -> {"0", "1", "7", "4294967295"}
                  [] ty = "float" -> {"0.0", "0.25", "0.3", "-2.0"}
                  [] ty = "string" -> {"", "a.*", "\\d+ ж"}
                  [] ty = "bool" -> {"False", "True"}
                  [] ty = "strings" -> {"[]", "[\"\"]", "[\"a.*\", \"b\", \"a.*\"]"}
                  [] OTHER -> Enums[ty]

\* ---- arguments of the classes (the two that only compose other parts included) ----
Args(c) == IF c = "DiscoverActivitiesFromPatterns2"
           THEN <<Patterns(Req), Strategy("FromAllTraces"), Length("20"), Level>>
           ELSE Kinds[c].ps
Given(a, arg) == \E i \in DOMAIN a : a[i][1] = arg
ValueOf(a, p) == IF Given(a, p.arg) THEN a[CHOOSE i \in DOMAIN a : a[i][1] = p.arg][2] ELSE p.def
Settings(c, a) == {<<Kinds[c].ps[i].key, Kinds[c].ps[i].ty, ValueOf(a, Kinds[c].ps[i])>> : i \in {j \in DOMAIN Kinds[c].ps : ValueOf(a, Kinds[c].ps[j]) # Opt}}

Plain(c, a) == [c |-> c, a |-> a, id |-> 0, n |-> FALSE, b |-> <<>>]
\* the pipeline behind the shortcut for discovering activities from patterns
FromPatterns(a) ==
    LET v(i) == ValueOf(a, Args("DiscoverActivitiesFromPatterns2")[i])
        find == CASE v(1) = "MaximalRepeats" -> "FindMaximalRepeats2" [] v(1) = "SuperMaximalRepeats" -> "FindSuperMaximalRepeats2"
                  [] v(1) = "NearSuperMaximalRepeats" -> "FindNearSuperMaximalRepeats2" [] v(1) = "PrimitiveTandemArrays" -> "FindPrimitiveTandemArrays2"
                  [] v(1) = "MaximalTandemArrays" -> "FindMaximalTandemArrays2"
        set == IF find \in {"FindPrimitiveTandemArrays2", "FindMaximalTandemArrays2"} THEN << <<"max_array_length", v(3)>> >> ELSE << <<"strategy", v(2)>> >>
    IN << Plain(find, set), Plain("DiscoverActivities2", << <<"activity_level", v(4)>> >>) >>

\* ---- the request --------------------------------------------------------------
\* the parts around a pipeline: instances "id before" and "id after"
Info(id, w) == [c |-> "PrintEventLogInfo2", a |-> <<>>, id |-> 1000 * id + w, n |-> FALSE, b |-> <<>>]
Inner(it) == CASE it.c = "DiscoverActivitiesFromPatterns2" -> FromPatterns(it.a)
               [] it.c = "PrintEventlogInfoBeforeAfter" -> <<Info(it.id, 1)>> \o it.b \o <<Info(it.id, 2)>>
               [] OTHER -> it.b
HasInner(it) == it.n \/ it.c = "DiscoverActivitiesFromPatterns2"
RECURSIVE Request(_)
Request(s) == [i \in DOMAIN s |->
    LET it == s[i] k == Kinds[it.c] IN
    [op |-> k.op, mode |-> k.mode, keys |-> k.keys, ps |-> Settings(it.c, it.a), who |-> IF k.mode = "do" THEN 0 ELSE it.id,
     nested |-> HasInner(it), sub |-> IF HasInner(it) THEN Request(Inner(it)) ELSE <<>>]]

\* ---- reading a request: what the backend understands ----------------------------
RECURSIVE Understood(_), Meaning(_)
\* parts of different classes may ask for the same; settings that are not sent are absent
Understood(r) == [i \in DOMAIN r |-> [op |-> r[i].op, keys |-> {r[i].keys[j] : j \in DOMAIN r[i].keys}, ps |-> r[i].ps,
                                      sub |-> IF r[i].nested THEN Understood(r[i].sub) ELSE <<>>]]
Meaning(s) == [i \in DOMAIN s |-> LET it == s[i] IN
                 [op |-> Kinds[it.c].op, keys |-> {Kinds[it.c].keys[j] : j \in DOMAIN Kinds[it.c].keys}, ps |-> Settings(it.c, it.a),
                  sub |-> IF HasInner(it) THEN Meaning(Inner(it)) ELSE <<>>]]
=============================================================================
