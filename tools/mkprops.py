"""Single source of properties.jsonl and MANIFEST.json (run from anywhere; writes both files)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = 'src/python/ficus/legacy/'
G = 'src/python/ficus/grpc_pipelines/'
P = []


def prop(pid, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe:
        a['observe_at'] = observe
    a['hook_needed'] = None
    assert len(title) <= 80, (pid, len(title))
    P.append({'id': pid, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})


prop('C01', 'Pipelines run their parts in order, branches and conditions as composed',
     'Executing a pipeline runs every part exactly once, in the order of the list at that moment, each on the result of the part before it, and returns the last result; appending, inserting or removing a part changes exactly that position; when a pipeline is built, empty entries are skipped and anything that is not a part is rejected. '
     'Parallel branches all start from the same incoming values and the last branch gives the result, a conditional block runs exactly when its condition holds on the current values, a block on a copied input gives back the incoming values, and a block on a temporary input sees only the transformed input and returns what the merger makes of both. '
     'An error in a part ends the execution at that part: no later part runs and the error reaches the caller.',
     ['programs', 'inputs', 'fault_sequences'],
     'all nestings of sequential, parallel, conditional, copied-input and temporary-input blocks, all positions of a failing part, all edit histories of the part list',
     'The composition operators nest freely; tests run a few straight pipelines and never count or order the executions of nested blocks, nor inject a failure at every position.',
     [L + 'pipelines/pipelines.py', L + 'pipelines/contexts/part_results.py'],
     [('sequential execution and list editing', 'Pipeline.execute/append/insert/remove'),
      ('branching blocks', 'ParallelPipeline, WithTempInput, WithInputCopy, IfPipeline')],
     ['results of executing pipelines assembled from probe parts'])

prop('C02', 'A branch never changes what its caller or its siblings see in the context',
     'Whatever analysis, filtering, pattern, activity or graph parts run inside a copied-input block, a parallel branch or a per-activity block, afterwards the surrounding context has exactly the entries it had before, and the log, patterns, repeat sets, activities and activity instances stored there have the same content as before. '
     'Asking a context for an entry it does not have is an error, never a default or a value of another execution. '
     'The documented in-place log edits (free event edits, renaming, annotation with names, class extraction, lifecycle removal, artificial endpoints) are the only parts that may alter a log they received.',
     ['programs', 'inputs', 'histories'],
     'all sequences of context-producing parts executed inside a branch, from all contexts reachable by such parts',
     'Aliasing only shows when a particular part runs in a branch after a particular other part filled the outer context, and the outer value is looked at again afterwards; tests look at the final result only.',
     [L + 'pipelines/pipelines.py', L + 'pipelines/contexts/part_results.py', L + 'pipelines/analysis/high_level.py',
      L + 'pipelines/analysis/patterns/patterns_parts.py'],
     [('context copy', 'PipelinePartResult.__copy__'), ('branch blocks', 'WithInputCopy, ParallelPipeline, ExecuteWithEachActivityLog'),
      ('merging discovered activities', 'AdjustWithActivitiesFromUnattachedEvents')],
     ['context entries before and after a branch'])

prop('C03', 'Writing a log to XES and reading it back gives the same log',
     'For every log with string, integer, float, boolean and date values (texts of characters XML allows, classifier keys without blanks), writing it as XES and reading the file gives a log with the same traces in the same order, the same trace attributes and the same events with the same keys, values and value types, the same log attributes, extensions, classifiers, log-level properties and global defaults. '
     'Values that XES cannot represent are left out and nothing else is. '
     'Global defaults are filled in for the traces and events that do not carry the key themselves, and explicit values always win.',
     ['inputs'],
     'all logs over the five value types, with arbitrary keys, text content, defaults, extensions, classifiers and properties',
     'The space of value types, defaults, overriding values and special characters is unbounded; the tests read sample files that are not even present here.',
     [L + 'log/functions.py', L + 'log/event_log.py', L + 'pipelines/serialization/pipeline_parts.py', L + 'pipelines/start/start_parts.py'],
     [('reader', 'read_log_from_xes'), ('writer', 'serialize_log_to_xes, save_event_log_to_xes')],
     ['file written and log read back'])

prop('C04', 'Filters and edits change exactly the selected events and traces',
     'Removing events by name, by a set of names or by a predicate yields exactly the non-matching events, unchanged and in their original order in their original traces, where only traces left without any event disappear; filtering traces by size keeps exactly the traces with more events than the bound. '
     'Renaming, class extraction with a selector, free event edits and lifecycle removal touch exactly the selected events and attribute and keep every other attribute, event and the order; adding artificial endpoints puts exactly one start event before and one end event after the events of every trace. '
     'Removal parts leave the log they were given untouched.',
     ['inputs', 'histories'],
     'all logs, all selected name sets and predicates, all sequences of such operations',
     'A wrong neighbour, a dropped duplicate, a lost attribute or a reordered trace needs particular positions and repetition counts; tests compare a few fixed logs by name only.',
     [L + 'mutations/event_log_mutations.py', L + 'pipelines/mutations/mutations_parts.py', L + 'pipelines/filtering/filter_parts.py'],
     [('removal', 'remove_event_from_log, remove_events_from_log, filter_log, remove_empty_traces'),
      ('in-place edits', 'preprocess_event_names_inplace, preprocess_events, remove_lifecycle_attribute, ApplyClassExtractor, AddArtificialStartEndEvents')],
     ['log after each operation, with per-event identities and attributes'])

prop('C05', 'Event counts and the directly-follows relation are exact',
     'For every log, the reported number of occurrences of each event class, per log and per trace, is exact, and the directly-follows relation holds precisely the ordered pairs that are neighbours in some trace with their exact number of occurrences, including the artificial start and end of non-empty traces when these are requested. '
     'The classes with a single follower are exactly those, and the classes reported for a predicate are those all of whose events satisfy it. '
     'Ignoring a set of classes gives what the log from which they were removed would give.',
     ['inputs'],
     'all logs and all sets of ignored classes, with and without artificial endpoints',
     'Every other analysis (entropies, filters, class trees) is computed from these numbers; an off-by-one at trace borders or around ignored events depends on positions that sample logs do not cover.',
     [L + 'analysis/event_log_info.py'],
     [('single pass', 'create_log_information'), ('derived relations', 'DirectlyFollowsGraph'),
      ('per-trace counts', 'calculate_events_in_each_trace, find_all_events_names')],
     ['returned counts, pairs and sets'])

prop('C06', 'Entropies equal their definition; fast and reference computations agree',
     'The neighbourhood entropy of a class is the entropy of its successor distribution plus that of its predecessor distribution (including the artificial endpoints), plain or with Laplace smoothing, and sums and averages are over exactly the classes of the log. '
     'The position entropy of a class depends only on how many non-empty traces have it at each position; the fast computation, with or without precomputed positions, and the reference computation give the same value. '
     'Ignoring classes gives the value the log without them would give.',
     ['inputs'],
     'all logs, all ignored sets, both smoothing modes',
     'Equality of two algorithms and of ignoring with removing is a statement over all logs; tests compare stored values for a few logs.',
     [L + 'analysis/event_log_analysis_entropy.py'],
     [('neighbourhood entropies', 'calculate_default_entropies, calculate_laplace_entropies'),
      ('position entropies', 'calculate_position_entropies, calculate_position_entropies_fast, PositionEntropyIgnoredEvents')],
     ['returned entropies'])

prop('C07', 'Entropy filtering removes whole classes, worst first, within its limits',
     'Each step of entropy filtering removes all events of exactly one class: the direct variants the class of highest entropy while that exceeds the threshold, the indirect variants the candidate whose removal leaves the lowest entropy while the log is above the threshold. '
     'Protected classes are never removed, at most the allowed number of classes is removed, and filtering stops at once when the threshold is met, the limit is reached or no class may be removed; it always terminates. '
     'The surviving events keep their order, and the till-end variants report every removable class once, in removal order, with the entropy before the step or the change it caused.',
     ['inputs', 'histories', 'configurations'],
     'all logs, thresholds, limits, protected sets and candidate fractions; the whole sequence of removals',
     'Termination and the stopping rule concern the whole removal history for all inputs; the tests filter a few logs that never run out of candidates.',
     [L + 'filtering/event_log_filters.py', L + 'pipelines/filtering/filter_parts.py'],
     [('direct', '_do_filter_by_metric_direct'), ('indirect', 'filter_events_default_entropy_indirect, filter_events_pos_entropy_indirect'),
      ('till end', 'filter_events_pos_entropy_*_till_end')],
     ['log after each allowed removal, reported removals'])

prop('C08', 'Variant grouping partitions the log by the exact sequence of event names',
     'Grouping traces by variant puts two traces into the same group exactly when their sequences of event names are equal, and every trace is in exactly one group. '
     'Filtering by variants keeps exactly one of the given traces per variant, unchanged. '
     'Merging a log into one trace keeps all events in order and separates neighbouring traces by an event whose name occurs nowhere else.',
     ['inputs'],
     'all logs, including empty traces, equal lengths and colliding name hashes',
     'A wrong merge of groups needs traces of equal length that differ at one late position, or names that are confused with each other; tests hold a handful of logs.',
     [L + 'analysis/event_log_split.py', L + 'pipelines/filtering/filter_parts.py'],
     [('grouping', 'split_log_by_traces'), ('variants filter', 'FilterTracesByVariants'), ('merging', 'merge_all_traces_in_one_log')],
     ['groups, filtered and merged logs'])

prop('C09', 'Reported loops are real, complete and primitive where promised',
     'Every reported tandem array is a block of at least two events that is repeated, as often as reported, back to back from the reported position, and the repetition cannot be continued by one more copy. '
     'For every block length from two to below the configured bound, each distinct block is judged at its first occurrence in the trace and reported exactly when it is immediately repeated there; nothing else is reported. '
     'The primitive variant reports exactly those arrays at whose position no shorter loop of length up to half the block starts.',
     ['inputs', 'configurations'],
     'all traces, all bounds on the block length, all class extractors',
     'Completeness is a statement over all positions and lengths of all traces; tests list the expected arrays of a few strings.',
     [L + 'analysis/patterns/event_log_patterns.py', L + 'pipelines/analysis/patterns/patterns_parts.py'],
     [('maximal arrays', 'find_maximal_tandem_arrays'), ('primitive arrays', 'find_primitive_tandem_arrays')],
     ['reported (position, length, repeat count) per trace'])

prop('C10', 'Maximal, super-maximal and near-super-maximal repeats are exactly those',
     'The maximal repeats reported for a trace are precisely the distinct event sequences that occur at least twice in it and would occur less often when extended by one event to the left or to the right, each reported once with a position where it occurs. '
     'Super-maximal repeats are precisely the maximal repeats not contained in another maximal repeat. '
     'Near-super-maximal repeats are precisely the maximal repeats with an occurrence not covered by an occurrence of a longer one.',
     ['inputs'],
     'all traces of all logs, with arbitrary class extractors',
     'The definitions quantify over all substrings and all their extensions; the implementation goes through a suffix tree and an interval tree that sample strings exercise only partly.',
     [L + 'analysis/patterns/event_log_patterns.py', L + 'pipelines/analysis/patterns/patterns_parts.py'],
     [('maximal repeats', 'find_maximal_repeats'), ('super-maximal', 'find_super_maximal_repeats'),
      ('near-super-maximal', 'find_near_super_maximal_repeats')],
     ['reported positions and lengths per trace'])

prop('C11', 'Activities are the distinct event sets of patterns, nested by containment',
     'Patterns are turned into one repeat set per distinct set of event classes, represented by its first occurrence. '
     'The activity hierarchy contains every repeat set exactly once, as a root or as the child of one parent; a child\'s class set is strictly contained in its parent\'s, which is one of the smallest sets that contain it, and a node is a root exactly when no other set strictly contains it. '
     'Each activity carries the sorted class names of its set and the requested level.',
     ['inputs', 'configurations'],
     'all logs and pattern lists, all class extractors and levels',
     'Which node ends up under which parent depends on the order and overlap of all sets; tests print a few hierarchies.',
     [L + 'analysis/patterns/event_log_patterns.py', L + 'analysis/patterns/patterns_models.py', L + 'pipelines/analysis/patterns/patterns_parts.py'],
     [('repeat sets', 'create_repeat_sets'), ('hierarchy', 'build_repeat_set_tree'), ('discovery part', 'DiscoverActivities, DiscoverActivitiesFromPatterns')],
     ['repeat sets, activity tree, names and levels'])

prop('C12', 'Activity instances are disjoint, ordered, in bounds and belong to their activity',
     'The activity instances found in a trace are ordered by position, do not overlap, lie inside the trace and contain only events of their activity; an event is left out only if it belongs to no activity or the instance filter rejected its instance. '
     'An instance starts with the smallest fitting activity (ties in order of their names), grows to a larger activity only when that covers everything seen so far and the next event, ends where no activity can continue, and with narrowing is finally assigned to the smallest activity below it that covers the classes seen. '
     'Without narrowing, or with a filter, exactly that step differs.',
     ['inputs', 'configurations'],
     'all logs, all sets of activities including nested ones, all filters and both narrowing modes',
     'The extraction is a state machine over the trace with backtracking of one event; tests cover a few traces.',
     [L + 'analysis/patterns/event_log_patterns.py', L + 'pipelines/analysis/high_level.py', L + 'pipelines/analysis/patterns/patterns_parts.py'],
     [('extraction', 'extract_activities_from_log'), ('narrowing', 'narrow_activity'),
      ('parts', 'DiscoverActivitiesInTraces, DiscoverActivitiesFromTandemArrays, DiscoverActivitiesInstancesFromRepeats')],
     ['instances per trace'])

prop('C13', 'Abstracting events into activities loses no event and can be undone',
     'Replacing activity instances by activity events keeps, per trace, every instance in order as one event carrying copies of its events, and between them all events, one placeholder or nothing, as the chosen strategy says. Every new event lists the activities it stands for, those inside first. '
     'With all unattached events kept, substituting the underlying events back gives the original events in the original order, and the number of underlying events is unchanged, at every level of repeated abstraction. '
     'Repeating discovery until nothing more is found terminates with every round conserving the underlying events.',
     ['inputs', 'histories', 'configurations'],
     'all logs and instance lists, all strategies, all sequences of abstraction rounds',
     'Losslessness over repeated rounds is a statement about whole histories; tests compare one round on small logs.',
     [L + 'analysis/patterns/event_log_patterns.py', L + 'analysis/patterns/util.py', L + 'pipelines/analysis/high_level.py', L + 'pipelines/mutations/mutations_parts.py'],
     [('abstraction', 'create_new_log_from_activities'), ('inverse', 'substitute_original_events, SubstituteUnderlyingEvents'),
      ('iteration', 'DiscoverActivitiesInstancesFromRepeatsUntilNoMore'), ('counting', 'calculate_underlying_events_count')],
     ['abstracted log, substituted log, counts per round'])

prop('C14', 'Unattached events are exactly the rest, and adjusting only fills the gaps',
     'The unattached events of a trace are exactly its events outside all activity instances, in order, and the reported share of them is exact. '
     'Adding activities for unattached events keeps every existing instance unchanged, adds only instances inside gaps of at least the required size, found by the same extraction on the gap alone, and leaves the result ordered and disjoint. '
     'Multi-level discovery adds the activities of each level with that level\'s number to those already known and never removes or alters an earlier one.',
     ['inputs', 'configurations', 'histories'],
     'all logs, existing instances, gap sizes, filters, modes and level sequences',
     'Gap borders, minimum sizes and levels combine; tests hold a few logs with a single level.',
     [L + 'analysis/patterns/event_log_patterns.py', L + 'pipelines/analysis/high_level.py', L + 'pipelines/analysis/patterns/patterns_parts.py'],
     [('unattached log', 'create_unattached_events_log'), ('gap filling', 'add_unattached_activities'),
      ('levels', 'AdjustWithActivitiesFromUnattachedEvents, DiscoverActivitiesForSeveralLevels')],
     ['instances and activities before and after adjusting'])

prop('C15', 'Per-activity logs hold exactly the instances of their activity',
     'Splitting a log by activity gives one log per activity of the requested level, holding one trace per instance in log order with copies of exactly the instance\'s events, renamed to their class, and instances of other levels appear nowhere. '
     'With promotion, instances of lower levels are included exactly when their classes at the requested level are those of their activity at that level. '
     'Running a pipeline on each activity log runs it once per activity, on that log and name, and leaves the surrounding context unchanged.',
     ['inputs', 'configurations'],
     'all logs, instance lists, levels and class extractors',
     'Selection by level and class sets combines over all instances; tests look at a few logs.',
     [L + 'analysis/patterns/event_log_patterns.py', L + 'pipelines/analysis/patterns/patterns_parts.py', L + 'pipelines/analysis/high_level.py'],
     [('splitting', 'create_logs_for_activities'), ('promotion', 'create_logs_for_activities_with_promote'), ('per-log pipelines', 'ExecuteWithEachActivityLog')],
     ['activity name to log map'])

prop('C16', 'Copies and conversions of logs are faithful and independent',
     'A copy or deep copy of an event, trace or log equals the original including trace attributes and global defaults, and a deep copy shares nothing with it: no sequence of edits on one is ever visible in the other; a shallow copy shares exactly the elements it was given. After any edits events are equal exactly if their payloads are, traces if their events are, logs if their traces and their fields are (global defaults aside). '
     'Converting a log to the pm4py representation and back preserves all traces and events with all their attributes and values in order, and the log-level information, and shares nothing. '
     'Writing a log that was built from texts gives these texts again, and reading the text of a log (of non-empty traces, with names free of the separators) gives its names again, for the chosen separators.',
     ['histories', 'inputs'],
     'all logs and all sequences of edits on original and copy',
     'Shared state shows only for particular edits after the copy; tests edit one attribute.',
     [L + 'log/event_log.py', L + 'log/pm4py_converters.py', L + 'log/functions.py', L + 'util.py'],
     [('copying', 'MyEvent/MyTrace/MyEventLog.__copy__/__deepcopy__'), ('pm4py', 'from_pm4py_log, to_pm4py_log'),
      ('text', 'parse_log_from_strings, serialize_log, serialize_logs')],
     ['contents of original and copy after each edit'])

prop('C17', 'The backend client delivers each result to its part once and cleans up once',
     'Executing a remote pipeline sends one request to the backend given in the context (or the default one) and then processes the messages of the backend in order until the final one: each part result is delivered exactly once to the part, at any nesting depth, whose identifier it carries, with exactly the values sent; results of unknown parts are ignored; log messages are printed in order. '
     'After a successful final message the stored execution result is released exactly once with the identifier the backend gave, after a failed one never, and the caller gets the final message. '
     'The caller\'s context and the pipeline are unchanged, so executing again behaves the same; errors of the stream or of a callback reach the caller.',
     ['schedules', 'fault_sequences', 'programs'],
     'all sequences of backend messages, all nestings of parts, all points of failure, repeated executions',
     'The behaviour is a protocol over message sequences of a remote process; no test without a running backend exists and none injects failures.',
     [G + 'grpc_pipelines.py', G + 'util_parts.py', G + 'activities_parts.py'],
     [('protocol loop', 'Pipeline2.execute'), ('callback registry', 'append_parts_with_callbacks')],
     ['requests received by a scripted backend, callbacks, printed lines, returned value'])

prop('C18', 'The request sent to the backend states the pipeline exactly as composed',
     'The request holds one entry per part, in order and at every nesting level, of the right operation, with exactly the settings given to the part (or their defaults) under the names the backend uses and nothing from other parts or earlier requests, and every initial context value unchanged under its key. '
     'Parts that expect results carry their own identifier, the same in every request, and the keys they ask for. '
     'Anything that is not a part is rejected before anything is sent.',
     ['programs', 'configurations'],
     'all part kinds with all settings, all nestings and all repetitions of building the request',
     'Dozens of part kinds with optional settings and nested pipelines; tests need a backend and look at results, not at requests.',
     [G + 'grpc_pipelines.py', G + 'activities_parts.py', G + 'patterns_parts.py', G + 'discovery_parts.py', G + 'drawing_parts.py',
      G + 'filtering_parts.py', G + 'xes_parts.py', G + 'mutation_parts.py', G + 'util_parts.py', G + 'constants.py', G + 'context_values.py'],
     [('request building', 'Pipeline2.to_grpc_pipeline, *.to_grpc_part'), ('context values', '*ContextValue.to_grpc_context_value')],
     ['request received by a scripted backend'])

prop('C19', 'Backend results are decoded without loss and drawn as received',
     'Every value decoded from a backend message (event logs, coloured logs, log information, Petri nets with markings, annotations, graphs, datasets with and without labels) has exactly the content of the message: same elements, same order, same identifiers, numbers and texts. '
     'A drawn Petri net or graph has one vertex per place, transition or node and one edge per arc or edge with its label or annotation, places of the initial and of the final marking are marked as such, and names are shown as they are. '
     'A drawn coloured log paints, per trace in order, one rectangle per block, adjacent to each other, in the given colour and length; a legend names each block with its colour. '
     'A drawn labelled data set shows each cluster once, in its colour, with all its rows.',
     ['inputs'],
     'all messages the schema allows',
     'The messages come from a backend that is absent in tests; shapes such as empty nets, missing annotations, parallel arcs or large identifiers are not sampled.',
     [G + 'context_values.py', L + 'discovery/petri_net.py', L + 'discovery/graph.py', L + 'analysis/event_log_analysis.py', L + 'analysis/event_log_analysis_canvas.py', G + 'discovery_parts.py'],
     [('decoding', 'from_grpc_*'), ('drawing', 'draw_petri_net, draw_graph, draw_colors_event_log, draw_colors_event_log_canvas')],
     ['decoded objects, dot sources, painted rectangles'])

prop('C20', 'Diagrams tile each trace exactly and colours identify classes',
     'In every trace diagram each trace is one row, rows are in log order and do not overlap, and the rectangles of a row are adjacent, start at the left edge and have in total the length of the trace (in short diagrams one unit per block), each at the position of the events, activity, pattern or gap it stands for (instances and patterns in order and without overlap). '
     'Within an execution, nested pipelines included, a class or activity has the same colour in all diagrams (except where colours are asked to tell occurrences of one activity apart), different ones have different colours, and unattached or unselected parts are black, a colour no class gets. '
     'Legends name exactly what is painted.',
     ['inputs', 'histories', 'configurations'],
     'all logs, instance and pattern lists, scales, and sequences of diagrams in one pipeline execution',
     'Nothing checks the geometry or the colours: tests only check that drawing does not fail.',
     [L + 'analysis/event_log_analysis.py', L + 'analysis/patterns/patterns_graphs.py', L + 'util.py', L + 'pipelines/analysis/analysis_parts.py'],
     [('trace diagrams', '_draw_traces_diversity_like_diagram, draw_placements_of_events'), ('activity diagrams', '_sub_traces_draw_func, draw_activity_placement_diagram'),
      ('colours', 'RandomUniqueColorsProvider, cached_colors')],
     ['rectangles handed to the plotting library'])

prop('C21', 'Class trees and activity graphs state exactly the containment that was found',
     'The event class tree has one node per class and level: the leaves are exactly the classes of the log, and every node is the child of exactly the node its name is mapped to by the next extractor. '
     'A built graph has one vertex per distinct node name and an edge from every child to each of its parents, with the roots attached to the artificial root when requested, and the per-level graph contains exactly the activities of that level (none when there are none). '
     'The textual form of a graph does not depend on the order in which it was built, and graphs with different vertices or edges have different textual forms.',
     ['inputs', 'configurations'],
     'all logs, extractor lists and activity hierarchies',
     'Shared children, equal names at different places and several levels combine; tests compare a few trees.',
     [L + 'analysis/patterns/event_log_patterns.py', L + 'analysis/patterns/patterns_graphs.py', L + 'pipelines/analysis/patterns/patterns_graph_parts.py'],
     [('class tree', 'build_class_tree'), ('graph', 'build_graph, BuildActivityGraph, BuildEventClassGraph'), ('serialisation', 'serialize_graphviz_graph')],
     ['tree, graph source'])

prop('C22', 'A net discovered by the inductive part replays every trace of the log',
     'For every log, the Petri net put into the context by inductive discovery without noise filtering can replay each trace of that log from its initial to its final marking, and its visible transitions are labelled with exactly the classes of the log. '
     'Discovery leaves the log and all other context entries as they were, and the net, initial and final marking in the context belong together.',
     ['inputs'],
     'all logs',
     'Fitness is a reachability question over all firing sequences of the discovered net for every trace; tests check that a net was produced.',
     [L + 'pipelines/discovery/discovery_parts.py', L + 'log/pm4py_converters.py'],
     [('discovery parts', 'DiscoverPetriNetInductive'), ('conversion', 'to_pm4py_log')],
     ['net and markings in the context'])

R = 'src/rust/ficus_backend/src/'
prop('C23', 'Edits of a backend log and everything derived from it agree with the traces',
     'In the Rust backend, after any sequence of edits (adding traces and events, removing events by name, by a set of names or by a regular expression, renaming, adding artificial start and end events, dropping short traces or repeated variants, copying; through the log, its traces or pipeline parts) a log has exactly the events that the edits define, in order. '
     'Everything derived from it agrees with these traces at the moment it is asked for: positions and counts of classes, statistics, variants, directly-follows relations with their counts, class hashes, copies, information kept by a trace.',
     ['histories', 'inputs'],
     'all logs and all sequences of edits with derived values read in between',
     'Derived values are cached in the traces; whether a cache follows the edits shows only for sequences of reads and edits that unit tests do not contain.',
     [R + 'event_log/xes/xes_event_log.rs', R + 'event_log/xes/xes_trace.rs', R + 'event_log/core', R + 'features/analysis/log_info', R + 'features/mutations', R + 'pipelines/mutation_parts.rs', R + 'pipelines/filtering_parts.rs'],
     [('edits', 'EventLog, Trace, mutations::*'), ('derived values', 'EventLogInfoImpl, TraceInfo, EventsPositions, EventSequenceInfo, variants')],
     ['contents of the log and every derived value after each edit'])

prop('C24', 'Backend entropies are those of the events positions',
     'The entropies the Rust backend computes for a log are those their definitions give for its traces, for every class of the log that is not ignored and for no other class: the position entropy (the usual and the fast implementation) and the neighbourhood entropy (with and without Laplace smoothing). '
     'Ignored classes are treated as if they were not in the log.',
     ['inputs'],
     'all logs',
     'The value is a function of the whole log; tests compare a few logs with precomputed numbers.',
     [R + 'features/analysis/entropy'],
     [('entropies', 'entropy::*')],
     ['entropy per class'])

prop('C25', 'Backend pattern discovery reports exactly the loops and repeats of the traces',
     'For every log the Rust backend reports for each trace exactly its maximal and primitive tandem arrays up to the asked length with their numbers of repetitions, and exactly one occurrence of each of its maximal, super maximal and near super maximal repeats, whether called as function, with a class extractor or as pipeline part. '
     'Repeats over the merged traces are repeats of the log that no trace border crosses, each reported once, and a word search in the suffix tree finds exactly the occurrences of the word.',
     ['inputs', 'configurations'],
     'all logs, class extractors and lengths',
     'Correctness is a universal statement over all subsequences of a trace; the suffix tree construction has many corner cases tests do not sample.',
     [R + 'features/analysis/patterns', R + 'utils/suffix_tree', R + 'pipelines/patterns_parts.rs'],
     [('loops', 'find_maximal_tandem_arrays, find_primitive_tandem_arrays'), ('repeats', 'find_maximal_repeats, find_super_maximal_repeats, find_near_super_maximal_repeats'), ('suffix tree', 'SuffixTree')],
     ['reported positions, lengths and counts'])

prop('C26', 'Backend discovery builds the Petri net the relations of the log define',
     'For every log, empty and one-event traces included, alpha yields one transition per event class, one place per maximal pair of sets of classes that are causally related to each other and unrelated among themselves, a start and an end place, and one token in the start place (final: in the end place). '
     'Alpha+ and alpha++ treat loops of length two as causality, discover on the log without the classes in loops of length one and put those on the place between their neighbours. The heuristic miner connects exactly the followers that pass the thresholds, through silent transitions where they are concurrent. '
     'EnsureInitialMarking adds a start and an end place, joined to the classes that start and end traces, and one token, and keeps the rest. Functions and pipeline parts agree and leave the log as it is.',
     ['inputs', 'configurations'],
     'all logs and thresholds',
     'Discovery is defined over all pairs of sets of classes of a log; tests compare a handful of logs with recorded nets, and those recordings are not even available offline.',
     [R + 'features/discovery/alpha', R + 'features/discovery/heuristic', R + 'features/discovery/petri_net', R + 'features/analysis/event_log_info.rs', R + 'pipelines/discovery_parts.rs'],
     [('alpha', 'discover_petri_net_alpha'), ('alpha+', 'discover_petri_net_alpha_plus, find_transitions_one_length_loop'), ('heuristic', 'discover_petri_net_heuristic'), ('marking', 'ensure_initial_marking')],
     ['places described by their producers and consumers, transitions, markings'])

prop('C27', 'Backend replay succeeds iff the net can, and annotations count what fired',
     'For every net whose silent transitions add no tokens and for every discovered net, replay ends, and gives for each trace either a firing sequence that is enabled step by step from the initial marking and spells the trace, or nothing exactly when there is none. '
     'Count annotations give each arc the number of firings of its transition over the replayable traces, frequencies that number over the sum for all arcs, trace frequencies that number over the traces; with termination asked for, one trace that cannot be replayed means no annotation. The net is not changed.',
     ['inputs', 'configurations'],
     'all nets and logs',
     'Replay searches a state space; termination and completeness are statements about every net, also with cycles of silent transitions and several arcs between one pair.',
     [R + 'features/discovery/petri_net/replay.rs', R + 'features/discovery/petri_net/annotations.rs', R + 'features/discovery/petri_net/petri_net.rs', R + 'pipelines/discovery_parts.rs'],
     [('replay', 'replay_petri_net'), ('annotations', 'annotate_with_counts, annotate_with_frequencies, annotate_with_trace_frequency')],
     ['fired transitions, annotations of arcs'])

prop('C28', 'Backend pipelines run their parts in order and name what is missing',
     'For every tree of parts, nested pipelines included, and every context: the parts run one after the other, each sending one message when it starts and one when it has ended well; a nested pipeline does what its parts written out would do. '
     'A part whose context or configuration lacks something it needs fails with an error that names a missing key, an invalid regular expression is an error too, and neither is a crash; a log part that fails changes nothing, nothing after it runs, and a failing message handler stops the run there. '
     'The context holds what the parts that ran put there: names, hashes, counts, colours describe the log as it was when they were taken, also when the log is edited later; taking the names and using them restores the log; the same name has the same colour and different names different ones over the whole context; the class extractor renames exactly the events the filter matches to the part of the name the class matches at its start.',
     ['inputs', 'histories', 'faults'],
     'all part trees, contexts, configurations, logs',
     'Order, failure and what remains in the context are statements about every composition of parts and every subset of missing inputs; tests run a few fixed pipelines.',
     [R + 'pipelines'],
     [('pipelines', 'Pipeline, DefaultPipelinePart, create_pipeline_part'), ('parts', 'PipelineParts::get_user_data, log_parts, util_parts, drawing_parts, activities_parts, discovery_parts, xes_parts'), ('colours', 'ColorsHolder')],
     ['messages sent, the error, the values in the context'])

prop('C29', 'Backend activities are cut out of, put into and taken out of logs without loss',
     'For every log and pattern kind: the discovered activities are exactly the distinct class sets of the patterns, each named after its first occurrence and placed below its smallest supersets. '
     'Instances in a trace are those of the greedy reading (the smallest activity that starts, grown while one covers what was seen, narrowed on request to the smallest that does), lie inside the trace, do not overlap, and a filter only drops whole instances; '
     'filling unattached stretches keeps what is there and adds exactly what reading each long enough stretch finds. Unattached events and instances divide the log. Abstraction puts one event per instance, keeps, merges or drops the rest as configured, and with all events kept can be undone, also over several rounds; '
     'the number of underlying events is what full expansion gives; logs per activity hold one trace per instance of the level. Working through levels or until nothing is found is the same as doing its rounds one by one.',
     ['inputs', 'histories'],
     'all logs, class extractors, patterns, hierarchies given by a caller, rounds of abstraction',
     'Greedy extraction, filling and repeated abstraction depend on how sets overlap and on what earlier rounds left; the tests compare a few logs with recorded results.',
     [R + 'features/analysis/patterns', R + 'pipelines'],
     [('extraction', 'activity_instances.rs: extract_activities_instances, add_unattached_activities, narrow_activity'), ('tree', 'repeat_sets.rs: build_repeat_sets, build_repeat_set_tree_from_repeats'),
      ('abstraction', 'create_new_log_from_activities_instances, substitute_underlying_events, count_underlying_events'), ('parts', 'activities_parts.rs')],
     ['activities, instances, logs and counts in the context after each part'])

prop('C30', 'Reports say exactly what the log, the activities and the instances hold',
     'For every context: the printed event names are the log\'s event classes, each once; the log information (also before and after a wrapped part) gives its numbers of traces, events and classes; the printed followers are the pairs of the directly-follows relation that start with a chosen class. '
     'Printed activities are those of the context in order; per level, the saved names are exactly the names of all activities at or below the level\'s roots, also with several parents and shared names; saved instance names and indices are those of the instances; counts of activities and underlying events match; a chosen level gives exactly its activities and instances. '
     'Trace histograms have one bar per variant with its size, whatever the number of logs; entropy bars, legends and tables show every class once with its value, tables and legends in descending order; till-end curves are what they are derived from; scatter plots show each point once under its label. No report changes log, activities or instances.',
     ['inputs', 'histories'],
     'all logs with nested events, activity graphs with shared names and children, instances, sequences of reports, label sets',
     'What a report leaves out shows only with particular sharing of names and children, a single log, unusual labels; the tests check that nothing is raised, if they print at all.',
     [L + 'pipelines/analysis/patterns/patterns_parts.py', L + 'pipelines/analysis', L + 'analysis'],
     [('activities', 'patterns_parts.py: PrintActivities, SaveAllActivitiesNames, SaveActivitiesInstancesNames, PrintNumberOfUnderlyingEvents'), ('log', 'analysis_parts.py, filter_parts.py, log information parts'),
      ('figures', 'event_log_analysis.py: draw_traces_histogram, plot_logs_traces_histograms; event_log_analysis_entropy.py')],
     ['standard output, files and figures of each report, and the context after it'])

prop('C31', 'Backend logs survive XES and nets survive PNML, however a document is written',
     'For every XES document with one set of defaults per scope, given before the traces: the log read has exactly the extensions, classifiers, properties, defaults, traces and events the document says, in order, however its tags are written (empty or start and end tags, quotes, entities, comments, any time zone and precision). '
     'What is nested in an attribute belongs to that attribute and never becomes an attribute of the event, default or log around it; a value that cannot be read is left out and nothing else with it; events without a name or a time after the defaults are dropped, the others keep their place; the last of several values for a key holds. '
     'A document that ends early or is not well-formed gives what had come before that and is never a crash. '
     'A log written and read again is the same log (traces without events and scopes without defaults are not written; defaults are in the events they apply to), and times are kept to the nanosecond; adding or changing an event\'s payload puts exactly that value there. '
     'A Petri net written as PNML has each place, transition and arc of the net exactly once, with identifiers of its own and arcs that name them.',
     ['inputs', 'histories', 'faults'],
     'all documents of extensions, classifiers, attributes, defaults, traces, events, and their truncations; all logs; all nets',
     'The reader sees one tag at a time: what it loses depends on which kind of tag came in which state, over many combinations no sample file has.',
     [R + 'event_log/xes', R + 'pipelines/xes_parts.rs', R + 'features/discovery/petri_net/pnml_serialization.rs'],
     [('reader', 'file_xes_log_reader.rs: FromFileXesEventLogReader, read_event_log; xes_log_trace_reader.rs'), ('writer', 'xes_event_log_writer.rs: serialize_event_log, write_log'),
      ('values', 'reader/utils.rs: extract_payload_value, extract_key_value'), ('nets', 'pnml_serialization.rs: serialize_to_pnml_file')],
     ['the log read from a document, from a written log, from a file by the pipeline parts; payloads after edits; the written PNML'])

prop('C32', 'Backend graphs keep their relations, and the fuzzy miner loses no frequent class',
     'For every history of adding, connecting, disconnecting and merging nodes: edges join nodes that are there, at most one in each direction; successors, predecessors and neighbours of a node are those its edges say; merging nodes into one keeps what they stand for and adds up what flows between them and the rest, both ways. '
     'For every log and parameters, the fuzzy graph has exactly the classes above the frequency threshold, each in one node: alone, or, only if rare, in a cluster. '
     'Its relations are those of the directly-follows relation above the binary threshold, without the opposite pairs the preserve and ratio thresholds resolve and without those whose utility (counts and mean time between) lies below the edge cutoff among the relations into the same class, with their counts, summed between clusters. '
     'A rare class joins its nearest neighbour\'s cluster or starts one, and a cluster all of whose successors or predecessors lie in clusters is merged with the nearest, until none is left. The log is not changed.',
     ['inputs', 'histories'],
     'all histories of graph operations, all logs with times, all thresholds; any order of the clusters',
     'Which relation is cut or which class is clustered depends on counts and times of the whole log against each other; the order of clustering is not fixed, so no single expected graph can be written down.',
     [R + 'utils/graph', R + 'features/discovery/fuzzy', R + 'pipelines/discovery_parts.rs'],
     [('graph', 'graph.rs: connect_nodes, disconnect_nodes, all_connected_nodes; graph_clusters.rs: merge_nodes_into_one; graph_conversions.rs'),
      ('miner', 'fuzzy_miner.rs: discover_graph_fuzzy; fuzzy_metrics_provider.rs'), ('part', 'discovery_parts.rs: discover_fuzzy_graph')],
     ['nodes, edges, neighbours after each operation; the discovered graph'])

prop('C33', 'Clustering counts right, groups by density, and merges what it groups',
     'For every log, activities and parameters: the table of traces or of activities has a row for each and a column for each class that occurs (after the class extractor, at the chosen depth), with counts scaled by column from least to greatest; the table for edit distances spells the traces. '
     'Clusters by density are exactly the connected components of rows with enough neighbours within the tolerance in the chosen distance, plus rows near those; all others are noise. '
     'Activities of the level that fall in one cluster of two or more are replaced everywhere by one new activity with all their classes, instances of it that touch become one, and other instances stay; noise and single ones stay; k-means clusters likewise. '
     'Every trace is in the log of its cluster and no other, and the following pipeline runs on each. Rows have one colour if and only if they have one label. '
     'Wrong parameters are an error, never a panic, and change nothing; the log is never changed.',
     ['inputs', 'histories'],
     'all logs (nested too), activities, sources, distances, tolerances; linfa itself is replaced by a stand-in',
     'A row lies in a cluster because of chains of other rows; a wrong count, scale or distance only moves a label in logs where it crosses the tolerance.',
     [R + 'features/clustering', R + 'utils/distance', R + 'pipelines/activities_parts.rs'],
     [('tables', 'activities_common.rs: create_dataset; traces/dbscan.rs: create_traces_dataset; common.rs: scale_raw_dataset_min_max'),
      ('clusters', 'activities/dbscan.rs, k_means.rs; traces/dbscan.rs: clusterize_log_by_traces_dbscan; distance.rs'), ('merging', 'merging.rs: merge_activities')],
     ['tables, labels, colours, instances and activities after each part, the logs of the clusters'])

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')

exec(open(os.path.join(V, 'tools', 'manifest_src.py')).read())
