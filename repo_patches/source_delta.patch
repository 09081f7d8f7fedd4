From c3101a3ca92af7b9eb86c825ee417b7ea4fa6eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:29 +0000
Subject: [PATCH 01/75] fix: position entropy of a log with one non-empty trace
 is 0 instead of NaN

---
 src/python/ficus/legacy/analysis/event_log_analysis_entropy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/python/ficus/legacy/analysis/event_log_analysis_entropy.py b/src/python/ficus/legacy/analysis/event_log_analysis_entropy.py
index aac94d6..e17eabb 100644
--- a/src/python/ficus/legacy/analysis/event_log_analysis_entropy.py
+++ b/src/python/ficus/legacy/analysis/event_log_analysis_entropy.py
@@ -219,6 +219,9 @@ def calculate_position_entropies_fast(log: MyEventLog,
 
 
 def _do_calculate_position_entropy(probabilities: np.array, traces_count: int) -> float:
+    if traces_count == 1:
+        return 0.0
+
     probabilities = probabilities[probabilities != 0]
     logs = np.log(probabilities) / np.log(traces_count)
     return np.sum(-logs) / len(probabilities)
-- 
2.43.0


From 0aa946b46239bac5213630d3bfdcd106db963d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:29 +0000
Subject: [PATCH 02/75] fix: entropy filters stop when no event class may be
 removed instead of raising or looping forever

---
 .../ficus/legacy/filtering/event_log_filters.py    | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/python/ficus/legacy/filtering/event_log_filters.py b/src/python/ficus/legacy/filtering/event_log_filters.py
index da52672..deb21b6 100644
--- a/src/python/ficus/legacy/filtering/event_log_filters.py
+++ b/src/python/ficus/legacy/filtering/event_log_filters.py
@@ -47,6 +47,9 @@ def filter_events_default_entropy_indirect(log: MyEventLog,
 
         min_event_name, min_sum_entropy = next_removal_default_entropy_indirect(log, laplace, top_percent,
                                                                                 untouchable_event_func)
+        if min_event_name is None:
+            return log
+
         print(f'Removing {min_event_name} with entropy {min_sum_entropy}')
         log = remove_event_from_log(log, min_event_name)
 
@@ -58,6 +61,9 @@ def filter_events_default_entropy_indirect(log: MyEventLog,
 def _determine_next_event_to_remove_direct(log: MyEventLog,
                                            metric_func: Callable[[MyEventLog], dict[str, float]]) -> (str, float):
     metrics_for_events = metric_func(log)
+    if len(metrics_for_events) == 0:
+        return None, None
+
     event_name = max(metrics_for_events, key=metrics_for_events.get)
     return event_name, metrics_for_events[event_name]
 
@@ -73,7 +79,7 @@ def _do_filter_by_metric_direct(log: MyEventLog,
 
         event_name, metric = _determine_next_event_to_remove_direct(log, metric_func)
 
-        if metric > threshold:
+        if event_name is not None and metric > threshold:
             print(f'Removing {event_name} with metric {metric}')
             log = remove_event_from_log(log, event_name)
             removed_events_count += 1
@@ -98,6 +104,8 @@ def _do_filter_by_metric_direct_till_end(log: MyEventLog,
 
         metric_before_removal = sum(metric_func(log).values())
         event_name, metric = _determine_next_event_to_remove_direct(log, metric_func)
+        if event_name is None:
+            break
 
         if metric_kind == TillEndFilteringMetricKind.BeforeOnly:
             removals.append((event_name, metric_before_removal))
@@ -200,6 +208,8 @@ def filter_events_pos_entropy_indirect(log: MyEventLog,
 
         min_event_name, min_entropy = next_event_remove_pos_entropy_indirect(log, trace_counts, info, positions,
                                                                              untouchable_event_func)
+        if min_event_name is None:
+            return log
 
         print(f'Removing event {min_event_name} with resulting log entropy {min_entropy}')
         log = remove_event_from_log(log, min_event_name)
@@ -223,6 +233,8 @@ def filter_events_pos_entropy_indirect_till_end(log: MyEventLog,
         pos_entropy_before_removal = calculate_position_entropies_fast_sum(log, positions=positions)
         min_event_name, min_entropy = next_event_remove_pos_entropy_indirect(log, trace_counts, info, positions,
                                                                              untouchable_event_func)
+        if min_event_name is None:
+            break
 
         print(f'Removing event {min_event_name} with resulting log entropy {min_entropy}')
         if metric_kind == TillEndFilteringMetricKind.BeforeOnly:
-- 
2.43.0


From f6c031d658267c1244b8bcaa3c77cdd24a1dac2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:41 +0000
Subject: [PATCH 03/75] fix: entropy filters remove nothing when no removals
 are allowed

---
 src/python/ficus/legacy/filtering/event_log_filters.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/python/ficus/legacy/filtering/event_log_filters.py b/src/python/ficus/legacy/filtering/event_log_filters.py
index deb21b6..b2de71f 100644
--- a/src/python/ficus/legacy/filtering/event_log_filters.py
+++ b/src/python/ficus/legacy/filtering/event_log_filters.py
@@ -37,6 +37,9 @@ def filter_events_default_entropy_indirect(log: MyEventLog,
                                            top_percent: float = 0.05,
                                            max_events_to_remove: int = int(1e9),
                                            untouchable_event_func=default_untouchable_func) -> MyEventLog:
+    if max_events_to_remove <= 0:
+        return log
+
     removed_events_count = 0
     while True:
         if len(log) == 0:
@@ -72,6 +75,9 @@ def _do_filter_by_metric_direct(log: MyEventLog,
                                 threshold: float,
                                 metric_func: Callable[[MyEventLog], dict[str, float]],
                                 max_events_to_delete: int = 1e9) -> MyEventLog:
+    if max_events_to_delete <= 0:
+        return log
+
     removed_events_count = 0
     while True:
         if len(log) == 0:
@@ -197,6 +203,9 @@ def filter_events_pos_entropy_indirect(log: MyEventLog,
                                        threshold: float = 0,
                                        max_events_to_remove: int = int(1e9),
                                        untouchable_event_func=default_untouchable_func) -> MyEventLog:
+    if max_events_to_remove <= 0:
+        return log
+
     removed_events_count = 0
     while True:
         trace_counts = calculate_events_in_each_trace(log)
-- 
2.43.0


From 764a0994e3d4fce47580e521d0a73cc4a240a43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:41 +0000
Subject: [PATCH 04/75] fix: adjusting with unattached activities no longer
 extends the received activities list in place

---
 src/python/ficus/legacy/pipelines/analysis/high_level.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/python/ficus/legacy/pipelines/analysis/high_level.py b/src/python/ficus/legacy/pipelines/analysis/high_level.py
index 8f51896..e44672e 100644
--- a/src/python/ficus/legacy/pipelines/analysis/high_level.py
+++ b/src/python/ficus/legacy/pipelines/analysis/high_level.py
@@ -128,8 +128,7 @@ class AdjustWithActivitiesFromUnattachedEvents(InternalPipelinePart):
 
         def output_merger(initial_input: PipelinePartResult, temp_output: PipelinePartResult) -> PipelinePartResult:
             old_activities = activities(initial_input) if initial_input.has_value(activities_key) else []
-            old_activities.extend(activities(temp_output))
-            return initial_input.with_activities(old_activities)
+            return initial_input.with_activities(old_activities + activities(temp_output))
 
         if not current_input.has_value(traces_activities_key):
             current_input = current_input.with_trace_activities([[] for _ in log(current_input)])
-- 
2.43.0


From bcdd0ce685d702cefc5fc24dd9c405c7458d57db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:12 +0000
Subject: [PATCH 05/75] fix: variants of a log are told apart by event names,
 not by colliding name hashes

---
 src/python/ficus/legacy/analysis/event_log_split.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/python/ficus/legacy/analysis/event_log_split.py b/src/python/ficus/legacy/analysis/event_log_split.py
index 5c7244a..16e602c 100644
--- a/src/python/ficus/legacy/analysis/event_log_split.py
+++ b/src/python/ficus/legacy/analysis/event_log_split.py
@@ -33,15 +33,15 @@ def split_log_by_traces(log: MyEventLog) -> list[list[MyTrace]]:
                     continue
 
                 all_groups_has_one_trace = False
-                hashes2traces = dict()
+                names2traces = dict()
                 for trace in group:
-                    hash_code = calculate_string_poly_hash(trace[index][concept_name])
-                    if hash_code in hashes2traces:
-                        hashes2traces[hash_code].append(trace)
+                    event_name = trace[index][concept_name]
+                    if event_name in names2traces:
+                        names2traces[event_name].append(trace)
                     else:
-                        hashes2traces[hash_code] = [trace]
+                        names2traces[event_name] = [trace]
 
-                for _, new_group in hashes2traces.items():
+                for _, new_group in names2traces.items():
                     new_groups.append(new_group)
 
             if all_groups_has_one_trace:
-- 
2.43.0


From 85e83d802b51ea7b15083f7068094a4737dc6406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:10 +0000
Subject: [PATCH 06/75] fix: tandem arrays are not missed when the polynomial
 hashes of two blocks collide

---
 .../ficus/legacy/analysis/patterns/event_log_patterns.py    | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/python/ficus/legacy/analysis/patterns/event_log_patterns.py b/src/python/ficus/legacy/analysis/patterns/event_log_patterns.py
index a0cb6e3..ba9e056 100644
--- a/src/python/ficus/legacy/analysis/patterns/event_log_patterns.py
+++ b/src/python/ficus/legacy/analysis/patterns/event_log_patterns.py
@@ -30,11 +30,11 @@ def _find_maximal_tandem_arrays(traces: list[list[int]],
         tandem_arrays = []
         for length in range(2, max_tandem_array_length):
             for i in range(0, len(trace) - length):
-                sub_array_hash = calculate_poly_hash_for_collection(trace, i, i + length)
-                if sub_array_hash in visited:
+                sub_array = tuple(trace[i:(i + length)])
+                if sub_array in visited:
                     continue
 
-                visited.add(sub_array_hash)
+                visited.add(sub_array)
                 candidate_tandem_array = _try_extract_tandem_array(trace, i, length)
                 if candidate_tandem_array is not None:
                     tandem_arrays.append(candidate_tandem_array)
-- 
2.43.0


From c30a6c74514dda57048afff56ead30df7dea2d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:10 +0000
Subject: [PATCH 07/75] fix: repeat sets are not dropped when the polynomial
 hashes of two class sets collide

---
 .../legacy/analysis/patterns/event_log_patterns.py  | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/python/ficus/legacy/analysis/patterns/event_log_patterns.py b/src/python/ficus/legacy/analysis/patterns/event_log_patterns.py
index ba9e056..77b8dd4 100644
--- a/src/python/ficus/legacy/analysis/patterns/event_log_patterns.py
+++ b/src/python/ficus/legacy/analysis/patterns/event_log_patterns.py
@@ -12,7 +12,7 @@ from ..common.common_models import SubArrayInEventLog
 from ...analysis.event_log_info import create_log_information
 from ...analysis.type_aliases import *
 from ...log.event_log import *
-from ...util import concept_name, calculate_poly_hash_for_collection
+from ...util import concept_name
 
 
 def find_maximal_tandem_arrays(log: MyEventLog,
@@ -150,13 +150,12 @@ def _do_create_repeat_sets(hashes_traces: list[list[int]],
         for sub_array in trace_sub_arrays:
             start = sub_array.first_pos
             end = sub_array.first_pos + sub_array.length
-            sub_array_from_log = list(sorted(set(trace[start:end])))
-            sub_array_hash = calculate_poly_hash_for_collection(sub_array_from_log)
+            sub_array_from_log = frozenset(trace[start:end])
 
-            if sub_array_hash not in repeat_sets:
-                repeat_sets[sub_array_hash] = SubArrayWithTraceIndex(first_pos=start,
-                                                                     length=sub_array.length,
-                                                                     trace_index=index)
+            if sub_array_from_log not in repeat_sets:
+                repeat_sets[sub_array_from_log] = SubArrayWithTraceIndex(first_pos=start,
+                                                                         length=sub_array.length,
+                                                                         trace_index=index)
         index += 1
 
     return list(repeat_sets.values())
-- 
2.43.0


From bd3b3b367ceba36777975711aa4a4af491c03491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:29 +0000
Subject: [PATCH 08/75] fix: discovering activity instances passes on
 should_narrow_activity

---
 src/python/ficus/legacy/pipelines/analysis/high_level.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/python/ficus/legacy/pipelines/analysis/high_level.py b/src/python/ficus/legacy/pipelines/analysis/high_level.py
index e44672e..bc721dc 100644
--- a/src/python/ficus/legacy/pipelines/analysis/high_level.py
+++ b/src/python/ficus/legacy/pipelines/analysis/high_level.py
@@ -56,7 +56,8 @@ class DiscoverActivitiesFromTandemArrays(DiscoverActivitiesBase):
             ),
             PrintActivities(self.debug_prints),
             DiscoverActivitiesInTraces(self.class_extractor,
-                                       activity_in_trace_filter=self.activity_in_trace_filter),
+                                       activity_in_trace_filter=self.activity_in_trace_filter,
+                                       should_narrow_activity=self.should_narrow_activity),
         )(current_input)
 
 
@@ -91,7 +92,8 @@ class DiscoverActivitiesInstancesFromRepeats(DiscoverActivitiesBase):
             ),
             PrintActivities(self.debug_prints),
             DiscoverActivitiesInTraces(self.class_extractor,
-                                       activity_in_trace_filter=self.activity_in_trace_filter),
+                                       activity_in_trace_filter=self.activity_in_trace_filter,
+                                       should_narrow_activity=self.should_narrow_activity),
         )(current_input)
 
 
-- 
2.43.0


From abbee4fd4b950476b70f65ef11a44b415cf9beb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:42 +0000
Subject: [PATCH 09/75] fix: promoting activities finds the events of a repeat
 set in the log it was discovered in

---
 .../legacy/analysis/patterns/event_log_patterns.py | 14 ++++++++++----
 .../legacy/analysis/patterns/patterns_models.py    |  4 +++-
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/python/ficus/legacy/analysis/patterns/event_log_patterns.py b/src/python/ficus/legacy/analysis/patterns/event_log_patterns.py
index 77b8dd4..1015b5c 100644
--- a/src/python/ficus/legacy/analysis/patterns/event_log_patterns.py
+++ b/src/python/ficus/legacy/analysis/patterns/event_log_patterns.py
@@ -167,14 +167,16 @@ def build_repeat_set_tree(log: MyEventLog,
                           activity_level: int,
                           event_class_extractor: ClassExtractor = default_class_extractor) -> list[ActivityNode]:
     hash_traces = _create_hashes_traces_with_selector(log, event_class_extractor)
-    return _do_build_repeat_set_tree(hash_traces,
+    return _do_build_repeat_set_tree(log,
+                                     hash_traces,
                                      repeat_sets=repeat_sets,
                                      activity_names_creator=activity_names_creator,
                                      class_extractor=event_class_extractor,
                                      activity_level=activity_level)
 
 
-def _do_build_repeat_set_tree(hashes_traces: list[list[int]],
+def _do_build_repeat_set_tree(log: MyEventLog,
+                              hashes_traces: list[list[int]],
                               repeat_sets: list[SubArrayWithTraceIndex],
                               activity_names_creator: Callable[[SubArrayWithTraceIndex], str],
                               class_extractor: ClassExtractor,
@@ -189,7 +191,8 @@ def _do_build_repeat_set_tree(hashes_traces: list[list[int]],
                             repeat_set=r_set,
                             set_of_events=events,
                             class_extractor=class_extractor,
-                            activity_level=activity_level)
+                            activity_level=activity_level,
+                            repeat_set_events=_find_events_for_repeat_set(log, r_set))
 
     if len(repeat_sets) == 0:
         return []
@@ -649,7 +652,10 @@ def create_logs_for_activities_with_promote(log: MyEventLog,
             extractor = class_extractors[desired_activity_level] if adjust_events_to_max_level else default_class_extractor
             return _create_trace_for_activity(trace, info, extractor)
 
-        repeat_events = _find_events_for_repeat_set(log, info.node.repeat_set)
+        repeat_events = info.node.repeat_set_events
+        if repeat_events is None:
+            repeat_events = _find_events_for_repeat_set(log, info.node.repeat_set)
+
         this_activity_events_orig = trace[info.start_pos:(info.start_pos + info.length)]
         this_activity_events_copy = list(map(copy.copy, this_activity_events_orig))
         for extractor in class_extractors[level:(desired_activity_level + 1)]:
diff --git a/src/python/ficus/legacy/analysis/patterns/patterns_models.py b/src/python/ficus/legacy/analysis/patterns/patterns_models.py
index d85006d..583af16 100644
--- a/src/python/ficus/legacy/analysis/patterns/patterns_models.py
+++ b/src/python/ficus/legacy/analysis/patterns/patterns_models.py
@@ -29,12 +29,14 @@ class ActivityNode(GraphNode):
                  repeat_set: SubArrayWithTraceIndex,
                  set_of_events: set[int],
                  class_extractor: ClassExtractor,
-                 activity_level: int):
+                 activity_level: int,
+                 repeat_set_events: list = None):
         super().__init__(name)
         self.activity_level = activity_level
         self.name = name
         self.class_extractor = class_extractor
         self.repeat_set: SubArrayWithTraceIndex = repeat_set
+        self.repeat_set_events = repeat_set_events
         self.set_of_events: set[int] = set_of_events
         self.length = len(self.set_of_events)
 
-- 
2.43.0


From 0ad7a6bed9b17e018985c68e7ad9046e2a85a2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:42 +0000
Subject: [PATCH 10/75] fix: promoted activity logs hold copies of the events
 when they are not adjusted

---
 src/python/ficus/legacy/analysis/patterns/event_log_patterns.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/ficus/legacy/analysis/patterns/event_log_patterns.py b/src/python/ficus/legacy/analysis/patterns/event_log_patterns.py
index 1015b5c..877d78d 100644
--- a/src/python/ficus/legacy/analysis/patterns/event_log_patterns.py
+++ b/src/python/ficus/legacy/analysis/patterns/event_log_patterns.py
@@ -671,7 +671,7 @@ def create_logs_for_activities_with_promote(log: MyEventLog,
 
         if repeat_event_classes_set == this_activity_event_classes_set:
             new_trace = MyTrace()
-            for event in this_activity_events_orig if not adjust_events_to_max_level else this_activity_events_copy:
+            for event in map(copy.copy, this_activity_events_orig) if not adjust_events_to_max_level else this_activity_events_copy:
                 new_trace.append(event)
 
             return new_trace
-- 
2.43.0


From 270b6f83a18f0cc52dcb6934f8226084e2fa5c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:11 +0000
Subject: [PATCH 11/75] fix: boolean values read from XES keep their value
 (false was read as true)

---
 src/python/ficus/legacy/log/functions.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/python/ficus/legacy/log/functions.py b/src/python/ficus/legacy/log/functions.py
index 9b7ba89..9eb4de9 100644
--- a/src/python/ficus/legacy/log/functions.py
+++ b/src/python/ficus/legacy/log/functions.py
@@ -124,12 +124,16 @@ def _parse_datetime(value: str):
     return parser.parse(value)
 
 
+def _parse_bool(value: str) -> bool:
+    return value.strip().lower() in ['true', '1']
+
+
 parse_functions = {
     const_tag_string: str,
     const_tag_date: _parse_datetime,
     const_tag_int: int,
     const_tag_float: float,
-    const_tag_bool: bool
+    const_tag_bool: _parse_bool
 }
 
 
-- 
2.43.0


From 3055a836e6932f5469aa5d8f37be998e4d019f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:11 +0000
Subject: [PATCH 12/75] fix: log properties are written to XES as key and value
 with their type

---
 src/python/ficus/legacy/log/functions.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/python/ficus/legacy/log/functions.py b/src/python/ficus/legacy/log/functions.py
index 9eb4de9..4977fc0 100644
--- a/src/python/ficus/legacy/log/functions.py
+++ b/src/python/ficus/legacy/log/functions.py
@@ -237,9 +237,10 @@ def serialize_log_to_xes(log: MyEventLog) -> str:
         log_element.append(classifier_element)
 
     for key, value in log.properties.items():
-        property_element = ET.Element(const_tag_string)
-        property_element.attrib[key] = value
-        log_element.append(property_element)
+        if not _should_serialize_payload_key_value(key, value):
+            continue
+
+        log_element.append(_create_value_tag(key, value))
 
     for scope_name, scope_default_values in log.global_values.items():
         global_scope_element = ET.Element(const_tag_global)
-- 
2.43.0


From fef677724484d6726ca514911777aa26eb601d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:11 +0000
Subject: [PATCH 13/75] fix: global defaults read from XES have the type of
 their tag

---
 src/python/ficus/legacy/log/functions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/ficus/legacy/log/functions.py b/src/python/ficus/legacy/log/functions.py
index 4977fc0..31aa40f 100644
--- a/src/python/ficus/legacy/log/functions.py
+++ b/src/python/ficus/legacy/log/functions.py
@@ -81,7 +81,8 @@ def read_log_from_xes(path: str) -> MyEventLog:
 
             for global_child in child:
                 attrs = global_child.attrib
-                log.global_values[scope][attrs[const_attr_key]] = attrs[const_attr_value]
+                value = _parse_value_tag(global_child) if _is_value_tag(global_child) else attrs[const_attr_value]
+                log.global_values[scope][attrs[const_attr_key]] = value
 
             continue
 
-- 
2.43.0


From f2d7d7f2030a4dbc45d44d664970287cccf75ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:11 +0000
Subject: [PATCH 14/75] fix: global defaults without XES representation are
 left out instead of failing

---
 src/python/ficus/legacy/log/functions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/python/ficus/legacy/log/functions.py b/src/python/ficus/legacy/log/functions.py
index 31aa40f..b77c865 100644
--- a/src/python/ficus/legacy/log/functions.py
+++ b/src/python/ficus/legacy/log/functions.py
@@ -247,6 +247,9 @@ def serialize_log_to_xes(log: MyEventLog) -> str:
         global_scope_element = ET.Element(const_tag_global)
         global_scope_element.attrib[const_scope] = scope_name
         for name, value in scope_default_values.items():
+            if not _should_serialize_payload_key_value(name, value):
+                continue
+
             global_scope_element.append(_create_value_tag(name, value))
 
         log_element.append(global_scope_element)
-- 
2.43.0


From 94aca954510b2f5b28cb6e273119aa17222887b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:11 +0000
Subject: [PATCH 15/75] fix: a value equal to a global default of another type
 is written to XES

---
 src/python/ficus/legacy/log/functions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/ficus/legacy/log/functions.py b/src/python/ficus/legacy/log/functions.py
index b77c865..ac42396 100644
--- a/src/python/ficus/legacy/log/functions.py
+++ b/src/python/ficus/legacy/log/functions.py
@@ -298,7 +298,8 @@ def _check_if_default_value(log: MyEventLog,
     if key not in defaults[entity_name]:
         return False
 
-    return defaults[entity_name][key] == value
+    default_value = defaults[entity_name][key]
+    return type(default_value) is type(value) and default_value == value
 
 
 def save_event_log_to_xes(log: MyEventLog, save_path: str):
-- 
2.43.0


From c0de84c6cd596dc9852bd8354260315e1ee74f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:11 +0000
Subject: [PATCH 16/75] fix: XES files can be saved into the current directory
 and are always UTF-8

---
 src/python/ficus/legacy/log/functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/ficus/legacy/log/functions.py b/src/python/ficus/legacy/log/functions.py
index ac42396..f3de40c 100644
--- a/src/python/ficus/legacy/log/functions.py
+++ b/src/python/ficus/legacy/log/functions.py
@@ -304,8 +304,8 @@ def _check_if_default_value(log: MyEventLog,
 
 def save_event_log_to_xes(log: MyEventLog, save_path: str):
     log_xes_string = serialize_log_to_xes(log)
-    os.makedirs(os.path.dirname(save_path), exist_ok=True)
-    with open(save_path, 'w') as fout:
+    os.makedirs(os.path.dirname(os.path.abspath(save_path)), exist_ok=True)
+    with open(save_path, 'w', encoding='utf-8') as fout:
         fout.write(log_xes_string)
 
 
-- 
2.43.0


From 0d4245277ab806c805da417094aec8a39246e75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:08 +0000
Subject: [PATCH 17/75] fix: copies of traces keep the trace attributes

---
 src/python/ficus/legacy/log/event_log.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/ficus/legacy/log/event_log.py b/src/python/ficus/legacy/log/event_log.py
index 574d755..a932391 100644
--- a/src/python/ficus/legacy/log/event_log.py
+++ b/src/python/ficus/legacy/log/event_log.py
@@ -79,10 +79,10 @@ class MyTrace(MyEventsSequence):
         self.attributes = attributes if attributes is not None else {}
 
     def __copy__(self):
-        return MyTrace(copy.copy(self.raw_events))
+        return MyTrace(copy.copy(self.raw_events), dict(self.attributes))
 
     def __deepcopy__(self, memodict={}):
-        return MyTrace(copy.deepcopy(self.raw_events))
+        return MyTrace(copy.deepcopy(self.raw_events), deep_copy_dict(self.attributes))
 
 
 class MyEventLog(Sequence):
-- 
2.43.0


From 792c91759c1f5390a3bce497f5f8a6eb5f84aef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:08 +0000
Subject: [PATCH 18/75] fix: copies of logs keep the global values

---
 src/python/ficus/legacy/log/event_log.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/python/ficus/legacy/log/event_log.py b/src/python/ficus/legacy/log/event_log.py
index a932391..e7c1e9a 100644
--- a/src/python/ficus/legacy/log/event_log.py
+++ b/src/python/ficus/legacy/log/event_log.py
@@ -131,11 +131,13 @@ class MyEventLog(Sequence):
                           attributes=dict(self.attributes),
                           extensions=dict(self.extensions),
                           classifiers=dict(self.classifiers),
-                          properties=dict(self.properties))
+                          properties=dict(self.properties),
+                          global_values=dict(self.global_values))
 
     def __deepcopy__(self, memodict={}):
         return MyEventLog(traces=[copy.deepcopy(trace) for trace in self.traces],
                           attributes=deep_copy_dict(self.attributes),
                           extensions=deep_copy_dict(self.extensions),
                           classifiers=deep_copy_dict(self.classifiers),
-                          properties=deep_copy_dict(self.properties))
+                          properties=deep_copy_dict(self.properties),
+                          global_values=deep_copy_dict(self.global_values))
-- 
2.43.0


From 826f5b29e7c7c0d00c50b1fcc1d8d0f412f7df75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:08 +0000
Subject: [PATCH 19/75] fix: conversion to a pm4py log keeps trace attributes
 and log level information

---
 src/python/ficus/legacy/log/pm4py_converters.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/python/ficus/legacy/log/pm4py_converters.py b/src/python/ficus/legacy/log/pm4py_converters.py
index 137f920..cbe04a5 100644
--- a/src/python/ficus/legacy/log/pm4py_converters.py
+++ b/src/python/ficus/legacy/log/pm4py_converters.py
@@ -37,9 +37,14 @@ def my_event_to_pm4py_event(my_event: MyEvent):
 
 
 def to_pm4py_log(my_log: MyEventLog) -> EventLog:
-    log = EventLog()
+    log = EventLog(attributes=copy.deepcopy(my_log.attributes),
+                   extensions=copy.deepcopy(my_log.extensions),
+                   classifiers=copy.deepcopy(my_log.classifiers),
+                   omni_present=copy.deepcopy(my_log.global_values),
+                   properties=copy.deepcopy(my_log.properties))
+
     for my_trace in my_log:
-        trace = Trace()
+        trace = Trace(attributes=copy.deepcopy(my_trace.attributes))
         for my_event in my_trace:
             trace.append(my_event_to_pm4py_event(my_event))
 
-- 
2.43.0


From ada3ee63f3193d5f1482be7064bc4dd260ca139c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:54 +0000
Subject: [PATCH 20/75] fix: executing a remote pipeline does not change the
 context of the caller

---
 src/python/ficus/grpc_pipelines/grpc_pipelines.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/python/ficus/grpc_pipelines/grpc_pipelines.py b/src/python/ficus/grpc_pipelines/grpc_pipelines.py
index 1b267ca..9bda614 100644
--- a/src/python/ficus/grpc_pipelines/grpc_pipelines.py
+++ b/src/python/ficus/grpc_pipelines/grpc_pipelines.py
@@ -28,9 +28,8 @@ class Pipeline2:
         options = [('grpc.max_send_message_length', 512 * 1024 * 1024),
                    ('grpc.max_receive_message_length', 512 * 1024 * 1024)]
 
-        addr = initial_context[ficus_backend_addr_key] if ficus_backend_addr_key in initial_context else 'localhost:8080'
-        if ficus_backend_addr_key in initial_context:
-            del initial_context[ficus_backend_addr_key]
+        initial_context = dict(initial_context)
+        addr = initial_context.pop(ficus_backend_addr_key, 'localhost:8080')
 
         with grpc.insecure_channel(addr, options=options) as channel:
             stub = GrpcBackendServiceStub(channel)
-- 
2.43.0


From 832b65f045e9bd6a2f7268f4534c3a2473657471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:54 +0000
Subject: [PATCH 21/75] fix: PrintEventlogInfoBeforeAfter can be sent and
 receives its results

---
 src/python/ficus/grpc_pipelines/util_parts.py | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/python/ficus/grpc_pipelines/util_parts.py b/src/python/ficus/grpc_pipelines/util_parts.py
index f90addb..06d4746 100644
--- a/src/python/ficus/grpc_pipelines/util_parts.py
+++ b/src/python/ficus/grpc_pipelines/util_parts.py
@@ -1,5 +1,5 @@
 from .constants import const_use_names_event_log, const_names_event_log, const_get_names_event_log, \
-    const_pipeline
+    const_pipeline, const_execute_frontend_part
 from .grpc_pipelines import PipelinePart2, _create_default_pipeline_part, PipelinePart2WithCallback, \
     _create_complex_get_context_part, Pipeline2, append_pipeline_value, PrintEventLogInfo2
 from .models.pipelines_and_context_pb2 import GrpcPipelinePartBase, GrpcPipelinePartConfiguration, \
@@ -26,19 +26,19 @@ class PrintEventlogInfoBeforeAfter(PipelinePart2):
     def __init__(self, inner_pipeline: Pipeline2):
         super().__init__()
         self.inner_pipeline = inner_pipeline
+        self.before_part = PrintEventLogInfo2()
+        self.after_part = PrintEventLogInfo2()
 
     def to_grpc_part(self) -> GrpcPipelinePartBase:
         config = GrpcPipelinePartConfiguration()
 
-        pipeline = Pipeline2(
-            PrintEventLogInfo2(),
-        )
+        append_pipeline_value(config, const_pipeline, self._create_pipeline())
 
-        for part in self.inner_pipeline.parts:
-            pipeline.parts.append(part)
+        return GrpcPipelinePartBase(defaultPart=_create_default_pipeline_part(const_execute_frontend_part, config))
 
-        pipeline.parts.append(PrintEventLogInfo2())
+    def append_parts_with_callbacks(self, parts: list['PipelinePart2WithCallback']):
+        super().append_parts_with_callbacks(parts)
+        self._create_pipeline().append_parts_with_callbacks(parts)
 
-        append_pipeline_value(config, const_pipeline, pipeline)
-
-        return GrpcPipelinePartBase(defaultPart=_create_default_pipeline_part())
+    def _create_pipeline(self) -> Pipeline2:
+        return Pipeline2(self.before_part, *self.inner_pipeline.parts, self.after_part)
-- 
2.43.0


From 3ecb05efc6dfc6607904eda810b26b8201393647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:11 +0000
Subject: [PATCH 22/75] fix: DiscoverActivitiesUntilNoMore2 sends the maximal
 length of tandem arrays

---
 src/python/ficus/grpc_pipelines/activities_parts.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/python/ficus/grpc_pipelines/activities_parts.py b/src/python/ficus/grpc_pipelines/activities_parts.py
index bfcde4f..f2079ed 100644
--- a/src/python/ficus/grpc_pipelines/activities_parts.py
+++ b/src/python/ficus/grpc_pipelines/activities_parts.py
@@ -180,6 +180,7 @@ class DiscoverActivitiesUntilNoMore2(PipelinePart2):
         append_undef_activity_handling_strat(config, const_undef_activity_handling_strategy, self.undef_strategy)
         append_activity_filter_kind(config, const_activity_filter_kind, self.activity_filter_kind)
         append_bool_value(config, const_execute_only_on_last_extraction, self.execute_only_on_last_extraction)
+        append_uint32_value(config, const_tandem_array_length, self.max_array_length)
 
         if self.event_class is not None:
             append_string_value(config, const_event_class_regex, self.event_class)
-- 
2.43.0


From c80bde3431601d003b0eb006bf83bc18451ebf99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:11 +0000
Subject: [PATCH 23/75] fix: log information in the initial context is sent as
 a context value

---
 src/python/ficus/grpc_pipelines/context_values.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/python/ficus/grpc_pipelines/context_values.py b/src/python/ficus/grpc_pipelines/context_values.py
index 7961876..f9dbca8 100644
--- a/src/python/ficus/grpc_pipelines/context_values.py
+++ b/src/python/ficus/grpc_pipelines/context_values.py
@@ -120,9 +120,9 @@ class EventLogInfo(ContextValue):
     traces_count: int
 
     def to_grpc_context_value(self) -> GrpcContextValue:
-        return GrpcEventLogInfo(events_count=self.events_count,
-                                traces_count=self.traces_count,
-                                event_classes_count=self.event_classes_count)
+        return GrpcContextValue(event_log_info=GrpcEventLogInfo(events_count=self.events_count,
+                                                                traces_count=self.traces_count,
+                                                                event_classes_count=self.event_classes_count))
 
 
 def from_grpc_colors_log(grpc_colors_log: GrpcColorsEventLog) -> list[list[ColoredRectangle]]:
-- 
2.43.0


From b97227a2d6d7cf0038808561fe76968fb402853a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:28 +0000
Subject: [PATCH 24/75] fix: a net without a marking is decoded as a net
 without a marking

---
 src/python/ficus/grpc_pipelines/context_values.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/python/ficus/grpc_pipelines/context_values.py b/src/python/ficus/grpc_pipelines/context_values.py
index f9dbca8..f0e5cde 100644
--- a/src/python/ficus/grpc_pipelines/context_values.py
+++ b/src/python/ficus/grpc_pipelines/context_values.py
@@ -162,8 +162,11 @@ def from_grpc_petri_net(grpc_petri_net: GrpcPetriNet) -> 'PetriNet':
         transition = from_grpc_transition(grpc_transition)
         petri_net.transitions[transition.id] = transition
 
-    petri_net.initial_marking = try_from_grpc_marking(grpc_petri_net.initial_marking)
-    petri_net.final_marking = try_from_grpc_marking(grpc_petri_net.final_marking)
+    if grpc_petri_net.HasField('initial_marking'):
+        petri_net.initial_marking = try_from_grpc_marking(grpc_petri_net.initial_marking)
+
+    if grpc_petri_net.HasField('final_marking'):
+        petri_net.final_marking = try_from_grpc_marking(grpc_petri_net.final_marking)
 
     return petri_net
 
-- 
2.43.0


From 67723db6e43418a60509bf37e01198f06edfcd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:28 +0000
Subject: [PATCH 25/75] fix: a colored log without traces can be drawn on a
 canvas

---
 src/python/ficus/legacy/analysis/event_log_analysis_canvas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/ficus/legacy/analysis/event_log_analysis_canvas.py b/src/python/ficus/legacy/analysis/event_log_analysis_canvas.py
index c25928a..1968e39 100644
--- a/src/python/ficus/legacy/analysis/event_log_analysis_canvas.py
+++ b/src/python/ficus/legacy/analysis/event_log_analysis_canvas.py
@@ -59,7 +59,7 @@ def draw_colors_event_log_canvas(log: list[list[ColoredRectangle]],
 
 
 def _calculate_canvas_width(log: list[list[ColoredRectangle]]):
-    return max(map(lambda t: sum(map(lambda r: r.length, t)), log))
+    return max(map(lambda t: sum(map(lambda r: r.length, t)), log), default=0)
 
 
 def _draw_actual_traces_diversity_diagram(log: list[list[ColoredRectangle]],
-- 
2.43.0


From ee9f9e89d732b4bce0cc289a13de5c104d6e0f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:28 +0000
Subject: [PATCH 26/75] fix: a log without traces can be drawn

---
 src/python/ficus/legacy/analysis/event_log_analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/ficus/legacy/analysis/event_log_analysis.py b/src/python/ficus/legacy/analysis/event_log_analysis.py
index 67be375..d4a8969 100644
--- a/src/python/ficus/legacy/analysis/event_log_analysis.py
+++ b/src/python/ficus/legacy/analysis/event_log_analysis.py
@@ -153,9 +153,9 @@ def _draw_traces_diversity_like_diagram_internal(log: Union[MyEventLog, list[lis
     ax.set_yticks(range(y_ticks_count))
 
     if isinstance(log, MyEventLog):
-        x_ticks_count = max([len(t) for t in log]) * width_scale + 1
+        x_ticks_count = max([len(t) for t in log], default=0) * width_scale + 1
     elif isinstance(log, list):
-        x_ticks_count = 0
+        x_ticks_count = 1
         for trace in log:
             trace_len = width_scale
             for colored_rect in trace:
-- 
2.43.0


From 844e92e4ccba7b247939981cc3ac3622d47b4e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:28 +0000
Subject: [PATCH 27/75] fix: names of transitions, places, nodes and edges are
 drawn as they are

---
 src/python/ficus/legacy/discovery/graph.py     | 6 ++++--
 src/python/ficus/legacy/discovery/petri_net.py | 5 +++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/python/ficus/legacy/discovery/graph.py b/src/python/ficus/legacy/discovery/graph.py
index 1a246d0..f7b8a65 100644
--- a/src/python/ficus/legacy/discovery/graph.py
+++ b/src/python/ficus/legacy/discovery/graph.py
@@ -29,10 +29,12 @@ def draw_graph(graph: Graph,
                rankdir: str = 'LR'):
     def draw_func(g: graphviz.Digraph):
         for node in graph.nodes:
-            g.node(str(node.id), label=node.data, style='filled', border='1', shape='circle')
+            label = graphviz.escape(node.data) if node.data is not None else None
+            g.node(str(node.id), label=label, style='filled', border='1', shape='circle')
 
         for edge in graph.edges:
-            g.edge(str(edge.from_node), str(edge.to_node), edge.data)
+            label = graphviz.escape(edge.data) if edge.data is not None else None
+            g.edge(str(edge.from_node), str(edge.to_node), label)
 
     _draw_graph_like_formalism(draw_func,
                                name=name,
diff --git a/src/python/ficus/legacy/discovery/petri_net.py b/src/python/ficus/legacy/discovery/petri_net.py
index f732f2d..a6b3236 100644
--- a/src/python/ficus/legacy/discovery/petri_net.py
+++ b/src/python/ficus/legacy/discovery/petri_net.py
@@ -102,11 +102,12 @@ def draw_petri_net(net: PetriNet,
             elif place.id in final_marking_places:
                 g.node(str(place.id), '<&#9679;>', style='filled', border='1', shape='doublecircle')
             else:
-                label = place.name if show_places_names else ''
+                label = graphviz.escape(place.name) if show_places_names else ''
                 g.node(str(place.id), label=label, style='filled', border='1', shape='circle')
 
         for transition in net.transitions.values():
-            g.node(str(transition.id), label=transition.data, shape='box')
+            label = graphviz.escape(transition.data) if transition.data is not None else None
+            g.node(str(transition.id), label=label, shape='box')
 
         for transition in net.transitions.values():
             for arc in transition.incoming_arcs:
-- 
2.43.0


From 180fc4cf07cbd686e7a9d0a3bd6a2cca67dc7434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:37 +0000
Subject: [PATCH 28/75] fix: black is never given to a class or an activity

---
 src/python/ficus/legacy/analysis/event_log_analysis.py | 3 +--
 src/python/ficus/legacy/util.py                        | 8 ++++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/python/ficus/legacy/analysis/event_log_analysis.py b/src/python/ficus/legacy/analysis/event_log_analysis.py
index d4a8969..ad3b305 100644
--- a/src/python/ficus/legacy/analysis/event_log_analysis.py
+++ b/src/python/ficus/legacy/analysis/event_log_analysis.py
@@ -304,8 +304,7 @@ def draw_placements_of_events(log: MyEventLog,
                               height_scale: int = 1,
                               plot_legend: bool = True):
     colors_provider = random_unique_color_provider_instance
-    colors_provider.used_colors.add((0, 0, 0))
-    default_color = '#000000'
+    default_color = black_color
 
     def generate_color(name: str) -> str:
         if events_predicate(name):
diff --git a/src/python/ficus/legacy/util.py b/src/python/ficus/legacy/util.py
index 5cb0bda..1cbe205 100644
--- a/src/python/ficus/legacy/util.py
+++ b/src/python/ficus/legacy/util.py
@@ -79,16 +79,20 @@ class ColorsProvider:
         raise NotImplementedError()
 
 
+# the color of unattached and unselected parts of diagrams
+black_color = '#000000'
+
+
 class RandomUniqueColorsProvider(ColorsProvider):
     def __init__(self):
         self.used_colors = set()
 
     def next(self) -> (int, int, int):
-        if len(self.used_colors) == 256 ** 3:
+        if len(self.used_colors) == 256 ** 3 - 1:
             raise OverflowError()
 
         color = _generate_random_color()
-        while color in self.used_colors:
+        while color in self.used_colors or color == black_color:
             color = _generate_random_color()
 
         self.used_colors.add(color)
-- 
2.43.0


From 5417b7e600711d6f326582ff61ec5c0718d3a357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:37 +0000
Subject: [PATCH 29/75] fix: a new color differs from the colors that are in
 the context

---
 .../ficus/legacy/analysis/event_log_analysis.py     | 13 +++----------
 .../legacy/analysis/patterns/patterns_graphs.py     |  8 ++------
 src/python/ficus/legacy/util.py                     | 11 +++++++++++
 3 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/python/ficus/legacy/analysis/event_log_analysis.py b/src/python/ficus/legacy/analysis/event_log_analysis.py
index ad3b305..2568f2f 100644
--- a/src/python/ficus/legacy/analysis/event_log_analysis.py
+++ b/src/python/ficus/legacy/analysis/event_log_analysis.py
@@ -195,10 +195,8 @@ def _draw_traces_diversity_like_diagram(log: MyEventLog,
                                         width_scale: int = 1,
                                         colors_provider: Callable[[str], str] = None):
     if colors_provider is None:
-        colors = random_unique_color_provider_instance
-
-        def generate_color(_: str):
-            return colors.next()
+        def generate_color(name: str):
+            return get_or_create_color(cached_colors, name)
 
         colors_provider = generate_color
 
@@ -303,16 +301,11 @@ def draw_placements_of_events(log: MyEventLog,
                               save_path: str = None,
                               height_scale: int = 1,
                               plot_legend: bool = True):
-    colors_provider = random_unique_color_provider_instance
     default_color = black_color
 
     def generate_color(name: str) -> str:
         if events_predicate(name):
-            if name in cached_colors:
-                return cached_colors[name]
-
-            cached_colors[name] = colors_provider.next()
-            return cached_colors[name]
+            return get_or_create_color(cached_colors, name)
 
         return default_color
 
diff --git a/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py b/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
index ccc894f..4dda28b 100644
--- a/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
+++ b/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
@@ -13,7 +13,7 @@ from ..common.common_models import GraphNode, SubArrayInEventLog
 from ..event_log_analysis import TraceDiversityLikeDiagramContext, _draw_traces_diversity_like_diagram_internal
 from ...analysis.patterns.patterns_models import ActivityInTraceInfo, ActivityNode, EventClassNode
 from ...log.event_log import MyEventLog
-from ...util import to_hex, calculate_poly_hash_for_collection, SingleColorProvider, \
+from ...util import to_hex, calculate_poly_hash_for_collection, SingleColorProvider, get_or_create_color, \
     random_unique_color_provider_instance
 
 
@@ -85,8 +85,6 @@ def _sub_traces_draw_func(ctx: TraceDiversityLikeDiagramContext,
                           cached_colors: dict[str, str],
                           activities: list[list[SubTraceDrawingDto]],
                           draw_short_diagram: bool):
-    real_colors_provider = random_unique_color_provider_instance
-
     def colors_provider(name: str):
         if name in cached_colors:
             return cached_colors[name]
@@ -94,9 +92,7 @@ def _sub_traces_draw_func(ctx: TraceDiversityLikeDiagramContext,
         if name == undefined_activity:
             return to_hex((0, 0, 0))
 
-        generated_color = real_colors_provider.next()
-        cached_colors[name] = generated_color
-        return generated_color
+        return get_or_create_color(cached_colors, name)
 
     current_y = 0
     activities_colors = dict()
diff --git a/src/python/ficus/legacy/util.py b/src/python/ficus/legacy/util.py
index 1cbe205..16dde24 100644
--- a/src/python/ficus/legacy/util.py
+++ b/src/python/ficus/legacy/util.py
@@ -105,6 +105,17 @@ class RandomUniqueColorsProvider(ColorsProvider):
 random_unique_color_provider_instance = RandomUniqueColorsProvider()
 
 
+def get_or_create_color(cached_colors: dict[str, str], name: str) -> str:
+    if name not in cached_colors:
+        color = random_unique_color_provider_instance.next()
+        while color in cached_colors.values():
+            color = random_unique_color_provider_instance.next()
+
+        cached_colors[name] = color
+
+    return cached_colors[name]
+
+
 class SingleColorProvider(ColorsProvider):
     def __init__(self):
         self.provider = random_unique_color_provider_instance
-- 
2.43.0


From 630384bf6ecd0d0835a876f953c94430efc2133a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:37 +0000
Subject: [PATCH 30/75] fix: copies of a context share its colors

---
 src/python/ficus/legacy/pipelines/contexts/part_results.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/python/ficus/legacy/pipelines/contexts/part_results.py b/src/python/ficus/legacy/pipelines/contexts/part_results.py
index 220bd1a..a4a1c10 100644
--- a/src/python/ficus/legacy/pipelines/contexts/part_results.py
+++ b/src/python/ficus/legacy/pipelines/contexts/part_results.py
@@ -139,6 +139,8 @@ class PipelinePartResult:
         return self.get_value_or_throw(cached_colors_key)
 
     def __copy__(self):
+        # colors should be the same in all diagrams of an execution, so they are shared even if nothing was drawn yet
+        self.__cached_colors__()
         new_obj = PipelinePartResult()
         new_obj.values = dict(self.values)
         return new_obj
-- 
2.43.0


From 71b164804b9fa6403e3366371c7daa89b3d6cc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:37 +0000
Subject: [PATCH 31/75] fix: activities with different names are drawn in
 different colors

---
 .../ficus/legacy/analysis/patterns/patterns_graphs.py       | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py b/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
index 4dda28b..e3d6632 100644
--- a/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
+++ b/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
@@ -95,7 +95,6 @@ def _sub_traces_draw_func(ctx: TraceDiversityLikeDiagramContext,
         return get_or_create_color(cached_colors, name)
 
     current_y = 0
-    activities_colors = dict()
 
     for trace_activities, real_trace in zip(activities, log):
         if len(trace_activities) == 0:
@@ -125,14 +124,11 @@ def _sub_traces_draw_func(ctx: TraceDiversityLikeDiagramContext,
 
 
                 activity_name = dto.name
-                if dto.hash not in activities_colors:
-                    activities_colors[dto.hash] = colors_provider(activity_name)
-
                 activity_x_width = ctx.rect_width
                 if not draw_short_diagram:
                     activity_x_width *= dto.length
 
-                color = activities_colors[dto.hash]
+                color = colors_provider(activity_name)
                 rect = plt.Rectangle((current_x, current_y), activity_x_width, ctx.rect_height, fc=color)
                 ctx.names_to_rects[activity_name] = rect
                 patches.append(rect)
-- 
2.43.0


From c2554aa5c5cc5a5e647557e02bc147e19880a6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:37 +0000
Subject: [PATCH 32/75] fix: gaps between activities are black even if there
 are events with their name

---
 src/python/ficus/legacy/analysis/patterns/patterns_graphs.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py b/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
index e3d6632..c9e4977 100644
--- a/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
+++ b/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
@@ -86,9 +86,6 @@ def _sub_traces_draw_func(ctx: TraceDiversityLikeDiagramContext,
                           activities: list[list[SubTraceDrawingDto]],
                           draw_short_diagram: bool):
     def colors_provider(name: str):
-        if name in cached_colors:
-            return cached_colors[name]
-
         if name == undefined_activity:
             return to_hex((0, 0, 0))
 
-- 
2.43.0


From 55c51ce8424fea6b1534973e89254c0c7eca0006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:37 +0000
Subject: [PATCH 33/75] fix: the legend names the gap at the end of a trace

---
 src/python/ficus/legacy/analysis/patterns/patterns_graphs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py b/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
index c9e4977..3bb38ed 100644
--- a/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
+++ b/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
@@ -139,6 +139,7 @@ def _sub_traces_draw_func(ctx: TraceDiversityLikeDiagramContext,
 
                 rect = plt.Rectangle((current_x, current_y), width, ctx.rect_height,
                                      fc=colors_provider(undefined_activity))
+                ctx.names_to_rects[undefined_activity] = rect
                 patches.append(rect)
 
             ctx.drawer.add_collection(PatchCollection(patches, match_original=True))
-- 
2.43.0


From 9c5004f0737cd8c3e572fe51a42a953372cc21cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:37 +0000
Subject: [PATCH 34/75] fix: nothing is drawn for a trace without events

---
 src/python/ficus/legacy/analysis/patterns/patterns_graphs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py b/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
index 3bb38ed..6f7a2fc 100644
--- a/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
+++ b/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
@@ -94,7 +94,9 @@ def _sub_traces_draw_func(ctx: TraceDiversityLikeDiagramContext,
     current_y = 0
 
     for trace_activities, real_trace in zip(activities, log):
-        if len(trace_activities) == 0:
+        if len(real_trace) == 0:
+            pass
+        elif len(trace_activities) == 0:
             width = ctx.rect_width
             if not draw_short_diagram:
                 width *= len(real_trace)
-- 
2.43.0


From 791dd0357c2d87412c1e5bee82559f1bdaa9831d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:37 +0000
Subject: [PATCH 35/75] fix: the gap at the end of a trace has its width in the
 diagram of a single activity

---
 src/python/ficus/legacy/analysis/patterns/patterns_graphs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py b/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
index 6f7a2fc..9a0827a 100644
--- a/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
+++ b/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
@@ -266,7 +266,7 @@ def draw_activity_placement_diagram(log: MyEventLog,
                     current_x += width
 
             if last_draw_index < len(trace):
-                width = len(trace) - last_draw_index
+                width = (len(trace) - last_draw_index) * ctx.rect_width
                 rect = plt.Rectangle((current_x, current_y), width, ctx.rect_height, fc=undefined_color)
                 ctx.names_to_rects[undefined_activity_name] = rect
                 patches.append(rect)
-- 
2.43.0


From 3dee53aa5d99c27d2e354a2ef51c488ec91c48eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:37 +0000
Subject: [PATCH 36/75] fix: the diagram of a single activity uses and keeps
 the colors of the execution

---
 .../analysis/patterns/patterns_graphs.py      | 20 ++++++++++++++-----
 .../analysis/patterns/patterns_parts.py       |  3 ++-
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py b/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
index 9a0827a..7dc2101 100644
--- a/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
+++ b/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
@@ -13,8 +13,7 @@ from ..common.common_models import GraphNode, SubArrayInEventLog
 from ..event_log_analysis import TraceDiversityLikeDiagramContext, _draw_traces_diversity_like_diagram_internal
 from ...analysis.patterns.patterns_models import ActivityInTraceInfo, ActivityNode, EventClassNode
 from ...log.event_log import MyEventLog
-from ...util import to_hex, calculate_poly_hash_for_collection, SingleColorProvider, get_or_create_color, \
-    random_unique_color_provider_instance
+from ...util import to_hex, calculate_poly_hash_for_collection, get_or_create_color, RandomUniqueColorsProvider
 
 
 def draw_full_activity_diagram(log: MyEventLog,
@@ -236,9 +235,20 @@ def draw_activity_placement_diagram(log: MyEventLog,
                                     plot_legend: bool = False,
                                     title: str = None,
                                     height_scale: int = 1,
-                                    save_path: str = None):
+                                    save_path: str = None,
+                                    cached_colors: Optional[dict[str, str]] = None):
+    cached_colors = dict() if cached_colors is None else cached_colors
+
     def draw_func(ctx: TraceDiversityLikeDiagramContext):
-        color_provider = random_unique_color_provider_instance if use_different_colors else SingleColorProvider()
+        # the colors only distinguish occurrences of the activity in a trace
+        color_provider = RandomUniqueColorsProvider()
+
+        def next_color():
+            if use_different_colors:
+                return color_provider.next()
+
+            return get_or_create_color(cached_colors, activity_node.name)
+
         undefined_color = to_hex((0, 0, 0))
         current_y = 0
         undefined_activity_name = 'UndefinedActivity'
@@ -259,7 +269,7 @@ def draw_activity_placement_diagram(log: MyEventLog,
                         current_x += width
 
                     width = activity.length * ctx.rect_width
-                    rect = plt.Rectangle((current_x, current_y), width, ctx.rect_height, fc=color_provider.next())
+                    rect = plt.Rectangle((current_x, current_y), width, ctx.rect_height, fc=next_color())
                     ctx.names_to_rects[activity.node.name] = rect
                     patches.append(rect)
                     last_draw_index += activity.length
diff --git a/src/python/ficus/legacy/pipelines/analysis/patterns/patterns_parts.py b/src/python/ficus/legacy/pipelines/analysis/patterns/patterns_parts.py
index 9930dd9..9fafbea 100644
--- a/src/python/ficus/legacy/pipelines/analysis/patterns/patterns_parts.py
+++ b/src/python/ficus/legacy/pipelines/analysis/patterns/patterns_parts.py
@@ -363,7 +363,8 @@ class DrawSingleActivityPlacement(InternalDrawingPipelinePart):
                                         plot_legend=self.plot_legend,
                                         height_scale=self.height_scale,
                                         title=self.title,
-                                        save_path=self._get_save_path(current_input))
+                                        save_path=self._get_save_path(current_input),
+                                        cached_colors=cached_colors(current_input))
 
         return current_input
 
-- 
2.43.0


From 08767b44964256b67ba05a85c2c56b5a585b2112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:37 +0000
Subject: [PATCH 37/75] fix: diagrams of events and of a single activity are
 scaled in width as requested

---
 src/python/ficus/legacy/analysis/event_log_analysis.py      | 4 +++-
 .../ficus/legacy/analysis/patterns/patterns_graphs.py       | 6 ++++--
 .../ficus/legacy/pipelines/analysis/analysis_parts.py       | 3 ++-
 .../legacy/pipelines/analysis/patterns/patterns_parts.py    | 3 ++-
 4 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/python/ficus/legacy/analysis/event_log_analysis.py b/src/python/ficus/legacy/analysis/event_log_analysis.py
index 2568f2f..f160781 100644
--- a/src/python/ficus/legacy/analysis/event_log_analysis.py
+++ b/src/python/ficus/legacy/analysis/event_log_analysis.py
@@ -300,7 +300,8 @@ def draw_placements_of_events(log: MyEventLog,
                               title: str = None,
                               save_path: str = None,
                               height_scale: int = 1,
-                              plot_legend: bool = True):
+                              plot_legend: bool = True,
+                              width_scale: int = 1):
     default_color = black_color
 
     def generate_color(name: str) -> str:
@@ -315,6 +316,7 @@ def draw_placements_of_events(log: MyEventLog,
                                         save_path=save_path,
                                         plot_legend=plot_legend,
                                         height_scale=height_scale,
+                                        width_scale=width_scale,
                                         colors_provider=generate_color)
 
 
diff --git a/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py b/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
index 7dc2101..bbbdec0 100644
--- a/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
+++ b/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
@@ -236,7 +236,8 @@ def draw_activity_placement_diagram(log: MyEventLog,
                                     title: str = None,
                                     height_scale: int = 1,
                                     save_path: str = None,
-                                    cached_colors: Optional[dict[str, str]] = None):
+                                    cached_colors: Optional[dict[str, str]] = None,
+                                    width_scale: int = 1):
     cached_colors = dict() if cached_colors is None else cached_colors
 
     def draw_func(ctx: TraceDiversityLikeDiagramContext):
@@ -290,7 +291,8 @@ def draw_activity_placement_diagram(log: MyEventLog,
                                                  plot_legend=plot_legend,
                                                  height_scale=height_scale,
                                                  title=title,
-                                                 save_path=save_path)
+                                                 save_path=save_path,
+                                                 width_scale=width_scale)
 
 
 def draw_event_class_tree(nodes: list[EventClassNode],
diff --git a/src/python/ficus/legacy/pipelines/analysis/analysis_parts.py b/src/python/ficus/legacy/pipelines/analysis/analysis_parts.py
index 2203601..c4c101e 100644
--- a/src/python/ficus/legacy/pipelines/analysis/analysis_parts.py
+++ b/src/python/ficus/legacy/pipelines/analysis/analysis_parts.py
@@ -103,7 +103,8 @@ class DrawPlacementOfEvents(InternalDrawingPipelinePart):
                                   title=self.title,
                                   save_path=self._get_save_path(current_input),
                                   height_scale=self.height_scale,
-                                  plot_legend=self.plot_legend)
+                                  plot_legend=self.plot_legend,
+                                  width_scale=self.width_scale)
 
         return current_input
 
diff --git a/src/python/ficus/legacy/pipelines/analysis/patterns/patterns_parts.py b/src/python/ficus/legacy/pipelines/analysis/patterns/patterns_parts.py
index 9fafbea..ef93860 100644
--- a/src/python/ficus/legacy/pipelines/analysis/patterns/patterns_parts.py
+++ b/src/python/ficus/legacy/pipelines/analysis/patterns/patterns_parts.py
@@ -364,7 +364,8 @@ class DrawSingleActivityPlacement(InternalDrawingPipelinePart):
                                         height_scale=self.height_scale,
                                         title=self.title,
                                         save_path=self._get_save_path(current_input),
-                                        cached_colors=cached_colors(current_input))
+                                        cached_colors=cached_colors(current_input),
+                                        width_scale=self.width_scale)
 
         return current_input
 
-- 
2.43.0


From 41bf74c3e40e55b63fa7828ba8eb1ab489c1adba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:29 +0000
Subject: [PATCH 38/75] fix: occurrences of a pattern have one color and the
 legend tells which pattern it is

---
 .../ficus/legacy/analysis/patterns/patterns_graphs.py     | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py b/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
index bbbdec0..14e67df 100644
--- a/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
+++ b/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
@@ -13,7 +13,8 @@ from ..common.common_models import GraphNode, SubArrayInEventLog
 from ..event_log_analysis import TraceDiversityLikeDiagramContext, _draw_traces_diversity_like_diagram_internal
 from ...analysis.patterns.patterns_models import ActivityInTraceInfo, ActivityNode, EventClassNode
 from ...log.event_log import MyEventLog
-from ...util import to_hex, calculate_poly_hash_for_collection, get_or_create_color, RandomUniqueColorsProvider
+from ...util import to_hex, concept_name, calculate_poly_hash_for_collection, calculate_string_poly_hash, \
+    get_or_create_color, RandomUniqueColorsProvider
 
 
 def draw_full_activity_diagram(log: MyEventLog,
@@ -321,12 +322,13 @@ def draw_patterns(log: MyEventLog,
             trace_dtos = []
             for pattern in trace_patterns:
                 pattern_seq = trace[pattern.first_pos:(pattern.first_pos + pattern.length)]
-                pattern_hash = calculate_poly_hash_for_collection(pattern_seq)
+                pattern_names = [event[concept_name] for event in pattern_seq]
+                pattern_hash = calculate_poly_hash_for_collection(list(map(calculate_string_poly_hash, pattern_names)))
                 trace_dtos.append(SubTraceDrawingDto(
                     pattern.first_pos,
                     pattern.length,
                     pattern_hash,
-                    str(pattern_hash)
+                    activity_name_sep.join(pattern_names)
                 ))
 
             dtos.append(trace_dtos)
-- 
2.43.0


From 7206241403c155b763f15cee185e226be9603bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:25 +0000
Subject: [PATCH 39/75] fix: a node is part of a built graph wherever its name
 was seen before

---
 .../analysis/patterns/patterns_graphs.py       | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py b/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
index 14e67df..89155f5 100644
--- a/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
+++ b/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
@@ -203,21 +203,25 @@ def build_graph(nodes: list[GraphNode],
                 set_attributes_to_func: Callable[[graphviz.Digraph], None] = default_graph_attr_setter):
     graph = graphviz.Digraph(graph_name)
     added_names = set()
+    added_edges = set()
+    visited_nodes = set()
 
     def add_node(current_graph: graphviz.Digraph, parent_node: str, node: GraphNode):
         name = node_name_creator(node)
-        if name in added_names:
-            if parent_node is not None:
-                current_graph.edge(name, parent_node)
+        if parent_node is not None and (name, parent_node) not in added_edges:
+            added_edges.add((name, parent_node))
+            current_graph.edge(name, parent_node)
 
+        # different nodes can have the same name, every node has children of its own
+        if id(node) in visited_nodes:
             return
 
-        added_names.add(name)
+        visited_nodes.add(id(node))
 
-        if parent_node is not None:
-            current_graph.edge(name, parent_node)
+        if name not in added_names:
+            added_names.add(name)
+            current_graph.node(name)
 
-        current_graph.node(name)
         for child_activity in node.child_nodes:
             add_node(current_graph, name, child_activity)
 
-- 
2.43.0


From 883cdc9042d587ec42a75f4fd82ff6f0f7938701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:25 +0000
Subject: [PATCH 40/75] fix: edges of a built graph connect nodes with colons
 in their names

---
 src/python/ficus/legacy/analysis/patterns/patterns_graphs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py b/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
index 89155f5..4a70f1f 100644
--- a/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
+++ b/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
@@ -5,6 +5,7 @@ import graphviz
 from IPython.core.display import Image
 from IPython.core.display_functions import display
 from attr import dataclass
+from graphviz.quoting import quote
 from matplotlib import pyplot as plt
 from matplotlib.collections import PatchCollection
 
@@ -210,7 +211,8 @@ def build_graph(nodes: list[GraphNode],
         name = node_name_creator(node)
         if parent_node is not None and (name, parent_node) not in added_edges:
             added_edges.add((name, parent_node))
-            current_graph.edge(name, parent_node)
+            # edge() would take everything after a colon for a port
+            current_graph.body.append(f'\t{quote(name)} -> {quote(parent_node)}\n')
 
         # different nodes can have the same name, every node has children of its own
         if id(node) in visited_nodes:
-- 
2.43.0


From b97e75bda6aa0761b0586d3e8ea4109537af2a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:25 +0000
Subject: [PATCH 41/75] fix: the activity graph of a level without activities
 is empty

---
 .../legacy/pipelines/analysis/patterns/patterns_graph_parts.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/ficus/legacy/pipelines/analysis/patterns/patterns_graph_parts.py b/src/python/ficus/legacy/pipelines/analysis/patterns/patterns_graph_parts.py
index 156f880..b5e08e9 100644
--- a/src/python/ficus/legacy/pipelines/analysis/patterns/patterns_graph_parts.py
+++ b/src/python/ficus/legacy/pipelines/analysis/patterns/patterns_graph_parts.py
@@ -41,7 +41,7 @@ class BuildActivityGraph(InternalBuildGraphPart):
 
     def execute(self, current_input: PipelinePartResult) -> PipelinePartResult:
         current_activities = activities(current_input)
-        activities_for_level = split_activities_by_levels_dict(current_activities)[self.activity_level]
+        activities_for_level = split_activities_by_levels_dict(current_activities).get(self.activity_level, [])
         built_graph = build_graph(nodes=activities_for_level,
                                   graph_name=self.graph_name,
                                   add_root_node=self.add_root_node,
-- 
2.43.0


From 3cde67ddbe7536b764d383e5a2810e8486b08bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:25 +0000
Subject: [PATCH 42/75] fix: the derived information of a backend trace follows
 its edits

---
 .../src/event_log/core/event/events_holder.rs         | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/rust/ficus_backend/src/event_log/core/event/events_holder.rs b/src/rust/ficus_backend/src/event_log/core/event/events_holder.rs
index 59ac297..bc217d9 100644
--- a/src/rust/ficus_backend/src/event_log/core/event/events_holder.rs
+++ b/src/rust/ficus_backend/src/event_log/core/event/events_holder.rs
@@ -59,6 +59,7 @@ where
     }
 
     pub fn push(&mut self, event: Rc<RefCell<TEvent>>) {
+        self.drop_derived_info();
         self.events.push(event);
     }
 
@@ -66,6 +67,8 @@ where
     where
         TPred: Fn(&TEvent) -> bool,
     {
+        self.drop_derived_info();
+
         let events = &mut self.events;
         for index in (0..events.len()).rev() {
             if predicate(&events[index].borrow()) {
@@ -87,6 +90,8 @@ where
     where
         TMutator: Fn(&mut TEvent),
     {
+        self.drop_derived_info();
+
         for event in &self.events {
             mutator(&mut event.borrow_mut());
         }
@@ -109,8 +114,14 @@ where
     }
 
     pub fn events_mut(&mut self) -> &mut Vec<Rc<RefCell<TEvent>>> {
+        self.drop_derived_info();
         &mut self.events
     }
+
+    fn drop_derived_info(&mut self) {
+        self.events_sequence_info = LazyCell::new();
+        self.events_positions = LazyCell::new();
+    }
 }
 
 #[derive(Debug)]
-- 
2.43.0


From f954fdb61c005933bd5bb726c15082151a5c61b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:25 +0000
Subject: [PATCH 43/75] fix: the position entropy of a backend log with a
 single non-empty trace is zero

---
 .../ficus_backend/src/features/analysis/entropy/shared.rs     | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rust/ficus_backend/src/features/analysis/entropy/shared.rs b/src/rust/ficus_backend/src/features/analysis/entropy/shared.rs
index 5bbbdde..a035f8e 100644
--- a/src/rust/ficus_backend/src/features/analysis/entropy/shared.rs
+++ b/src/rust/ficus_backend/src/features/analysis/entropy/shared.rs
@@ -48,6 +48,10 @@ where
 }
 
 pub fn calculate_pos_entropy(probabilities: &mut Vec<f64>, traces_count: f64) -> f64 {
+    if traces_count <= 1f64 {
+        return 0f64;
+    }
+
     for i in 0..probabilities.len() {
         probabilities[i] = probabilities[i] / traces_count;
     }
-- 
2.43.0


From 1df39d06611d1192f42a37dcfeee3443b986a871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:26 +0000
Subject: [PATCH 44/75] fix: repeats with equal sets of several left contexts
 are maximal

---
 .../src/utils/suffix_tree/suffix_tree_repeats.rs              | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rust/ficus_backend/src/utils/suffix_tree/suffix_tree_repeats.rs b/src/rust/ficus_backend/src/utils/suffix_tree/suffix_tree_repeats.rs
index a26c7dd..7509f76 100644
--- a/src/rust/ficus_backend/src/utils/suffix_tree/suffix_tree_repeats.rs
+++ b/src/rust/ficus_backend/src/utils/suffix_tree/suffix_tree_repeats.rs
@@ -175,7 +175,9 @@ where
                 let first_map = nodes_to_awc.get(first_child).unwrap();
                 let second_map = nodes_to_awc.get(second_child).unwrap();
 
-                if !compare_maps_by_keys(first_map, second_map, HashSet::from_iter([None])) {
+                //the occurrences are preceded by the same element only if both children have the same, single, left context
+                let same_left_context = first_map.len() == 1 && compare_maps_by_keys(first_map, second_map, HashSet::from_iter([None]));
+                if !same_left_context {
                     let first_child_suffix_len = nodes_to_any_suffix_len[first_child];
                     let start = self.slice.len() - first_child_suffix_len;
 
-- 
2.43.0


From b92e133b55ba8b66e6be63f1a1807cb134b817b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:26 +0000
Subject: [PATCH 45/75] fix: an occurrence at the start of a trace witnesses
 near supermaximality

---
 .../ficus_backend/src/utils/suffix_tree/suffix_tree_repeats.rs  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rust/ficus_backend/src/utils/suffix_tree/suffix_tree_repeats.rs b/src/rust/ficus_backend/src/utils/suffix_tree/suffix_tree_repeats.rs
index 7509f76..975e410 100644
--- a/src/rust/ficus_backend/src/utils/suffix_tree/suffix_tree_repeats.rs
+++ b/src/rust/ficus_backend/src/utils/suffix_tree/suffix_tree_repeats.rs
@@ -154,7 +154,7 @@ where
                     if child_node.is_leaf() {
                         let element = self.get_element_for_suffix(nodes_to_any_suffix_len[child_index]);
 
-                        if element != None && nodes_to_awc[node_index][&element] == 1 {
+                        if element == None || nodes_to_awc[node_index][&element] == 1 {
                             witnesses_near_supermaximality = true;
                         }
                     }
-- 
2.43.0


From 20938cf121de0f07641c65aa9a3e8b500e0f4de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:32 +0000
Subject: [PATCH 46/75] fix: loops of length one are searched in empty traces
 too

---
 src/rust/ficus_backend/src/features/discovery/alpha/alpha.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rust/ficus_backend/src/features/discovery/alpha/alpha.rs b/src/rust/ficus_backend/src/features/discovery/alpha/alpha.rs
index d3b2c2b..a77c5fe 100644
--- a/src/rust/ficus_backend/src/features/discovery/alpha/alpha.rs
+++ b/src/rust/ficus_backend/src/features/discovery/alpha/alpha.rs
@@ -124,7 +124,7 @@ pub fn find_transitions_one_length_loop(log: &impl EventLog) -> HashSet<String>
     for trace in log.traces() {
         let trace = trace.borrow();
         let events = trace.events();
-        for i in 0..(events.len() - 1) {
+        for i in 0..events.len().saturating_sub(1) {
             if events[i].borrow().name() == events[i + 1].borrow().name() {
                 one_loop_transitions.insert(events[i].borrow().name().to_owned());
             }
-- 
2.43.0


From 91029774c3e6f9c5d260e7dd7a299377dcde9c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:32 +0000
Subject: [PATCH 47/75] fix: triangle relations of traces shorter than two
 events

---
 .../features/discovery/alpha/providers/alpha_plus_provider.rs   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rust/ficus_backend/src/features/discovery/alpha/providers/alpha_plus_provider.rs b/src/rust/ficus_backend/src/features/discovery/alpha/providers/alpha_plus_provider.rs
index 2e0f7ba..a77e5cc 100644
--- a/src/rust/ficus_backend/src/features/discovery/alpha/providers/alpha_plus_provider.rs
+++ b/src/rust/ficus_backend/src/features/discovery/alpha/providers/alpha_plus_provider.rs
@@ -40,7 +40,7 @@ pub fn calculate_triangle_relations(log: &impl EventLog) -> HashMap<(String, Str
         let trace = trace.borrow();
         let events = trace.events();
 
-        for index in 0..(events.len() - 2) {
+        for index in 0..events.len().saturating_sub(2) {
             if events[index].borrow().name() == events[index + 2].borrow().name() {
                 let pair = (
                     events[index].borrow().name().to_owned(),
-- 
2.43.0


From da44dfef1e0f2b5c5e4dfc496c853ee770ff5eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:33 +0000
Subject: [PATCH 48/75] fix: alpha++ does not need a place to have been created
 before

---
 src/rust/ficus_backend/src/features/discovery/alpha/alpha.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rust/ficus_backend/src/features/discovery/alpha/alpha.rs b/src/rust/ficus_backend/src/features/discovery/alpha/alpha.rs
index a77c5fe..bd32729 100644
--- a/src/rust/ficus_backend/src/features/discovery/alpha/alpha.rs
+++ b/src/rust/ficus_backend/src/features/discovery/alpha/alpha.rs
@@ -76,7 +76,7 @@ fn add_one_length_loops(log: &impl EventLog, one_length_loop_transitions: &HashS
 }
 
 fn add_alpha_plus_plus_transitions(log: &impl EventLog, one_length_loop_transitions: &HashSet<String>, petri_net: &mut DefaultPetriNet) {
-    let key = Lazy::get(&ALPHA_SET).unwrap();
+    let key = Lazy::force(&ALPHA_SET);
     let mut transitions_connections = HashSet::new();
     let mut places_connections = HashSet::new();
 
-- 
2.43.0


From 123cc09a766a68ac9c06cf96c3296d24c230e64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:33 +0000
Subject: [PATCH 49/75] fix: ignored events neither start nor end a trace

---
 .../src/features/analysis/event_log_info.rs        | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/rust/ficus_backend/src/features/analysis/event_log_info.rs b/src/rust/ficus_backend/src/features/analysis/event_log_info.rs
index 001977d..73b0110 100644
--- a/src/rust/ficus_backend/src/features/analysis/event_log_info.rs
+++ b/src/rust/ficus_backend/src/features/analysis/event_log_info.rs
@@ -100,11 +100,6 @@ impl EventLogInfo {
             events_count += events.len();
             let mut prev_event_name = None;
 
-            if events.len() > 0 {
-                start_event_classes.insert(events.first().unwrap().borrow().name().to_owned());
-                end_event_classes.insert(events.last().unwrap().borrow().name().to_owned());
-            }
-
             for event in events {
                 let event = event.borrow();
                 let current_name = event.name().to_owned();
@@ -119,6 +114,7 @@ impl EventLogInfo {
 
                 if prev_event_name.is_none() {
                     prev_event_name = Some(current_name.to_owned());
+                    start_event_classes.insert(current_name.to_owned());
                     if add_fake_start_end_events {
                         update_pairs_count(&FAKE_EVENT_START_NAME.to_string(), &current_name);
                     }
@@ -131,8 +127,12 @@ impl EventLogInfo {
                 prev_event_name = Some(event.name().to_owned());
             }
 
-            if add_fake_start_end_events && prev_event_name.is_some() {
-                update_pairs_count(&prev_event_name.unwrap(), &FAKE_EVENT_END_NAME.to_string());
+            if let Some(last_name) = prev_event_name {
+                if add_fake_start_end_events {
+                    update_pairs_count(&last_name, &FAKE_EVENT_END_NAME.to_string());
+                }
+
+                end_event_classes.insert(last_name);
             }
         }
 
-- 
2.43.0


From 19624074b6ff6796c0b3cf76db96e72f97f4c3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:33 +0000
Subject: [PATCH 50/75] fix: the initial marking can be ensured for logs with
 empty traces

---
 .../ficus_backend/src/features/discovery/petri_net/marking.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rust/ficus_backend/src/features/discovery/petri_net/marking.rs b/src/rust/ficus_backend/src/features/discovery/petri_net/marking.rs
index b268abe..9df2896 100644
--- a/src/rust/ficus_backend/src/features/discovery/petri_net/marking.rs
+++ b/src/rust/ficus_backend/src/features/discovery/petri_net/marking.rs
@@ -47,6 +47,10 @@ pub fn ensure_initial_marking(log: &impl EventLog, petri_net: &mut DefaultPetriN
     for trace in log.traces() {
         let trace = trace.borrow();
         let events = trace.events();
+        if events.is_empty() {
+            continue;
+        }
+
         let first_event = events.first().unwrap().borrow();
         let start_transition = first_event.name();
 
-- 
2.43.0


From 287bb67a8ed4bf7571e08bb5ebf28afe02872ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:28 +0000
Subject: [PATCH 51/75] fix: loops of length one are attached to the place of
 their alpha set, not to one with the same name

---
 .../src/features/discovery/alpha/alpha.rs          | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/rust/ficus_backend/src/features/discovery/alpha/alpha.rs b/src/rust/ficus_backend/src/features/discovery/alpha/alpha.rs
index bd32729..45b0a61 100644
--- a/src/rust/ficus_backend/src/features/discovery/alpha/alpha.rs
+++ b/src/rust/ficus_backend/src/features/discovery/alpha/alpha.rs
@@ -40,6 +40,12 @@ pub fn discover_petri_net_alpha_plus(
 
 fn add_one_length_loops(log: &impl EventLog, one_length_loop_transitions: &HashSet<String>, petri_net: &mut DefaultPetriNet) {
     let event_log_info = EventLogInfo::create_from(EventLogInfoCreationDto::default(log));
+    let mut alpha_sets_to_place_ids = HashMap::new();
+    for place in petri_net.all_places() {
+        if let Some(alpha_set) = place.user_data().concrete(&ALPHA_SET) {
+            alpha_sets_to_place_ids.insert(alpha_set.clone(), place.id());
+        }
+    }
 
     for transition_name in one_length_loop_transitions {
         let mut alpha_set = AlphaSet::empty();
@@ -65,10 +71,10 @@ fn add_one_length_loops(log: &impl EventLog, one_length_loop_transitions: &HashS
             Some(transition_name.to_owned()),
         ));
 
-        let place_id = match petri_net.find_place_id_by_name(alpha_set.to_string().as_str()) {
-            Some(found_place_id) => found_place_id,
-            None => petri_net.add_place(Place::with_name(alpha_set.to_string())),
-        };
+        let place_name = alpha_set.to_string();
+        let place_id = *alpha_sets_to_place_ids
+            .entry(alpha_set)
+            .or_insert_with(|| petri_net.add_place(Place::with_name(place_name)));
 
         petri_net.connect_transition_to_place(&id, &place_id, None);
         petri_net.connect_place_to_transition(&place_id, &id, None);
-- 
2.43.0


From d747abbebb2505ad10f41a54a01bf9aa189ddb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:15 +0000
Subject: [PATCH 52/75] fix: pairs of sets with the same elements but another
 division are different

---
 src/rust/ficus_backend/src/utils/sets/two_sets.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/rust/ficus_backend/src/utils/sets/two_sets.rs b/src/rust/ficus_backend/src/utils/sets/two_sets.rs
index 4415624..85f005f 100644
--- a/src/rust/ficus_backend/src/utils/sets/two_sets.rs
+++ b/src/rust/ficus_backend/src/utils/sets/two_sets.rs
@@ -74,13 +74,8 @@ where
     T: Hash + Eq + ToString + Ord + Clone,
 {
     fn hash<H: Hasher>(&self, state: &mut H) {
-        for item in &self.first_set {
-            item.hash(state);
-        }
-
-        for item in &self.second_set {
-            item.hash(state);
-        }
+        self.first_set.hash(state);
+        self.second_set.hash(state);
     }
 }
 
-- 
2.43.0


From b245c716717a79e6445af7cd0b7577de1800876b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:34 +0000
Subject: [PATCH 53/75] fix: a transition can fire only if its places have
 enough tokens

---
 .../src/features/discovery/petri_net/replay.rs        | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/rust/ficus_backend/src/features/discovery/petri_net/replay.rs b/src/rust/ficus_backend/src/features/discovery/petri_net/replay.rs
index c113570..6fdb866 100644
--- a/src/rust/ficus_backend/src/features/discovery/petri_net/replay.rs
+++ b/src/rust/ficus_backend/src/features/discovery/petri_net/replay.rs
@@ -40,14 +40,15 @@ impl ReplayState {
 
         let mut new_states = vec![];
         for candidate_transition in candidates {
-            let mut can_fire = true;
+            let mut required_tokens = HashMap::new();
             for arc in candidate_transition.incoming_arcs() {
-                if !state.markings.contains_key(&arc.place_id()) {
-                    can_fire = false;
-                    break;
-                }
+                *required_tokens.entry(arc.place_id()).or_insert(0) += *arc.tokens_count();
             }
 
+            let can_fire = required_tokens
+                .iter()
+                .all(|(place_id, count)| state.markings.get(place_id).unwrap_or(&0) >= count);
+
             if can_fire {
                 let mut new_markings = state.markings.clone();
                 for arc in candidate_transition.incoming_arcs() {
-- 
2.43.0


From 33dacc39e114524dce3b54348b1fc39b6ba21869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:34 +0000
Subject: [PATCH 54/75] fix: replay terminates on nets with cycles of silent
 transitions

---
 .../src/features/discovery/petri_net/replay.rs            | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/rust/ficus_backend/src/features/discovery/petri_net/replay.rs b/src/rust/ficus_backend/src/features/discovery/petri_net/replay.rs
index 6fdb866..8de4475 100644
--- a/src/rust/ficus_backend/src/features/discovery/petri_net/replay.rs
+++ b/src/rust/ficus_backend/src/features/discovery/petri_net/replay.rs
@@ -1,4 +1,4 @@
-use std::collections::{HashMap, VecDeque};
+use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
 
 use crate::event_log::core::{event::event::Event, event_log::EventLog, trace::trace::Trace};
 
@@ -109,6 +109,7 @@ pub fn replay_petri_net(log: &impl EventLog, net: &DefaultPetriNet) -> Option<Ve
         };
 
         let trace = trace.borrow();
+        let mut visited = HashSet::new();
         let mut stack = VecDeque::new();
         stack.push_back((0usize, ReplayState::new(marking)));
 
@@ -125,6 +126,11 @@ pub fn replay_petri_net(log: &impl EventLog, net: &DefaultPetriNet) -> Option<Ve
                 break;
             }
 
+            let tokens: BTreeMap<u64, usize> = current_state.1.markings.iter().map(|(id, count)| (*id, *count)).collect();
+            if !visited.insert((current_state.0, tokens)) {
+                continue;
+            }
+
             let transition = trace.events().get(current_state.0).unwrap();
             let new_states = ReplayState::handle_transition(&current_state.1, net, transition.borrow().name());
 
-- 
2.43.0


From c3ed6c934e099cd7a158358872167b0abb81c443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:52 +0000
Subject: [PATCH 55/75] fix: an invalid regex in DrawPlacementOfEventsByRegex
 is an error of the part, not a panic

---
 src/rust/ficus_backend/src/pipelines/drawing_parts.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/rust/ficus_backend/src/pipelines/drawing_parts.rs b/src/rust/ficus_backend/src/pipelines/drawing_parts.rs
index f58323b..ae069e3 100644
--- a/src/rust/ficus_backend/src/pipelines/drawing_parts.rs
+++ b/src/rust/ficus_backend/src/pipelines/drawing_parts.rs
@@ -1,5 +1,3 @@
-use fancy_regex::Regex;
-
 use crate::pipelines::pipeline_parts::PipelineParts;
 use crate::{
     event_log::{
@@ -88,7 +86,7 @@ impl PipelineParts {
     pub(super) fn draw_events_placements_by_regex() -> (String, PipelinePartFactory) {
         Self::create_pipeline_part(Self::DRAW_PLACEMENT_OF_EVENT_BY_REGEX, &|context, _, keys, config| {
             let regex = Self::get_user_data(config, keys.regex())?;
-            let regex = Regex::new(regex).ok().unwrap();
+            let regex = Self::try_parse_regex(regex)?;
             Self::draw_events_placement(context, keys, &|event| regex.is_match(event.name()).ok().unwrap())
         })
     }
-- 
2.43.0


From f69079229358ac4271bb7920c27e80d16475be92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:52 +0000
Subject: [PATCH 56/75] fix: WriteLogToXes without a log reports the missing
 log instead of panicking

---
 src/rust/ficus_backend/src/pipelines/xes_parts.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rust/ficus_backend/src/pipelines/xes_parts.rs b/src/rust/ficus_backend/src/pipelines/xes_parts.rs
index 2dd68f8..7f96df7 100644
--- a/src/rust/ficus_backend/src/pipelines/xes_parts.rs
+++ b/src/rust/ficus_backend/src/pipelines/xes_parts.rs
@@ -15,7 +15,9 @@ impl PipelineParts {
     pub(super) fn write_log_to_xes() -> (String, PipelinePartFactory) {
         Self::create_pipeline_part(Self::WRITE_LOG_TO_XES, &|context, _, keys, config| {
             let path = Self::get_user_data(config, &keys.path())?;
-            match write_log(&context.concrete(&keys.event_log().key()).unwrap(), path) {
+            let log = Self::get_user_data(context, keys.event_log())?;
+
+            match write_log(log, path) {
                 Ok(()) => Ok(()),
                 Err(err) => Err(PipelinePartExecutionError::Raw(RawPartExecutionError::new(err.to_string()))),
             }
-- 
2.43.0


From 6d4a9050acb6c18320a71dfe1705266f90ffb683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:52 +0000
Subject: [PATCH 57/75] fix: an invalid event class regex is an error of the
 part, not a panic

---
 .../src/pipelines/activities_parts.rs         |  2 +-
 .../src/pipelines/patterns_parts.rs           |  4 ++--
 .../ficus_backend/src/pipelines/util_parts.rs | 20 +++++++++++++------
 3 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/rust/ficus_backend/src/pipelines/activities_parts.rs b/src/rust/ficus_backend/src/pipelines/activities_parts.rs
index 6f112c5..1223679 100644
--- a/src/rust/ficus_backend/src/pipelines/activities_parts.rs
+++ b/src/rust/ficus_backend/src/pipelines/activities_parts.rs
@@ -259,7 +259,7 @@ impl PipelineParts {
                 let activities = Self::get_user_data_mut(context, keys.activities())?;
 
                 let narrow_kind = Self::get_user_data(config, keys.narrow_activities())?;
-                let hashed_log = Self::create_hashed_event_log(config, keys, log);
+                let hashed_log = Self::create_hashed_event_log(config, keys, log)?;
                 let min_events_count = *Self::get_user_data(config, keys.events_count())? as usize;
                 let min_events_in_activity = *Self::get_user_data(config, keys.min_activity_length())? as usize;
                 let activity_filter_kind = Self::get_user_data(config, keys.activity_filter_kind())?;
diff --git a/src/rust/ficus_backend/src/pipelines/patterns_parts.rs b/src/rust/ficus_backend/src/pipelines/patterns_parts.rs
index 0670955..a834856 100644
--- a/src/rust/ficus_backend/src/pipelines/patterns_parts.rs
+++ b/src/rust/ficus_backend/src/pipelines/patterns_parts.rs
@@ -79,7 +79,7 @@ impl PipelineParts {
         let log = Self::get_user_data(context, keys.event_log())?;
         let array_length = *config.concrete(keys.tandem_array_length().key()).unwrap() as usize;
 
-        let hashed_log = Self::create_hashed_event_log(config, keys, log);
+        let hashed_log = Self::create_hashed_event_log(config, keys, log)?;
 
         let arrays = patterns_finder(&hashed_log, array_length);
 
@@ -98,7 +98,7 @@ impl PipelineParts {
         let log = Self::get_user_data(context, keys.event_log())?;
         let strategy = Self::get_user_data(config, keys.patterns_discovery_strategy())?;
 
-        let hashed_log = Self::create_hashed_event_log(config, keys, log);
+        let hashed_log = Self::create_hashed_event_log(config, keys, log)?;
 
         let repeats = patterns_finder(&hashed_log, &strategy);
 
diff --git a/src/rust/ficus_backend/src/pipelines/util_parts.rs b/src/rust/ficus_backend/src/pipelines/util_parts.rs
index 02ec7f2..8e42d42 100644
--- a/src/rust/ficus_backend/src/pipelines/util_parts.rs
+++ b/src/rust/ficus_backend/src/pipelines/util_parts.rs
@@ -20,16 +20,24 @@ use crate::{
     utils::user_data::user_data::{UserData, UserDataImpl},
 };
 
-use super::{keys::context_keys::ContextKeys, pipelines::PipelinePartFactory};
+use super::{
+    errors::pipeline_errors::{PipelinePartExecutionError, RawPartExecutionError},
+    keys::context_keys::ContextKeys,
+    pipelines::PipelinePartFactory,
+};
 
 impl PipelineParts {
-    pub(super) fn create_hashed_event_log(config: &UserDataImpl, keys: &ContextKeys, log: &XesEventLogImpl) -> Vec<Vec<u64>> {
+    pub(super) fn create_hashed_event_log(config: &UserDataImpl, keys: &ContextKeys, log: &XesEventLogImpl) -> Result<Vec<Vec<u64>>, PipelinePartExecutionError> {
         match Self::get_user_data(config, keys.event_class_regex()) {
             Ok(regex) => {
-                let hasher = RegexEventHasher::new(regex).ok().unwrap();
-                log.to_hashes_event_log(&hasher)
+                let hasher = match RegexEventHasher::new(regex) {
+                    Ok(hasher) => hasher,
+                    Err(err) => return Err(PipelinePartExecutionError::Raw(RawPartExecutionError::new(err.to_string()))),
+                };
+
+                Ok(log.to_hashes_event_log(&hasher))
             }
-            Err(_) => log.to_hashes_event_log(&NameEventHasher::new()),
+            Err(_) => Ok(log.to_hashes_event_log(&NameEventHasher::new())),
         }
     }
 
@@ -46,7 +54,7 @@ impl PipelineParts {
     pub(super) fn get_hashes_event_log() -> (String, PipelinePartFactory) {
         Self::create_pipeline_part(Self::GET_HASHES_EVENT_LOG, &|context, _, keys, config| {
             let log = Self::get_user_data(context, keys.event_log())?;
-            let hashes_event_log = Self::create_hashed_event_log(config, keys, log);
+            let hashes_event_log = Self::create_hashed_event_log(config, keys, log)?;
 
             context.put_concrete(keys.hashes_event_log().key(), hashes_event_log);
 
-- 
2.43.0


From 257b0197b7e107bba01d6307a29008e3b8ceedeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:52 +0000
Subject: [PATCH 58/75] fix: finding tandem arrays without their maximal length
 reports the missing key instead of panicking

---
 src/rust/ficus_backend/src/pipelines/patterns_parts.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rust/ficus_backend/src/pipelines/patterns_parts.rs b/src/rust/ficus_backend/src/pipelines/patterns_parts.rs
index a834856..9abc16f 100644
--- a/src/rust/ficus_backend/src/pipelines/patterns_parts.rs
+++ b/src/rust/ficus_backend/src/pipelines/patterns_parts.rs
@@ -77,7 +77,7 @@ impl PipelineParts {
         patterns_finder: impl Fn(&Vec<Vec<u64>>, usize) -> Vec<Vec<SubArrayInTraceInfo>>,
     ) -> Result<(), PipelinePartExecutionError> {
         let log = Self::get_user_data(context, keys.event_log())?;
-        let array_length = *config.concrete(keys.tandem_array_length().key()).unwrap() as usize;
+        let array_length = *Self::get_user_data(config, keys.tandem_array_length())? as usize;
 
         let hashed_log = Self::create_hashed_event_log(config, keys, log)?;
 
-- 
2.43.0


From 008dbf36fb751b94063daa9075b8f57963598ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:52 +0000
Subject: [PATCH 59/75] fix: DiscoverActivitiesForSeveralLevels passes the
 maximal length of tandem arrays on

---
 src/rust/ficus_backend/src/pipelines/activities_parts.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rust/ficus_backend/src/pipelines/activities_parts.rs b/src/rust/ficus_backend/src/pipelines/activities_parts.rs
index 1223679..c91b599 100644
--- a/src/rust/ficus_backend/src/pipelines/activities_parts.rs
+++ b/src/rust/ficus_backend/src/pipelines/activities_parts.rs
@@ -181,6 +181,7 @@ impl PipelineParts {
             let events_count = Self::get_user_data(config, keys.events_count())?;
             let min_events_in_activity = Self::get_user_data(config, keys.min_activity_length())?;
             let activity_filter_kind = Self::get_user_data(config, keys.activity_filter_kind())?;
+            let tandem_array_length = Self::get_user_data(config, keys.tandem_array_length());
 
             let mut index = 0;
             for event_class_regex in event_classes.into_iter().rev() {
@@ -194,6 +195,9 @@ impl PipelineParts {
                 config.put_concrete(keys.events_count().key(), *events_count);
                 config.put_concrete(keys.min_activity_length().key(), *min_events_in_activity);
                 config.put_concrete(keys.activity_filter_kind().key(), *activity_filter_kind);
+                if let Ok(tandem_array_length) = tandem_array_length {
+                    config.put_concrete(keys.tandem_array_length().key(), *tandem_array_length);
+                }
 
                 Self::adjust_with_activities_from_unattached_events(context, infra, keys, &config)?;
 
-- 
2.43.0


From a72079b5699681cdb2b1e4584d060147573838f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:57 +0000
Subject: [PATCH 60/75] fix: DiscoverActivities with an invalid event class
 regex fails instead of panicking

---
 src/rust/ficus_backend/src/pipelines/activities_parts.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rust/ficus_backend/src/pipelines/activities_parts.rs b/src/rust/ficus_backend/src/pipelines/activities_parts.rs
index c91b599..cff17ab 100644
--- a/src/rust/ficus_backend/src/pipelines/activities_parts.rs
+++ b/src/rust/ficus_backend/src/pipelines/activities_parts.rs
@@ -94,7 +94,10 @@ impl PipelineParts {
         let patterns = Self::get_user_data(context, keys.patterns())?;
         let hashed_log = Self::get_user_data(context, keys.hashes_event_log())?;
         let event_class_regex = match Self::get_user_data(config, keys.event_class_regex()) {
-            Ok(regex) => Some(regex),
+            Ok(regex) => {
+                Self::try_parse_regex(regex)?;
+                Some(regex)
+            }
             Err(_) => None,
         };
 
-- 
2.43.0


From d6b8bbe491e6754dd9a8fc9d0a34c2a3e8d2e43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:57 +0000
Subject: [PATCH 61/75] fix: without activities instances the whole log is
 unattached when activities are adjusted

---
 src/rust/ficus_backend/src/pipelines/activities_parts.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rust/ficus_backend/src/pipelines/activities_parts.rs b/src/rust/ficus_backend/src/pipelines/activities_parts.rs
index cff17ab..6825103 100644
--- a/src/rust/ficus_backend/src/pipelines/activities_parts.rs
+++ b/src/rust/ficus_backend/src/pipelines/activities_parts.rs
@@ -229,7 +229,7 @@ impl PipelineParts {
         if adjusting_mode == AdjustingMode::FromUnattachedSubTraces {
             match Self::get_user_data(old_context, keys.trace_activities()) {
                 Ok(activities) => new_context.put_concrete(keys.event_log().key(), create_log_from_unattached_events(log, activities)),
-                Err(_) => {}
+                Err(_) => new_context.put_concrete(keys.event_log().key(), log.clone()),
             }
         } else {
             new_context.put_concrete(keys.event_log().key(), log.clone());
-- 
2.43.0


From e1285f470c11cd20e5fa323bbc2f3428e6835eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:36 +0000
Subject: [PATCH 62/75] fix: SaveAllActivitiesNames lost the names below an
 activity whose name was already written

---
 .../legacy/pipelines/analysis/patterns/patterns_parts.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/python/ficus/legacy/pipelines/analysis/patterns/patterns_parts.py b/src/python/ficus/legacy/pipelines/analysis/patterns/patterns_parts.py
index ef93860..58d6bd5 100644
--- a/src/python/ficus/legacy/pipelines/analysis/patterns/patterns_parts.py
+++ b/src/python/ficus/legacy/pipelines/analysis/patterns/patterns_parts.py
@@ -472,14 +472,17 @@ class SaveAllActivitiesNames(InternalPipelinePart):
                 fout.write('\n')
 
                 visited = set()
+                written_names = set()
                 q = [root for root in activities_for_level]
                 while len(q) > 0:
                     current_activity = q.pop()
-                    if current_activity.name in visited:
+                    if id(current_activity) in visited:
                         continue
 
-                    visited.add(current_activity.name)
-                    fout.write(f'{current_activity.name}\n')
+                    visited.add(id(current_activity))
+                    if current_activity.name not in written_names:
+                        written_names.add(current_activity.name)
+                        fout.write(f'{current_activity.name}\n')
 
                     for child in current_activity.child_nodes:
                         q.append(child)
-- 
2.43.0


From 5a7e4520f190c7c7f5fcfc74fc46179b0b9a2897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:36 +0000
Subject: [PATCH 63/75] fix: draw_traces_histogram drew on the axis limits
 tuple instead of axes

---
 src/python/ficus/legacy/analysis/event_log_analysis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/ficus/legacy/analysis/event_log_analysis.py b/src/python/ficus/legacy/analysis/event_log_analysis.py
index f160781..ceb1faf 100644
--- a/src/python/ficus/legacy/analysis/event_log_analysis.py
+++ b/src/python/ficus/legacy/analysis/event_log_analysis.py
@@ -53,7 +53,8 @@ def draw_traces_histogram(log: MyEventLog,
                           save_path: str = None,
                           title: str = None):
     hist, classes_count = _create_array_for_hist(log)
-    _do_paint_hist(plt.axis(), hist, classes_count)
+    _, ax = plt.subplots()
+    _do_paint_hist(ax, hist, classes_count)
     plt.suptitle(title)
 
     if save_path is None:
-- 
2.43.0


From a10f36bd2558dee3f5f873831cdfb5f2fdb128fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:36 +0000
Subject: [PATCH 64/75] fix: plot_logs_traces_histograms failed for a single
 log

---
 src/python/ficus/legacy/analysis/event_log_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/ficus/legacy/analysis/event_log_analysis.py b/src/python/ficus/legacy/analysis/event_log_analysis.py
index ceb1faf..a983f92 100644
--- a/src/python/ficus/legacy/analysis/event_log_analysis.py
+++ b/src/python/ficus/legacy/analysis/event_log_analysis.py
@@ -81,7 +81,7 @@ def plot_logs_traces_histograms(logs: List[MyEventLog],
     side_length = int(math.ceil(math.sqrt(len(logs))))
     log_index = 0
 
-    current_figure, ax = plt.subplots(side_length, side_length, figsize=(12, 12))
+    current_figure, ax = plt.subplots(side_length, side_length, figsize=(12, 12), squeeze=False)
 
     for row in range(side_length):
         for col in range(side_length):
-- 
2.43.0


From aa598134b74a692ad56351c64007a6b9eb0c9884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:40 +0000
Subject: [PATCH 65/75] fix: reading an XES document that ends inside an event,
 a trace or a global never came to an end

---
 .../src/event_log/xes/reader/file_xes_log_reader.rs            | 2 +-
 .../src/event_log/xes/reader/xes_log_trace_reader.rs           | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rust/ficus_backend/src/event_log/xes/reader/file_xes_log_reader.rs b/src/rust/ficus_backend/src/event_log/xes/reader/file_xes_log_reader.rs
index 88acfbe..f45ab57 100644
--- a/src/rust/ficus_backend/src/event_log/xes/reader/file_xes_log_reader.rs
+++ b/src/rust/ficus_backend/src/event_log/xes/reader/file_xes_log_reader.rs
@@ -159,7 +159,7 @@ impl FromFileXesEventLogReader {
 
         loop {
             match reader.read_event_into(storage) {
-                Err(_) => return None,
+                Ok(quick_xml::events::Event::Eof) | Err(_) => return None,
                 Ok(quick_xml::events::Event::Empty(tag)) => {
                     if let Some(descriptor) = utils::read_payload_like_tag(&tag) {
                         if let None = map {
diff --git a/src/rust/ficus_backend/src/event_log/xes/reader/xes_log_trace_reader.rs b/src/rust/ficus_backend/src/event_log/xes/reader/xes_log_trace_reader.rs
index f0ec9e0..a78c5de 100644
--- a/src/rust/ficus_backend/src/event_log/xes/reader/xes_log_trace_reader.rs
+++ b/src/rust/ficus_backend/src/event_log/xes/reader/xes_log_trace_reader.rs
@@ -32,7 +32,7 @@ impl Iterator for TraceXesEventLogIterator {
                     TRACE_TAG_NAME => return None,
                     _ => continue,
                 },
-                Err(_) => return None,
+                Ok(quick_xml::events::Event::Eof) | Err(_) => return None,
                 _ => continue,
             }
         }
@@ -84,6 +84,7 @@ impl TraceXesEventLogIterator {
                     }
                     None => continue,
                 },
+                Ok(quick_xml::events::Event::Eof) | Err(_) => return None,
                 _ => continue,
             }
         }
-- 
2.43.0


From 9a24804e5f1c3957e4cc55a70926c208831e6631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:40 +0000
Subject: [PATCH 66/75] fix: XES attributes written with start and end tags
 were lost, attributes nested in them taken for attributes of their parent

---
 .../xes/reader/file_xes_log_reader.rs         | 48 +++++++++++--------
 .../src/event_log/xes/reader/utils.rs         | 16 ++++++-
 .../xes/reader/xes_log_trace_reader.rs        | 14 +++++-
 3 files changed, 56 insertions(+), 22 deletions(-)

diff --git a/src/rust/ficus_backend/src/event_log/xes/reader/file_xes_log_reader.rs b/src/rust/ficus_backend/src/event_log/xes/reader/file_xes_log_reader.rs
index f45ab57..4982e90 100644
--- a/src/rust/ficus_backend/src/event_log/xes/reader/file_xes_log_reader.rs
+++ b/src/rust/ficus_backend/src/event_log/xes/reader/file_xes_log_reader.rs
@@ -63,16 +63,20 @@ impl Iterator for FromFileXesEventLogReader {
                             }
                             None => continue,
                         },
-                        None => continue,
-                    },
-                    EXTENSION_TAG_NAME | CLASSIFIER_TAG_NAME => match Self::try_read_tag(&tag) {
-                        Some(item) => return Some(item),
-                        None => continue,
-                    },
-                    _ => match Self::try_read_property(&tag) {
-                        Some(item) => return Some(item),
-                        None => continue,
+                        None => {
+                            utils::skip_element_content(&mut reader, &mut storage);
+                            continue;
+                        }
                     },
+                    LOG_TAG_NAME => continue,
+                    _ => {
+                        let item = Self::try_read_tag(&tag);
+                        utils::skip_element_content(&mut reader, &mut storage);
+
+                        if item.is_some() {
+                            return item;
+                        }
+                    }
                 },
                 Ok(quick_xml::events::Event::Empty(tag)) => match Self::try_read_tag(&tag) {
                     Some(item) => return Some(item),
@@ -160,17 +164,10 @@ impl FromFileXesEventLogReader {
         loop {
             match reader.read_event_into(storage) {
                 Ok(quick_xml::events::Event::Eof) | Err(_) => return None,
-                Ok(quick_xml::events::Event::Empty(tag)) => {
-                    if let Some(descriptor) = utils::read_payload_like_tag(&tag) {
-                        if let None = map {
-                            map = Some(HashMap::new())
-                        }
-
-                        let payload_type = descriptor.payload_type.as_str().as_bytes();
-                        if let Some(payload_value) = utils::extract_payload_value(payload_type, &descriptor.value) {
-                            map.as_mut().unwrap().insert(descriptor.key, payload_value);
-                        }
-                    }
+                Ok(quick_xml::events::Event::Empty(tag)) => Self::read_global_default(&tag, &mut map),
+                Ok(quick_xml::events::Event::Start(tag)) => {
+                    Self::read_global_default(&tag, &mut map);
+                    utils::skip_element_content(reader, storage);
                 }
                 Ok(quick_xml::events::Event::End(tag)) => match tag.name().0 {
                     GLOBAL_TAG_NAME => break,
@@ -183,6 +180,17 @@ impl FromFileXesEventLogReader {
         map
     }
 
+    fn read_global_default(tag: &BytesStart, map: &mut Option<HashMap<String, EventPayloadValue>>) {
+        if let Some(descriptor) = utils::read_payload_like_tag(tag) {
+            let map = map.get_or_insert_with(HashMap::new);
+
+            let payload_type = descriptor.payload_type.as_str().as_bytes();
+            if let Some(payload_value) = utils::extract_payload_value(payload_type, &descriptor.value) {
+                map.insert(descriptor.key, payload_value);
+            }
+        }
+    }
+
     fn try_read_classifier(tag: &BytesStart) -> Option<XesClassifier> {
         let mut name: Option<String> = None;
         let mut keys: Option<Vec<String>> = None;
diff --git a/src/rust/ficus_backend/src/event_log/xes/reader/utils.rs b/src/rust/ficus_backend/src/event_log/xes/reader/utils.rs
index 4c39ef4..2942b8f 100644
--- a/src/rust/ficus_backend/src/event_log/xes/reader/utils.rs
+++ b/src/rust/ficus_backend/src/event_log/xes/reader/utils.rs
@@ -1,4 +1,4 @@
-use std::rc::Rc;
+use std::{io::BufRead, rc::Rc};
 
 use chrono::{DateTime, Utc};
 
@@ -7,6 +7,7 @@ use crate::event_log::{core::event::event::EventPayloadValue, xes::constants::*}
 use quick_xml::{
     escape::unescape,
     events::{attributes::Attribute, BytesStart},
+    Reader,
 };
 
 pub struct KeyValuePair<TKey, TValue> {
@@ -39,6 +40,19 @@ pub fn read_payload_like_tag(tag: &BytesStart) -> Option<PayloadTagDescriptor> {
     Some(descriptor)
 }
 
+/// Skips everything up to the end tag of the element whose start tag has just been read
+pub fn skip_element_content<TReader: BufRead>(reader: &mut Reader<TReader>, storage: &mut Vec<u8>) {
+    let mut depth = 1;
+    while depth > 0 {
+        match reader.read_event_into(storage) {
+            Ok(quick_xml::events::Event::Start(_)) => depth += 1,
+            Ok(quick_xml::events::Event::End(_)) => depth -= 1,
+            Ok(quick_xml::events::Event::Eof) | Err(_) => return,
+            _ => continue,
+        }
+    }
+}
+
 pub fn extract_key_value(start: &BytesStart) -> KeyValuePair<String, String> {
     let mut key: Option<String> = None;
     let mut value: Option<String> = None;
diff --git a/src/rust/ficus_backend/src/event_log/xes/reader/xes_log_trace_reader.rs b/src/rust/ficus_backend/src/event_log/xes/reader/xes_log_trace_reader.rs
index a78c5de..36f2338 100644
--- a/src/rust/ficus_backend/src/event_log/xes/reader/xes_log_trace_reader.rs
+++ b/src/rust/ficus_backend/src/event_log/xes/reader/xes_log_trace_reader.rs
@@ -59,7 +59,8 @@ impl TraceXesEventLogIterator {
         self.set_defaults_value(&mut name, &mut date, &mut payload);
 
         loop {
-            match self.reader.borrow_mut().read_event_into(&mut self.buffer) {
+            let event = self.reader.borrow_mut().read_event_into(&mut self.buffer);
+            match event {
                 Ok(quick_xml::events::Event::End(end)) => match end.name().0 {
                     EVENT_TAG_NAME => {
                         if !name.is_some() {
@@ -84,6 +85,17 @@ impl TraceXesEventLogIterator {
                     }
                     None => continue,
                 },
+                Ok(quick_xml::events::Event::Start(start)) => {
+                    if let Some(descriptor) = utils::read_payload_like_tag(&start) {
+                        let payload_type = descriptor.payload_type.as_str().as_bytes();
+                        let key = descriptor.key.as_str();
+                        let value = descriptor.value.as_str();
+
+                        Self::set_parsed_value(payload_type, key, value, &mut name, &mut date, &mut payload);
+                    }
+
+                    utils::skip_element_content(&mut self.reader.borrow_mut(), &mut self.buffer);
+                }
                 Ok(quick_xml::events::Event::Eof) | Err(_) => return None,
                 _ => continue,
             }
-- 
2.43.0


From 31a71dea08c39a35114b9ca09c5e0b55ae768bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:40 +0000
Subject: [PATCH 67/75] fix: XES traces and events written as empty tags were
 lost

---
 .../xes/reader/file_xes_log_reader.rs         | 14 +++++--
 .../xes/reader/xes_log_trace_reader.rs        | 38 +++++++++++++++++--
 2 files changed, 46 insertions(+), 6 deletions(-)

diff --git a/src/rust/ficus_backend/src/event_log/xes/reader/file_xes_log_reader.rs b/src/rust/ficus_backend/src/event_log/xes/reader/file_xes_log_reader.rs
index 4982e90..dd929da 100644
--- a/src/rust/ficus_backend/src/event_log/xes/reader/file_xes_log_reader.rs
+++ b/src/rust/ficus_backend/src/event_log/xes/reader/file_xes_log_reader.rs
@@ -78,9 +78,17 @@ impl Iterator for FromFileXesEventLogReader {
                         }
                     }
                 },
-                Ok(quick_xml::events::Event::Empty(tag)) => match Self::try_read_tag(&tag) {
-                    Some(item) => return Some(item),
-                    None => continue,
+                Ok(quick_xml::events::Event::Empty(tag)) => match tag.name().as_ref() {
+                    TRACE_TAG_NAME => {
+                        let copy_reader = Rc::clone(&self.reader);
+                        let copy_globals = Rc::clone(&self.seen_globals);
+                        let iterator = TraceXesEventLogIterator::new_empty(copy_reader, copy_globals);
+                        return Some(XesEventLogItem::Trace(iterator));
+                    }
+                    _ => match Self::try_read_tag(&tag) {
+                        Some(item) => return Some(item),
+                        None => continue,
+                    },
                 },
                 Ok(quick_xml::events::Event::Eof) => return None,
                 Err(_) => return None,
diff --git a/src/rust/ficus_backend/src/event_log/xes/reader/xes_log_trace_reader.rs b/src/rust/ficus_backend/src/event_log/xes/reader/xes_log_trace_reader.rs
index 36f2338..81599f1 100644
--- a/src/rust/ficus_backend/src/event_log/xes/reader/xes_log_trace_reader.rs
+++ b/src/rust/ficus_backend/src/event_log/xes/reader/xes_log_trace_reader.rs
@@ -12,13 +12,14 @@ pub struct TraceXesEventLogIterator {
     buffer: Vec<u8>,
     reader: Rc<RefCell<Reader<BufReader<File>>>>,
     globals: Rc<RefCell<HashMap<String, HashMap<String, EventPayloadValue>>>>,
+    finished: bool,
 }
 
 impl Iterator for TraceXesEventLogIterator {
     type Item = XesEventImpl;
 
     fn next(&mut self) -> Option<Self::Item> {
-        loop {
+        while !self.finished {
             let event = self.reader.borrow_mut().read_event_into(&mut self.buffer);
             match event {
                 Ok(quick_xml::events::Event::Start(e)) => match e.name().0 {
@@ -28,14 +29,23 @@ impl Iterator for TraceXesEventLogIterator {
                     },
                     _ => continue,
                 },
+                Ok(quick_xml::events::Event::Empty(e)) => match e.name().0 {
+                    EVENT_TAG_NAME => match self.create_event_from_defaults() {
+                        None => continue,
+                        Some(event) => return Some(event),
+                    },
+                    _ => continue,
+                },
                 Ok(quick_xml::events::Event::End(e)) => match e.name().0 {
-                    TRACE_TAG_NAME => return None,
+                    TRACE_TAG_NAME => self.finished = true,
                     _ => continue,
                 },
-                Ok(quick_xml::events::Event::Eof) | Err(_) => return None,
+                Ok(quick_xml::events::Event::Eof) | Err(_) => self.finished = true,
                 _ => continue,
             }
         }
+
+        None
     }
 }
 
@@ -48,9 +58,31 @@ impl TraceXesEventLogIterator {
             reader,
             buffer: Vec::new(),
             globals: seen_globals,
+            finished: false,
+        }
+    }
+
+    pub(crate) fn new_empty(
+        reader: Rc<RefCell<Reader<BufReader<File>>>>,
+        seen_globals: Rc<RefCell<HashMap<String, HashMap<String, EventPayloadValue>>>>,
+    ) -> TraceXesEventLogIterator {
+        TraceXesEventLogIterator {
+            reader,
+            buffer: Vec::new(),
+            globals: seen_globals,
+            finished: true,
         }
     }
 
+    fn create_event_from_defaults(&self) -> Option<XesEventImpl> {
+        let mut name = None;
+        let mut date = None;
+        let mut payload = HashMap::new();
+
+        self.set_defaults_value(&mut name, &mut date, &mut payload);
+        Some(XesEventImpl::new_all_fields(name?, date?, Some(payload)))
+    }
+
     fn try_parse_event_from(&mut self) -> Option<XesEventImpl> {
         let mut name = None;
         let mut date = None;
-- 
2.43.0


From 893018a0529fad0b028617449ca742f038ae289f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:40 +0000
Subject: [PATCH 68/75] fix: characters written as entities in names of
 extensions, classifiers and scopes were not read back

---
 .../src/event_log/xes/reader/file_xes_log_reader.rs  | 12 ++++++++----
 .../ficus_backend/src/event_log/xes/reader/utils.rs  | 11 +++++++----
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/rust/ficus_backend/src/event_log/xes/reader/file_xes_log_reader.rs b/src/rust/ficus_backend/src/event_log/xes/reader/file_xes_log_reader.rs
index dd929da..5687e26 100644
--- a/src/rust/ficus_backend/src/event_log/xes/reader/file_xes_log_reader.rs
+++ b/src/rust/ficus_backend/src/event_log/xes/reader/file_xes_log_reader.rs
@@ -211,10 +211,14 @@ impl FromFileXesEventLogReader {
                             return None;
                         }
                     }
-                    KEYS_ATTR_NAME => match String::from_utf8(real_attr.value.into_owned()) {
-                        Ok(keys_string) => keys = Some(keys_string.split(" ").map(|s| s.to_owned()).collect()),
-                        Err(_) => return None,
-                    },
+                    KEYS_ATTR_NAME => {
+                        let mut keys_string = None;
+                        if !utils::read_attr_value(&real_attr, &mut keys_string) {
+                            return None;
+                        }
+
+                        keys = keys_string.map(|keys_string| keys_string.split(" ").map(|s| s.to_owned()).collect());
+                    }
                     _ => continue,
                 },
                 Err(_) => continue,
diff --git a/src/rust/ficus_backend/src/event_log/xes/reader/utils.rs b/src/rust/ficus_backend/src/event_log/xes/reader/utils.rs
index 2942b8f..ac1e860 100644
--- a/src/rust/ficus_backend/src/event_log/xes/reader/utils.rs
+++ b/src/rust/ficus_backend/src/event_log/xes/reader/utils.rs
@@ -80,10 +80,13 @@ pub fn extract_key_value(start: &BytesStart) -> KeyValuePair<String, String> {
 #[inline]
 pub fn read_attr_value(real_attr: &Attribute, var: &mut Option<String>) -> bool {
     match String::from_utf8(real_attr.value.as_ref().to_vec()) {
-        Ok(string) => {
-            *var = Some(string);
-            true
-        }
+        Ok(string) => match unescape(&string) {
+            Ok(unescaped) => {
+                *var = Some(unescaped.to_string());
+                true
+            }
+            Err(_) => false,
+        },
         Err(_) => false,
     }
 }
-- 
2.43.0


From 64536921be328a06aa5c476618f17fdf99401143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:40 +0000
Subject: [PATCH 69/75] fix: adding a new value to the payload of an event
 panicked

---
 src/rust/ficus_backend/src/event_log/xes/xes_event.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rust/ficus_backend/src/event_log/xes/xes_event.rs b/src/rust/ficus_backend/src/event_log/xes/xes_event.rs
index 498d69d..c81ff1d 100644
--- a/src/rust/ficus_backend/src/event_log/xes/xes_event.rs
+++ b/src/rust/ficus_backend/src/event_log/xes/xes_event.rs
@@ -68,7 +68,7 @@ impl Event for XesEventImpl {
             self.payload = Some(HashMap::new());
         }
 
-        *self.payload.as_mut().unwrap().get_mut(&key).unwrap() = value;
+        self.payload.as_mut().unwrap().insert(key, value);
     }
 
     fn new(name: String, timestamp: DateTime<Utc>) -> Self {
-- 
2.43.0


From 6e6ed971468c57693ddccc22d92dfd818d6210c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:47 +0000
Subject: [PATCH 70/75] fix: all_connected_nodes missed the nodes an edge comes
 from

---
 src/rust/ficus_backend/src/utils/graph/graph.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rust/ficus_backend/src/utils/graph/graph.rs b/src/rust/ficus_backend/src/utils/graph/graph.rs
index d835cf2..d1d8c56 100644
--- a/src/rust/ficus_backend/src/utils/graph/graph.rs
+++ b/src/rust/ficus_backend/src/utils/graph/graph.rs
@@ -93,9 +93,9 @@ where
             Some(connections) => connections.keys().collect(),
         };
 
-        for (node_id, connections) in &self.connections {
+        for (candidate, connections) in &self.connections {
             if connections.contains_key(node_id) {
-                connected_nodes.push(node_id);
+                connected_nodes.push(candidate);
             }
         }
 
-- 
2.43.0


From 49b24f9a7d03c45928c87634c9c93f4950083ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:57 +0000
Subject: [PATCH 71/75] fix: rust: the first row of the edit distance starts
 with one zero

---
 src/rust/ficus_backend/src/utils/distance/distance.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rust/ficus_backend/src/utils/distance/distance.rs b/src/rust/ficus_backend/src/utils/distance/distance.rs
index c82739d..d7a78e9 100644
--- a/src/rust/ficus_backend/src/utils/distance/distance.rs
+++ b/src/rust/ficus_backend/src/utils/distance/distance.rs
@@ -95,7 +95,7 @@ impl Distance<f64> for LevenshteinDistance {
         let b_len = b.len() + 1;
 
         let mut matrix = vec![vec![0f64]];
-        for i in 0..a_len {
+        for i in 1..a_len {
             matrix[0].push(i as f64);
         }
 
@@ -118,6 +118,6 @@ impl Distance<f64> for LevenshteinDistance {
             }
         }
 
-        matrix[a_len - 1][b_len - 1]
+        matrix[b_len - 1][a_len - 1]
     }
 }
-- 
2.43.0


From 3868da41f364814bbd57cac9a38813737ee39d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:57 +0000
Subject: [PATCH 72/75] fix: rust: DBSCAN with wrong parameters is an error,
 not a panic

---
 .../src/features/clustering/activities/dbscan.rs              | 4 ++--
 .../ficus_backend/src/features/clustering/traces/dbscan.rs    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rust/ficus_backend/src/features/clustering/activities/dbscan.rs b/src/rust/ficus_backend/src/features/clustering/activities/dbscan.rs
index 036a287..9ff477e 100644
--- a/src/rust/ficus_backend/src/features/clustering/activities/dbscan.rs
+++ b/src/rust/ficus_backend/src/features/clustering/activities/dbscan.rs
@@ -6,7 +6,7 @@ use crate::{
     event_log::core::event_log::EventLog,
     features::clustering::{
         common::{create_colors_vector, transform_to_ficus_dataset},
-        error::ClusteringResult,
+        error::{ClusteringError, ClusteringResult},
     },
     utils::{dataset::dataset::LabeledDataset, distance::distance::DistanceWrapper},
 };
@@ -18,7 +18,7 @@ pub fn clusterize_activities_dbscan<TLog: EventLog>(params: &mut ActivitiesClust
     let clusters = Dbscan::params_with(min_points, DistanceWrapper::new(params.distance), KdTree)
         .tolerance(params.tolerance)
         .transform(dataset.records())
-        .unwrap();
+        .map_err(|error| ClusteringError::RawError(error.to_string()))?;
 
     merge_activities(
         params.vis_params.common_vis_params.log,
diff --git a/src/rust/ficus_backend/src/features/clustering/traces/dbscan.rs b/src/rust/ficus_backend/src/features/clustering/traces/dbscan.rs
index c5dab06..c350249 100644
--- a/src/rust/ficus_backend/src/features/clustering/traces/dbscan.rs
+++ b/src/rust/ficus_backend/src/features/clustering/traces/dbscan.rs
@@ -41,7 +41,7 @@ pub fn clusterize_log_by_traces_dbscan<TLog: EventLog>(
     let clusters = Dbscan::params_with(min_points, DistanceWrapper::new(params.distance), KdTree)
         .tolerance(params.tolerance)
         .transform(dataset.records())
-        .unwrap();
+        .map_err(|error| ClusteringError::RawError(error.to_string()))?;
 
     let ficus_dataset = transform_to_ficus_dataset(&dataset, objects, features);
 
-- 
2.43.0


From ca5a52d778605e8d5f4b7fe6f4845af8097ae6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:57 +0000
Subject: [PATCH 73/75] fix: rust: k-means that cannot be fitted is an error,
 not a panic

---
 .../src/features/clustering/activities/k_means.rs         | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/rust/ficus_backend/src/features/clustering/activities/k_means.rs b/src/rust/ficus_backend/src/features/clustering/activities/k_means.rs
index f637176..08b508c 100644
--- a/src/rust/ficus_backend/src/features/clustering/activities/k_means.rs
+++ b/src/rust/ficus_backend/src/features/clustering/activities/k_means.rs
@@ -30,7 +30,7 @@ pub fn clusterize_activities_k_means<TLog: EventLog>(
     iterations_count: usize,
 ) -> ClusteringResult {
     let (dataset, processed, classes_names) = create_dataset(&params.vis_params)?;
-    let model = create_k_means_model(clusters_count, iterations_count as u64, params.tolerance, &dataset, params.distance);
+    let model = create_k_means_model(clusters_count, iterations_count as u64, params.tolerance, &dataset, params.distance)?;
 
     let clustered_dataset = model.predict(dataset.clone());
     merge_activities(
@@ -75,12 +75,12 @@ fn create_k_means_model(
     tolerance: f64,
     dataset: &MyDataset,
     distance: FicusDistance,
-) -> KMeans<f64, DistanceWrapper> {
+) -> Result<KMeans<f64, DistanceWrapper>, ClusteringError> {
     KMeans::params_with(clusters_count, rand::thread_rng(), DistanceWrapper::new(distance))
         .max_n_iterations(iterations_count)
         .tolerance(tolerance)
         .fit(&dataset)
-        .expect("KMeans fitted")
+        .map_err(|error| ClusteringError::RawError(error.to_string()))
 }
 
 pub fn clusterize_activities_k_means_grid_search<TLog: EventLog>(
@@ -93,7 +93,7 @@ pub fn clusterize_activities_k_means_grid_search<TLog: EventLog>(
     let mut best_labels = None;
 
     for clusters_count in 2..processed.len() {
-        let model = create_k_means_model(clusters_count, iterations_count as u64, params.tolerance, &dataset, params.distance);
+        let model = create_k_means_model(clusters_count, iterations_count as u64, params.tolerance, &dataset, params.distance)?;
 
         let clustered_dataset = model.predict(dataset.clone());
         let score = match clustered_dataset.silhouette_score() {
-- 
2.43.0


From a35e3d2b5a543aa3e9c7465e454317da0f209e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:57 +0000
Subject: [PATCH 74/75] fix: rust: a wrong class extractor in clustering is an
 error, not a panic

---
 .../features/clustering/activities/activities_common.rs   | 4 ++--
 src/rust/ficus_backend/src/features/clustering/common.rs  | 7 ++++++-
 .../src/features/clustering/traces/dbscan.rs              | 8 ++++----
 3 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/rust/ficus_backend/src/features/clustering/activities/activities_common.rs b/src/rust/ficus_backend/src/features/clustering/activities/activities_common.rs
index e2e9b43..4b012ae 100644
--- a/src/rust/ficus_backend/src/features/clustering/activities/activities_common.rs
+++ b/src/rust/ficus_backend/src/features/clustering/activities/activities_common.rs
@@ -20,7 +20,7 @@ use crate::{
             repeat_sets::ActivityNode,
         },
         clustering::{
-            common::{scale_raw_dataset_min_max, MyDataset},
+            common::{create_regex_hasher, scale_raw_dataset_min_max, MyDataset},
             error::ClusteringError,
         },
     },
@@ -158,7 +158,7 @@ fn create_dataset_internal(
 ) -> Result<(MyDataset, ActivityNodeWithCoords, Vec<String>), ClusteringError> {
     let mut all_event_classes = HashSet::new();
     let regex_hasher = match class_extractor.as_ref() {
-        Some(class_extractor) => Some(RegexEventHasher::new(class_extractor).ok().unwrap()),
+        Some(class_extractor) => Some(create_regex_hasher(class_extractor)?),
         None => None,
     };
 
diff --git a/src/rust/ficus_backend/src/features/clustering/common.rs b/src/rust/ficus_backend/src/features/clustering/common.rs
index 4e370e0..bf73d03 100644
--- a/src/rust/ficus_backend/src/features/clustering/common.rs
+++ b/src/rust/ficus_backend/src/features/clustering/common.rs
@@ -2,7 +2,8 @@ use linfa::DatasetBase;
 use ndarray::{Array1, ArrayBase, Dim, OwnedRepr};
 
 use crate::{
-    event_log::core::event_log::EventLog,
+    event_log::core::{event::event_hasher::RegexEventHasher, event_log::EventLog},
+    features::clustering::error::ClusteringError,
     utils::{
         colors::{Color, ColorsHolder},
         dataset::dataset::FicusDataset,
@@ -63,6 +64,10 @@ pub fn scale_raw_dataset_min_max(vector: &mut Vec<f64>, objects_count: usize, fe
     }
 }
 
+pub(super) fn create_regex_hasher(class_extractor: &String) -> Result<RegexEventHasher, ClusteringError> {
+    RegexEventHasher::new(class_extractor).map_err(|_| ClusteringError::RawError(format!("Invalid class extractor: {}", class_extractor)))
+}
+
 pub fn create_cluster_name(cluster_index: usize) -> String {
     format!("CLUSTER_{}", cluster_index)
 }
diff --git a/src/rust/ficus_backend/src/features/clustering/traces/dbscan.rs b/src/rust/ficus_backend/src/features/clustering/traces/dbscan.rs
index c350249..64d1c75 100644
--- a/src/rust/ficus_backend/src/features/clustering/traces/dbscan.rs
+++ b/src/rust/ficus_backend/src/features/clustering/traces/dbscan.rs
@@ -11,14 +11,14 @@ use ndarray::Array2;
 
 use crate::{
     event_log::core::{
-        event::{event::Event, event_hasher::RegexEventHasher},
+        event::event::Event,
         event_log::EventLog,
         trace::trace::Trace,
     },
     features::{
         analysis::patterns::activity_instances::{create_vector_of_immediate_underlying_events, create_vector_of_underlying_events},
         clustering::{
-            common::{create_colors_vector, scale_raw_dataset_min_max, transform_to_ficus_dataset, MyDataset},
+            common::{create_colors_vector, create_regex_hasher, scale_raw_dataset_min_max, transform_to_ficus_dataset, MyDataset},
             error::ClusteringError,
         },
     },
@@ -129,7 +129,7 @@ fn create_traces_dataset_default_internal<TLog: EventLog>(
     trace_repr_creator: impl Fn(&TLog::TTrace) -> Vec<Rc<RefCell<TLog::TEvent>>>,
 ) -> Result<(MyDataset, Vec<String>, Vec<String>), ClusteringError> {
     let regex_hasher = match class_extractor.as_ref() {
-        Some(class_extractor) => Some(RegexEventHasher::new(class_extractor).ok().unwrap()),
+        Some(class_extractor) => Some(create_regex_hasher(class_extractor)?),
         None => None,
     };
 
@@ -205,7 +205,7 @@ fn create_traces_dataset_levenshtein_internal<TLog: EventLog>(
     trace_repr_creator: impl Fn(&TLog::TTrace) -> Vec<Rc<RefCell<TLog::TEvent>>>,
 ) -> Result<(MyDataset, Vec<String>, Vec<String>), ClusteringError> {
     let regex_hasher = match class_extractor.as_ref() {
-        Some(class_extractor) => Some(RegexEventHasher::new(class_extractor).ok().unwrap()),
+        Some(class_extractor) => Some(create_regex_hasher(class_extractor)?),
         None => None,
     };
 
-- 
2.43.0


From 3f17fa0828eed6195c18627c14d38cbf455d05dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:07 +0000
Subject: [PATCH 75/75] fix: a log with an empty trace does not equal a log
 without traces

---
 src/python/ficus/legacy/log/event_log.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/python/ficus/legacy/log/event_log.py b/src/python/ficus/legacy/log/event_log.py
index e7c1e9a..2cd923d 100644
--- a/src/python/ficus/legacy/log/event_log.py
+++ b/src/python/ficus/legacy/log/event_log.py
@@ -105,6 +105,7 @@ class MyEventLog(Sequence):
 
     def __hash__(self):
         current_hash = combine_list_of_hashes(list(map(hash, self.traces)))
+        current_hash = combine_two_hashes(current_hash, len(self.traces))
         current_hash = combine_two_hashes(current_hash, calculate_dict_hash(self.attributes))
         current_hash = combine_two_hashes(current_hash, calculate_dict_hash(self.extensions))
         current_hash = combine_two_hashes(current_hash, calculate_dict_hash(self.classifiers))
-- 
2.43.0

