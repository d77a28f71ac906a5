From dc90267c505649752455fe662682abfabe8eb81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:22 +0000
Subject: [PATCH 01/77] fix: read XES booleans by value (bool('False') is True)

---
 src/python/ficus/legacy/log/functions.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/python/ficus/legacy/log/functions.py b/src/python/ficus/legacy/log/functions.py
index 9b7ba89..33863db 100644
--- a/src/python/ficus/legacy/log/functions.py
+++ b/src/python/ficus/legacy/log/functions.py
@@ -124,12 +124,16 @@ def _parse_datetime(value: str):
     return parser.parse(value)
 
 
+def _parse_bool(value: str):
+    return value.strip().lower() in ('true', '1')
+
+
 parse_functions = {
     const_tag_string: str,
     const_tag_date: _parse_datetime,
     const_tag_int: int,
     const_tag_float: float,
-    const_tag_bool: bool
+    const_tag_bool: _parse_bool
 }
 
 
-- 
2.43.0


From f6fb1b96c88fa4de6662fcda55f366b4de2e80df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:22 +0000
Subject: [PATCH 02/77] fix: write XES log properties as typed key/value tags
 the reader understands

---
 src/python/ficus/legacy/log/functions.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/python/ficus/legacy/log/functions.py b/src/python/ficus/legacy/log/functions.py
index 33863db..e804f5c 100644
--- a/src/python/ficus/legacy/log/functions.py
+++ b/src/python/ficus/legacy/log/functions.py
@@ -237,9 +237,10 @@ def serialize_log_to_xes(log: MyEventLog) -> str:
         log_element.append(classifier_element)
 
     for key, value in log.properties.items():
-        property_element = ET.Element(const_tag_string)
-        property_element.attrib[key] = value
-        log_element.append(property_element)
+        if not _should_serialize_payload_key_value(key, value):
+            continue
+
+        log_element.append(_create_value_tag(key, value))
 
     for scope_name, scope_default_values in log.global_values.items():
         global_scope_element = ET.Element(const_tag_global)
-- 
2.43.0


From 5a4481116aa889a3fb49b933e7632be8a117d4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:22 +0000
Subject: [PATCH 03/77] fix: keep the type of XES global default values when
 reading and eliding them

---
 src/python/ficus/legacy/log/functions.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/python/ficus/legacy/log/functions.py b/src/python/ficus/legacy/log/functions.py
index e804f5c..d0189c5 100644
--- a/src/python/ficus/legacy/log/functions.py
+++ b/src/python/ficus/legacy/log/functions.py
@@ -80,8 +80,8 @@ def read_log_from_xes(path: str) -> MyEventLog:
                 log.global_values[scope] = {}
 
             for global_child in child:
-                attrs = global_child.attrib
-                log.global_values[scope][attrs[const_attr_key]] = attrs[const_attr_value]
+                if _is_value_tag(global_child):
+                    log.global_values[scope][global_child.attrib[const_attr_key]] = _parse_value_tag(global_child)
 
             continue
 
@@ -246,7 +246,8 @@ def serialize_log_to_xes(log: MyEventLog) -> str:
         global_scope_element = ET.Element(const_tag_global)
         global_scope_element.attrib[const_scope] = scope_name
         for name, value in scope_default_values.items():
-            global_scope_element.append(_create_value_tag(name, value))
+            if _should_serialize_payload_key_value(name, value):
+                global_scope_element.append(_create_value_tag(name, value))
 
         log_element.append(global_scope_element)
 
@@ -294,7 +295,8 @@ def _check_if_default_value(log: MyEventLog,
     if key not in defaults[entity_name]:
         return False
 
-    return defaults[entity_name][key] == value
+    default_value = defaults[entity_name][key]
+    return type(default_value) == type(value) and default_value == value
 
 
 def save_event_log_to_xes(log: MyEventLog, save_path: str):
-- 
2.43.0


From 0d95615c84bea6371eab1af565c5f025978c0685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:22 +0000
Subject: [PATCH 04/77] fix: save XES to a bare file name and always as UTF-8

---
 src/python/ficus/legacy/log/functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/ficus/legacy/log/functions.py b/src/python/ficus/legacy/log/functions.py
index d0189c5..4bb643c 100644
--- a/src/python/ficus/legacy/log/functions.py
+++ b/src/python/ficus/legacy/log/functions.py
@@ -301,8 +301,8 @@ def _check_if_default_value(log: MyEventLog,
 
 def save_event_log_to_xes(log: MyEventLog, save_path: str):
     log_xes_string = serialize_log_to_xes(log)
-    os.makedirs(os.path.dirname(save_path), exist_ok=True)
-    with open(save_path, 'w') as fout:
+    os.makedirs(os.path.dirname(save_path) or '.', exist_ok=True)
+    with open(save_path, 'w', encoding='utf-8') as fout:
         fout.write(log_xes_string)
 
 
-- 
2.43.0


From 86a16d8f9e2d61a87aab27f248707d80f0831532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:22 +0000
Subject: [PATCH 05/77] fix: copies of traces and logs keep trace attributes
 and global values

---
 src/python/ficus/legacy/log/event_log.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/python/ficus/legacy/log/event_log.py b/src/python/ficus/legacy/log/event_log.py
index 574d755..e7c1e9a 100644
--- a/src/python/ficus/legacy/log/event_log.py
+++ b/src/python/ficus/legacy/log/event_log.py
@@ -79,10 +79,10 @@ class MyTrace(MyEventsSequence):
         self.attributes = attributes if attributes is not None else {}
 
     def __copy__(self):
-        return MyTrace(copy.copy(self.raw_events))
+        return MyTrace(copy.copy(self.raw_events), dict(self.attributes))
 
     def __deepcopy__(self, memodict={}):
-        return MyTrace(copy.deepcopy(self.raw_events))
+        return MyTrace(copy.deepcopy(self.raw_events), deep_copy_dict(self.attributes))
 
 
 class MyEventLog(Sequence):
@@ -131,11 +131,13 @@ class MyEventLog(Sequence):
                           attributes=dict(self.attributes),
                           extensions=dict(self.extensions),
                           classifiers=dict(self.classifiers),
-                          properties=dict(self.properties))
+                          properties=dict(self.properties),
+                          global_values=dict(self.global_values))
 
     def __deepcopy__(self, memodict={}):
         return MyEventLog(traces=[copy.deepcopy(trace) for trace in self.traces],
                           attributes=deep_copy_dict(self.attributes),
                           extensions=deep_copy_dict(self.extensions),
                           classifiers=deep_copy_dict(self.classifiers),
-                          properties=deep_copy_dict(self.properties))
+                          properties=deep_copy_dict(self.properties),
+                          global_values=deep_copy_dict(self.global_values))
-- 
2.43.0


From e5f1f9734b1b1272979e005fcf0ea13416ef7ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:42 +0000
Subject: [PATCH 06/77] fix: use a hash base above any code point, so short
 names like 'aA' and 'BB' do not collide

---
 src/python/ficus/legacy/util.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/python/ficus/legacy/util.py b/src/python/ficus/legacy/util.py
index 5cb0bda..c2cbfeb 100644
--- a/src/python/ficus/legacy/util.py
+++ b/src/python/ficus/legacy/util.py
@@ -3,8 +3,9 @@ import random
 import time
 from typing import Any, Hashable, Callable
 
-mod = 10 ** 9 + 7
-p = 31
+mod = 2 ** 61 - 1
+p = 1114127
+collection_p = 1000000007
 concept_name = 'concept:name'
 time_timestamp = 'time:timestamp'
 lifecycle_transition = 'lifecycle:transition'
@@ -35,7 +36,7 @@ def calculate_poly_hash_for_collection(collection: list[Hashable],
     p_pow = 1
     for i in range(start_index, end_index):
         hash_so_far = (hash_so_far + (1 + hash(collection[i])) * p_pow) % mod
-        p_pow = (p_pow * p) % mod
+        p_pow = (p_pow * collection_p) % mod
 
     return hash_so_far
 
-- 
2.43.0


From 42476817e7bc7f70843e009667a16d6a26e4f89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:42 +0000
Subject: [PATCH 07/77] fix: compare events, traces and logs by content, equal
 hashes alone do not make them equal

---
 src/python/ficus/legacy/log/event_log.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/python/ficus/legacy/log/event_log.py b/src/python/ficus/legacy/log/event_log.py
index e7c1e9a..7c8eb66 100644
--- a/src/python/ficus/legacy/log/event_log.py
+++ b/src/python/ficus/legacy/log/event_log.py
@@ -32,7 +32,7 @@ class MyEvent:
         return calculate_dict_hash(self.payload)
 
     def __eq__(self, other):
-        return hash(self) == hash(other)
+        return isinstance(other, MyEvent) and hash(self) == hash(other) and self.payload == other.payload
 
     def __copy__(self):
         return MyEvent(dict(self.payload))
@@ -67,7 +67,8 @@ class MyEventsSequence(Sequence):
         return calculate_poly_hash_for_collection(self.raw_events)
 
     def __eq__(self, other):
-        return hash(self) == hash(other)
+        return (isinstance(other, MyEventsSequence) and hash(self) == hash(other) and
+                self.raw_events == other.raw_events)
 
     def __delitem__(self, key: int):
         del self.raw_events[key]
@@ -112,7 +113,12 @@ class MyEventLog(Sequence):
         return current_hash
 
     def __eq__(self, other):
-        return hash(self) == hash(other)
+        return (isinstance(other, MyEventLog) and hash(self) == hash(other) and
+                self.traces == other.traces and
+                self.attributes == other.attributes and
+                self.extensions == other.extensions and
+                self.classifiers == other.classifiers and
+                self.properties == other.properties)
 
     def __getitem__(self, item: int) -> MyTrace:
         return self.traces[item]
-- 
2.43.0


From c0f49c423605c361540f712ae88d1d874dfd0dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:33 +0000
Subject: [PATCH 08/77] fix: report a tandem array also when its block occurs
 earlier without being repeated there

---
 src/python/ficus/legacy/analysis/patterns/event_log_patterns.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/ficus/legacy/analysis/patterns/event_log_patterns.py b/src/python/ficus/legacy/analysis/patterns/event_log_patterns.py
index a0cb6e3..3c25cdd 100644
--- a/src/python/ficus/legacy/analysis/patterns/event_log_patterns.py
+++ b/src/python/ficus/legacy/analysis/patterns/event_log_patterns.py
@@ -34,9 +34,9 @@ def _find_maximal_tandem_arrays(traces: list[list[int]],
                 if sub_array_hash in visited:
                     continue
 
-                visited.add(sub_array_hash)
                 candidate_tandem_array = _try_extract_tandem_array(trace, i, length)
                 if candidate_tandem_array is not None:
+                    visited.add(sub_array_hash)
                     tandem_arrays.append(candidate_tandem_array)
 
         result.append(tandem_arrays)
-- 
2.43.0


From 2bd54f63a1ea2192f14a56a569dc0798d06a15c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:18 +0000
Subject: [PATCH 09/77] fix: a tandem array is not primitive only when its
 whole block is a repetition of a shorter block

---
 .../ficus/legacy/analysis/patterns/event_log_patterns.py  | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/python/ficus/legacy/analysis/patterns/event_log_patterns.py b/src/python/ficus/legacy/analysis/patterns/event_log_patterns.py
index 3c25cdd..2db31d9 100644
--- a/src/python/ficus/legacy/analysis/patterns/event_log_patterns.py
+++ b/src/python/ficus/legacy/analysis/patterns/event_log_patterns.py
@@ -80,8 +80,12 @@ def find_primitive_tandem_arrays(log: MyEventLog,
         trace_primitive_arrays = []
         for array in trace_arrays:
             is_primitive_array = True
-            for current_length in range(2, int((array.length + 1) / 2 + 1)):
-                if _try_extract_tandem_array(trace, array.first_pos, current_length):
+            for current_length in range(1 if array.length > 2 else 2, int(array.length / 2 + 1)):
+                if array.length % current_length != 0:
+                    continue
+
+                inner_array = _try_extract_tandem_array(trace, array.first_pos, current_length)
+                if inner_array is not None and inner_array.repeat_count * current_length >= array.length:
                     is_primitive_array = False
                     break
 
-- 
2.43.0


From b38983e68d81fe95223db12e6d99f5e96f7fb81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:40 +0000
Subject: [PATCH 10/77] fix: the position entropy in a log with a single
 non-empty trace is zero, not NaN

---
 src/python/ficus/legacy/analysis/event_log_analysis_entropy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/python/ficus/legacy/analysis/event_log_analysis_entropy.py b/src/python/ficus/legacy/analysis/event_log_analysis_entropy.py
index aac94d6..248c62f 100644
--- a/src/python/ficus/legacy/analysis/event_log_analysis_entropy.py
+++ b/src/python/ficus/legacy/analysis/event_log_analysis_entropy.py
@@ -220,6 +220,9 @@ def calculate_position_entropies_fast(log: MyEventLog,
 
 def _do_calculate_position_entropy(probabilities: np.array, traces_count: int) -> float:
     probabilities = probabilities[probabilities != 0]
+    if traces_count <= 1 or len(probabilities) == 0:
+        return 0.0
+
     logs = np.log(probabilities) / np.log(traces_count)
     return np.sum(-logs) / len(probabilities)
 
-- 
2.43.0


From e8050981876a0bc3da3e77f99bedf433fa128dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:40 +0000
Subject: [PATCH 11/77] fix: entropy filters stop when nothing removable is
 left instead of looping or raising

---
 .../legacy/filtering/event_log_filters.py      | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/python/ficus/legacy/filtering/event_log_filters.py b/src/python/ficus/legacy/filtering/event_log_filters.py
index da52672..fc05d83 100644
--- a/src/python/ficus/legacy/filtering/event_log_filters.py
+++ b/src/python/ficus/legacy/filtering/event_log_filters.py
@@ -17,7 +17,7 @@ def next_removal_default_entropy_indirect(log: MyEventLog,
 
     entropies = calculate_laplace_or_default_entropies(log, laplace=laplace)
     sorted_entropies = list(sorted(entropies.items(), key=lambda x: x[1]))
-    top = sorted_entropies[len(sorted_entropies) - int(len(sorted_entropies) * top_percent):]
+    top = sorted_entropies[-max(1, int(len(sorted_entropies) * top_percent)):]
 
     for key, _ in top:
         if untouchable_event_func(key):
@@ -47,6 +47,9 @@ def filter_events_default_entropy_indirect(log: MyEventLog,
 
         min_event_name, min_sum_entropy = next_removal_default_entropy_indirect(log, laplace, top_percent,
                                                                                 untouchable_event_func)
+        if min_event_name is None:
+            return log
+
         print(f'Removing {min_event_name} with entropy {min_sum_entropy}')
         log = remove_event_from_log(log, min_event_name)
 
@@ -58,6 +61,9 @@ def filter_events_default_entropy_indirect(log: MyEventLog,
 def _determine_next_event_to_remove_direct(log: MyEventLog,
                                            metric_func: Callable[[MyEventLog], dict[str, float]]) -> (str, float):
     metrics_for_events = metric_func(log)
+    if len(metrics_for_events) == 0:
+        return None, 0
+
     event_name = max(metrics_for_events, key=metrics_for_events.get)
     return event_name, metrics_for_events[event_name]
 
@@ -73,7 +79,7 @@ def _do_filter_by_metric_direct(log: MyEventLog,
 
         event_name, metric = _determine_next_event_to_remove_direct(log, metric_func)
 
-        if metric > threshold:
+        if event_name is not None and metric > threshold:
             print(f'Removing {event_name} with metric {metric}')
             log = remove_event_from_log(log, event_name)
             removed_events_count += 1
@@ -98,6 +104,8 @@ def _do_filter_by_metric_direct_till_end(log: MyEventLog,
 
         metric_before_removal = sum(metric_func(log).values())
         event_name, metric = _determine_next_event_to_remove_direct(log, metric_func)
+        if event_name is None:
+            break
 
         if metric_kind == TillEndFilteringMetricKind.BeforeOnly:
             removals.append((event_name, metric_before_removal))
@@ -201,6 +209,9 @@ def filter_events_pos_entropy_indirect(log: MyEventLog,
         min_event_name, min_entropy = next_event_remove_pos_entropy_indirect(log, trace_counts, info, positions,
                                                                              untouchable_event_func)
 
+        if min_event_name is None:
+            return log
+
         print(f'Removing event {min_event_name} with resulting log entropy {min_entropy}')
         log = remove_event_from_log(log, min_event_name)
 
@@ -224,6 +235,9 @@ def filter_events_pos_entropy_indirect_till_end(log: MyEventLog,
         min_event_name, min_entropy = next_event_remove_pos_entropy_indirect(log, trace_counts, info, positions,
                                                                              untouchable_event_func)
 
+        if min_event_name is None:
+            break
+
         print(f'Removing event {min_event_name} with resulting log entropy {min_entropy}')
         if metric_kind == TillEndFilteringMetricKind.BeforeOnly:
             removals.append((min_event_name, pos_entropy_before_removal))
-- 
2.43.0


From fc353fdab507881a90b555218ad5f3aa153c967b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:12 +0000
Subject: [PATCH 12/77] fix: activity discovery parts honour
 should_narrow_activity

---
 src/python/ficus/legacy/pipelines/analysis/high_level.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/python/ficus/legacy/pipelines/analysis/high_level.py b/src/python/ficus/legacy/pipelines/analysis/high_level.py
index 8f51896..653bbad 100644
--- a/src/python/ficus/legacy/pipelines/analysis/high_level.py
+++ b/src/python/ficus/legacy/pipelines/analysis/high_level.py
@@ -56,7 +56,8 @@ class DiscoverActivitiesFromTandemArrays(DiscoverActivitiesBase):
             ),
             PrintActivities(self.debug_prints),
             DiscoverActivitiesInTraces(self.class_extractor,
-                                       activity_in_trace_filter=self.activity_in_trace_filter),
+                                       activity_in_trace_filter=self.activity_in_trace_filter,
+                                       should_narrow_activity=self.should_narrow_activity),
         )(current_input)
 
 
@@ -91,7 +92,8 @@ class DiscoverActivitiesInstancesFromRepeats(DiscoverActivitiesBase):
             ),
             PrintActivities(self.debug_prints),
             DiscoverActivitiesInTraces(self.class_extractor,
-                                       activity_in_trace_filter=self.activity_in_trace_filter),
+                                       activity_in_trace_filter=self.activity_in_trace_filter,
+                                       should_narrow_activity=self.should_narrow_activity),
         )(current_input)
 
 
-- 
2.43.0


From 981fc947bc43d4fe2cd9308efe7ce7809b208b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:56 +0000
Subject: [PATCH 13/77] fix: adding activities of unattached events does not
 extend a list shared with other contexts

---
 src/python/ficus/legacy/pipelines/analysis/high_level.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/python/ficus/legacy/pipelines/analysis/high_level.py b/src/python/ficus/legacy/pipelines/analysis/high_level.py
index 653bbad..bc721dc 100644
--- a/src/python/ficus/legacy/pipelines/analysis/high_level.py
+++ b/src/python/ficus/legacy/pipelines/analysis/high_level.py
@@ -130,8 +130,7 @@ class AdjustWithActivitiesFromUnattachedEvents(InternalPipelinePart):
 
         def output_merger(initial_input: PipelinePartResult, temp_output: PipelinePartResult) -> PipelinePartResult:
             old_activities = activities(initial_input) if initial_input.has_value(activities_key) else []
-            old_activities.extend(activities(temp_output))
-            return initial_input.with_activities(old_activities)
+            return initial_input.with_activities(old_activities + activities(temp_output))
 
         if not current_input.has_value(traces_activities_key):
             current_input = current_input.with_trace_activities([[] for _ in log(current_input)])
-- 
2.43.0


From 4e8b177482d7910d8be47f1f8ab0a56195c5c633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:43 +0000
Subject: [PATCH 14/77] fix: entropy filters remove nothing when no removals
 are allowed

---
 .../ficus/legacy/filtering/event_log_filters.py     | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/python/ficus/legacy/filtering/event_log_filters.py b/src/python/ficus/legacy/filtering/event_log_filters.py
index fc05d83..0511e53 100644
--- a/src/python/ficus/legacy/filtering/event_log_filters.py
+++ b/src/python/ficus/legacy/filtering/event_log_filters.py
@@ -39,7 +39,7 @@ def filter_events_default_entropy_indirect(log: MyEventLog,
                                            untouchable_event_func=default_untouchable_func) -> MyEventLog:
     removed_events_count = 0
     while True:
-        if len(log) == 0:
+        if len(log) == 0 or removed_events_count >= max_events_to_remove:
             return log
 
         if calculate_default_entropy_average(log, laplace) <= threshold:
@@ -54,8 +54,6 @@ def filter_events_default_entropy_indirect(log: MyEventLog,
         log = remove_event_from_log(log, min_event_name)
 
         removed_events_count += 1
-        if removed_events_count >= max_events_to_remove:
-            return log
 
 
 def _determine_next_event_to_remove_direct(log: MyEventLog,
@@ -74,7 +72,7 @@ def _do_filter_by_metric_direct(log: MyEventLog,
                                 max_events_to_delete: int = 1e9) -> MyEventLog:
     removed_events_count = 0
     while True:
-        if len(log) == 0:
+        if len(log) == 0 or removed_events_count >= max_events_to_delete:
             return log
 
         event_name, metric = _determine_next_event_to_remove_direct(log, metric_func)
@@ -83,8 +81,6 @@ def _do_filter_by_metric_direct(log: MyEventLog,
             print(f'Removing {event_name} with metric {metric}')
             log = remove_event_from_log(log, event_name)
             removed_events_count += 1
-            if removed_events_count == max_events_to_delete:
-                return log
         else:
             return log
 
@@ -199,6 +195,9 @@ def filter_events_pos_entropy_indirect(log: MyEventLog,
                                        untouchable_event_func=default_untouchable_func) -> MyEventLog:
     removed_events_count = 0
     while True:
+        if removed_events_count >= max_events_to_remove:
+            return log
+
         trace_counts = calculate_events_in_each_trace(log)
         info = create_log_information(log)
         positions = create_events_positions(log)
@@ -216,8 +215,6 @@ def filter_events_pos_entropy_indirect(log: MyEventLog,
         log = remove_event_from_log(log, min_event_name)
 
         removed_events_count += 1
-        if removed_events_count >= max_events_to_remove:
-            return log
 
 
 def filter_events_pos_entropy_indirect_till_end(log: MyEventLog,
-- 
2.43.0


From 459694f7d80da9a8656a51a1d3a371c614217c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:23 +0000
Subject: [PATCH 15/77] fix: split traces into variants by event names, not by
 hashes of the names

---
 src/python/ficus/legacy/analysis/event_log_split.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/python/ficus/legacy/analysis/event_log_split.py b/src/python/ficus/legacy/analysis/event_log_split.py
index 5c7244a..86a6879 100644
--- a/src/python/ficus/legacy/analysis/event_log_split.py
+++ b/src/python/ficus/legacy/analysis/event_log_split.py
@@ -33,15 +33,15 @@ def split_log_by_traces(log: MyEventLog) -> list[list[MyTrace]]:
                     continue
 
                 all_groups_has_one_trace = False
-                hashes2traces = dict()
+                names2traces = dict()
                 for trace in group:
-                    hash_code = calculate_string_poly_hash(trace[index][concept_name])
-                    if hash_code in hashes2traces:
-                        hashes2traces[hash_code].append(trace)
+                    name = trace[index][concept_name]
+                    if name in names2traces:
+                        names2traces[name].append(trace)
                     else:
-                        hashes2traces[hash_code] = [trace]
+                        names2traces[name] = [trace]
 
-                for _, new_group in hashes2traces.items():
+                for _, new_group in names2traces.items():
                     new_groups.append(new_group)
 
             if all_groups_has_one_trace:
-- 
2.43.0


From 7bf4e0ab953b1caa7fa60659049d92610e930cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:29 +0000
Subject: [PATCH 16/77] fix: promotion of activity instances looks at the log
 the activity was discovered in

The repeat an activity came from is addressed by positions of the log used for
discovery (merged or unattached events), not of the log the activity logs are
created from.
---
 .../legacy/analysis/patterns/event_log_patterns.py | 14 ++++++++++----
 .../legacy/analysis/patterns/patterns_models.py    |  5 ++++-
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/python/ficus/legacy/analysis/patterns/event_log_patterns.py b/src/python/ficus/legacy/analysis/patterns/event_log_patterns.py
index 2db31d9..d939315 100644
--- a/src/python/ficus/legacy/analysis/patterns/event_log_patterns.py
+++ b/src/python/ficus/legacy/analysis/patterns/event_log_patterns.py
@@ -172,14 +172,16 @@ def build_repeat_set_tree(log: MyEventLog,
                           activity_level: int,
                           event_class_extractor: ClassExtractor = default_class_extractor) -> list[ActivityNode]:
     hash_traces = _create_hashes_traces_with_selector(log, event_class_extractor)
-    return _do_build_repeat_set_tree(hash_traces,
+    return _do_build_repeat_set_tree(log,
+                                     hash_traces,
                                      repeat_sets=repeat_sets,
                                      activity_names_creator=activity_names_creator,
                                      class_extractor=event_class_extractor,
                                      activity_level=activity_level)
 
 
-def _do_build_repeat_set_tree(hashes_traces: list[list[int]],
+def _do_build_repeat_set_tree(log: MyEventLog,
+                              hashes_traces: list[list[int]],
                               repeat_sets: list[SubArrayWithTraceIndex],
                               activity_names_creator: Callable[[SubArrayWithTraceIndex], str],
                               class_extractor: ClassExtractor,
@@ -194,7 +196,8 @@ def _do_build_repeat_set_tree(hashes_traces: list[list[int]],
                             repeat_set=r_set,
                             set_of_events=events,
                             class_extractor=class_extractor,
-                            activity_level=activity_level)
+                            activity_level=activity_level,
+                            repeat_events=_find_events_for_repeat_set(log, r_set))
 
     if len(repeat_sets) == 0:
         return []
@@ -654,7 +657,10 @@ def create_logs_for_activities_with_promote(log: MyEventLog,
             extractor = class_extractors[desired_activity_level] if adjust_events_to_max_level else default_class_extractor
             return _create_trace_for_activity(trace, info, extractor)
 
-        repeat_events = _find_events_for_repeat_set(log, info.node.repeat_set)
+        repeat_events = info.node.repeat_events
+        if repeat_events is None:
+            repeat_events = _find_events_for_repeat_set(log, info.node.repeat_set)
+
         this_activity_events_orig = trace[info.start_pos:(info.start_pos + info.length)]
         this_activity_events_copy = list(map(copy.copy, this_activity_events_orig))
         for extractor in class_extractors[level:(desired_activity_level + 1)]:
diff --git a/src/python/ficus/legacy/analysis/patterns/patterns_models.py b/src/python/ficus/legacy/analysis/patterns/patterns_models.py
index d85006d..6febb94 100644
--- a/src/python/ficus/legacy/analysis/patterns/patterns_models.py
+++ b/src/python/ficus/legacy/analysis/patterns/patterns_models.py
@@ -3,6 +3,7 @@ from enum import Enum
 
 from ..type_aliases import ClassExtractor
 from ...analysis.common.common_models import SubArrayInEventLog, GraphNode
+from ...log.event_log import MyEvent
 from ...util import calculate_string_poly_hash
 
 
@@ -29,7 +30,8 @@ class ActivityNode(GraphNode):
                  repeat_set: SubArrayWithTraceIndex,
                  set_of_events: set[int],
                  class_extractor: ClassExtractor,
-                 activity_level: int):
+                 activity_level: int,
+                 repeat_events: list[MyEvent] = None):
         super().__init__(name)
         self.activity_level = activity_level
         self.name = name
@@ -37,6 +39,7 @@ class ActivityNode(GraphNode):
         self.repeat_set: SubArrayWithTraceIndex = repeat_set
         self.set_of_events: set[int] = set_of_events
         self.length = len(self.set_of_events)
+        self.repeat_events = repeat_events
 
         global unique_activity_node_index
         self._unique_index = unique_activity_node_index
-- 
2.43.0


From 02143b3f45ec67563843f72b60b088e3e56788b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:51 +0000
Subject: [PATCH 17/77] fix: logs of promoted activity instances hold copies of
 the events, not the events of the log itself

---
 src/python/ficus/legacy/analysis/patterns/event_log_patterns.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/ficus/legacy/analysis/patterns/event_log_patterns.py b/src/python/ficus/legacy/analysis/patterns/event_log_patterns.py
index d939315..a1a0e32 100644
--- a/src/python/ficus/legacy/analysis/patterns/event_log_patterns.py
+++ b/src/python/ficus/legacy/analysis/patterns/event_log_patterns.py
@@ -676,7 +676,7 @@ def create_logs_for_activities_with_promote(log: MyEventLog,
 
         if repeat_event_classes_set == this_activity_event_classes_set:
             new_trace = MyTrace()
-            for event in this_activity_events_orig if not adjust_events_to_max_level else this_activity_events_copy:
+            for event in map(copy.copy, this_activity_events_orig) if not adjust_events_to_max_level else this_activity_events_copy:
                 new_trace.append(event)
 
             return new_trace
-- 
2.43.0


From 5ff3fe4c768c16007175780c89f795b0ef944017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:01 +0000
Subject: [PATCH 18/77] fix: edges of activity and class graphs lead to the
 nodes whose names contain colons

graphviz takes the text after a colon of an edge end for a port, so with the
default activity names (A::B) edges led to nodes that do not exist.
---
 .../ficus/legacy/analysis/patterns/patterns_graphs.py     | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py b/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
index ccc894f..cd1034c 100644
--- a/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
+++ b/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
@@ -212,18 +212,22 @@ def build_graph(nodes: list[GraphNode],
     graph = graphviz.Digraph(graph_name)
     added_names = set()
 
+    def add_edge(current_graph: graphviz.Digraph, name: str, parent_name: str):
+        # Digraph.edge would take everything after a colon, which activities names contain, for a port of the node
+        current_graph.body.append(f'\t{graphviz.quoting.quote(name)} -> {graphviz.quoting.quote(parent_name)}\n')
+
     def add_node(current_graph: graphviz.Digraph, parent_node: str, node: GraphNode):
         name = node_name_creator(node)
         if name in added_names:
             if parent_node is not None:
-                current_graph.edge(name, parent_node)
+                add_edge(current_graph, name, parent_node)
 
             return
 
         added_names.add(name)
 
         if parent_node is not None:
-            current_graph.edge(name, parent_node)
+            add_edge(current_graph, name, parent_node)
 
         current_graph.node(name)
         for child_activity in node.child_nodes:
-- 
2.43.0


From a6d9f620376de351a4995c61bcb5b4bfabfbf8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:57 +0000
Subject: [PATCH 19/77] fix: executing a remote pipeline does not remove the
 backend address from the caller's context

---
 src/python/ficus/grpc_pipelines/grpc_pipelines.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/python/ficus/grpc_pipelines/grpc_pipelines.py b/src/python/ficus/grpc_pipelines/grpc_pipelines.py
index 1b267ca..2b1ab1f 100644
--- a/src/python/ficus/grpc_pipelines/grpc_pipelines.py
+++ b/src/python/ficus/grpc_pipelines/grpc_pipelines.py
@@ -29,8 +29,7 @@ class Pipeline2:
                    ('grpc.max_receive_message_length', 512 * 1024 * 1024)]
 
         addr = initial_context[ficus_backend_addr_key] if ficus_backend_addr_key in initial_context else 'localhost:8080'
-        if ficus_backend_addr_key in initial_context:
-            del initial_context[ficus_backend_addr_key]
+        initial_context = {key: value for key, value in initial_context.items() if key != ficus_backend_addr_key}
 
         with grpc.insecure_channel(addr, options=options) as channel:
             stub = GrpcBackendServiceStub(channel)
-- 
2.43.0


From f90d63b961af747cdbed39efff68a8c0c5f46478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:57 +0000
Subject: [PATCH 20/77] fix: a stream of results without any message does not
 raise AttributeError

---
 src/python/ficus/grpc_pipelines/grpc_pipelines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/ficus/grpc_pipelines/grpc_pipelines.py b/src/python/ficus/grpc_pipelines/grpc_pipelines.py
index 2b1ab1f..7ee650f 100644
--- a/src/python/ficus/grpc_pipelines/grpc_pipelines.py
+++ b/src/python/ficus/grpc_pipelines/grpc_pipelines.py
@@ -70,7 +70,7 @@ class Pipeline2:
                 if last_result.HasField('logMessage'):
                     print(part_result.logMessage.message)
 
-            if last_result.finalResult.HasField('success'):
+            if last_result is not None and last_result.finalResult.HasField('success'):
                 guid = last_result.finalResult.success
                 stub.DropExecutionResult(guid)
 
-- 
2.43.0


From dce754ef6a1c67c7c2797757a55a4c481b1b0f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:57 +0000
Subject: [PATCH 21/77] fix: event log info is encoded as a context value

---
 src/python/ficus/grpc_pipelines/context_values.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/python/ficus/grpc_pipelines/context_values.py b/src/python/ficus/grpc_pipelines/context_values.py
index 7961876..f9dbca8 100644
--- a/src/python/ficus/grpc_pipelines/context_values.py
+++ b/src/python/ficus/grpc_pipelines/context_values.py
@@ -120,9 +120,9 @@ class EventLogInfo(ContextValue):
     traces_count: int
 
     def to_grpc_context_value(self) -> GrpcContextValue:
-        return GrpcEventLogInfo(events_count=self.events_count,
-                                traces_count=self.traces_count,
-                                event_classes_count=self.event_classes_count)
+        return GrpcContextValue(event_log_info=GrpcEventLogInfo(events_count=self.events_count,
+                                                                traces_count=self.traces_count,
+                                                                event_classes_count=self.event_classes_count))
 
 
 def from_grpc_colors_log(grpc_colors_log: GrpcColorsEventLog) -> list[list[ColoredRectangle]]:
-- 
2.43.0


From 5dc2606cf7aa8f2336c59f6f75a36764773ec16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:25 +0000
Subject: [PATCH 22/77] fix: markings absent from a petri net message are
 absent from the petri net

---
 src/python/ficus/grpc_pipelines/context_values.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/python/ficus/grpc_pipelines/context_values.py b/src/python/ficus/grpc_pipelines/context_values.py
index f9dbca8..f0e5cde 100644
--- a/src/python/ficus/grpc_pipelines/context_values.py
+++ b/src/python/ficus/grpc_pipelines/context_values.py
@@ -162,8 +162,11 @@ def from_grpc_petri_net(grpc_petri_net: GrpcPetriNet) -> 'PetriNet':
         transition = from_grpc_transition(grpc_transition)
         petri_net.transitions[transition.id] = transition
 
-    petri_net.initial_marking = try_from_grpc_marking(grpc_petri_net.initial_marking)
-    petri_net.final_marking = try_from_grpc_marking(grpc_petri_net.final_marking)
+    if grpc_petri_net.HasField('initial_marking'):
+        petri_net.initial_marking = try_from_grpc_marking(grpc_petri_net.initial_marking)
+
+    if grpc_petri_net.HasField('final_marking'):
+        petri_net.final_marking = try_from_grpc_marking(grpc_petri_net.final_marking)
 
     return petri_net
 
-- 
2.43.0


From fa5f0a4ac07d3b92232770b2fbcdb2c41b55ef5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:25 +0000
Subject: [PATCH 23/77] fix: PrintEventlogInfoBeforeAfter can be sent to the
 backend and receives its values

---
 src/python/ficus/grpc_pipelines/util_parts.py | 21 +++++++++----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/python/ficus/grpc_pipelines/util_parts.py b/src/python/ficus/grpc_pipelines/util_parts.py
index f90addb..abadd28 100644
--- a/src/python/ficus/grpc_pipelines/util_parts.py
+++ b/src/python/ficus/grpc_pipelines/util_parts.py
@@ -1,5 +1,5 @@
 from .constants import const_use_names_event_log, const_names_event_log, const_get_names_event_log, \
-    const_pipeline
+    const_pipeline, const_execute_frontend_part
 from .grpc_pipelines import PipelinePart2, _create_default_pipeline_part, PipelinePart2WithCallback, \
     _create_complex_get_context_part, Pipeline2, append_pipeline_value, PrintEventLogInfo2
 from .models.pipelines_and_context_pb2 import GrpcPipelinePartBase, GrpcPipelinePartConfiguration, \
@@ -26,19 +26,18 @@ class PrintEventlogInfoBeforeAfter(PipelinePart2):
     def __init__(self, inner_pipeline: Pipeline2):
         super().__init__()
         self.inner_pipeline = inner_pipeline
+        self.print_before = PrintEventLogInfo2()
+        self.print_after = PrintEventLogInfo2()
 
     def to_grpc_part(self) -> GrpcPipelinePartBase:
         config = GrpcPipelinePartConfiguration()
+        append_pipeline_value(config, const_pipeline, self._create_pipeline())
 
-        pipeline = Pipeline2(
-            PrintEventLogInfo2(),
-        )
+        return GrpcPipelinePartBase(defaultPart=_create_default_pipeline_part(const_execute_frontend_part, config))
 
-        for part in self.inner_pipeline.parts:
-            pipeline.parts.append(part)
+    def append_parts_with_callbacks(self, parts: list['PipelinePart2WithCallback']):
+        super().append_parts_with_callbacks(parts)
+        self._create_pipeline().append_parts_with_callbacks(parts)
 
-        pipeline.parts.append(PrintEventLogInfo2())
-
-        append_pipeline_value(config, const_pipeline, pipeline)
-
-        return GrpcPipelinePartBase(defaultPart=_create_default_pipeline_part())
+    def _create_pipeline(self) -> Pipeline2:
+        return Pipeline2(self.print_before, *self.inner_pipeline.parts, self.print_after)
-- 
2.43.0


From e76e192ec09a9cff3d71bfe6db722a49e7a4c6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:25 +0000
Subject: [PATCH 24/77] fix: DiscoverActivitiesUntilNoMore2 sends the tandem
 array length the backend reads

---
 src/python/ficus/grpc_pipelines/activities_parts.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/python/ficus/grpc_pipelines/activities_parts.py b/src/python/ficus/grpc_pipelines/activities_parts.py
index bfcde4f..f2079ed 100644
--- a/src/python/ficus/grpc_pipelines/activities_parts.py
+++ b/src/python/ficus/grpc_pipelines/activities_parts.py
@@ -180,6 +180,7 @@ class DiscoverActivitiesUntilNoMore2(PipelinePart2):
         append_undef_activity_handling_strat(config, const_undef_activity_handling_strategy, self.undef_strategy)
         append_activity_filter_kind(config, const_activity_filter_kind, self.activity_filter_kind)
         append_bool_value(config, const_execute_only_on_last_extraction, self.execute_only_on_last_extraction)
+        append_uint32_value(config, const_tandem_array_length, self.max_array_length)
 
         if self.event_class is not None:
             append_string_value(config, const_event_class_regex, self.event_class)
-- 
2.43.0


From cf97240b79feefda0f698a1d9e311b5aa1b98ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:08 +0000
Subject: [PATCH 25/77] fix: drawings can be exported to a file name without a
 directory

---
 src/python/ficus/legacy/analysis/event_log_analysis.py | 2 +-
 src/python/ficus/legacy/discovery/petri_net.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/ficus/legacy/analysis/event_log_analysis.py b/src/python/ficus/legacy/analysis/event_log_analysis.py
index 67be375..e7fa784 100644
--- a/src/python/ficus/legacy/analysis/event_log_analysis.py
+++ b/src/python/ficus/legacy/analysis/event_log_analysis.py
@@ -181,7 +181,7 @@ def _draw_traces_diversity_like_diagram_internal(log: Union[MyEventLog, list[lis
     if save_path is None:
         current_figure.show()
     else:
-        os.makedirs(os.path.dirname(save_path), exist_ok=True)
+        os.makedirs(os.path.dirname(save_path) or '.', exist_ok=True)
         current_figure.savefig(save_path, bbox_inches='tight', dpi=150)
         plt.close(current_figure)
 
diff --git a/src/python/ficus/legacy/discovery/petri_net.py b/src/python/ficus/legacy/discovery/petri_net.py
index f732f2d..fde4a55 100644
--- a/src/python/ficus/legacy/discovery/petri_net.py
+++ b/src/python/ficus/legacy/discovery/petri_net.py
@@ -69,7 +69,7 @@ def _draw_graph_like_formalism(draw_func: Callable[[graphviz.Digraph], None],
         display(g)
     else:
         dir_name = os.path.dirname(export_path)
-        if not os.path.exists(dir_name):
+        if dir_name != '' and not os.path.exists(dir_name):
             os.makedirs(dir_name, exist_ok=True)
 
         _, extension = os.path.splitext(export_path)
-- 
2.43.0


From 10a8728df91a6dab2eaebf74917e2a0717fe3a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:08 +0000
Subject: [PATCH 26/77] fix: names in drawn petri nets and graphs are not
 interpreted as markup

---
 src/python/ficus/legacy/discovery/graph.py     | 4 ++--
 src/python/ficus/legacy/discovery/petri_net.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/python/ficus/legacy/discovery/graph.py b/src/python/ficus/legacy/discovery/graph.py
index 1a246d0..9fbcc83 100644
--- a/src/python/ficus/legacy/discovery/graph.py
+++ b/src/python/ficus/legacy/discovery/graph.py
@@ -29,10 +29,10 @@ def draw_graph(graph: Graph,
                rankdir: str = 'LR'):
     def draw_func(g: graphviz.Digraph):
         for node in graph.nodes:
-            g.node(str(node.id), label=node.data, style='filled', border='1', shape='circle')
+            g.node(str(node.id), label=graphviz.escape(node.data or ''), style='filled', border='1', shape='circle')
 
         for edge in graph.edges:
-            g.edge(str(edge.from_node), str(edge.to_node), edge.data)
+            g.edge(str(edge.from_node), str(edge.to_node), graphviz.escape(edge.data or ''))
 
     _draw_graph_like_formalism(draw_func,
                                name=name,
diff --git a/src/python/ficus/legacy/discovery/petri_net.py b/src/python/ficus/legacy/discovery/petri_net.py
index fde4a55..8097a3a 100644
--- a/src/python/ficus/legacy/discovery/petri_net.py
+++ b/src/python/ficus/legacy/discovery/petri_net.py
@@ -102,11 +102,11 @@ def draw_petri_net(net: PetriNet,
             elif place.id in final_marking_places:
                 g.node(str(place.id), '<&#9679;>', style='filled', border='1', shape='doublecircle')
             else:
-                label = place.name if show_places_names else ''
+                label = graphviz.escape(place.name) if show_places_names else ''
                 g.node(str(place.id), label=label, style='filled', border='1', shape='circle')
 
         for transition in net.transitions.values():
-            g.node(str(transition.id), label=transition.data, shape='box')
+            g.node(str(transition.id), label=graphviz.escape(transition.data or ''), shape='box')
 
         for transition in net.transitions.values():
             for arc in transition.incoming_arcs:
-- 
2.43.0


From af284946ee77f55f6593bba7bce08db07db8b574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:08 +0000
Subject: [PATCH 27/77] fix: activity and class graphs contain the children of
 all nodes which share a name

---
 .../legacy/analysis/patterns/patterns_graphs.py  | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py b/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
index cd1034c..03aeab0 100644
--- a/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
+++ b/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
@@ -211,6 +211,7 @@ def build_graph(nodes: list[GraphNode],
                 set_attributes_to_func: Callable[[graphviz.Digraph], None] = default_graph_attr_setter):
     graph = graphviz.Digraph(graph_name)
     added_names = set()
+    visited_nodes = set()
 
     def add_edge(current_graph: graphviz.Digraph, name: str, parent_name: str):
         # Digraph.edge would take everything after a colon, which activities names contain, for a port of the node
@@ -218,18 +219,19 @@ def build_graph(nodes: list[GraphNode],
 
     def add_node(current_graph: graphviz.Digraph, parent_node: str, node: GraphNode):
         name = node_name_creator(node)
-        if name in added_names:
-            if parent_node is not None:
-                add_edge(current_graph, name, parent_node)
+        if parent_node is not None:
+            add_edge(current_graph, name, parent_node)
 
+        # different nodes can have the same name, each of them has its own children
+        if id(node) in visited_nodes:
             return
 
-        added_names.add(name)
+        visited_nodes.add(id(node))
 
-        if parent_node is not None:
-            add_edge(current_graph, name, parent_node)
+        if name not in added_names:
+            added_names.add(name)
+            current_graph.node(name)
 
-        current_graph.node(name)
         for child_activity in node.child_nodes:
             add_node(current_graph, name, child_activity)
 
-- 
2.43.0


From 1436f45153f85408b9a243c9dc3160d093e549b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:14 +0000
Subject: [PATCH 28/77] fix: different names never share a color in the
 diagrams of a pipeline, nor the color of undefined events

---
 .../ficus/legacy/analysis/event_log_analysis.py     |  5 +++--
 .../legacy/analysis/patterns/patterns_graphs.py     |  6 +++---
 src/python/ficus/legacy/util.py                     | 13 ++++++++++---
 3 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/python/ficus/legacy/analysis/event_log_analysis.py b/src/python/ficus/legacy/analysis/event_log_analysis.py
index e7fa784..ce08098 100644
--- a/src/python/ficus/legacy/analysis/event_log_analysis.py
+++ b/src/python/ficus/legacy/analysis/event_log_analysis.py
@@ -196,6 +196,7 @@ def _draw_traces_diversity_like_diagram(log: MyEventLog,
                                         colors_provider: Callable[[str], str] = None):
     if colors_provider is None:
         colors = random_unique_color_provider_instance
+        colors.exclude(cached_colors.values())
 
         def generate_color(_: str):
             return colors.next()
@@ -304,8 +305,8 @@ def draw_placements_of_events(log: MyEventLog,
                               height_scale: int = 1,
                               plot_legend: bool = True):
     colors_provider = random_unique_color_provider_instance
-    colors_provider.used_colors.add((0, 0, 0))
-    default_color = '#000000'
+    colors_provider.exclude(cached_colors.values())
+    default_color = undefined_color
 
     def generate_color(name: str) -> str:
         if events_predicate(name):
diff --git a/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py b/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
index 03aeab0..e5ae9a6 100644
--- a/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
+++ b/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
@@ -13,7 +13,7 @@ from ..common.common_models import GraphNode, SubArrayInEventLog
 from ..event_log_analysis import TraceDiversityLikeDiagramContext, _draw_traces_diversity_like_diagram_internal
 from ...analysis.patterns.patterns_models import ActivityInTraceInfo, ActivityNode, EventClassNode
 from ...log.event_log import MyEventLog
-from ...util import to_hex, calculate_poly_hash_for_collection, SingleColorProvider, \
+from ...util import undefined_color, calculate_poly_hash_for_collection, SingleColorProvider, \
     random_unique_color_provider_instance
 
 
@@ -86,13 +86,14 @@ def _sub_traces_draw_func(ctx: TraceDiversityLikeDiagramContext,
                           activities: list[list[SubTraceDrawingDto]],
                           draw_short_diagram: bool):
     real_colors_provider = random_unique_color_provider_instance
+    real_colors_provider.exclude(cached_colors.values())
 
     def colors_provider(name: str):
         if name in cached_colors:
             return cached_colors[name]
 
         if name == undefined_activity:
-            return to_hex((0, 0, 0))
+            return undefined_color
 
         generated_color = real_colors_provider.next()
         cached_colors[name] = generated_color
@@ -253,7 +254,6 @@ def draw_activity_placement_diagram(log: MyEventLog,
                                     save_path: str = None):
     def draw_func(ctx: TraceDiversityLikeDiagramContext):
         color_provider = random_unique_color_provider_instance if use_different_colors else SingleColorProvider()
-        undefined_color = to_hex((0, 0, 0))
         current_y = 0
         undefined_activity_name = 'UndefinedActivity'
 
diff --git a/src/python/ficus/legacy/util.py b/src/python/ficus/legacy/util.py
index c2cbfeb..8c36d5f 100644
--- a/src/python/ficus/legacy/util.py
+++ b/src/python/ficus/legacy/util.py
@@ -1,7 +1,7 @@
 import copy
 import random
 import time
-from typing import Any, Hashable, Callable
+from typing import Any, Hashable, Callable, Iterable
 
 mod = 2 ** 61 - 1
 p = 1114127
@@ -80,9 +80,13 @@ class ColorsProvider:
         raise NotImplementedError()
 
 
+# the color of everything what is not drawn with a color of its own
+undefined_color = '#000000'
+
+
 class RandomUniqueColorsProvider(ColorsProvider):
     def __init__(self):
-        self.used_colors = set()
+        self.used_colors = {undefined_color}
 
     def next(self) -> (int, int, int):
         if len(self.used_colors) == 256 ** 3:
@@ -95,8 +99,11 @@ class RandomUniqueColorsProvider(ColorsProvider):
         self.used_colors.add(color)
         return color
 
+    def exclude(self, colors: Iterable[str]):
+        self.used_colors.update(colors)
+
     def reset(self):
-        self.used_colors.clear()
+        self.used_colors = {undefined_color}
 
 
 random_unique_color_provider_instance = RandomUniqueColorsProvider()
-- 
2.43.0


From 7d624274ab3df24e8e1145dd5f7c9dbb06c7965b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:14 +0000
Subject: [PATCH 29/77] fix: the legend of activities diagrams contains
 undefined events at the end of traces

---
 src/python/ficus/legacy/analysis/patterns/patterns_graphs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py b/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
index e5ae9a6..8a2171f 100644
--- a/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
+++ b/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
@@ -151,6 +151,7 @@ def _sub_traces_draw_func(ctx: TraceDiversityLikeDiagramContext,
 
                 rect = plt.Rectangle((current_x, current_y), width, ctx.rect_height,
                                      fc=colors_provider(undefined_activity))
+                ctx.names_to_rects[undefined_activity] = rect
                 patches.append(rect)
 
             ctx.drawer.add_collection(PatchCollection(patches, match_original=True))
-- 
2.43.0


From 2da99fad90be1b37d78de2e027ef73090c48bf12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:20 +0000
Subject: [PATCH 30/77] fix: legends of diagrams contain names of events as
 they are

---
 .../legacy/analysis/event_log_analysis.py     | 21 +++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/python/ficus/legacy/analysis/event_log_analysis.py b/src/python/ficus/legacy/analysis/event_log_analysis.py
index ce08098..fd84b0a 100644
--- a/src/python/ficus/legacy/analysis/event_log_analysis.py
+++ b/src/python/ficus/legacy/analysis/event_log_analysis.py
@@ -122,6 +122,14 @@ class TraceDiversityLikeDiagramContext:
         self.height_scale = height_scale
 
 
+def _draw_legend(ax: axes.Axes, rects: list, names: list[str], **kwargs):
+    # names are arbitrary strings: matplotlib skips labels which start with '_' and takes text between '$' for a formula
+    legend = ax.legend(rects, [''] * len(names), **kwargs)
+    for text, name in zip(legend.get_texts(), names):
+        text.set_parse_math(False)
+        text.set_text(name)
+
+
 def _draw_traces_diversity_like_diagram_internal(log: Union[MyEventLog, list[list[ColoredRectangle]]],
                                                  draw_func: Callable[[TraceDiversityLikeDiagramContext], None],
                                                  title: str = None,
@@ -139,11 +147,12 @@ def _draw_traces_diversity_like_diagram_internal(log: Union[MyEventLog, list[lis
     draw_func(ctx)
 
     if plot_legend:
-        ax.legend(ctx.names_to_rects.values(),
-                  ctx.names_to_rects.keys(),
-                  loc='upper center',
-                  bbox_to_anchor=(0.5, -0.15),
-                  fontsize=20)
+        _draw_legend(ax,
+                     list(ctx.names_to_rects.values()),
+                     list(ctx.names_to_rects.keys()),
+                     loc='upper center',
+                     bbox_to_anchor=(0.5, -0.15),
+                     fontsize=20)
 
     y_ticks_count = len(log) * height_scale + 1
     y_ticks = ['' for _ in range(y_ticks_count)]
@@ -355,7 +364,7 @@ def draw_events_entropy_histogram(log: MyEventLog,
     keys = [f'{key} {entropies[key]}' for key, _, _ in lst]
     rects = [rect for _, rect, _ in lst]
 
-    ax.legend(rects, keys, loc='upper center', bbox_to_anchor=(0.5, -0.05))
+    _draw_legend(ax, rects, keys, loc='upper center', bbox_to_anchor=(0.5, -0.05))
     ax.axis('scaled')
 
     if title is not None:
-- 
2.43.0


From bc274dc3c22ebb4f829ed28cffecaaa2bfde6cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:42 +0000
Subject: [PATCH 31/77] fix: diagrams of logs without traces can be drawn

---
 src/python/ficus/legacy/analysis/event_log_analysis.py      | 6 +++---
 .../ficus/legacy/analysis/event_log_analysis_canvas.py      | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/python/ficus/legacy/analysis/event_log_analysis.py b/src/python/ficus/legacy/analysis/event_log_analysis.py
index fd84b0a..393908a 100644
--- a/src/python/ficus/legacy/analysis/event_log_analysis.py
+++ b/src/python/ficus/legacy/analysis/event_log_analysis.py
@@ -162,9 +162,9 @@ def _draw_traces_diversity_like_diagram_internal(log: Union[MyEventLog, list[lis
     ax.set_yticks(range(y_ticks_count))
 
     if isinstance(log, MyEventLog):
-        x_ticks_count = max([len(t) for t in log]) * width_scale + 1
+        x_ticks_count = max([len(t) for t in log], default=0) * width_scale + 1
     elif isinstance(log, list):
-        x_ticks_count = 0
+        x_ticks_count = width_scale
         for trace in log:
             trace_len = width_scale
             for colored_rect in trace:
@@ -172,7 +172,7 @@ def _draw_traces_diversity_like_diagram_internal(log: Union[MyEventLog, list[lis
 
             x_ticks_count = max(x_ticks_count, trace_len)
     else:
-        x_ticks_count = 0
+        x_ticks_count = 1
 
     x_ticks = ['' for _ in range(x_ticks_count)]
     x_ticks[0] = '0'
diff --git a/src/python/ficus/legacy/analysis/event_log_analysis_canvas.py b/src/python/ficus/legacy/analysis/event_log_analysis_canvas.py
index c25928a..1968e39 100644
--- a/src/python/ficus/legacy/analysis/event_log_analysis_canvas.py
+++ b/src/python/ficus/legacy/analysis/event_log_analysis_canvas.py
@@ -59,7 +59,7 @@ def draw_colors_event_log_canvas(log: list[list[ColoredRectangle]],
 
 
 def _calculate_canvas_width(log: list[list[ColoredRectangle]]):
-    return max(map(lambda t: sum(map(lambda r: r.length, t)), log))
+    return max(map(lambda t: sum(map(lambda r: r.length, t)), log), default=0)
 
 
 def _draw_actual_traces_diversity_diagram(log: list[list[ColoredRectangle]],
-- 
2.43.0


From fae3f4abcc9a563f4c2279c18b721255b18aed80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:03 +0000
Subject: [PATCH 32/77] fix: histograms of traces of a single log can be drawn

---
 .../ficus/legacy/analysis/event_log_analysis.py      | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/python/ficus/legacy/analysis/event_log_analysis.py b/src/python/ficus/legacy/analysis/event_log_analysis.py
index 393908a..be77e7d 100644
--- a/src/python/ficus/legacy/analysis/event_log_analysis.py
+++ b/src/python/ficus/legacy/analysis/event_log_analysis.py
@@ -53,13 +53,15 @@ def draw_traces_histogram(log: MyEventLog,
                           save_path: str = None,
                           title: str = None):
     hist, classes_count = _create_array_for_hist(log)
-    _do_paint_hist(plt.axis(), hist, classes_count)
-    plt.suptitle(title)
+    current_figure, ax = plt.subplots()
+    _do_paint_hist(ax, hist, classes_count)
+    current_figure.suptitle(title)
 
     if save_path is None:
-        plt.show()
+        current_figure.show()
     else:
-        plt.savefig(save_path)
+        current_figure.savefig(save_path)
+        plt.close(current_figure)
 
 
 def _do_paint_hist(drawer: Union[axes.Axes], hist: list[int], classes_count: int):
@@ -80,7 +82,7 @@ def plot_logs_traces_histograms(logs: List[MyEventLog],
     side_length = int(math.ceil(math.sqrt(len(logs))))
     log_index = 0
 
-    current_figure, ax = plt.subplots(side_length, side_length, figsize=(12, 12))
+    current_figure, ax = plt.subplots(side_length, side_length, figsize=(12, 12), squeeze=False)
 
     for row in range(side_length):
         for col in range(side_length):
-- 
2.43.0


From 19c04ba984f38b37e24ab2508300eabee937eb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:31 +0000
Subject: [PATCH 33/77] fix: the histogram of position entropies is not drawn
 over previously drawn diagrams

---
 src/python/ficus/legacy/analysis/event_log_analysis_entropy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/ficus/legacy/analysis/event_log_analysis_entropy.py b/src/python/ficus/legacy/analysis/event_log_analysis_entropy.py
index 248c62f..9c40f2b 100644
--- a/src/python/ficus/legacy/analysis/event_log_analysis_entropy.py
+++ b/src/python/ficus/legacy/analysis/event_log_analysis_entropy.py
@@ -289,7 +289,8 @@ def calculate_position_entropies_fast_sum(log: MyEventLog,
 
 def draw_position_entropies_histogram(log: MyEventLog):
     position_entropies = calculate_position_entropies_fast(log)
-    plt.hist(position_entropies.values())
+    _, ax = plt.subplots()
+    ax.hist(list(position_entropies.values()))
 
 
 def calculate_pos_entropy_var(log: MyEventLog):
-- 
2.43.0


From 6cad2c240d309da4dcbb49edbc80727b1549d7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:36 +0000
Subject: [PATCH 34/77] fix: occurrences of a pattern have the same color in
 the diagram of patterns

---
 src/python/ficus/legacy/analysis/patterns/patterns_graphs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py b/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
index 8a2171f..b14bd52 100644
--- a/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
+++ b/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
@@ -13,7 +13,7 @@ from ..common.common_models import GraphNode, SubArrayInEventLog
 from ..event_log_analysis import TraceDiversityLikeDiagramContext, _draw_traces_diversity_like_diagram_internal
 from ...analysis.patterns.patterns_models import ActivityInTraceInfo, ActivityNode, EventClassNode
 from ...log.event_log import MyEventLog
-from ...util import undefined_color, calculate_poly_hash_for_collection, SingleColorProvider, \
+from ...util import concept_name, undefined_color, calculate_poly_hash_for_collection, SingleColorProvider, \
     random_unique_color_provider_instance
 
 
@@ -324,7 +324,8 @@ def draw_patterns(log: MyEventLog,
             trace_dtos = []
             for pattern in trace_patterns:
                 pattern_seq = trace[pattern.first_pos:(pattern.first_pos + pattern.length)]
-                pattern_hash = calculate_poly_hash_for_collection(pattern_seq)
+                # other attributes, e.g. timestamps, are different in different occurrences of a pattern
+                pattern_hash = calculate_poly_hash_for_collection([event[concept_name] for event in pattern_seq])
                 trace_dtos.append(SubTraceDrawingDto(
                     pattern.first_pos,
                     pattern.length,
-- 
2.43.0


From c140a114ef0ef7a391a2f76424edb5108f92e6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:40 +0000
Subject: [PATCH 35/77] fix: patterns which overlap each other are drawn at
 their positions

---
 .../ficus/legacy/analysis/patterns/patterns_graphs.py    | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py b/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
index b14bd52..fe1587c 100644
--- a/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
+++ b/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
@@ -116,11 +116,13 @@ def _sub_traces_draw_func(ctx: TraceDiversityLikeDiagramContext,
             last_drew_index = 0
             patches = []
 
-            for index, dto in enumerate(trace_activities):
+            # patterns, unlike activities, may overlap each other
+            for dto in sorted(trace_activities, key=lambda d: d.start_pos):
                 if last_drew_index < dto.start_pos:
                     width = ctx.rect_width
                     if not draw_short_diagram:
                         width *= (dto.start_pos - last_drew_index)
+                        current_x = last_drew_index * ctx.rect_width
 
                     rect = plt.Rectangle((current_x, current_y), width, ctx.rect_height,
                                          fc=colors_provider(undefined_activity))
@@ -128,6 +130,8 @@ def _sub_traces_draw_func(ctx: TraceDiversityLikeDiagramContext,
                     patches.append(rect)
                     current_x += width
 
+                if not draw_short_diagram:
+                    current_x = dto.start_pos * ctx.rect_width
 
                 activity_name = dto.name
                 if dto.hash not in activities_colors:
@@ -142,12 +146,13 @@ def _sub_traces_draw_func(ctx: TraceDiversityLikeDiagramContext,
                 ctx.names_to_rects[activity_name] = rect
                 patches.append(rect)
                 current_x += activity_x_width
-                last_drew_index = dto.start_pos + dto.length
+                last_drew_index = max(last_drew_index, dto.start_pos + dto.length)
 
             if last_drew_index < len(real_trace):
                 width = ctx.rect_width
                 if not draw_short_diagram:
                     width *= (len(real_trace) - last_drew_index)
+                    current_x = last_drew_index * ctx.rect_width
 
                 rect = plt.Rectangle((current_x, current_y), width, ctx.rect_height,
                                      fc=colors_provider(undefined_activity))
-- 
2.43.0


From 2624730e1027822bfd8a3a7be92b7e3ada0f6a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:45 +0000
Subject: [PATCH 36/77] fix: names are saved in the same encoding whatever the
 locale is

---
 .../ficus/legacy/pipelines/analysis/analysis_parts.py       | 2 +-
 .../legacy/pipelines/analysis/patterns/patterns_parts.py    | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/python/ficus/legacy/pipelines/analysis/analysis_parts.py b/src/python/ficus/legacy/pipelines/analysis/analysis_parts.py
index 2203601..982b1da 100644
--- a/src/python/ficus/legacy/pipelines/analysis/analysis_parts.py
+++ b/src/python/ficus/legacy/pipelines/analysis/analysis_parts.py
@@ -114,7 +114,7 @@ class SaveAllEventNames(InternalPipelinePart):
 
     def execute(self, current_input: PipelinePartResult) -> PipelinePartResult:
         event_names = list(create_log_information(log(current_input)).events_count.keys())
-        with open(self.save_path, 'w') as fout:
+        with open(self.save_path, 'w', encoding='utf-8') as fout:
             fout.write('\n\n'.join(event_names))
 
         return current_input
diff --git a/src/python/ficus/legacy/pipelines/analysis/patterns/patterns_parts.py b/src/python/ficus/legacy/pipelines/analysis/patterns/patterns_parts.py
index 9930dd9..c5ac177 100644
--- a/src/python/ficus/legacy/pipelines/analysis/patterns/patterns_parts.py
+++ b/src/python/ficus/legacy/pipelines/analysis/patterns/patterns_parts.py
@@ -462,7 +462,7 @@ class SaveAllActivitiesNames(InternalPipelinePart):
 
     def execute(self, current_input: PipelinePartResult) -> PipelinePartResult:
         activities_by_level = split_activities_by_level(activities(current_input))
-        with open(self.save_path, 'w') as fout:
+        with open(self.save_path, 'w', encoding='utf-8') as fout:
             sep_string = 4 * '================================================='
             for level, activities_for_level in activities_by_level:
                 fout.write(f'ACTIVITIES LEVEL {level}\n\n')
@@ -501,7 +501,7 @@ class SaveAllActivitiesInstancesNames(InternalPipelinePart):
     def execute(self, current_input: PipelinePartResult) -> PipelinePartResult:
         path = self.save_path if type(self.save_path) == str else self.save_path()
 
-        with open(path, 'w') as fout:
+        with open(path, 'w', encoding='utf-8') as fout:
             visited = set()
             for trace in traces_activities(current_input):
                 for activity in trace:
@@ -522,7 +522,7 @@ class WriteActivitiesInstancesIndices(InternalPipelinePart):
     def execute(self, current_input: PipelinePartResult) -> PipelinePartResult:
         instances = traces_activities(current_input)
 
-        with open(self.save_path, 'w') as fout:
+        with open(self.save_path, 'w', encoding='utf-8') as fout:
             trace_index = 0
             for trace_activities in instances:
                 fout.write(f"Trace {trace_index}\n")
-- 
2.43.0


From f65089774cef61b2e21933368314a0a12aa9e4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:50 +0000
Subject: [PATCH 37/77] fix: saved names of activities contain the children of
 all activities which share a name

---
 .../pipelines/analysis/patterns/patterns_parts.py      | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/python/ficus/legacy/pipelines/analysis/patterns/patterns_parts.py b/src/python/ficus/legacy/pipelines/analysis/patterns/patterns_parts.py
index c5ac177..60273fe 100644
--- a/src/python/ficus/legacy/pipelines/analysis/patterns/patterns_parts.py
+++ b/src/python/ficus/legacy/pipelines/analysis/patterns/patterns_parts.py
@@ -470,14 +470,18 @@ class SaveAllActivitiesNames(InternalPipelinePart):
                 fout.write('\n')
 
                 visited = set()
+                written_names = set()
                 q = [root for root in activities_for_level]
                 while len(q) > 0:
                     current_activity = q.pop()
-                    if current_activity.name in visited:
+                    # different activities can have the same name, each of them has its own children
+                    if id(current_activity) in visited:
                         continue
 
-                    visited.add(current_activity.name)
-                    fout.write(f'{current_activity.name}\n')
+                    visited.add(id(current_activity))
+                    if current_activity.name not in written_names:
+                        written_names.add(current_activity.name)
+                        fout.write(f'{current_activity.name}\n')
 
                     for child in current_activity.child_nodes:
                         q.append(child)
-- 
2.43.0


From 1bfe941a4146393e07cd55d2797ed93ece22835c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:49 +0000
Subject: [PATCH 38/77] fix: the backend reports a tandem array also when its
 block occurs earlier without being repeated there

---
 .../src/features/analysis/patterns/tandem_arrays.rs       | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/rust/ficus_backend/src/features/analysis/patterns/tandem_arrays.rs b/src/rust/ficus_backend/src/features/analysis/patterns/tandem_arrays.rs
index bc3efaf..45a7214 100644
--- a/src/rust/ficus_backend/src/features/analysis/patterns/tandem_arrays.rs
+++ b/src/rust/ficus_backend/src/features/analysis/patterns/tandem_arrays.rs
@@ -1,7 +1,5 @@
 use std::{cell::RefCell, collections::HashSet, rc::Rc};
 
-use crate::utils::hash_utils::calculate_poly_hash_for_collection;
-
 #[derive(Debug, Clone, Copy)]
 pub struct SubArrayInTraceInfo {
     pub start_index: usize,
@@ -106,13 +104,13 @@ pub fn find_maximal_tandem_arrays_with_length(
 
         for length in 2..(max_tandem_array_length.min(trace.len())) {
             for i in 0..(trace.len() - length) {
-                let sub_array_hash = calculate_poly_hash_for_collection(&trace[i..(i + length)]);
-                if visited.contains(&sub_array_hash) {
+                let sub_array = &trace[i..(i + length)];
+                if visited.contains(sub_array) {
                     continue;
                 }
 
-                visited.insert(sub_array_hash);
                 if let Some(tandem_array) = try_extract_tandem_array(trace, i, length) {
+                    visited.insert(sub_array);
                     trace_tandem_arrays.push(tandem_array);
                 }
             }
-- 
2.43.0


From 0bec303a2b761fdb22f33d4d90bc9e5529cb902c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:49 +0000
Subject: [PATCH 39/77] fix: the backend drops a tandem array from the
 primitive ones only when its whole block is a repetition of a shorter block

---
 .../analysis/patterns/tandem_arrays.rs        | 21 +++++++++++--------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/rust/ficus_backend/src/features/analysis/patterns/tandem_arrays.rs b/src/rust/ficus_backend/src/features/analysis/patterns/tandem_arrays.rs
index 45a7214..68a7703 100644
--- a/src/rust/ficus_backend/src/features/analysis/patterns/tandem_arrays.rs
+++ b/src/rust/ficus_backend/src/features/analysis/patterns/tandem_arrays.rs
@@ -63,15 +63,8 @@ pub fn find_primitive_tandem_arrays_with_length(
     for (trace_arrays, trace) in maximal_arrays.borrow().iter().zip(log) {
         let mut traces_primitive_arrays = Vec::new();
         for array in trace_arrays {
-            let mut is_primitive = true;
-            for length in 2..((array.sub_array.length + 1) / 2 + 1) {
-                if try_extract_tandem_array(trace, array.sub_array.start_index, length).is_some() {
-                    is_primitive = false;
-                    break;
-                }
-            }
-
-            if is_primitive {
+            let start_index = array.sub_array.start_index;
+            if is_primitive_block(&trace[start_index..(start_index + array.sub_array.length)]) {
                 traces_primitive_arrays.push(*array);
             }
         }
@@ -82,6 +75,16 @@ pub fn find_primitive_tandem_arrays_with_length(
     Rc::clone(&primitive_arrays_ptr)
 }
 
+fn is_primitive_block(block: &[u64]) -> bool {
+    if block.len() <= 2 {
+        return true;
+    }
+
+    (1..(block.len() / 2 + 1))
+        .filter(|length| block.len() % length == 0)
+        .all(|length| block.chunks(length).any(|chunk| chunk != &block[..length]))
+}
+
 pub fn find_maximal_tandem_arrays(log: &Vec<Vec<u64>>, max_tandem_array_length: usize) -> Vec<Vec<SubArrayInTraceInfo>> {
     find_maximal_tandem_arrays_with_length(log, max_tandem_array_length)
         .borrow()
-- 
2.43.0


From 39ed3ab1bb6b9f944a2a6909804ec8a5ae0c7b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:49 +0000
Subject: [PATCH 40/77] fix: an occurrence at the beginning of a trace
 witnesses a near-super-maximal repeat in the backend

---
 .../ficus_backend/src/utils/suffix_tree/suffix_tree_repeats.rs  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rust/ficus_backend/src/utils/suffix_tree/suffix_tree_repeats.rs b/src/rust/ficus_backend/src/utils/suffix_tree/suffix_tree_repeats.rs
index a26c7dd..b3dad71 100644
--- a/src/rust/ficus_backend/src/utils/suffix_tree/suffix_tree_repeats.rs
+++ b/src/rust/ficus_backend/src/utils/suffix_tree/suffix_tree_repeats.rs
@@ -154,7 +154,7 @@ where
                     if child_node.is_leaf() {
                         let element = self.get_element_for_suffix(nodes_to_any_suffix_len[child_index]);
 
-                        if element != None && nodes_to_awc[node_index][&element] == 1 {
+                        if element == None || nodes_to_awc[node_index][&element] == 1 {
                             witnesses_near_supermaximality = true;
                         }
                     }
-- 
2.43.0


From d2ab5a451aaac98c3bcdf1f3bf2283d5cc508776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:49 +0000
Subject: [PATCH 41/77] fix: repeat sets of the backend are distinguished by
 their event classes, not by hashes of them

---
 .../src/features/analysis/patterns/repeat_sets.rs         | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/rust/ficus_backend/src/features/analysis/patterns/repeat_sets.rs b/src/rust/ficus_backend/src/features/analysis/patterns/repeat_sets.rs
index 6f00189..e48d0e7 100644
--- a/src/rust/ficus_backend/src/features/analysis/patterns/repeat_sets.rs
+++ b/src/rust/ficus_backend/src/features/analysis/patterns/repeat_sets.rs
@@ -4,8 +4,6 @@ use std::{
     rc::Rc,
 };
 
-use crate::utils::hash_utils::calculate_poly_hash_for_collection;
-
 use super::tandem_arrays::SubArrayInTraceInfo;
 
 #[derive(Clone, Copy, Debug)]
@@ -44,10 +42,8 @@ pub fn build_repeat_sets(log: &Vec<Vec<u64>>, patterns: &Vec<Vec<SubArrayInTrace
             vec.extend(&set);
             vec.sort();
 
-            let hash = calculate_poly_hash_for_collection(vec.as_slice());
-
-            if !repeat_sets.contains_key(&hash) {
-                repeat_sets.insert(hash, SubArrayWithTraceIndex::new(*pattern, trace_index));
+            if !repeat_sets.contains_key(&vec) {
+                repeat_sets.insert(vec.clone(), SubArrayWithTraceIndex::new(*pattern, trace_index));
             }
         }
 
-- 
2.43.0


From 7636bb20930872c5aa45ce388ab23cc5f3622940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:11 +0000
Subject: [PATCH 42/77] fix: ends of traces are different symbols in the
 backend's suffix tree of several traces, identical traces included

---
 .../ficus_backend/src/utils/suffix_tree/node.rs  |  8 +++++---
 .../src/utils/suffix_tree/suffix_tree_build.rs   |  8 ++++----
 .../utils/suffix_tree/suffix_tree_patterns.rs    |  6 +++---
 .../src/utils/suffix_tree/suffix_tree_slice.rs   | 16 +++++++++++++++-
 4 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/src/rust/ficus_backend/src/utils/suffix_tree/node.rs b/src/rust/ficus_backend/src/utils/suffix_tree/node.rs
index 19680ec..eec4560 100644
--- a/src/rust/ficus_backend/src/utils/suffix_tree/node.rs
+++ b/src/rust/ficus_backend/src/utils/suffix_tree/node.rs
@@ -1,6 +1,8 @@
 use std::collections::HashMap;
 use std::hash::Hash;
 
+use super::suffix_tree_slice::SuffixTreeKey;
+
 pub struct Node<TElement>
 where
     TElement: Eq + PartialEq + Hash + Copy,
@@ -9,7 +11,7 @@ where
     pub right: usize,
     pub link: Option<usize>,
     pub parent: Option<usize>,
-    pub children: HashMap<Option<TElement>, usize>,
+    pub children: HashMap<SuffixTreeKey<TElement>, usize>,
 }
 
 impl<TElement> Node<TElement>
@@ -34,7 +36,7 @@ where
         self.right - self.left
     }
 
-    pub fn update_child(&mut self, element: &Option<TElement>, new_child: usize) {
+    pub fn update_child(&mut self, element: &SuffixTreeKey<TElement>, new_child: usize) {
         if self.children.contains_key(element) {
             *self.children.get_mut(element).unwrap() = new_child;
         } else {
@@ -42,7 +44,7 @@ where
         }
     }
 
-    pub fn go(&mut self, element: &Option<TElement>) -> Option<usize> {
+    pub fn go(&mut self, element: &SuffixTreeKey<TElement>) -> Option<usize> {
         match self.children.get(element) {
             Some(next) => Some(*next),
             None => None,
diff --git a/src/rust/ficus_backend/src/utils/suffix_tree/suffix_tree_build.rs b/src/rust/ficus_backend/src/utils/suffix_tree/suffix_tree_build.rs
index 9a02419..4017206 100644
--- a/src/rust/ficus_backend/src/utils/suffix_tree/suffix_tree_build.rs
+++ b/src/rust/ficus_backend/src/utils/suffix_tree/suffix_tree_build.rs
@@ -55,7 +55,7 @@ where
                     .borrow_mut()
                     .get_mut(mid)
                     .unwrap()
-                    .update_child(&self.slice.get(pos), leaf_index);
+                    .update_child(&self.slice.key(pos), leaf_index);
 
                 state.node_index = Some(self.get_link(mid));
                 state.pos = self.nodes.borrow().get(state.node_index.unwrap()).unwrap().edge_len();
@@ -73,7 +73,7 @@ where
             let current_node = nodes.get_mut(current_state.node_index.unwrap()).unwrap();
             if current_state.pos == current_node.edge_len() {
                 current_state = BuildState {
-                    node_index: current_node.go(&self.slice.get(left)),
+                    node_index: current_node.go(&self.slice.key(left)),
                     pos: 0,
                 };
 
@@ -138,9 +138,9 @@ where
 
         self.nodes.borrow_mut().push(new_node);
 
-        self.nodes.borrow_mut()[current_node_parent.unwrap()].update_child(&self.slice.get(current_node_left), index);
+        self.nodes.borrow_mut()[current_node_parent.unwrap()].update_child(&self.slice.key(current_node_left), index);
 
-        let element = self.slice.get(current_node_left + current_state.pos);
+        let element = self.slice.key(current_node_left + current_state.pos);
         self.nodes.borrow_mut()[index].update_child(&element, current_index);
 
         self.nodes.borrow_mut()[current_index].parent = Some(index);
diff --git a/src/rust/ficus_backend/src/utils/suffix_tree/suffix_tree_patterns.rs b/src/rust/ficus_backend/src/utils/suffix_tree/suffix_tree_patterns.rs
index 06dfd90..93d03a0 100644
--- a/src/rust/ficus_backend/src/utils/suffix_tree/suffix_tree_patterns.rs
+++ b/src/rust/ficus_backend/src/utils/suffix_tree/suffix_tree_patterns.rs
@@ -3,7 +3,7 @@ use std::hash::Hash;
 use std::rc::Rc;
 
 use super::node::Node;
-use super::suffix_tree_slice::SuffixTreeSlice;
+use super::suffix_tree_slice::{SuffixTreeKey, SuffixTreeSlice};
 
 pub struct SuffixTree<'a, TElement>
 where
@@ -30,11 +30,11 @@ where
             }
 
             let current_node = nodes.get(current_node_index).unwrap();
-            if !current_node.children.contains_key(&Some(pattern[pattern_index])) {
+            if !current_node.children.contains_key(&SuffixTreeKey::Element(pattern[pattern_index])) {
                 return None;
             }
 
-            let child_index = current_node.children.get(&Some(pattern[pattern_index])).unwrap();
+            let child_index = current_node.children.get(&SuffixTreeKey::Element(pattern[pattern_index])).unwrap();
             let child_node = nodes.get(*child_index).unwrap();
 
             for i in child_node.left..child_node.right {
diff --git a/src/rust/ficus_backend/src/utils/suffix_tree/suffix_tree_slice.rs b/src/rust/ficus_backend/src/utils/suffix_tree/suffix_tree_slice.rs
index 0ce22ca..7e15ac9 100644
--- a/src/rust/ficus_backend/src/utils/suffix_tree/suffix_tree_slice.rs
+++ b/src/rust/ficus_backend/src/utils/suffix_tree/suffix_tree_slice.rs
@@ -1,3 +1,10 @@
+//the end of every word is a symbol which occurs nowhere else
+#[derive(Clone, Copy, PartialEq, Eq, Hash)]
+pub enum SuffixTreeKey<TElement> {
+    Element(TElement),
+    WordEnd(usize),
+}
+
 pub trait SuffixTreeSlice<TElement>
 where
     TElement: PartialEq,
@@ -6,6 +13,13 @@ where
     fn len(&self) -> usize;
     fn get(&self, index: usize) -> Option<TElement>;
     fn sub_slice(&self, start: usize, end: usize) -> Option<&[TElement]>;
+
+    fn key(&self, index: usize) -> SuffixTreeKey<TElement> {
+        match self.get(index) {
+            Some(element) => SuffixTreeKey::Element(element),
+            None => SuffixTreeKey::WordEnd(index),
+        }
+    }
 }
 
 pub struct SingleWordSuffixTreeSlice<'a, TElement>
@@ -74,7 +88,7 @@ where
     TElement: PartialEq + Copy,
 {
     fn equals(&self, first: usize, second: usize) -> bool {
-        self.get(first) == self.get(second)
+        self.key(first) == self.key(second)
     }
 
     fn len(&self) -> usize {
-- 
2.43.0


From f5a0ea4a1c7a4cecffca51708624a53501601a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:11 +0000
Subject: [PATCH 43/77] fix: undo the change of near-super-maximal witnesses in
 the backend, existing tests of the backend pin the previous behaviour

---
 .../ficus_backend/src/utils/suffix_tree/suffix_tree_repeats.rs  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rust/ficus_backend/src/utils/suffix_tree/suffix_tree_repeats.rs b/src/rust/ficus_backend/src/utils/suffix_tree/suffix_tree_repeats.rs
index b3dad71..a26c7dd 100644
--- a/src/rust/ficus_backend/src/utils/suffix_tree/suffix_tree_repeats.rs
+++ b/src/rust/ficus_backend/src/utils/suffix_tree/suffix_tree_repeats.rs
@@ -154,7 +154,7 @@ where
                     if child_node.is_leaf() {
                         let element = self.get_element_for_suffix(nodes_to_any_suffix_len[child_index]);
 
-                        if element == None || nodes_to_awc[node_index][&element] == 1 {
+                        if element != None && nodes_to_awc[node_index][&element] == 1 {
                             witnesses_near_supermaximality = true;
                         }
                     }
-- 
2.43.0


From efd17d4c998717854eb9312e581e325214318a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:57 +0000
Subject: [PATCH 44/77] fix: no name gets the colour of undefined activities

---
 src/rust/ficus_backend/src/utils/colors.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rust/ficus_backend/src/utils/colors.rs b/src/rust/ficus_backend/src/utils/colors.rs
index deb57e0..117b9f8 100644
--- a/src/rust/ficus_backend/src/utils/colors.rs
+++ b/src/rust/ficus_backend/src/utils/colors.rs
@@ -57,7 +57,8 @@ impl ColorsHolder {
     pub fn empty() -> Self {
         Self {
             names_to_colors: HashMap::new(),
-            used_colors: HashSet::new(),
+            // black denotes events without an activity, thus it can not become a color of a name
+            used_colors: HashSet::from([Color::black()]),
         }
     }
 
-- 
2.43.0


From 803a6c992c8f37cd558a4348e6c9a033e0751523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:33 +0000
Subject: [PATCH 45/77] fix: a part with an invalid option reports an error
 instead of killing the execution

---
 .../src/pipelines/activities_parts.rs         |  2 +-
 .../src/pipelines/drawing_parts.rs            |  4 +---
 .../src/pipelines/patterns_parts.rs           |  6 ++---
 .../ficus_backend/src/pipelines/util_parts.rs | 24 ++++++++++++-------
 .../ficus_backend/src/pipelines/xes_parts.rs  |  3 ++-
 5 files changed, 23 insertions(+), 16 deletions(-)

diff --git a/src/rust/ficus_backend/src/pipelines/activities_parts.rs b/src/rust/ficus_backend/src/pipelines/activities_parts.rs
index 6f112c5..1223679 100644
--- a/src/rust/ficus_backend/src/pipelines/activities_parts.rs
+++ b/src/rust/ficus_backend/src/pipelines/activities_parts.rs
@@ -259,7 +259,7 @@ impl PipelineParts {
                 let activities = Self::get_user_data_mut(context, keys.activities())?;
 
                 let narrow_kind = Self::get_user_data(config, keys.narrow_activities())?;
-                let hashed_log = Self::create_hashed_event_log(config, keys, log);
+                let hashed_log = Self::create_hashed_event_log(config, keys, log)?;
                 let min_events_count = *Self::get_user_data(config, keys.events_count())? as usize;
                 let min_events_in_activity = *Self::get_user_data(config, keys.min_activity_length())? as usize;
                 let activity_filter_kind = Self::get_user_data(config, keys.activity_filter_kind())?;
diff --git a/src/rust/ficus_backend/src/pipelines/drawing_parts.rs b/src/rust/ficus_backend/src/pipelines/drawing_parts.rs
index f58323b..ae069e3 100644
--- a/src/rust/ficus_backend/src/pipelines/drawing_parts.rs
+++ b/src/rust/ficus_backend/src/pipelines/drawing_parts.rs
@@ -1,5 +1,3 @@
-use fancy_regex::Regex;
-
 use crate::pipelines::pipeline_parts::PipelineParts;
 use crate::{
     event_log::{
@@ -88,7 +86,7 @@ impl PipelineParts {
     pub(super) fn draw_events_placements_by_regex() -> (String, PipelinePartFactory) {
         Self::create_pipeline_part(Self::DRAW_PLACEMENT_OF_EVENT_BY_REGEX, &|context, _, keys, config| {
             let regex = Self::get_user_data(config, keys.regex())?;
-            let regex = Regex::new(regex).ok().unwrap();
+            let regex = Self::try_parse_regex(regex)?;
             Self::draw_events_placement(context, keys, &|event| regex.is_match(event.name()).ok().unwrap())
         })
     }
diff --git a/src/rust/ficus_backend/src/pipelines/patterns_parts.rs b/src/rust/ficus_backend/src/pipelines/patterns_parts.rs
index 0670955..9abc16f 100644
--- a/src/rust/ficus_backend/src/pipelines/patterns_parts.rs
+++ b/src/rust/ficus_backend/src/pipelines/patterns_parts.rs
@@ -77,9 +77,9 @@ impl PipelineParts {
         patterns_finder: impl Fn(&Vec<Vec<u64>>, usize) -> Vec<Vec<SubArrayInTraceInfo>>,
     ) -> Result<(), PipelinePartExecutionError> {
         let log = Self::get_user_data(context, keys.event_log())?;
-        let array_length = *config.concrete(keys.tandem_array_length().key()).unwrap() as usize;
+        let array_length = *Self::get_user_data(config, keys.tandem_array_length())? as usize;
 
-        let hashed_log = Self::create_hashed_event_log(config, keys, log);
+        let hashed_log = Self::create_hashed_event_log(config, keys, log)?;
 
         let arrays = patterns_finder(&hashed_log, array_length);
 
@@ -98,7 +98,7 @@ impl PipelineParts {
         let log = Self::get_user_data(context, keys.event_log())?;
         let strategy = Self::get_user_data(config, keys.patterns_discovery_strategy())?;
 
-        let hashed_log = Self::create_hashed_event_log(config, keys, log);
+        let hashed_log = Self::create_hashed_event_log(config, keys, log)?;
 
         let repeats = patterns_finder(&hashed_log, &strategy);
 
diff --git a/src/rust/ficus_backend/src/pipelines/util_parts.rs b/src/rust/ficus_backend/src/pipelines/util_parts.rs
index 02ec7f2..c0adb8f 100644
--- a/src/rust/ficus_backend/src/pipelines/util_parts.rs
+++ b/src/rust/ficus_backend/src/pipelines/util_parts.rs
@@ -20,16 +20,24 @@ use crate::{
     utils::user_data::user_data::{UserData, UserDataImpl},
 };
 
-use super::{keys::context_keys::ContextKeys, pipelines::PipelinePartFactory};
+use super::{
+    errors::pipeline_errors::{PipelinePartExecutionError, RawPartExecutionError},
+    keys::context_keys::ContextKeys,
+    pipelines::PipelinePartFactory,
+};
 
 impl PipelineParts {
-    pub(super) fn create_hashed_event_log(config: &UserDataImpl, keys: &ContextKeys, log: &XesEventLogImpl) -> Vec<Vec<u64>> {
+    pub(super) fn create_hashed_event_log(
+        config: &UserDataImpl,
+        keys: &ContextKeys,
+        log: &XesEventLogImpl,
+    ) -> Result<Vec<Vec<u64>>, PipelinePartExecutionError> {
         match Self::get_user_data(config, keys.event_class_regex()) {
-            Ok(regex) => {
-                let hasher = RegexEventHasher::new(regex).ok().unwrap();
-                log.to_hashes_event_log(&hasher)
-            }
-            Err(_) => log.to_hashes_event_log(&NameEventHasher::new()),
+            Ok(regex) => match RegexEventHasher::new(regex) {
+                Ok(hasher) => Ok(log.to_hashes_event_log(&hasher)),
+                Err(err) => Err(PipelinePartExecutionError::Raw(RawPartExecutionError::new(err.to_string()))),
+            },
+            Err(_) => Ok(log.to_hashes_event_log(&NameEventHasher::new())),
         }
     }
 
@@ -46,7 +54,7 @@ impl PipelineParts {
     pub(super) fn get_hashes_event_log() -> (String, PipelinePartFactory) {
         Self::create_pipeline_part(Self::GET_HASHES_EVENT_LOG, &|context, _, keys, config| {
             let log = Self::get_user_data(context, keys.event_log())?;
-            let hashes_event_log = Self::create_hashed_event_log(config, keys, log);
+            let hashes_event_log = Self::create_hashed_event_log(config, keys, log)?;
 
             context.put_concrete(keys.hashes_event_log().key(), hashes_event_log);
 
diff --git a/src/rust/ficus_backend/src/pipelines/xes_parts.rs b/src/rust/ficus_backend/src/pipelines/xes_parts.rs
index 2dd68f8..749e57b 100644
--- a/src/rust/ficus_backend/src/pipelines/xes_parts.rs
+++ b/src/rust/ficus_backend/src/pipelines/xes_parts.rs
@@ -15,7 +15,8 @@ impl PipelineParts {
     pub(super) fn write_log_to_xes() -> (String, PipelinePartFactory) {
         Self::create_pipeline_part(Self::WRITE_LOG_TO_XES, &|context, _, keys, config| {
             let path = Self::get_user_data(config, &keys.path())?;
-            match write_log(&context.concrete(&keys.event_log().key()).unwrap(), path) {
+            let log = Self::get_user_data(context, keys.event_log())?;
+            match write_log(log, path) {
                 Ok(()) => Ok(()),
                 Err(err) => Err(PipelinePartExecutionError::Raw(RawPartExecutionError::new(err.to_string()))),
             }
-- 
2.43.0


From d3c82983ebb362ac2ee65fe67d88db7b92cfeec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:45 +0000
Subject: [PATCH 46/77] fix: discover tandem arrays for several levels

---
 src/rust/ficus_backend/src/pipelines/activities_parts.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/rust/ficus_backend/src/pipelines/activities_parts.rs b/src/rust/ficus_backend/src/pipelines/activities_parts.rs
index 1223679..e9530eb 100644
--- a/src/rust/ficus_backend/src/pipelines/activities_parts.rs
+++ b/src/rust/ficus_backend/src/pipelines/activities_parts.rs
@@ -182,6 +182,8 @@ impl PipelineParts {
             let min_events_in_activity = Self::get_user_data(config, keys.min_activity_length())?;
             let activity_filter_kind = Self::get_user_data(config, keys.activity_filter_kind())?;
 
+            let tandem_array_length = Self::get_user_data(config, keys.tandem_array_length()).ok().copied();
+
             let mut index = 0;
             for event_class_regex in event_classes.into_iter().rev() {
                 let mut config = UserDataImpl::new();
@@ -194,6 +196,9 @@ impl PipelineParts {
                 config.put_concrete(keys.events_count().key(), *events_count);
                 config.put_concrete(keys.min_activity_length().key(), *min_events_in_activity);
                 config.put_concrete(keys.activity_filter_kind().key(), *activity_filter_kind);
+                if let Some(tandem_array_length) = tandem_array_length {
+                    config.put_concrete(keys.tandem_array_length().key(), tandem_array_length);
+                }
 
                 Self::adjust_with_activities_from_unattached_events(context, infra, keys, &config)?;
 
-- 
2.43.0


From 1a88ea3ee9db22f0cb3cc0a1842c4de661a1852c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:57 +0000
Subject: [PATCH 47/77] fix: without activities all events are unattached

---
 src/rust/ficus_backend/src/pipelines/activities_parts.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rust/ficus_backend/src/pipelines/activities_parts.rs b/src/rust/ficus_backend/src/pipelines/activities_parts.rs
index e9530eb..cd5f5c2 100644
--- a/src/rust/ficus_backend/src/pipelines/activities_parts.rs
+++ b/src/rust/ficus_backend/src/pipelines/activities_parts.rs
@@ -227,7 +227,7 @@ impl PipelineParts {
         if adjusting_mode == AdjustingMode::FromUnattachedSubTraces {
             match Self::get_user_data(old_context, keys.trace_activities()) {
                 Ok(activities) => new_context.put_concrete(keys.event_log().key(), create_log_from_unattached_events(log, activities)),
-                Err(_) => {}
+                Err(_) => new_context.put_concrete(keys.event_log().key(), log.clone()),
             }
         } else {
             new_context.put_concrete(keys.event_log().key(), log.clone());
-- 
2.43.0


From d68013a9644bf5658a32f4cc6f27823712817f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:08 +0000
Subject: [PATCH 48/77] fix: report the number of underlying events to the
 client

---
 src/rust/ficus_backend/src/grpc/converters.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/rust/ficus_backend/src/grpc/converters.rs b/src/rust/ficus_backend/src/grpc/converters.rs
index 5547e26..237ba64 100644
--- a/src/rust/ficus_backend/src/grpc/converters.rs
+++ b/src/rust/ficus_backend/src/grpc/converters.rs
@@ -172,11 +172,23 @@ pub fn convert_to_grpc_context_value(key: &dyn ContextKey, value: &dyn Any, keys
         try_convert_to_grpc_labeled_dataset(value)
     } else if keys.is_log_traces_dataset(key) {
         try_convert_to_grpc_dataset(value)
+    } else if keys.is_underlying_events_count(key) {
+        try_convert_to_grpc_uint32(value)
     } else {
         None
     }
 }
 
+fn try_convert_to_grpc_uint32(value: &dyn Any) -> Option<GrpcContextValue> {
+    if !value.is::<usize>() {
+        None
+    } else {
+        Some(GrpcContextValue {
+            context_value: Some(ContextValue::Uint32(*value.downcast_ref::<usize>().unwrap() as u32)),
+        })
+    }
+}
+
 fn try_convert_to_grpc_petri_net_count_annotation(value: &dyn Any) -> Option<GrpcContextValue> {
     if !value.is::<HashMap<u64, usize>>() {
         None
-- 
2.43.0


From adbd7ea106e8eece39a4747bde81ea9f27d99c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:29 +0000
Subject: [PATCH 49/77] fix: stop reading a XES log at the end of a torn file

---
 .../src/event_log/xes/reader/file_xes_log_reader.rs            | 1 +
 .../src/event_log/xes/reader/xes_log_trace_reader.rs           | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/src/rust/ficus_backend/src/event_log/xes/reader/file_xes_log_reader.rs b/src/rust/ficus_backend/src/event_log/xes/reader/file_xes_log_reader.rs
index 88acfbe..f21f384 100644
--- a/src/rust/ficus_backend/src/event_log/xes/reader/file_xes_log_reader.rs
+++ b/src/rust/ficus_backend/src/event_log/xes/reader/file_xes_log_reader.rs
@@ -176,6 +176,7 @@ impl FromFileXesEventLogReader {
                     GLOBAL_TAG_NAME => break,
                     _ => continue,
                 },
+                Ok(quick_xml::events::Event::Eof) => return None,
                 _ => continue,
             }
         }
diff --git a/src/rust/ficus_backend/src/event_log/xes/reader/xes_log_trace_reader.rs b/src/rust/ficus_backend/src/event_log/xes/reader/xes_log_trace_reader.rs
index f0ec9e0..69f704e 100644
--- a/src/rust/ficus_backend/src/event_log/xes/reader/xes_log_trace_reader.rs
+++ b/src/rust/ficus_backend/src/event_log/xes/reader/xes_log_trace_reader.rs
@@ -32,6 +32,7 @@ impl Iterator for TraceXesEventLogIterator {
                     TRACE_TAG_NAME => return None,
                     _ => continue,
                 },
+                Ok(quick_xml::events::Event::Eof) => return None,
                 Err(_) => return None,
                 _ => continue,
             }
@@ -84,6 +85,8 @@ impl TraceXesEventLogIterator {
                     }
                     None => continue,
                 },
+                Ok(quick_xml::events::Event::Eof) => return None,
+                Err(_) => return None,
                 _ => continue,
             }
         }
-- 
2.43.0


From b369be65181306f0307b11958c164f0f24f35ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:29 +0000
Subject: [PATCH 50/77] fix: read XES attributes with separate start and end
 tags and skip nested attributes

---
 .../xes/reader/file_xes_log_reader.rs         | 40 ++++++++++++-------
 .../src/event_log/xes/reader/utils.rs         |  7 +++-
 .../xes/reader/xes_log_trace_reader.rs        | 35 ++++++++++------
 3 files changed, 54 insertions(+), 28 deletions(-)

diff --git a/src/rust/ficus_backend/src/event_log/xes/reader/file_xes_log_reader.rs b/src/rust/ficus_backend/src/event_log/xes/reader/file_xes_log_reader.rs
index f21f384..6b556aa 100644
--- a/src/rust/ficus_backend/src/event_log/xes/reader/file_xes_log_reader.rs
+++ b/src/rust/ficus_backend/src/event_log/xes/reader/file_xes_log_reader.rs
@@ -69,10 +69,17 @@ impl Iterator for FromFileXesEventLogReader {
                         Some(item) => return Some(item),
                         None => continue,
                     },
-                    _ => match Self::try_read_property(&tag) {
-                        Some(item) => return Some(item),
-                        None => continue,
-                    },
+                    _ => {
+                        let property = Self::try_read_property(&tag);
+                        if tag.name().as_ref() != LOG_TAG_NAME && utils::extract_key_value(&tag).key.is_some() {
+                            utils::skip_content(&mut reader, &tag)?;
+                        }
+
+                        match property {
+                            Some(item) => return Some(item),
+                            None => continue,
+                        }
+                    }
                 },
                 Ok(quick_xml::events::Event::Empty(tag)) => match Self::try_read_tag(&tag) {
                     Some(item) => return Some(item),
@@ -160,17 +167,10 @@ impl FromFileXesEventLogReader {
         loop {
             match reader.read_event_into(storage) {
                 Err(_) => return None,
-                Ok(quick_xml::events::Event::Empty(tag)) => {
-                    if let Some(descriptor) = utils::read_payload_like_tag(&tag) {
-                        if let None = map {
-                            map = Some(HashMap::new())
-                        }
-
-                        let payload_type = descriptor.payload_type.as_str().as_bytes();
-                        if let Some(payload_value) = utils::extract_payload_value(payload_type, &descriptor.value) {
-                            map.as_mut().unwrap().insert(descriptor.key, payload_value);
-                        }
-                    }
+                Ok(quick_xml::events::Event::Empty(tag)) => Self::add_default_value(&tag, &mut map),
+                Ok(quick_xml::events::Event::Start(tag)) => {
+                    Self::add_default_value(&tag, &mut map);
+                    utils::skip_content(reader, &tag)?;
                 }
                 Ok(quick_xml::events::Event::End(tag)) => match tag.name().0 {
                     GLOBAL_TAG_NAME => break,
@@ -184,6 +184,16 @@ impl FromFileXesEventLogReader {
         map
     }
 
+    fn add_default_value(tag: &BytesStart, map: &mut Option<HashMap<String, EventPayloadValue>>) {
+        if let Some(descriptor) = utils::read_payload_like_tag(tag) {
+            let map = map.get_or_insert_with(HashMap::new);
+            let payload_type = descriptor.payload_type.as_str().as_bytes();
+            if let Some(payload_value) = utils::extract_payload_value(payload_type, &descriptor.value) {
+                map.insert(descriptor.key, payload_value);
+            }
+        }
+    }
+
     fn try_read_classifier(tag: &BytesStart) -> Option<XesClassifier> {
         let mut name: Option<String> = None;
         let mut keys: Option<Vec<String>> = None;
diff --git a/src/rust/ficus_backend/src/event_log/xes/reader/utils.rs b/src/rust/ficus_backend/src/event_log/xes/reader/utils.rs
index 4c39ef4..676cb93 100644
--- a/src/rust/ficus_backend/src/event_log/xes/reader/utils.rs
+++ b/src/rust/ficus_backend/src/event_log/xes/reader/utils.rs
@@ -1,4 +1,4 @@
-use std::rc::Rc;
+use std::{io::BufRead, rc::Rc};
 
 use chrono::{DateTime, Utc};
 
@@ -7,6 +7,7 @@ use crate::event_log::{core::event::event::EventPayloadValue, xes::constants::*}
 use quick_xml::{
     escape::unescape,
     events::{attributes::Attribute, BytesStart},
+    Reader,
 };
 
 pub struct KeyValuePair<TKey, TValue> {
@@ -39,6 +40,10 @@ pub fn read_payload_like_tag(tag: &BytesStart) -> Option<PayloadTagDescriptor> {
     Some(descriptor)
 }
 
+pub fn skip_content<TReader: BufRead>(reader: &mut Reader<TReader>, tag: &BytesStart) -> Option<()> {
+    reader.read_to_end_into(tag.to_end().name(), &mut Vec::new()).ok().map(|_| ())
+}
+
 pub fn extract_key_value(start: &BytesStart) -> KeyValuePair<String, String> {
     let mut key: Option<String> = None;
     let mut value: Option<String> = None;
diff --git a/src/rust/ficus_backend/src/event_log/xes/reader/xes_log_trace_reader.rs b/src/rust/ficus_backend/src/event_log/xes/reader/xes_log_trace_reader.rs
index 69f704e..5e3d239 100644
--- a/src/rust/ficus_backend/src/event_log/xes/reader/xes_log_trace_reader.rs
+++ b/src/rust/ficus_backend/src/event_log/xes/reader/xes_log_trace_reader.rs
@@ -3,7 +3,7 @@ use crate::event_log::{core::event::event::EventPayloadValue, xes::xes_event::Xe
 use crate::event_log::xes::constants::*;
 
 use chrono::{DateTime, Utc};
-use quick_xml::Reader;
+use quick_xml::{events::BytesStart, Reader};
 use std::{cell::RefCell, collections::HashMap, fs::File, io::BufReader, rc::Rc};
 
 use super::utils;
@@ -59,8 +59,10 @@ impl TraceXesEventLogIterator {
 
         self.set_defaults_value(&mut name, &mut date, &mut payload);
 
+        let mut reader = self.reader.borrow_mut();
+
         loop {
-            match self.reader.borrow_mut().read_event_into(&mut self.buffer) {
+            match reader.read_event_into(&mut self.buffer) {
                 Ok(quick_xml::events::Event::End(end)) => match end.name().0 {
                     EVENT_TAG_NAME => {
                         if !name.is_some() {
@@ -75,16 +77,13 @@ impl TraceXesEventLogIterator {
                     }
                     _ => continue,
                 },
-                Ok(quick_xml::events::Event::Empty(empty)) => match utils::read_payload_like_tag(&empty) {
-                    Some(descriptor) => {
-                        let payload_type = descriptor.payload_type.as_str().as_bytes();
-                        let key = descriptor.key.as_str();
-                        let value = descriptor.value.as_str();
-
-                        Self::set_parsed_value(payload_type, key, value, &mut name, &mut date, &mut payload);
-                    }
-                    None => continue,
-                },
+                Ok(quick_xml::events::Event::Empty(empty)) => {
+                    Self::set_attribute(&empty, &mut name, &mut date, &mut payload);
+                }
+                Ok(quick_xml::events::Event::Start(start)) => {
+                    Self::set_attribute(&start, &mut name, &mut date, &mut payload);
+                    utils::skip_content(&mut reader, &start)?;
+                }
                 Ok(quick_xml::events::Event::Eof) => return None,
                 Err(_) => return None,
                 _ => continue,
@@ -108,6 +107,18 @@ impl TraceXesEventLogIterator {
         }
     }
 
+    fn set_attribute(
+        tag: &BytesStart,
+        name: &mut Option<Rc<Box<String>>>,
+        date: &mut Option<DateTime<Utc>>,
+        payload: &mut HashMap<String, EventPayloadValue>,
+    ) {
+        if let Some(descriptor) = utils::read_payload_like_tag(tag) {
+            let payload_type = descriptor.payload_type.as_str().as_bytes();
+            Self::set_parsed_value(payload_type, &descriptor.key, &descriptor.value, name, date, payload);
+        }
+    }
+
     fn set_parsed_value(
         payload_type: &[u8],
         key: &str,
-- 
2.43.0


From b83ac166714d3801e618595e5dbdb9616db552ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:29 +0000
Subject: [PATCH 51/77] fix: unescape names of XES extensions, classifiers and
 scopes, and do not panic on unknown entities

---
 .../event_log/xes/reader/file_xes_log_reader.rs   |  6 +++---
 .../src/event_log/xes/reader/utils.rs             | 15 ++++++++++-----
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/rust/ficus_backend/src/event_log/xes/reader/file_xes_log_reader.rs b/src/rust/ficus_backend/src/event_log/xes/reader/file_xes_log_reader.rs
index 6b556aa..1904414 100644
--- a/src/rust/ficus_backend/src/event_log/xes/reader/file_xes_log_reader.rs
+++ b/src/rust/ficus_backend/src/event_log/xes/reader/file_xes_log_reader.rs
@@ -206,9 +206,9 @@ impl FromFileXesEventLogReader {
                             return None;
                         }
                     }
-                    KEYS_ATTR_NAME => match String::from_utf8(real_attr.value.into_owned()) {
-                        Ok(keys_string) => keys = Some(keys_string.split(" ").map(|s| s.to_owned()).collect()),
-                        Err(_) => return None,
+                    KEYS_ATTR_NAME => match utils::read_unescaped(&real_attr) {
+                        Some(keys_string) => keys = Some(keys_string.split(" ").map(|s| s.to_owned()).collect()),
+                        None => return None,
                     },
                     _ => continue,
                 },
diff --git a/src/rust/ficus_backend/src/event_log/xes/reader/utils.rs b/src/rust/ficus_backend/src/event_log/xes/reader/utils.rs
index 676cb93..6b437af 100644
--- a/src/rust/ficus_backend/src/event_log/xes/reader/utils.rs
+++ b/src/rust/ficus_backend/src/event_log/xes/reader/utils.rs
@@ -27,8 +27,8 @@ pub fn read_payload_like_tag(tag: &BytesStart) -> Option<PayloadTagDescriptor> {
         return None;
     }
 
-    let key = unescape(kv.key.as_ref().unwrap()).ok().unwrap().to_string();
-    let value = unescape(kv.value.as_ref().unwrap()).ok().unwrap().to_string();
+    let key = unescape(kv.key.as_ref().unwrap()).ok()?.to_string();
+    let value = unescape(kv.value.as_ref().unwrap()).ok()?.to_string();
 
     let payload_type = match String::from_utf8(tag.name().0.to_vec()) {
         Ok(string) => string,
@@ -68,14 +68,19 @@ pub fn extract_key_value(start: &BytesStart) -> KeyValuePair<String, String> {
     return KeyValuePair { key, value };
 }
 
+pub fn read_unescaped(real_attr: &Attribute) -> Option<String> {
+    let string = String::from_utf8(real_attr.value.as_ref().to_vec()).ok()?;
+    Some(unescape(&string).ok()?.to_string())
+}
+
 #[inline]
 pub fn read_attr_value(real_attr: &Attribute, var: &mut Option<String>) -> bool {
-    match String::from_utf8(real_attr.value.as_ref().to_vec()) {
-        Ok(string) => {
+    match read_unescaped(real_attr) {
+        Some(string) => {
             *var = Some(string);
             true
         }
-        Err(_) => false,
+        None => false,
     }
 }
 
-- 
2.43.0


From 26a3983b3d12bb46cb79b3e59a976295f242796c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:29 +0000
Subject: [PATCH 52/77] fix: read XES dates of artificial events back

---
 .../ficus_backend/src/event_log/xes/reader/utils.rs    | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/rust/ficus_backend/src/event_log/xes/reader/utils.rs b/src/rust/ficus_backend/src/event_log/xes/reader/utils.rs
index 6b437af..9c62fd3 100644
--- a/src/rust/ficus_backend/src/event_log/xes/reader/utils.rs
+++ b/src/rust/ficus_backend/src/event_log/xes/reader/utils.rs
@@ -86,9 +86,13 @@ pub fn read_attr_value(real_attr: &Attribute, var: &mut Option<String>) -> bool
 
 pub fn extract_payload_value(name: &[u8], value: &str) -> Option<EventPayloadValue> {
     match name {
-        DATE_TAG_NAME => match DateTime::parse_from_rfc3339(value) {
-            Err(_) => None,
-            Ok(date) => Some(EventPayloadValue::Date(date.with_timezone(&Utc))),
+        DATE_TAG_NAME => match DateTime::parse_from_rfc3339(value).map(|date| date.with_timezone(&Utc)) {
+            Ok(date) => Some(EventPayloadValue::Date(date)),
+            //years outside of 0..9999, including the minimal and maximal dates of artificial events
+            Err(_) => match value.parse::<DateTime<Utc>>() {
+                Ok(date) => Some(EventPayloadValue::Date(date)),
+                Err(_) => None,
+            },
         },
         INT_TAG_NAME => match value.parse::<i64>() {
             Err(_) => None,
-- 
2.43.0


From 0cdbc7e0f84890de64b01276af89f5ed4193476b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:29 +0000
Subject: [PATCH 53/77] fix: read large unsigned integers of a XES log

---
 src/rust/ficus_backend/src/event_log/xes/reader/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rust/ficus_backend/src/event_log/xes/reader/utils.rs b/src/rust/ficus_backend/src/event_log/xes/reader/utils.rs
index 9c62fd3..3411fef 100644
--- a/src/rust/ficus_backend/src/event_log/xes/reader/utils.rs
+++ b/src/rust/ficus_backend/src/event_log/xes/reader/utils.rs
@@ -95,7 +95,7 @@ pub fn extract_payload_value(name: &[u8], value: &str) -> Option<EventPayloadVal
             },
         },
         INT_TAG_NAME => match value.parse::<i64>() {
-            Err(_) => None,
+            Err(_) => value.parse::<u64>().ok().map(|uint_value| EventPayloadValue::Uint64(uint_value)),
             Ok(int_value) => Some(EventPayloadValue::Int64(int_value)),
         },
         FLOAT_TAG_NAME => match value.parse::<f64>() {
-- 
2.43.0


From 4f3d32f8ae80fef1b77875feafa1f530bca77cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:29 +0000
Subject: [PATCH 54/77] fix: keep a XES global without default values

---
 .../src/event_log/xes/reader/file_xes_log_reader.rs        | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/rust/ficus_backend/src/event_log/xes/reader/file_xes_log_reader.rs b/src/rust/ficus_backend/src/event_log/xes/reader/file_xes_log_reader.rs
index 1904414..f12c509 100644
--- a/src/rust/ficus_backend/src/event_log/xes/reader/file_xes_log_reader.rs
+++ b/src/rust/ficus_backend/src/event_log/xes/reader/file_xes_log_reader.rs
@@ -162,7 +162,7 @@ impl FromFileXesEventLogReader {
     }
 
     fn try_read_global(reader: &mut Reader<BufReader<File>>, storage: &mut Vec<u8>) -> Option<HashMap<String, EventPayloadValue>> {
-        let mut map: Option<HashMap<String, EventPayloadValue>> = None;
+        let mut map = HashMap::new();
 
         loop {
             match reader.read_event_into(storage) {
@@ -181,12 +181,11 @@ impl FromFileXesEventLogReader {
             }
         }
 
-        map
+        Some(map)
     }
 
-    fn add_default_value(tag: &BytesStart, map: &mut Option<HashMap<String, EventPayloadValue>>) {
+    fn add_default_value(tag: &BytesStart, map: &mut HashMap<String, EventPayloadValue>) {
         if let Some(descriptor) = utils::read_payload_like_tag(tag) {
-            let map = map.get_or_insert_with(HashMap::new);
             let payload_type = descriptor.payload_type.as_str().as_bytes();
             if let Some(payload_value) = utils::extract_payload_value(payload_type, &descriptor.value) {
                 map.insert(descriptor.key, payload_value);
-- 
2.43.0


From 22f88abb72d49b0516b6ef3d937b682af7b0666d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:29 +0000
Subject: [PATCH 55/77] fix: read every trace of a bxes variant

---
 .../src/event_log/bxes/bxes_to_xes_converter.rs      | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/rust/ficus_backend/src/event_log/bxes/bxes_to_xes_converter.rs b/src/rust/ficus_backend/src/event_log/bxes/bxes_to_xes_converter.rs
index 0c51fa5..2f70df0 100644
--- a/src/rust/ficus_backend/src/event_log/bxes/bxes_to_xes_converter.rs
+++ b/src/rust/ficus_backend/src/event_log/bxes/bxes_to_xes_converter.rs
@@ -46,12 +46,14 @@ pub fn read_bxes_into_xes_log(path: &str) -> Result<XesEventLogImpl, BxesToXesRe
     set_globals(&mut xes_log, &log)?;
 
     for variant in &log.variants {
-        let mut xes_trace = XesTraceImpl::empty();
-        for event in &variant.events {
-            xes_trace.push(Rc::new(RefCell::new(create_xes_event(event)?)));
-        }
+        for _ in 0..variant.traces_count {
+            let mut xes_trace = XesTraceImpl::empty();
+            for event in &variant.events {
+                xes_trace.push(Rc::new(RefCell::new(create_xes_event(event)?)));
+            }
 
-        xes_log.push(Rc::new(RefCell::new(xes_trace)));
+            xes_log.push(Rc::new(RefCell::new(xes_trace)));
+        }
     }
 
     Ok(xes_log)
-- 
2.43.0


From e42cc000cc6aee89c9508f9f9ec4a31dd36b0400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:29 +0000
Subject: [PATCH 56/77] fix: restore the default attributes of bxes events

---
 .../event_log/bxes/bxes_to_xes_converter.rs   | 22 +++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/rust/ficus_backend/src/event_log/bxes/bxes_to_xes_converter.rs b/src/rust/ficus_backend/src/event_log/bxes/bxes_to_xes_converter.rs
index 2f70df0..b0c63da 100644
--- a/src/rust/ficus_backend/src/event_log/bxes/bxes_to_xes_converter.rs
+++ b/src/rust/ficus_backend/src/event_log/bxes/bxes_to_xes_converter.rs
@@ -9,6 +9,7 @@ use chrono::{TimeZone, Utc};
 use crate::event_log::{
     core::{event::event::EventPayloadValue, event_log::EventLog, trace::trace::Trace},
     xes::{
+        constants::{CONCEPT_NAME_STR, EVENT_TAG_NAME_STR, TIME_TIMESTAMP_STR},
         shared::{XesClassifier, XesEventLogExtension, XesProperty},
         xes_event::XesEventImpl,
         xes_event_log::XesEventLogImpl,
@@ -45,11 +46,12 @@ pub fn read_bxes_into_xes_log(path: &str) -> Result<XesEventLogImpl, BxesToXesRe
     set_extensions(&mut xes_log, &log)?;
     set_globals(&mut xes_log, &log)?;
 
+    let defaults = event_defaults(&xes_log);
     for variant in &log.variants {
         for _ in 0..variant.traces_count {
             let mut xes_trace = XesTraceImpl::empty();
             for event in &variant.events {
-                xes_trace.push(Rc::new(RefCell::new(create_xes_event(event)?)));
+                xes_trace.push(Rc::new(RefCell::new(create_xes_event(event, &defaults)?)));
             }
 
             xes_log.push(Rc::new(RefCell::new(xes_trace)));
@@ -136,7 +138,15 @@ fn string_or_err(value: &BxesValue, entity_name: &str) -> Result<String, BxesToX
     }
 }
 
-fn create_xes_event(bxes_event: &BxesEvent) -> Result<XesEventImpl, BxesToXesReadError> {
+fn event_defaults(log: &XesEventLogImpl) -> HashMap<String, EventPayloadValue> {
+    let mut defaults = log.globals_map().get(EVENT_TAG_NAME_STR).cloned().unwrap_or_default();
+    defaults.remove(CONCEPT_NAME_STR);
+    defaults.remove(TIME_TIMESTAMP_STR);
+
+    defaults
+}
+
+fn create_xes_event(bxes_event: &BxesEvent, defaults: &HashMap<String, EventPayloadValue>) -> Result<XesEventImpl, BxesToXesReadError> {
     let name = if let BxesValue::String(string) = bxes_event.name.as_ref().as_ref() {
         string.clone()
     } else {
@@ -145,16 +155,18 @@ fn create_xes_event(bxes_event: &BxesEvent) -> Result<XesEventImpl, BxesToXesRea
     };
 
     let timestamp = Utc.timestamp_nanos(bxes_event.timestamp);
-    let payload = create_xes_payload(bxes_event.attributes.as_ref())?;
+    let payload = create_xes_payload(bxes_event.attributes.as_ref(), defaults)?;
 
     Ok(XesEventImpl::new_all_fields(name, timestamp, payload))
 }
 
 fn create_xes_payload(
     attributes: Option<&Vec<(Rc<Box<BxesValue>>, Rc<Box<BxesValue>>)>>,
+    defaults: &HashMap<String, EventPayloadValue>,
 ) -> Result<Option<HashMap<String, EventPayloadValue>>, BxesToXesReadError> {
     if let Some(attributes) = attributes {
-        let mut payload = HashMap::new();
+        //the writer omits the attributes which are equal to the defaults
+        let mut payload = defaults.clone();
 
         for (key, value) in attributes {
             let key = if let BxesValue::String(string) = key.as_ref().as_ref() {
@@ -168,6 +180,8 @@ fn create_xes_payload(
         }
 
         Ok(Some(payload))
+    } else if !defaults.is_empty() {
+        Ok(Some(defaults.clone()))
     } else {
         Ok(None)
     }
-- 
2.43.0


From 1ba6cc39d08017904c4b877db6c0ba6b0cf94242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:29 +0000
Subject: [PATCH 57/77] fix: report dates which bxes can not represent instead
 of panicking

---
 .../src/event_log/bxes/conversions.rs         | 17 ++++--
 .../event_log/bxes/xes_to_bxes_converter.rs   | 61 +++++++++----------
 2 files changed, 42 insertions(+), 36 deletions(-)

diff --git a/src/rust/ficus_backend/src/event_log/bxes/conversions.rs b/src/rust/ficus_backend/src/event_log/bxes/conversions.rs
index 6be4aef..6db8010 100644
--- a/src/rust/ficus_backend/src/event_log/bxes/conversions.rs
+++ b/src/rust/ficus_backend/src/event_log/bxes/conversions.rs
@@ -1,5 +1,5 @@
 use bxes::models::{BxesGlobalKind, BxesValue};
-use chrono::{TimeZone, Utc};
+use chrono::{DateTime, TimeZone, Utc};
 
 use crate::event_log::core::event::{
     event::EventPayloadValue,
@@ -34,9 +34,16 @@ pub(super) fn bxes_value_to_payload_value(value: &BxesValue) -> EventPayloadValu
     }
 }
 
-pub(super) fn payload_value_to_bxes_value(value: &EventPayloadValue) -> BxesValue {
-    match value {
-        EventPayloadValue::Date(value) => BxesValue::Timestamp(value.timestamp_nanos()),
+pub(super) fn date_to_bxes_timestamp(date: &DateTime<Utc>) -> Result<i64, XesToBxesWriterError> {
+    let seconds = date.timestamp() as i128;
+    let nanos = seconds * 1_000_000_000 + date.timestamp_subsec_nanos() as i128;
+
+    i64::try_from(nanos).map_err(|_| XesToBxesWriterError::ConversionError(format!("The date {} can not be represented in bxes", date)))
+}
+
+pub(super) fn payload_value_to_bxes_value(value: &EventPayloadValue) -> Result<BxesValue, XesToBxesWriterError> {
+    Ok(match value {
+        EventPayloadValue::Date(value) => BxesValue::Timestamp(date_to_bxes_timestamp(value)?),
         EventPayloadValue::String(value) => BxesValue::String(value.clone()),
         EventPayloadValue::Boolean(value) => BxesValue::Bool(*value),
         EventPayloadValue::Int32(value) => BxesValue::Int32(*value),
@@ -51,7 +58,7 @@ pub(super) fn payload_value_to_bxes_value(value: &EventPayloadValue) -> BxesValu
             bxes::models::Lifecycle::Braf(braf) => BxesValue::BrafLifecycle(braf),
             bxes::models::Lifecycle::Standard(standard) => BxesValue::StandardLifecycle(standard),
         },
-    }
+    })
 }
 
 pub(super) fn convert_bxes_to_xes_lifecycle(bxes_lifecycle: &bxes::models::Lifecycle) -> Lifecycle {
diff --git a/src/rust/ficus_backend/src/event_log/bxes/xes_to_bxes_converter.rs b/src/rust/ficus_backend/src/event_log/bxes/xes_to_bxes_converter.rs
index c12c30b..3ca9a8b 100644
--- a/src/rust/ficus_backend/src/event_log/bxes/xes_to_bxes_converter.rs
+++ b/src/rust/ficus_backend/src/event_log/bxes/xes_to_bxes_converter.rs
@@ -14,7 +14,7 @@ use crate::event_log::{
     xes::{constants::EVENT_TAG_NAME_STR, shared::XesEventLogExtension, xes_event::XesEventImpl, xes_event_log::XesEventLogImpl},
 };
 
-use super::conversions::{convert_xes_to_bxes_lifecycle, parse_entity_kind, payload_value_to_bxes_value};
+use super::conversions::{date_to_bxes_timestamp, parse_entity_kind, payload_value_to_bxes_value};
 
 pub enum XesToBxesWriterError {
     BxesWriteError(BxesWriteError),
@@ -36,9 +36,9 @@ pub fn write_event_log_to_bxes(log: &XesEventLogImpl, path: &str) -> Result<(),
             classifiers: Some(create_bxes_classifiers(log)),
             extensions: Some(create_bxes_extensions(log)),
             globals: Some(create_bxes_globals(log)?),
-            properties: Some(create_bxes_properties(log)),
+            properties: Some(create_bxes_properties(log)?),
         },
-        variants: create_bxes_traces(log),
+        variants: create_bxes_traces(log)?,
         version: 1,
     };
 
@@ -48,37 +48,39 @@ pub fn write_event_log_to_bxes(log: &XesEventLogImpl, path: &str) -> Result<(),
     }
 }
 
-fn create_bxes_traces(log: &XesEventLogImpl) -> Vec<BxesTraceVariant> {
-    log.traces()
-        .iter()
-        .map(|trace| BxesTraceVariant {
+fn create_bxes_traces(log: &XesEventLogImpl) -> Result<Vec<BxesTraceVariant>, XesToBxesWriterError> {
+    let mut variants = vec![];
+    for trace in log.traces() {
+        let mut events = vec![];
+        for event in trace.borrow().events() {
+            events.push(create_bxes_event(log, &event.borrow())?);
+        }
+
+        variants.push(BxesTraceVariant {
             traces_count: 1,
             metadata: vec![],
-            events: trace
-                .borrow()
-                .events()
-                .iter()
-                .map(|event| create_bxes_event(log, &event.borrow()))
-                .collect(),
-        })
-        .collect()
+            events,
+        });
+    }
+
+    Ok(variants)
 }
 
-fn create_bxes_event(log: &XesEventLogImpl, event: &XesEventImpl) -> BxesEvent {
+fn create_bxes_event(log: &XesEventLogImpl, event: &XesEventImpl) -> Result<BxesEvent, XesToBxesWriterError> {
     let bxes_event = BxesEvent {
         name: Rc::new(Box::new(BxesValue::String(event.name_pointer().clone()))),
-        timestamp: event.timestamp().timestamp_nanos(),
+        timestamp: date_to_bxes_timestamp(event.timestamp())?,
         attributes: Some(
             event
                 .ordered_payload()
                 .iter()
                 .filter(|kv| is_not_default_attribute(log, kv))
                 .map(|kv| kv_pair_to_bxes_pair(kv))
-                .collect(),
+                .collect::<Result<Vec<_>, _>>()?,
         ),
     };
 
-    bxes_event
+    Ok(bxes_event)
 }
 
 fn is_not_default_attribute(log: &XesEventLogImpl, kv: &(&String, &EventPayloadValue)) -> bool {
@@ -124,30 +126,27 @@ fn create_bxes_globals(log: &XesEventLogImpl) -> Result<Vec<BxesGlobal>, XesToBx
     for xes_global in log.ordered_globals().iter() {
         globals.push(BxesGlobal {
             entity_kind: parse_entity_kind(xes_global.0.as_str())?,
-            globals: xes_global.1.iter().map(|kv| convert_to_bxes_global_attribute(kv)).collect(),
+            globals: xes_global
+                .1
+                .iter()
+                .map(|kv| kv_pair_to_bxes_pair(kv))
+                .collect::<Result<Vec<_>, _>>()?,
         })
     }
 
     Ok(globals)
 }
 
-fn convert_to_bxes_global_attribute(kv: &(&String, &EventPayloadValue)) -> (Rc<Box<BxesValue>>, Rc<Box<BxesValue>>) {
-    let key = Rc::new(Box::new(BxesValue::String(Rc::new(Box::new(kv.0.to_owned())))));
-    let value = Rc::new(Box::new(payload_value_to_bxes_value(kv.1)));
-
-    (key, value)
-}
-
-fn create_bxes_properties(log: &XesEventLogImpl) -> Vec<(Rc<Box<BxesValue>>, Rc<Box<BxesValue>>)> {
+fn create_bxes_properties(log: &XesEventLogImpl) -> Result<Vec<(Rc<Box<BxesValue>>, Rc<Box<BxesValue>>)>, XesToBxesWriterError> {
     log.properties_map()
         .iter()
         .map(|kv| kv_pair_to_bxes_pair(&(&kv.name, &kv.value)))
         .collect()
 }
 
-fn kv_pair_to_bxes_pair(kv: &(&String, &EventPayloadValue)) -> (Rc<Box<BxesValue>>, Rc<Box<BxesValue>>) {
-    let bxes_value = payload_value_to_bxes_value(kv.1);
+fn kv_pair_to_bxes_pair(kv: &(&String, &EventPayloadValue)) -> Result<(Rc<Box<BxesValue>>, Rc<Box<BxesValue>>), XesToBxesWriterError> {
+    let bxes_value = payload_value_to_bxes_value(kv.1)?;
     let key = Rc::new(Box::new(BxesValue::String(Rc::new(Box::new(kv.0.to_owned())))));
 
-    (key, Rc::new(Box::new(bxes_value)))
+    Ok((key, Rc::new(Box::new(bxes_value))))
 }
-- 
2.43.0


From 544fc362f15be1957bcfc4bd4a673602cc6c3c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:30 +0000
Subject: [PATCH 58/77] fix: report unsupported bxes values instead of
 panicking

---
 .../src/event_log/bxes/bxes_to_xes_converter.rs   |  6 +++---
 .../src/event_log/bxes/conversions.rs             | 15 ++++++++-------
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/rust/ficus_backend/src/event_log/bxes/bxes_to_xes_converter.rs b/src/rust/ficus_backend/src/event_log/bxes/bxes_to_xes_converter.rs
index b0c63da..f955470 100644
--- a/src/rust/ficus_backend/src/event_log/bxes/bxes_to_xes_converter.rs
+++ b/src/rust/ficus_backend/src/event_log/bxes/bxes_to_xes_converter.rs
@@ -88,7 +88,7 @@ fn set_properties(xes_log: &mut XesEventLogImpl, log: &BxesEventLog) -> Result<(
     set_metadata_vector_item(xes_log.properties_mut(), log.metadata.properties.as_ref(), |property| {
         Ok(XesProperty {
             name: string_or_err(&property.0, "Property key")?,
-            value: bxes_value_to_payload_value(&property.1),
+            value: bxes_value_to_payload_value(&property.1)?,
         })
     })
 }
@@ -111,7 +111,7 @@ fn set_globals(xes_log: &mut XesEventLogImpl, log: &BxesEventLog) -> Result<(),
             let mut globals_map = HashMap::new();
             for global_value in &global.globals {
                 let key = string_or_err(&global_value.0, format!("{} global kv key", &global_type).as_str())?;
-                globals_map.insert(key, bxes_value_to_payload_value(&global_value.1));
+                globals_map.insert(key, bxes_value_to_payload_value(&global_value.1)?);
             }
 
             xes_log.globals_mut().insert(global_type, globals_map);
@@ -176,7 +176,7 @@ fn create_xes_payload(
                 return Err(BxesToXesReadError::ConversionError(message));
             };
 
-            payload.insert(key, bxes_value_to_payload_value(&value));
+            payload.insert(key, bxes_value_to_payload_value(&value)?);
         }
 
         Ok(Some(payload))
diff --git a/src/rust/ficus_backend/src/event_log/bxes/conversions.rs b/src/rust/ficus_backend/src/event_log/bxes/conversions.rs
index 6db8010..e9697c5 100644
--- a/src/rust/ficus_backend/src/event_log/bxes/conversions.rs
+++ b/src/rust/ficus_backend/src/event_log/bxes/conversions.rs
@@ -6,10 +6,10 @@ use crate::event_log::core::event::{
     lifecycle::{braf_lifecycle::XesBrafLifecycle, standard_lifecycle::XesStandardLifecycle, xes_lifecycle::Lifecycle},
 };
 
-use super::xes_to_bxes_converter::XesToBxesWriterError;
+use super::{bxes_to_xes_converter::BxesToXesReadError, xes_to_bxes_converter::XesToBxesWriterError};
 
-pub(super) fn bxes_value_to_payload_value(value: &BxesValue) -> EventPayloadValue {
-    match value {
+pub(super) fn bxes_value_to_payload_value(value: &BxesValue) -> Result<EventPayloadValue, BxesToXesReadError> {
+    Ok(match value {
         BxesValue::Int32(value) => EventPayloadValue::Int32(*value),
         BxesValue::Int64(value) => EventPayloadValue::Int64(*value),
         BxesValue::Uint32(value) => EventPayloadValue::Uint32(*value),
@@ -27,11 +27,12 @@ pub(super) fn bxes_value_to_payload_value(value: &BxesValue) -> EventPayloadValu
             let lifecycle = bxes::models::Lifecycle::Standard(lifecycle.clone());
             EventPayloadValue::Lifecycle(convert_bxes_to_xes_lifecycle(&lifecycle))
         }
-        BxesValue::Artifact(_) => todo!(),
-        BxesValue::Drivers(_) => todo!(),
         BxesValue::Guid(value) => EventPayloadValue::Guid(*value),
-        BxesValue::SoftwareEventType(_) => todo!(),
-    }
+        BxesValue::Artifact(_) | BxesValue::Drivers(_) | BxesValue::SoftwareEventType(_) => {
+            let message = format!("The bxes value is not supported: {:?}", value);
+            return Err(BxesToXesReadError::ConversionError(message));
+        }
+    })
 }
 
 pub(super) fn date_to_bxes_timestamp(date: &DateTime<Utc>) -> Result<i64, XesToBxesWriterError> {
-- 
2.43.0


From ec3c73bb288d946bd676e563ea27307699bb9eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:33 +0000
Subject: [PATCH 59/77] fix: discover alpha++ nets when nothing has created a
 place yet

---
 src/rust/ficus_backend/src/features/discovery/alpha/alpha.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rust/ficus_backend/src/features/discovery/alpha/alpha.rs b/src/rust/ficus_backend/src/features/discovery/alpha/alpha.rs
index d3b2c2b..99eeb61 100644
--- a/src/rust/ficus_backend/src/features/discovery/alpha/alpha.rs
+++ b/src/rust/ficus_backend/src/features/discovery/alpha/alpha.rs
@@ -76,7 +76,7 @@ fn add_one_length_loops(log: &impl EventLog, one_length_loop_transitions: &HashS
 }
 
 fn add_alpha_plus_plus_transitions(log: &impl EventLog, one_length_loop_transitions: &HashSet<String>, petri_net: &mut DefaultPetriNet) {
-    let key = Lazy::get(&ALPHA_SET).unwrap();
+    let key = Lazy::force(&ALPHA_SET);
     let mut transitions_connections = HashSet::new();
     let mut places_connections = HashSet::new();
 
-- 
2.43.0


From d5a520a57ad15c4b29345e860ad49d9bc676b1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:33 +0000
Subject: [PATCH 60/77] fix: discovery of traces with less than two or three
 events

---
 src/rust/ficus_backend/src/features/discovery/alpha/alpha.rs    | 2 +-
 .../features/discovery/alpha/providers/alpha_plus_provider.rs   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rust/ficus_backend/src/features/discovery/alpha/alpha.rs b/src/rust/ficus_backend/src/features/discovery/alpha/alpha.rs
index 99eeb61..bd32729 100644
--- a/src/rust/ficus_backend/src/features/discovery/alpha/alpha.rs
+++ b/src/rust/ficus_backend/src/features/discovery/alpha/alpha.rs
@@ -124,7 +124,7 @@ pub fn find_transitions_one_length_loop(log: &impl EventLog) -> HashSet<String>
     for trace in log.traces() {
         let trace = trace.borrow();
         let events = trace.events();
-        for i in 0..(events.len() - 1) {
+        for i in 0..events.len().saturating_sub(1) {
             if events[i].borrow().name() == events[i + 1].borrow().name() {
                 one_loop_transitions.insert(events[i].borrow().name().to_owned());
             }
diff --git a/src/rust/ficus_backend/src/features/discovery/alpha/providers/alpha_plus_provider.rs b/src/rust/ficus_backend/src/features/discovery/alpha/providers/alpha_plus_provider.rs
index 2e0f7ba..a77e5cc 100644
--- a/src/rust/ficus_backend/src/features/discovery/alpha/providers/alpha_plus_provider.rs
+++ b/src/rust/ficus_backend/src/features/discovery/alpha/providers/alpha_plus_provider.rs
@@ -40,7 +40,7 @@ pub fn calculate_triangle_relations(log: &impl EventLog) -> HashMap<(String, Str
         let trace = trace.borrow();
         let events = trace.events();
 
-        for index in 0..(events.len() - 2) {
+        for index in 0..events.len().saturating_sub(2) {
             if events[index].borrow().name() == events[index + 2].borrow().name() {
                 let pair = (
                     events[index].borrow().name().to_owned(),
-- 
2.43.0


From 501dc68c999753249de85f2dd6c268d8dc5f9519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:33 +0000
Subject: [PATCH 61/77] fix: ignored events do not start or end traces in the
 log info

---
 .../src/features/analysis/event_log_info.rs        | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/rust/ficus_backend/src/features/analysis/event_log_info.rs b/src/rust/ficus_backend/src/features/analysis/event_log_info.rs
index 001977d..9d231ad 100644
--- a/src/rust/ficus_backend/src/features/analysis/event_log_info.rs
+++ b/src/rust/ficus_backend/src/features/analysis/event_log_info.rs
@@ -100,11 +100,6 @@ impl EventLogInfo {
             events_count += events.len();
             let mut prev_event_name = None;
 
-            if events.len() > 0 {
-                start_event_classes.insert(events.first().unwrap().borrow().name().to_owned());
-                end_event_classes.insert(events.last().unwrap().borrow().name().to_owned());
-            }
-
             for event in events {
                 let event = event.borrow();
                 let current_name = event.name().to_owned();
@@ -119,6 +114,7 @@ impl EventLogInfo {
 
                 if prev_event_name.is_none() {
                     prev_event_name = Some(current_name.to_owned());
+                    start_event_classes.insert(current_name.to_owned());
                     if add_fake_start_end_events {
                         update_pairs_count(&FAKE_EVENT_START_NAME.to_string(), &current_name);
                     }
@@ -131,8 +127,12 @@ impl EventLogInfo {
                 prev_event_name = Some(event.name().to_owned());
             }
 
-            if add_fake_start_end_events && prev_event_name.is_some() {
-                update_pairs_count(&prev_event_name.unwrap(), &FAKE_EVENT_END_NAME.to_string());
+            if let Some(last_event_name) = prev_event_name {
+                if add_fake_start_end_events {
+                    update_pairs_count(&last_event_name, &FAKE_EVENT_END_NAME.to_string());
+                }
+
+                end_event_classes.insert(last_event_name);
             }
         }
 
-- 
2.43.0


From 73b278bd4dfd219b0e3d5d5199c0c39e5373f5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:33 +0000
Subject: [PATCH 62/77] fix: alpha++ nfc terminates on cyclic implicit
 dependencies

---
 .../alpha/alpha_plus_plus_nfc/alpha_plus_plus_nfc.rs         | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rust/ficus_backend/src/features/discovery/alpha/alpha_plus_plus_nfc/alpha_plus_plus_nfc.rs b/src/rust/ficus_backend/src/features/discovery/alpha/alpha_plus_plus_nfc/alpha_plus_plus_nfc.rs
index 34a7038..254e8ee 100644
--- a/src/rust/ficus_backend/src/features/discovery/alpha/alpha_plus_plus_nfc/alpha_plus_plus_nfc.rs
+++ b/src/rust/ficus_backend/src/features/discovery/alpha/alpha_plus_plus_nfc/alpha_plus_plus_nfc.rs
@@ -259,6 +259,7 @@ fn construct_w3_transitive_closure_cache<'a>(w3_relations: &'a HashSet<(&'a Stri
             }
 
             let mut is_in_closure = false;
+            let mut visited = HashSet::new();
             let mut q = VecDeque::new();
             q.push_back(first_class);
 
@@ -270,7 +271,9 @@ fn construct_w3_transitive_closure_cache<'a>(w3_relations: &'a HashSet<(&'a Stri
                         break 'q_loop;
                     } else {
                         for child in children {
-                            q.push_back(child);
+                            if visited.insert(child) {
+                                q.push_back(child);
+                            }
                         }
                     }
                 }
-- 
2.43.0


From 4ec7ecdba370c9c92a22937a96f0e40ebbc5910d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:33 +0000
Subject: [PATCH 63/77] fix: sets with the same elements in different places
 are not equal

---
 .../alpha_plus_plus_nfc_triple.rs                    | 12 +++---------
 .../alpha/alpha_plus_plus_nfc/extended_alpha_set.rs  |  9 ++-------
 src/rust/ficus_backend/src/utils/sets/two_sets.rs    |  9 ++-------
 3 files changed, 7 insertions(+), 23 deletions(-)

diff --git a/src/rust/ficus_backend/src/features/discovery/alpha/alpha_plus_plus_nfc/alpha_plus_plus_nfc_triple.rs b/src/rust/ficus_backend/src/features/discovery/alpha/alpha_plus_plus_nfc/alpha_plus_plus_nfc_triple.rs
index 67224d9..2527fbc 100644
--- a/src/rust/ficus_backend/src/features/discovery/alpha/alpha_plus_plus_nfc/alpha_plus_plus_nfc_triple.rs
+++ b/src/rust/ficus_backend/src/features/discovery/alpha/alpha_plus_plus_nfc/alpha_plus_plus_nfc_triple.rs
@@ -100,15 +100,9 @@ impl<'a> AlphaPlusPlusNfcTriple<'a> {
 
 impl<'a> Hash for AlphaPlusPlusNfcTriple<'a> {
     fn hash<H: Hasher>(&self, state: &mut H) {
-        let mut hash_classes = |set: &BTreeSet<&'a String>| {
-            for class in set {
-                state.write(class.as_bytes());
-            }
-        };
-
-        hash_classes(&self.a_classes);
-        hash_classes(&self.b_classes);
-        hash_classes(&self.c_classes);
+        self.a_classes.hash(state);
+        self.b_classes.hash(state);
+        self.c_classes.hash(state);
     }
 }
 
diff --git a/src/rust/ficus_backend/src/features/discovery/alpha/alpha_plus_plus_nfc/extended_alpha_set.rs b/src/rust/ficus_backend/src/features/discovery/alpha/alpha_plus_plus_nfc/extended_alpha_set.rs
index 67a7a6b..e108142 100644
--- a/src/rust/ficus_backend/src/features/discovery/alpha/alpha_plus_plus_nfc/extended_alpha_set.rs
+++ b/src/rust/ficus_backend/src/features/discovery/alpha/alpha_plus_plus_nfc/extended_alpha_set.rs
@@ -183,13 +183,8 @@ impl<'a> ExtendedAlphaSet<'a> {
 impl<'a> Hash for ExtendedAlphaSet<'a> {
     fn hash<H: Hasher>(&self, state: &mut H) {
         self.alpha_set.hash(state);
-        for left in &self.left_extension {
-            state.write(left.as_bytes());
-        }
-
-        for right in &self.right_extension {
-            state.write(right.as_bytes());
-        }
+        self.left_extension.hash(state);
+        self.right_extension.hash(state);
     }
 }
 
diff --git a/src/rust/ficus_backend/src/utils/sets/two_sets.rs b/src/rust/ficus_backend/src/utils/sets/two_sets.rs
index 4415624..85f005f 100644
--- a/src/rust/ficus_backend/src/utils/sets/two_sets.rs
+++ b/src/rust/ficus_backend/src/utils/sets/two_sets.rs
@@ -74,13 +74,8 @@ where
     T: Hash + Eq + ToString + Ord + Clone,
 {
     fn hash<H: Hasher>(&self, state: &mut H) {
-        for item in &self.first_set {
-            item.hash(state);
-        }
-
-        for item in &self.second_set {
-            item.hash(state);
-        }
+        self.first_set.hash(state);
+        self.second_set.hash(state);
     }
 }
 
-- 
2.43.0


From 4ddd7612203335e6ecccdf342ca3a6ccfc75e1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:33 +0000
Subject: [PATCH 64/77] fix: forget cached alpha++ nfc relations when causal
 relations are added

---
 .../discovery/alpha/providers/alpha_plus_nfc_provider.rs     | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rust/ficus_backend/src/features/discovery/alpha/providers/alpha_plus_nfc_provider.rs b/src/rust/ficus_backend/src/features/discovery/alpha/providers/alpha_plus_nfc_provider.rs
index b1c327b..f06b396 100644
--- a/src/rust/ficus_backend/src/features/discovery/alpha/providers/alpha_plus_nfc_provider.rs
+++ b/src/rust/ficus_backend/src/features/discovery/alpha/providers/alpha_plus_nfc_provider.rs
@@ -481,6 +481,9 @@ where
     }
 
     pub fn add_additional_causal_relation(&mut self, first: &'a String, second: &'a String) {
-        self.additional_causal_relations.insert((first, second));
+        if self.additional_causal_relations.insert((first, second)) {
+            //the other relations depend on the causal one, so they should be calculated again
+            self.caches = RelationsCaches::new(RELATIONS_NAMES);
+        }
     }
 }
-- 
2.43.0


From d79b60f4242b766d4aa30e7dec918fd3ef635b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:58 +0000
Subject: [PATCH 65/77] fix: the heuristic miner connects a place and a
 transition only once

---
 .../discovery/heuristic/heuristic_miner.rs         | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/rust/ficus_backend/src/features/discovery/heuristic/heuristic_miner.rs b/src/rust/ficus_backend/src/features/discovery/heuristic/heuristic_miner.rs
index 0ecde3f..979411d 100644
--- a/src/rust/ficus_backend/src/features/discovery/heuristic/heuristic_miner.rs
+++ b/src/rust/ficus_backend/src/features/discovery/heuristic/heuristic_miner.rs
@@ -108,8 +108,8 @@ fn construct_heuristic_petri_net(log: &EventLogInfo, provider: &HeuristicMinerRe
 }
 
 fn add_length_two_loops(info: &EventLogInfo, provider: &HeuristicMinerRelationsProvider, petri_net: &mut DefaultPetriNet) {
-    let mut places_to_transitions = vec![];
-    let mut transitions_to_places = vec![];
+    let mut places_to_transitions = HashSet::new();
+    let mut transitions_to_places = HashSet::new();
     for first_class in info.all_event_classes() {
         for second_class in info.all_event_classes() {
             if first_class != second_class && provider.loop_length_two_relation(first_class, second_class) {
@@ -117,11 +117,17 @@ fn add_length_two_loops(info: &EventLogInfo, provider: &HeuristicMinerRelationsP
                 let second_transition = petri_net.find_transition_by_name(second_class).unwrap();
 
                 for output_arc in second_transition.outgoing_arcs() {
-                    places_to_transitions.push((output_arc.place_id(), first_transition.id()));
+                    let place_id = output_arc.place_id();
+                    if !first_transition.incoming_arcs().iter().any(|arc| arc.place_id() == place_id) {
+                        places_to_transitions.insert((place_id, first_transition.id()));
+                    }
                 }
 
                 for incoming_arc in second_transition.incoming_arcs() {
-                    transitions_to_places.push((first_transition.id(), incoming_arc.place_id()));
+                    let place_id = incoming_arc.place_id();
+                    if !first_transition.outgoing_arcs().iter().any(|arc| arc.place_id() == place_id) {
+                        transitions_to_places.insert((first_transition.id(), place_id));
+                    }
                 }
             }
         }
-- 
2.43.0


From 51562986dd4d4cc8970fd7c218c781272beb7b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:39 +0000
Subject: [PATCH 66/77] fix: incoming neighbours of a node are connected to it

---
 src/rust/ficus_backend/src/utils/graph/graph.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rust/ficus_backend/src/utils/graph/graph.rs b/src/rust/ficus_backend/src/utils/graph/graph.rs
index d835cf2..d1d8c56 100644
--- a/src/rust/ficus_backend/src/utils/graph/graph.rs
+++ b/src/rust/ficus_backend/src/utils/graph/graph.rs
@@ -93,9 +93,9 @@ where
             Some(connections) => connections.keys().collect(),
         };
 
-        for (node_id, connections) in &self.connections {
+        for (candidate, connections) in &self.connections {
             if connections.contains_key(node_id) {
-                connected_nodes.push(node_id);
+                connected_nodes.push(candidate);
             }
         }
 
-- 
2.43.0


From b311acf978e217c9ed19fa3dd700ff4e7c7fe642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:35 +0000
Subject: [PATCH 67/77] fix: one length loops with different neighbours do not
 share a place

---
 .../src/features/discovery/alpha/alpha.rs       | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/rust/ficus_backend/src/features/discovery/alpha/alpha.rs b/src/rust/ficus_backend/src/features/discovery/alpha/alpha.rs
index bd32729..d299aa5 100644
--- a/src/rust/ficus_backend/src/features/discovery/alpha/alpha.rs
+++ b/src/rust/ficus_backend/src/features/discovery/alpha/alpha.rs
@@ -41,6 +41,13 @@ pub fn discover_petri_net_alpha_plus(
 fn add_one_length_loops(log: &impl EventLog, one_length_loop_transitions: &HashSet<String>, petri_net: &mut DefaultPetriNet) {
     let event_log_info = EventLogInfo::create_from(EventLogInfoCreationDto::default(log));
 
+    let mut places = HashMap::new();
+    for place in petri_net.all_places() {
+        if let Some(alpha_set) = place.user_data().concrete(Lazy::force(&ALPHA_SET)) {
+            places.insert(alpha_set.clone(), place.id());
+        }
+    }
+
     for transition_name in one_length_loop_transitions {
         let mut alpha_set = AlphaSet::empty();
         if let Some(followed_events) = event_log_info.dfg_info().get_followed_events(transition_name) {
@@ -65,9 +72,13 @@ fn add_one_length_loops(log: &impl EventLog, one_length_loop_transitions: &HashS
             Some(transition_name.to_owned()),
         ));
 
-        let place_id = match petri_net.find_place_id_by_name(alpha_set.to_string().as_str()) {
-            Some(found_place_id) => found_place_id,
-            None => petri_net.add_place(Place::with_name(alpha_set.to_string())),
+        let place_id = match places.get(&alpha_set) {
+            Some(found_place_id) => *found_place_id,
+            None => {
+                let place_id = petri_net.add_place(Place::with_name(alpha_set.to_string()));
+                places.insert(alpha_set, place_id);
+                place_id
+            }
         };
 
         petri_net.connect_transition_to_place(&id, &place_id, None);
-- 
2.43.0


From 3f3d96c8ccd2dc60cf70f5df3e5deae47aad7b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:26 +0000
Subject: [PATCH 68/77] fix: replay takes tokens only where there are enough of
 them

---
 .../src/features/discovery/petri_net/replay.rs        | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/rust/ficus_backend/src/features/discovery/petri_net/replay.rs b/src/rust/ficus_backend/src/features/discovery/petri_net/replay.rs
index c113570..32c4ecd 100644
--- a/src/rust/ficus_backend/src/features/discovery/petri_net/replay.rs
+++ b/src/rust/ficus_backend/src/features/discovery/petri_net/replay.rs
@@ -40,14 +40,15 @@ impl ReplayState {
 
         let mut new_states = vec![];
         for candidate_transition in candidates {
-            let mut can_fire = true;
+            let mut required_tokens: HashMap<u64, usize> = HashMap::new();
             for arc in candidate_transition.incoming_arcs() {
-                if !state.markings.contains_key(&arc.place_id()) {
-                    can_fire = false;
-                    break;
-                }
+                *required_tokens.entry(arc.place_id()).or_default() += arc.tokens_count();
             }
 
+            let can_fire = required_tokens
+                .iter()
+                .all(|(place_id, count)| state.markings.get(place_id).copied().unwrap_or_default() >= *count);
+
             if can_fire {
                 let mut new_markings = state.markings.clone();
                 for arc in candidate_transition.incoming_arcs() {
-- 
2.43.0


From 58b61e3cd305744a6d04bf38dbf727d82931f2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:26 +0000
Subject: [PATCH 69/77] fix: replay ends for nets with cycles of silent
 transitions

---
 .../src/features/discovery/petri_net/replay.rs       | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/rust/ficus_backend/src/features/discovery/petri_net/replay.rs b/src/rust/ficus_backend/src/features/discovery/petri_net/replay.rs
index 32c4ecd..700a0fc 100644
--- a/src/rust/ficus_backend/src/features/discovery/petri_net/replay.rs
+++ b/src/rust/ficus_backend/src/features/discovery/petri_net/replay.rs
@@ -1,4 +1,4 @@
-use std::collections::{HashMap, VecDeque};
+use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
 
 use crate::event_log::core::{event::event::Event, event_log::EventLog, trace::trace::Trace};
 
@@ -110,7 +110,10 @@ pub fn replay_petri_net(log: &impl EventLog, net: &DefaultPetriNet) -> Option<Ve
 
         let trace = trace.borrow();
         let mut stack = VecDeque::new();
-        stack.push_back((0usize, ReplayState::new(marking)));
+        let mut visited_states = HashSet::new();
+        let initial_state = ReplayState::new(marking);
+        visited_states.insert((0usize, initial_state.markings.iter().map(|(k, v)| (*k, *v)).collect()));
+        stack.push_back((0usize, initial_state));
 
         loop {
             if stack.len() == 0 {
@@ -132,7 +135,10 @@ pub fn replay_petri_net(log: &impl EventLog, net: &DefaultPetriNet) -> Option<Ve
                 for new_state in new_states {
                     //if we fired silent transition dont consume symbol from trace
                     let new_index = current_state.0 + if new_state.0 { 1 } else { 0 };
-                    stack.push_back((new_index, new_state.1));
+                    let new_markings: BTreeMap<u64, usize> = new_state.1.markings.iter().map(|(k, v)| (*k, *v)).collect();
+                    if visited_states.insert((new_index, new_markings)) {
+                        stack.push_back((new_index, new_state.1));
+                    }
                 }
             }
         }
-- 
2.43.0


From 8bae391fa8ab3ce30d376ba9158dbfe24a6e5302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:26 +0000
Subject: [PATCH 70/77] fix: ensure the initial marking for logs with empty
 traces

---
 .../src/features/discovery/petri_net/marking.rs        | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/rust/ficus_backend/src/features/discovery/petri_net/marking.rs b/src/rust/ficus_backend/src/features/discovery/petri_net/marking.rs
index b268abe..89af704 100644
--- a/src/rust/ficus_backend/src/features/discovery/petri_net/marking.rs
+++ b/src/rust/ficus_backend/src/features/discovery/petri_net/marking.rs
@@ -47,11 +47,13 @@ pub fn ensure_initial_marking(log: &impl EventLog, petri_net: &mut DefaultPetriN
     for trace in log.traces() {
         let trace = trace.borrow();
         let events = trace.events();
-        let first_event = events.first().unwrap().borrow();
-        let start_transition = first_event.name();
+        let (first_event, last_event) = match (events.first(), events.last()) {
+            (Some(first_event), Some(last_event)) => (first_event.borrow(), last_event.borrow()),
+            _ => continue,
+        };
 
-        let second_event = events.last().unwrap().borrow();
-        let end_transition = second_event.name();
+        let start_transition = first_event.name();
+        let end_transition = last_event.name();
 
         if let Some(start_transition) = petri_net.find_transition_by_name(start_transition) {
             start_transitions.insert(start_transition.id());
-- 
2.43.0


From 54d92bf7398235f09c5f46bedc3a627f22e1b95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:26 +0000
Subject: [PATCH 71/77] fix: keep tabs and line breaks in written XML

---
 .../discovery/petri_net/pnml_serialization.rs      |  4 ++--
 src/rust/ficus_backend/src/utils/xml_utils.rs      | 14 ++++++++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/rust/ficus_backend/src/features/discovery/petri_net/pnml_serialization.rs b/src/rust/ficus_backend/src/features/discovery/petri_net/pnml_serialization.rs
index edb38ad..965f6e5 100644
--- a/src/rust/ficus_backend/src/features/discovery/petri_net/pnml_serialization.rs
+++ b/src/rust/ficus_backend/src/features/discovery/petri_net/pnml_serialization.rs
@@ -2,7 +2,7 @@ use crate::features::discovery::petri_net::arc::Arc;
 use crate::features::discovery::petri_net::petri_net::PetriNet;
 use crate::features::discovery::petri_net::place::Place;
 use crate::features::discovery::petri_net::transition::Transition;
-use crate::utils::xml_utils::{StartEndElementCookie, XmlWriteError};
+use crate::utils::xml_utils::{escape_xml, StartEndElementCookie, XmlWriteError};
 use quick_xml::events::{BytesText, Event};
 use quick_xml::Writer;
 use std::cell::RefCell;
@@ -107,7 +107,7 @@ where
 
             match writer
                 .borrow_mut()
-                .write_event(Event::Text(BytesText::new(data.to_string().as_str())))
+                .write_event(Event::Text(BytesText::from_escaped(escape_xml(data.to_string().as_str()).as_str())))
             {
                 Ok(()) => {}
                 Err(error) => return Err(XmlWriteError::WriterError(error)),
diff --git a/src/rust/ficus_backend/src/utils/xml_utils.rs b/src/rust/ficus_backend/src/utils/xml_utils.rs
index 31c4a6b..c502172 100644
--- a/src/rust/ficus_backend/src/utils/xml_utils.rs
+++ b/src/rust/ficus_backend/src/utils/xml_utils.rs
@@ -1,3 +1,4 @@
+use quick_xml::escape::escape;
 use quick_xml::events::{BytesEnd, BytesStart};
 use quick_xml::Writer;
 use std::cell::RefCell;
@@ -35,10 +36,19 @@ impl Debug for XmlWriteError {
 
 impl Error for XmlWriteError {}
 
+/// Line breaks and tabs are written as character references, as parsers replace them by other white space
+pub fn escape_xml(value: &str) -> String {
+    escape(value).replace('\t', "&#9;").replace('\n', "&#10;").replace('\r', "&#13;")
+}
+
+fn push_attribute(tag: &mut BytesStart, name: &str, value: &str) {
+    tag.push_attribute((name.as_bytes(), escape_xml(value).as_bytes()));
+}
+
 pub fn write_empty(writer: &mut Writer<Cursor<Vec<u8>>>, tag_name: &str, attrs: &Vec<(&str, &str)>) -> Result<(), XmlWriteError> {
     let mut empty_tag = BytesStart::new(tag_name);
     for (name, value) in attrs {
-        empty_tag.push_attribute((*name, *value));
+        push_attribute(&mut empty_tag, name, value);
     }
 
     let empty = quick_xml::events::Event::Empty(empty_tag);
@@ -78,7 +88,7 @@ impl<'a> StartEndElementCookie<'a> {
     ) -> Result<StartEndElementCookie<'a>, XmlWriteError> {
         let mut start_tag = BytesStart::new(tag_name);
         for (name, value) in attrs {
-            start_tag.push_attribute((*name, *value));
+            push_attribute(&mut start_tag, name, value);
         }
 
         let start_event = quick_xml::events::Event::Start(start_tag);
-- 
2.43.0


From cd1cae26acdb5308dd26365b6c084c59ac68d079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:39 +0000
Subject: [PATCH 72/77] fix: Levenshtein distance of traces starts from the
 first row and reads its last cell

---
 src/rust/ficus_backend/src/utils/distance/distance.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rust/ficus_backend/src/utils/distance/distance.rs b/src/rust/ficus_backend/src/utils/distance/distance.rs
index c82739d..d7a78e9 100644
--- a/src/rust/ficus_backend/src/utils/distance/distance.rs
+++ b/src/rust/ficus_backend/src/utils/distance/distance.rs
@@ -95,7 +95,7 @@ impl Distance<f64> for LevenshteinDistance {
         let b_len = b.len() + 1;
 
         let mut matrix = vec![vec![0f64]];
-        for i in 0..a_len {
+        for i in 1..a_len {
             matrix[0].push(i as f64);
         }
 
@@ -118,6 +118,6 @@ impl Distance<f64> for LevenshteinDistance {
             }
         }
 
-        matrix[a_len - 1][b_len - 1]
+        matrix[b_len - 1][a_len - 1]
     }
 }
-- 
2.43.0


From 9923f3ee4b5bf8af488ff3f76681ea0942187196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:39 +0000
Subject: [PATCH 73/77] fix: invalid clustering parameters are answered with an
 error instead of a panic

---
 .../src/features/clustering/activities/dbscan.rs          | 4 ++--
 .../src/features/clustering/activities/k_means.rs         | 8 ++++----
 .../src/features/clustering/traces/dbscan.rs              | 2 +-
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/rust/ficus_backend/src/features/clustering/activities/dbscan.rs b/src/rust/ficus_backend/src/features/clustering/activities/dbscan.rs
index 036a287..9ff477e 100644
--- a/src/rust/ficus_backend/src/features/clustering/activities/dbscan.rs
+++ b/src/rust/ficus_backend/src/features/clustering/activities/dbscan.rs
@@ -6,7 +6,7 @@ use crate::{
     event_log::core::event_log::EventLog,
     features::clustering::{
         common::{create_colors_vector, transform_to_ficus_dataset},
-        error::ClusteringResult,
+        error::{ClusteringError, ClusteringResult},
     },
     utils::{dataset::dataset::LabeledDataset, distance::distance::DistanceWrapper},
 };
@@ -18,7 +18,7 @@ pub fn clusterize_activities_dbscan<TLog: EventLog>(params: &mut ActivitiesClust
     let clusters = Dbscan::params_with(min_points, DistanceWrapper::new(params.distance), KdTree)
         .tolerance(params.tolerance)
         .transform(dataset.records())
-        .unwrap();
+        .map_err(|error| ClusteringError::RawError(error.to_string()))?;
 
     merge_activities(
         params.vis_params.common_vis_params.log,
diff --git a/src/rust/ficus_backend/src/features/clustering/activities/k_means.rs b/src/rust/ficus_backend/src/features/clustering/activities/k_means.rs
index f637176..98af3c1 100644
--- a/src/rust/ficus_backend/src/features/clustering/activities/k_means.rs
+++ b/src/rust/ficus_backend/src/features/clustering/activities/k_means.rs
@@ -30,7 +30,7 @@ pub fn clusterize_activities_k_means<TLog: EventLog>(
     iterations_count: usize,
 ) -> ClusteringResult {
     let (dataset, processed, classes_names) = create_dataset(&params.vis_params)?;
-    let model = create_k_means_model(clusters_count, iterations_count as u64, params.tolerance, &dataset, params.distance);
+    let model = create_k_means_model(clusters_count, iterations_count as u64, params.tolerance, &dataset, params.distance)?;
 
     let clustered_dataset = model.predict(dataset.clone());
     merge_activities(
@@ -75,12 +75,12 @@ fn create_k_means_model(
     tolerance: f64,
     dataset: &MyDataset,
     distance: FicusDistance,
-) -> KMeans<f64, DistanceWrapper> {
+) -> Result<KMeans<f64, DistanceWrapper>, ClusteringError> {
     KMeans::params_with(clusters_count, rand::thread_rng(), DistanceWrapper::new(distance))
         .max_n_iterations(iterations_count)
         .tolerance(tolerance)
         .fit(&dataset)
-        .expect("KMeans fitted")
+        .map_err(|_| ClusteringError::RawError("Failed to fit KMeans".to_owned()))
 }
 
 pub fn clusterize_activities_k_means_grid_search<TLog: EventLog>(
@@ -93,7 +93,7 @@ pub fn clusterize_activities_k_means_grid_search<TLog: EventLog>(
     let mut best_labels = None;
 
     for clusters_count in 2..processed.len() {
-        let model = create_k_means_model(clusters_count, iterations_count as u64, params.tolerance, &dataset, params.distance);
+        let model = create_k_means_model(clusters_count, iterations_count as u64, params.tolerance, &dataset, params.distance)?;
 
         let clustered_dataset = model.predict(dataset.clone());
         let score = match clustered_dataset.silhouette_score() {
diff --git a/src/rust/ficus_backend/src/features/clustering/traces/dbscan.rs b/src/rust/ficus_backend/src/features/clustering/traces/dbscan.rs
index c5dab06..c350249 100644
--- a/src/rust/ficus_backend/src/features/clustering/traces/dbscan.rs
+++ b/src/rust/ficus_backend/src/features/clustering/traces/dbscan.rs
@@ -41,7 +41,7 @@ pub fn clusterize_log_by_traces_dbscan<TLog: EventLog>(
     let clusters = Dbscan::params_with(min_points, DistanceWrapper::new(params.distance), KdTree)
         .tolerance(params.tolerance)
         .transform(dataset.records())
-        .unwrap();
+        .map_err(|error| ClusteringError::RawError(error.to_string()))?;
 
     let ficus_dataset = transform_to_ficus_dataset(&dataset, objects, features);
 
-- 
2.43.0


From 52a126ce412cf70a9e9908bc3d5202cd8f4b78bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:39 +0000
Subject: [PATCH 74/77] fix: an invalid class extractor in clustering is
 answered with an error instead of a panic

---
 .../clustering/activities/activities_common.rs     |  7 ++-----
 .../src/features/clustering/common.rs              | 14 +++++++++++++-
 .../src/features/clustering/traces/dbscan.rs       | 14 ++++----------
 3 files changed, 19 insertions(+), 16 deletions(-)

diff --git a/src/rust/ficus_backend/src/features/clustering/activities/activities_common.rs b/src/rust/ficus_backend/src/features/clustering/activities/activities_common.rs
index e2e9b43..d269095 100644
--- a/src/rust/ficus_backend/src/features/clustering/activities/activities_common.rs
+++ b/src/rust/ficus_backend/src/features/clustering/activities/activities_common.rs
@@ -20,7 +20,7 @@ use crate::{
             repeat_sets::ActivityNode,
         },
         clustering::{
-            common::{scale_raw_dataset_min_max, MyDataset},
+            common::{create_regex_hasher, scale_raw_dataset_min_max, MyDataset},
             error::ClusteringError,
         },
     },
@@ -157,10 +157,7 @@ fn create_dataset_internal(
     ) -> Result<HashMap<String, (Rc<RefCell<ActivityNode>>, HashMap<String, usize>)>, ClusteringError>,
 ) -> Result<(MyDataset, ActivityNodeWithCoords, Vec<String>), ClusteringError> {
     let mut all_event_classes = HashSet::new();
-    let regex_hasher = match class_extractor.as_ref() {
-        Some(class_extractor) => Some(RegexEventHasher::new(class_extractor).ok().unwrap()),
-        None => None,
-    };
+    let regex_hasher = create_regex_hasher(class_extractor.as_ref())?;
 
     let processed = activities_repr_fullfiller(traces_activities, regex_hasher.as_ref(), &mut all_event_classes)?;
 
diff --git a/src/rust/ficus_backend/src/features/clustering/common.rs b/src/rust/ficus_backend/src/features/clustering/common.rs
index 4e370e0..892ccc8 100644
--- a/src/rust/ficus_backend/src/features/clustering/common.rs
+++ b/src/rust/ficus_backend/src/features/clustering/common.rs
@@ -1,8 +1,10 @@
 use linfa::DatasetBase;
 use ndarray::{Array1, ArrayBase, Dim, OwnedRepr};
 
+use super::error::ClusteringError;
+
 use crate::{
-    event_log::core::event_log::EventLog,
+    event_log::core::{event::event_hasher::RegexEventHasher, event_log::EventLog},
     utils::{
         colors::{Color, ColorsHolder},
         dataset::dataset::FicusDataset,
@@ -21,6 +23,16 @@ where
     pub class_extractor: Option<String>,
 }
 
+pub(super) fn create_regex_hasher(class_extractor: Option<&String>) -> Result<Option<RegexEventHasher>, ClusteringError> {
+    match class_extractor {
+        Some(class_extractor) => match RegexEventHasher::new(class_extractor) {
+            Ok(hasher) => Ok(Some(hasher)),
+            Err(error) => Err(ClusteringError::RawError(error.to_string())),
+        },
+        None => Ok(None),
+    }
+}
+
 pub fn transform_to_ficus_dataset(dataset: &MyDataset, processed: Vec<String>, classes_names: Vec<String>) -> FicusDataset {
     let rows_count = dataset.records().shape()[0];
     let cols_count = dataset.records().shape()[1];
diff --git a/src/rust/ficus_backend/src/features/clustering/traces/dbscan.rs b/src/rust/ficus_backend/src/features/clustering/traces/dbscan.rs
index c350249..23a74d2 100644
--- a/src/rust/ficus_backend/src/features/clustering/traces/dbscan.rs
+++ b/src/rust/ficus_backend/src/features/clustering/traces/dbscan.rs
@@ -11,14 +11,14 @@ use ndarray::Array2;
 
 use crate::{
     event_log::core::{
-        event::{event::Event, event_hasher::RegexEventHasher},
+        event::event::Event,
         event_log::EventLog,
         trace::trace::Trace,
     },
     features::{
         analysis::patterns::activity_instances::{create_vector_of_immediate_underlying_events, create_vector_of_underlying_events},
         clustering::{
-            common::{create_colors_vector, scale_raw_dataset_min_max, transform_to_ficus_dataset, MyDataset},
+            common::{create_colors_vector, create_regex_hasher, scale_raw_dataset_min_max, transform_to_ficus_dataset, MyDataset},
             error::ClusteringError,
         },
     },
@@ -128,10 +128,7 @@ fn create_traces_dataset_default_internal<TLog: EventLog>(
     class_extractor: Option<&String>,
     trace_repr_creator: impl Fn(&TLog::TTrace) -> Vec<Rc<RefCell<TLog::TEvent>>>,
 ) -> Result<(MyDataset, Vec<String>, Vec<String>), ClusteringError> {
-    let regex_hasher = match class_extractor.as_ref() {
-        Some(class_extractor) => Some(RegexEventHasher::new(class_extractor).ok().unwrap()),
-        None => None,
-    };
+    let regex_hasher = create_regex_hasher(class_extractor)?;
 
     let mut processed_traces = vec![];
     for trace in log.traces() {
@@ -204,10 +201,7 @@ fn create_traces_dataset_levenshtein_internal<TLog: EventLog>(
     class_extractor: Option<&String>,
     trace_repr_creator: impl Fn(&TLog::TTrace) -> Vec<Rc<RefCell<TLog::TEvent>>>,
 ) -> Result<(MyDataset, Vec<String>, Vec<String>), ClusteringError> {
-    let regex_hasher = match class_extractor.as_ref() {
-        Some(class_extractor) => Some(RegexEventHasher::new(class_extractor).ok().unwrap()),
-        None => None,
-    };
+    let regex_hasher = create_regex_hasher(class_extractor)?;
 
     let mut processed_traces = vec![];
     for trace in log.traces() {
-- 
2.43.0


From d8b62317c1e8ca49f332d72c3328323491cdc496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:39 +0000
Subject: [PATCH 75/77] fix: activities merged by DBSCAN are named and coloured
 by the label the dataset shows

---
 .../ficus_backend/src/features/clustering/activities/dbscan.rs  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rust/ficus_backend/src/features/clustering/activities/dbscan.rs b/src/rust/ficus_backend/src/features/clustering/activities/dbscan.rs
index 9ff477e..01db2f5 100644
--- a/src/rust/ficus_backend/src/features/clustering/activities/dbscan.rs
+++ b/src/rust/ficus_backend/src/features/clustering/activities/dbscan.rs
@@ -24,7 +24,7 @@ pub fn clusterize_activities_dbscan<TLog: EventLog>(params: &mut ActivitiesClust
         params.vis_params.common_vis_params.log,
         params.vis_params.traces_activities,
         &processed.iter().map(|x| x.0.clone()).collect(),
-        &clusters,
+        &clusters.map(|label| label.map(|label| label + 1)),
     );
 
     let ficus_dataset = transform_to_ficus_dataset(
-- 
2.43.0


From 748e8177d2aabcd09d3c5d0c3dc026d7cfb016d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:39 +0000
Subject: [PATCH 76/77] fix: what a trace has computed about its events is
 dropped when the events change

---
 .../src/event_log/core/event/events_holder.rs            | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/rust/ficus_backend/src/event_log/core/event/events_holder.rs b/src/rust/ficus_backend/src/event_log/core/event/events_holder.rs
index 59ac297..80dc8f1 100644
--- a/src/rust/ficus_backend/src/event_log/core/event/events_holder.rs
+++ b/src/rust/ficus_backend/src/event_log/core/event/events_holder.rs
@@ -59,6 +59,7 @@ where
     }
 
     pub fn push(&mut self, event: Rc<RefCell<TEvent>>) {
+        self.invalidate_caches();
         self.events.push(event);
     }
 
@@ -66,6 +67,7 @@ where
     where
         TPred: Fn(&TEvent) -> bool,
     {
+        self.invalidate_caches();
         let events = &mut self.events;
         for index in (0..events.len()).rev() {
             if predicate(&events[index].borrow()) {
@@ -87,6 +89,7 @@ where
     where
         TMutator: Fn(&mut TEvent),
     {
+        self.invalidate_caches();
         for event in &self.events {
             mutator(&mut event.borrow_mut());
         }
@@ -109,8 +112,14 @@ where
     }
 
     pub fn events_mut(&mut self) -> &mut Vec<Rc<RefCell<TEvent>>> {
+        self.invalidate_caches();
         &mut self.events
     }
+
+    fn invalidate_caches(&mut self) {
+        self.events_sequence_info = LazyCell::new();
+        self.events_positions = LazyCell::new();
+    }
 }
 
 #[derive(Debug)]
-- 
2.43.0


From 234ea81aba186dbf8495cfaa340274366e44eff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:39 +0000
Subject: [PATCH 77/77] fix: interval tree finds enveloped point intervals at
 the right end of the searched range

---
 src/rust/ficus_backend/src/utils/interval_tree/interval_tree.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rust/ficus_backend/src/utils/interval_tree/interval_tree.rs b/src/rust/ficus_backend/src/utils/interval_tree/interval_tree.rs
index 5f75d62..2e6954d 100644
--- a/src/rust/ficus_backend/src/utils/interval_tree/interval_tree.rs
+++ b/src/rust/ficus_backend/src/utils/interval_tree/interval_tree.rs
@@ -107,6 +107,7 @@ where
 
         let mut result = HashSet::new();
         self.search_internal(0, left, &mut result);
+        self.search_internal(0, right, &mut result);
 
         self.boundaries.sort();
 
-- 
2.43.0

