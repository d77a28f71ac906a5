"""Writes /verif/properties.jsonl (kept as a script so the text is easy to edit)."""
import json, os
P = []
L = 'src/python/ficus/legacy/'
G = 'src/python/ficus/grpc_pipelines/'
R = 'src/rust/ficus_backend/src/'


def prop(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None)))


prop('C01', 'Saving a log as XES and reading it back loses and invents nothing',
     'Writing any event log to an XES file and reading that file back yields the same log: same traces in the same order, same events, and every string, integer, float, boolean and date attribute of events, traces, the log itself, its extensions, classifiers and declared default values with its key, value and type unchanged, whatever characters the strings contain and whatever path or locale is used. Attribute values of other types are left out silently without affecting the rest. When reading, an attribute declared with a default value is present on every event or trace that does not override it and never replaces one that does.',
     ['inputs', 'configurations'], 'all logs built from a small alphabet of shapes, attribute names, value types and special characters; all subsets of declared defaults; both writer entry points, file layouts and locales',
     'The XES sample files the repository tests need are absent here, so no stable test reads or writes XES at all; and even the author\'s tests only compare a handful of sample logs.',
     [L + 'log/functions.py', L + 'log/event_log.py', L + 'pipelines/start/start_parts.py', L + 'pipelines/serialization/pipeline_parts.py'],
     [('typed value tags, default elision and default filling', L + 'log/functions.py: serialize_log_to_xes / read_log_from_xes'),
      ('file writer', L + 'log/functions.py: save_event_log_to_xes')])

prop('C02', 'Events, traces and logs behave as maps and lists; copies are faithful',
     'Through any sequence of reads, writes, appends, inserts and deletions an event behaves as an insertion-ordered map, and a trace and a log behave as lists of their elements. A shallow or deep copy equals its original in every part including its attributes and declared default values, and no later change of the copy\'s own structure (for a deep copy, of anything reachable from it) is visible through the original or the reverse. Two events compare equal exactly when their attributes agree, two traces exactly when their event sequences agree, two logs exactly when their traces, attributes, extensions, classifiers and properties agree, and equal objects have equal hashes.',
     ['histories', 'inputs'], 'all operation sequences up to a bounded depth over a small alphabet of keys, values and positions, and all pairs of small containers',
     'Tests exercise single operations on fixed objects; mixed histories, aliasing between copies and hash collisions need exhaustive sequences.',
     [L + 'log/event_log.py', L + 'util.py'],
     [('container classes', L + 'log/event_log.py'), ('hashing helpers', L + 'util.py: calculate_dict_hash, combine_*')])

prop('C03', 'Abstracting a log and expanding it back is lossless',
     'Replacing activity instances by single events while keeping all other events, and then expanding the underlying events, gives back exactly the original traces (same events, same order, same attributes), also after several nested rounds of abstraction. In an abstracted trace every activity instance becomes one event named after the activity that carries exactly the events it covers, and every maximal stretch of uncovered events is kept whole, replaced by one event of the undefined activity, or dropped, according to the chosen strategy. The number of underlying events never changes when nothing is dropped, and the original log is never modified, not even later, when the events carried by an activity event are changed.',
     ['inputs', 'configurations', 'histories'], 'all small logs, all sets of non-overlapping activity instances on them, the three strategies, both naming modes and up to three nested rounds',
     'Tests check one abstraction of a few logs with fixed activities; losslessness must hold for every layout of instances, including adjacent, empty, leading and trailing stretches and nesting.',
     [L + 'analysis/patterns/event_log_patterns.py', L + 'analysis/patterns/util.py', L + 'pipelines/analysis/patterns/patterns_parts.py', L + 'pipelines/mutations/mutations_parts.py'],
     [('abstraction', L + 'analysis/patterns/event_log_patterns.py: create_new_log_from_activities_instances'),
      ('expansion', L + 'analysis/patterns/util.py: substitute_original_events')])

prop('C04', 'Activity instances found in a trace are ordered, disjoint and justified',
     'For any log and any set of activities, the instances reported for a trace lie inside the trace in increasing order without overlapping, every event of an instance belongs to a class of the instance\'s activity, and without a filter every event whose class belongs to some given activity is covered by an instance. Instances are grown greedily: an instance starts with the smallest activity (first by name among equals) that has the event\'s class, widens to the smallest activity (first by name among equals) covering all classes seen so far plus the next event\'s class, and ends when there is none; with narrowing the reported activity is a smallest one in its hierarchy that still covers the classes of the instance, otherwise the top-level one. An instance filter removes exactly the instances it rejects.',
     ['inputs', 'configurations'], 'all traces up to a bounded length over a small alphabet, all activity hierarchies over it, with and without narrowing and filters',
     'Tests contain about a dozen fixed traces and hierarchies; widening, narrowing and closing interact and only exhaustive traces reach all interactions.',
     [L + 'analysis/patterns/event_log_patterns.py', L + 'analysis/patterns/util.py', L + 'pipelines/analysis/patterns/patterns_parts.py'],
     [('greedy segmentation', L + 'analysis/patterns/event_log_patterns.py: extract_activities_from_log')])

prop('C05', 'Tandem arrays reported are exactly the immediate repetitions',
     'Every reported tandem array is a block of at least two events that is immediately repeated the stated number of times at the stated position, and it cannot be extended by one more repetition. Every block content that is repeated back to back anywhere in the trace, with a block length of at least two and below the configured limit, is reported exactly once, at the first position where it is repeated. The primitive arrays are exactly those reported arrays whose block is not itself a repetition of a shorter block (two equal events, the shortest block, count as primitive); results depend only on which events have equal classes, and each trace is analysed independently.',
     ['inputs', 'configurations'], 'all traces up to a bounded length over a 2-4 letter alphabet (with event names chosen to collide in weak hashes), all length limits, all small logs',
     'Six fixed strings are tested; de-duplication and maximality errors appear only for particular repetition layouts.',
     [L + 'analysis/patterns/event_log_patterns.py', L + 'pipelines/analysis/patterns/patterns_parts.py', L + 'util.py'],
     [('tandem array search', L + 'analysis/patterns/event_log_patterns.py: find_maximal_tandem_arrays, find_primitive_tandem_arrays')])

prop('C06', 'Maximal, super-maximal and near-super-maximal repeats are exact',
     'For every trace the maximal repeats reported are exactly the sub-sequences that occur at least twice and for which two occurrences differ both in the preceding and in the following event, each reported once with a position where it really occurs. The super-maximal repeats are exactly the maximal repeats that are not contained in another maximal repeat, and the near-super-maximal repeats exactly those having an occurrence that is not contained in an occurrence of another, longer maximal repeat. Results depend only on event classes, and each trace is analysed independently, unless all traces are merged first, where no repeat spans two traces.',
     ['inputs', 'configurations'], 'all traces up to a bounded length over small alphabets, all small multi-trace logs, the three kinds and both merging strategies',
     'The tests use a handful of strings; the suffix-tree based search has many positional cases.',
     [L + 'analysis/patterns/event_log_patterns.py', L + 'analysis/event_log_split.py', L + 'pipelines/analysis/patterns/patterns_parts.py'],
     [('repeat search', L + 'analysis/patterns/event_log_patterns.py: find_maximal_repeats, find_super_maximal_repeats, find_near_super_maximal_repeats'),
      ('trace merging', L + 'analysis/event_log_split.py: merge_all_traces_in_one_log')])

prop('C07', 'Repeat sets are unique and form a correct containment hierarchy',
     'The repeat sets built from discovered patterns contain, for every distinct set of event classes covered by some pattern, exactly one entry, which points at a pattern having that set. In the hierarchy built from them every repeat set becomes exactly one activity whose classes and name are those of its events, an activity is top-level exactly when no other activity\'s classes properly contain its own, and otherwise it is the child of exactly one activity, a smallest one properly containing its classes. The result depends only on the log, the patterns and the class extractor.',
     ['inputs', 'configurations'], 'all families of distinct class sets over a small alphabet, every order of them, and all short logs through the pattern pipelines',
     'Tests check a few hand-made families; hierarchy building depends on sizes, order and partial overlaps.',
     [L + 'analysis/patterns/event_log_patterns.py', L + 'analysis/patterns/util.py', L + 'analysis/patterns/patterns_models.py', L + 'pipelines/analysis/patterns/patterns_parts.py'],
     [('repeat sets', L + 'analysis/patterns/event_log_patterns.py: create_repeat_sets'), ('hierarchy', L + 'analysis/patterns/event_log_patterns.py: build_repeat_set_tree')])

prop('C08', 'Completing unattached events keeps existing activity instances',
     'The log of unattached events contains, trace by trace and in order, exactly the events not covered by any activity instance. Adding activities for unattached events keeps every existing instance unchanged, adds exactly the instances that the segmentation finds inside stretches of previously unattached events of at least the configured size, and leaves the instances of each trace sorted and disjoint. Discovering activities over several levels of class extractors therefore never loses or alters an instance found at an earlier level.',
     ['inputs', 'configurations', 'histories'], 'all short traces with all sets of disjoint instances on them, all small activity sets, minimum sizes, filters, and pipelines over one to three abstraction levels',
     'Tests check few fixed logs; offsets inside stretches between instances are position dependent.',
     [L + 'analysis/patterns/event_log_patterns.py', L + 'pipelines/analysis/patterns/patterns_parts.py', L + 'pipelines/analysis/high_level.py'],
     [('gap processing', L + 'analysis/patterns/event_log_patterns.py: create_unattached_events_log, add_unattached_activities'),
      ('level loop', L + 'pipelines/analysis/high_level.py')])

prop('C09', 'Directly-follows counts and log statistics are exact',
     'For every log the directly-follows counts are exactly the number of adjacent event pairs inside traces, optionally with one artificial start and end per non-empty trace, and the followers and single-follower sets derived from them agree with these counts. Event counts, per-trace counts, total counts and the names all of whose events satisfy a predicate equal what direct counting gives. Ignoring a set of event names gives the same result as physically removing those events first.',
     ['inputs', 'configurations'], 'all logs up to a bounded number and length of traces over a small alphabet, all ignored subsets and predicates',
     'Tests check a few logs; empty traces, self loops and ignored first/last events are combinations they do not sample.',
     [L + 'analysis/event_log_info.py', G + 'data_models.py'],
     [('single pass counters', L + 'analysis/event_log_info.py: create_log_information, DirectlyFollowsGraph, find_all_events_names')])

prop('C10', 'Directly-follows entropies equal their definition',
     'For every log and every event name, the plain and the Laplace-smoothed directly-follows entropy equal the sum of the base-2 entropies of the distribution of its successors (including end of trace) and of its predecessors (including start of trace); smoothing adds one divided by the event\'s own count to the count of every possible neighbour. Ignoring a set of names gives exactly the values obtained after physically removing these events, and sums, averages and the sorted table are consistent with the per-event values. Values are finite and non-negative, and do not depend on the order of traces or on the names chosen for events.',
     ['inputs', 'configurations'], 'all logs up to a bounded size over a small alphabet, all ignored subsets, plain and smoothed',
     'Tests check a few literal values; smoothing, self loops, empty traces and ignored sets interact.',
     [L + 'analysis/event_log_analysis_entropy.py', L + 'analysis/event_log_info.py'],
     [('entropy formulas', L + 'analysis/event_log_analysis_entropy.py: calculate_default_entropies, calculate_laplace_entropies')])

prop('C11', 'Position entropies: fast and reference computations agree with definition',
     'For every log and every event name, the fast and the plain computation of the position entropy give the same finite, non-negative value, equal to the average, over the positions where the event occurs, of the negated logarithm of its frequency at that position taken to the base of the number of non-empty traces (zero when the event is at the same positions in every trace). Ignoring a set of names gives exactly the value obtained after physically removing these events. Precomputed position tables and per-trace counts never change the result.',
     ['inputs', 'configurations'], 'all logs up to a bounded size over a small alphabet, all ignored subsets, with and without precomputed tables',
     'Tests check a few literal values; the fast algorithm shifts positions by ignored events, which is layout dependent.',
     [L + 'analysis/event_log_analysis_entropy.py'],
     [('fast position entropy', L + 'analysis/event_log_analysis_entropy.py: calculate_position_entropy_fast'), ('plain position entropy', L + 'analysis/event_log_analysis_entropy.py: calculate_position_entropy')])

prop('C12', 'Entropy filters terminate and remove exactly the intended event classes',
     'Every entropy filter terminates on every log, removes only whole event classes, never an untouchable one and never more classes than allowed, and leaves all other events and their order unchanged. Each removal by a direct filter takes a removable class of maximal entropy and happens only while that entropy exceeds the threshold; each removal by an indirect filter takes, among the candidates (for directly-follows entropy the configured top fraction by entropy, at least one), a class whose removal leaves the least remaining entropy and happens only while the total (for directly-follows entropy, the average) exceeds the threshold. The filter stops exactly when the threshold is reached, the allowed number is reached, or no removable candidate is left.',
     ['inputs', 'configurations'], 'all logs up to a bounded size over a small alphabet, all untouchable subsets, thresholds on both sides of every reachable value, removal limits and candidate fractions',
     'Tests run each filter on a few logs with default settings; loops that depend on untouchable sets, limits or degenerate logs are not sampled.',
     [L + 'filtering/event_log_filters.py', L + 'pipelines/filtering/filter_parts.py'],
     [('filter loops', L + 'filtering/event_log_filters.py')])

prop('C13', 'Log mutations and simple filters change exactly what they say',
     'Removing events by name, by names or by predicate keeps exactly the other events in their order, drops traces left without events, and does not modify the input log - not even later, when traces of the result are extended. Filtering traces by event count keeps exactly the traces with more events than the bound; renaming, event preprocessing, class-extractor application, lifecycle removal and artificial start/end insertion change exactly the addressed attribute or add exactly one start and one end event per trace, and nothing else. All of these preserve the order of traces.',
     ['inputs', 'configurations', 'histories'], 'all logs up to a bounded size over a small alphabet, all name subsets and predicates, and all short sequences of mutation steps',
     'Tests check one fixed log per mutation; sequences of mutations and empty results are not covered.',
     [L + 'mutations/event_log_mutations.py', L + 'pipelines/mutations/mutations_parts.py', L + 'pipelines/filtering/filter_parts.py'],
     [('mutation functions', L + 'mutations/event_log_mutations.py'), ('mutation parts', L + 'pipelines/mutations/mutations_parts.py')])

prop('C14', 'Trace variants: traces are grouped together iff their names agree',
     'Splitting a log into variants puts two traces in the same group exactly when they have the same sequence of event names, whatever the names are, keeps every trace exactly once, and keeps the original order of traces inside a group. Filtering a log by variants keeps exactly one trace, the earliest, of every variant. The input log is not modified.',
     ['inputs'], 'all logs up to a bounded number and length of traces over a small alphabet including names that collide in weak hashes',
     'Tests check a few logs with well separated names; grouping relies on hashes and on length buckets.',
     [L + 'analysis/event_log_split.py', L + 'pipelines/filtering/filter_parts.py'],
     [('variant split', L + 'analysis/event_log_split.py: split_log_by_traces'), ('variant filter', L + 'pipelines/filtering/filter_parts.py: FilterTracesByVariants')])

prop('C15', 'Pipelines run their parts in order and isolate branches',
     'A pipeline runs its non-empty parts exactly once per execution, in order, each receiving its predecessor\'s output, and rejects anything that is not a part when it is built; editing a pipeline changes exactly the addressed position. Parallel branches, side pipelines on an input copy and pipelines with temporary input never see or change context values set by their siblings or their caller beyond what their contract says, a conditional pipeline runs exactly when its condition holds, and per-activity pipelines run exactly once per activity with that activity\'s log and name. Executing the same pipeline again on the same input gives the same result.',
     ['programs', 'histories'], 'all pipeline trees up to a bounded depth and width over a small alphabet of probe parts and all combinators, executed twice, and all edit sequences',
     'Tests run a few fixed pipelines; isolation depends on the nesting of combinators.',
     [L + 'pipelines/pipelines.py', L + 'pipelines/contexts/part_results.py', L + 'pipelines/contexts/accessors.py', L + 'pipelines/analysis/patterns/patterns_parts.py'],
     [('pipeline engine', L + 'pipelines/pipelines.py'), ('context copy', L + 'pipelines/contexts/part_results.py: PipelinePartResult')])

prop('C16', 'Iterated activity discovery terminates and conserves the events',
     'Discovering activities repeatedly until no more are found terminates on every log, for every discovery strategy and setting of narrowing, instance filter, naming and level handling. Each round abstracts the instances of the activities built from the maximal repeats of the current log and keeps all other events, so that after every round expanding the log gives back exactly the events of the original log, trace by trace and in order; the repetition stops exactly when a round finds no instance or no longer shortens the log. The hooks given by the caller run exactly once before and once after the abstraction of every round that found instances, and the original log is not modified.',
     ['inputs', 'configurations', 'histories'], 'all logs up to a bounded size over a small alphabet, both discovery strategies, narrowing, filters, naming modes and level handling',
     'Tests run it on large sample files that are absent here; termination and conservation for every input need exhaustive small logs.',
     [L + 'pipelines/analysis/high_level.py', L + 'pipelines/analysis/patterns/patterns_parts.py'],
     [('iteration', L + 'pipelines/analysis/high_level.py: DiscoverActivitiesInstancesFromRepeatsUntilNoMore')])

prop('C17', 'Per-activity logs and class trees reflect exactly the instances found',
     'The log created for an activity contains exactly one trace per instance of that activity at the requested level, in order, holding copies of exactly the covered events renamed to their class; with promotion, instances of lower levels are added exactly when their classes at the requested level equal those of the repeat they came from. The class tree has exactly the event names as leaves and groups each level by the class given by the extractor. The original log is not modified.',
     ['inputs', 'configurations'], 'all short logs with all sets of disjoint instances of activities at different levels, extractors with collapsing classes',
     'Tests use few fixed instances; level and promotion rules are combinatorial.',
     [L + 'analysis/patterns/event_log_patterns.py', L + 'analysis/patterns/util.py', L + 'pipelines/analysis/patterns/patterns_parts.py'],
     [('per-activity logs', L + 'analysis/patterns/event_log_patterns.py: create_logs_for_activities, create_logs_for_activities_with_promote'), ('class tree', L + 'analysis/patterns/event_log_patterns.py: build_class_tree')])

prop('C18', 'Text and pm4py conversions keep the traces and attributes',
     'Serialising a log, or a list of logs, to text gives the event names joined by the chosen separators, and parsing the text of non-empty traces back gives the same event names in the same traces for any separators that do not occur in the names. Converting a log to the pm4py representation and back, or from pm4py and back, keeps all traces, events and event attributes with their values, and from pm4py also trace attributes, log attributes, properties, extensions, classifiers and declared defaults; the converted objects share no mutable state with their source. The Petri net discovery steps yield exactly the net and markings that the respective pm4py algorithm gives for the same traces and the configured thresholds, and leave the log unchanged.',
     ['inputs', 'configurations'], 'all logs up to a bounded size over names with special characters, all separator choices, all small attribute assignments; all small logs through the discovery steps',
     'Tests check a few strings; empty traces, separators and attribute types are not enumerated, and no stable test discovers a net.',
     [L + 'log/functions.py', L + 'log/pm4py_converters.py', L + 'pipelines/discovery/discovery_parts.py'],
     [('text form', L + 'log/functions.py: serialize_log, parse_log_from_strings'), ('converters', L + 'log/pm4py_converters.py'),
      ('net discovery', L + 'pipelines/discovery/discovery_parts.py')])

prop('C19', 'Remote execution delivers every streamed result once, in order',
     'For any stream of messages sent by the backend, the client passes every value to the part it is addressed to, exactly once and in the order received, ignores values of unknown parts, and stops consuming at the end of the stream. It returns the final result reported by the backend, including failures, prints every log message in order, and reports an error of the transport instead of a result. The caller\'s initial values are sent unchanged and are not modified, and an execution leaves nothing behind that influences the next one: the backend is asked once to drop the results of a successful execution, and the connection is closed.',
     ['histories', 'fault_sequences', 'inputs'], 'all server message streams up to a bounded length over all message kinds, part identities and value types, with stream failures at every point, and repeated executions',
     'No test contacts a backend (none is available), so nothing of the message loop is tested.',
     [G + 'grpc_pipelines.py', G + 'context_values.py'],
     [('message loop', G + 'grpc_pipelines.py: Pipeline2.execute and callback handling')])

prop('C20', 'Remote pipelines are encoded faithfully for the backend',
     'Every pipeline is sent to the backend as exactly its parts in order, each with the part name the backend registers for it and with exactly the configured parameters under the keys and value types the backend reads, nested pipelines included. Each part that awaits a callback gets its own identity, distinct from that of every other part in the same request, and requests exactly the values it consumes. Encoding the same pipeline twice gives the same request apart from identities, and each initial value is encoded as its own type with its full contents.',
     ['programs', 'configurations', 'inputs'], 'every part kind with every small configuration, all pairs and nestings of parts, and all small initial values; names and keys checked against the backend sources',
     'No test covers request encoding.',
     [G + 'grpc_pipelines.py', G + 'constants.py', G + 'context_values.py', G + 'activities_parts.py', G + 'patterns_parts.py', G + 'filtering_parts.py', G + 'discovery_parts.py', G + 'drawing_parts.py', G + 'util_parts.py', G + 'xes_parts.py', G + 'mutation_parts.py', 'src/rust/ficus_backend/src/pipelines/keys/context_keys.rs', 'src/rust/ficus_backend/src/pipelines/pipeline_parts.rs'],
     [('part encoders', G + 'grpc_pipelines.py: to_grpc_part and helpers'), ('value encoders', G + 'context_values.py')])

prop('C21', 'Values from the backend are decoded and drawn faithfully',
     'Every value the backend sends (names logs, event log infos, petri nets with annotations, graphs, colours, datasets) is converted to a local object with exactly the same content. A drawn petri net contains exactly the places, transitions and arcs of the net with their names, marks exactly the places of the initial and final marking and labels the annotated arcs, and only these, with their annotation; a drawn graph contains exactly the nodes and edges with their labels. Names are drawn as they are, and an exported drawing is written to exactly the given file. Absent optional data is treated as absent.',
     ['inputs', 'configurations'], 'all small nets, markings, graphs and logs messages, with and without optional fields; every background, engine and export setting',
     'No test covers decoding or drawing.',
     [G + 'context_values.py', G + 'discovery_parts.py', G + 'data_models.py', L + 'discovery/petri_net.py', L + 'discovery/graph.py'],
     [('decoders', G + 'context_values.py'), ('graph drawing', L + 'discovery/petri_net.py, ' + L + 'discovery/graph.py')])

prop('C22', 'Trace diagrams show every event at its place in a consistent colour',
     'In a traces diagram each trace is one row in log order, its cells tile the row from the first to the last event without gaps or overlap, and cells have equal colours exactly when they stand for the same event class or activity, while different ones always have different colours; stretches without activity have their own colour. The legend lists exactly the colours used, each with the right name. Colours stay the same for a name in all diagrams of a pipeline, whatever random colours are drawn. Placement variants show exactly the selected events or activity at their positions, histograms show every variant, event entropy or value once with its size, cluster plots show every point in the colour of its cluster, diagrams of filtering show the metric of every iteration, and exporting to a file writes that file and nothing else.',
     ['inputs', 'configurations', 'histories'], 'all small logs and activity layouts, both drawing back ends, with and without legend, repeated drawings in one pipeline',
     'No test inspects a diagram.',
     [L + 'analysis/event_log_analysis.py', L + 'analysis/event_log_analysis_canvas.py', L + 'pipelines/analysis/analysis_parts.py', L + 'pipelines/analysis/patterns/patterns_parts.py', L + 'util.py'],
     [('diagram geometry', L + 'analysis/event_log_analysis.py'), ('canvas geometry', L + 'analysis/event_log_analysis_canvas.py'), ('colour allocation', L + 'util.py: RandomUniqueColorsProvider')])

prop('C23', 'Reports and exported tables state exactly what was discovered',
     'Every report or exported file about a log or the activities found in it (names of events and activities, activity instances, covered-event percentages, event log info, directly-follows listing) contains exactly the corresponding items, complete, once each and in the documented order. Per-event annotations name exactly the activity covering the event. Producing a report changes neither the log nor the discovered activities.',
     ['inputs', 'configurations'], 'all small logs and activity layouts, every report part and its options',
     'No test checks report contents.',
     [L + 'pipelines/analysis/patterns/patterns_parts.py', L + 'pipelines/analysis/analysis_parts.py', L + 'analysis/event_log_analysis.py'],
     [('report parts', L + 'pipelines/analysis/patterns/patterns_parts.py, ' + L + 'pipelines/analysis/analysis_parts.py')])

prop('C24', 'Graphs of activities and event classes show exactly the hierarchy',
     'The graph built for a set of activities or event classes contains exactly one node per distinct name occurring anywhere in the hierarchy (and a root node if asked for) and exactly the edges from every child to each of its parents (and from the top-level nodes to the root), whatever characters the names contain and however many parents, levels or equally named nodes there are. The graph built or drawn for one level contains exactly the activities of that level, the serialized form lists exactly the same graph, and building, serializing or drawing a graph does not change the hierarchy.',
     ['inputs', 'configurations'], 'all small hierarchies: several roots, several parents, equal names at different levels, special characters; all small event class trees by all short chains of extractors',
     'Tests compare the serialized graphs of a few fixed logs.',
     [L + 'analysis/patterns/patterns_graphs.py', L + 'pipelines/analysis/patterns/patterns_graph_parts.py', L + 'pipelines/analysis/patterns/patterns_parts.py', L + 'analysis/patterns/event_log_patterns.py'],
     [('graph construction', L + 'analysis/patterns/patterns_graphs.py: build_graph'), ('graph parts', L + 'pipelines/analysis/patterns/patterns_graph_parts.py')])

prop('C25', 'The backend finds exactly the tandem arrays, repeats and hierarchies of a log',
     'For every log the Rust backend reports exactly the maximal runs of two or more copies of a block (blocks up to the given length) as tandem arrays and those with a primitive block as primitive ones; as maximal, super-maximal and near-super-maximal repeats exactly the sub-sequences which are so by definition, each content once, whether traces are analysed one by one or merged; repeat sets are exactly the distinct sets of event classes of the patterns; in the hierarchy every repeat set is one activity, children are strictly contained in their parents, an activity is top-level exactly when none contains it. Results depend on the event classes (names or class regex) only. The suffix tree finds exactly the occurrences of a sub-sequence.',
     ['inputs', 'configurations'], 'all small words and logs up to renaming, all pairs of confusable names, all small families of class sets, long regular traces',
     'The tests of the backend compare a few fixed logs.',
     [R + 'features/analysis/patterns/tandem_arrays.rs', R + 'features/analysis/patterns/repeats.rs', R + 'features/analysis/patterns/repeat_sets.rs', R + 'features/analysis/patterns/entry_points.rs', R + 'utils/suffix_tree/suffix_tree_build.rs', R + 'utils/suffix_tree/suffix_tree_repeats.rs', R + 'utils/suffix_tree/suffix_tree_patterns.rs', R + 'utils/suffix_tree/suffix_tree_slice.rs'],
     [('tandem arrays', R + 'features/analysis/patterns/tandem_arrays.rs'), ('repeats', R + 'utils/suffix_tree/suffix_tree_repeats.rs'), ('hierarchy', R + 'features/analysis/patterns/repeat_sets.rs: build_repeat_set_tree_from_repeats')])

prop('C26', 'A remote pipeline does on the backend exactly what its parts say',
     'For every pipeline of the client executed by the backend, the values streamed to callbacks and kept in the result are what the parts in that order mean: transformations and filters change exactly what they state; counts and directly-follows graphs are those of the log at that point; patterns, activities, instances (ordered, disjoint, justified by the greedy segmentation), diagrams, logs of activities, numbers of underlying events and substituted logs follow from each other, also for several levels of classes and for repeated discovery, which ends. Callbacks come in order, once each, also from nested pipelines; a failing part gives an error after exactly the callbacks before it, never an execution without a final result; a result can be read until it is dropped; other results, and other clients at the same time, however slow, are unaffected. Colours of names are distinct and never the one of undefined events.',
     ['inputs', 'configurations', 'histories', 'fault_sequences', 'schedules'], 'all small logs x parts and options, all short sequences of parts and nestings, failing parts at every place, all short histories of executions, reads and drops, all schedules of two or three clients',
     'The tests need a running backend, which is not available to them; tests of the backend call single functions.',
     [R + 'grpc/backend_service.rs', R + 'grpc/converters.rs', R + 'grpc/get_context_pipeline.rs', R + 'pipelines/activities_parts.rs', R + 'pipelines/patterns_parts.rs', R + 'pipelines/drawing_parts.rs', R + 'pipelines/filtering_parts.rs', R + 'pipelines/mutations_parts.rs', R + 'pipelines/util_parts.rs', R + 'pipelines/pipeline_parts.rs', R + 'features/analysis/patterns/activity_instances.rs', R + 'utils/colors.rs', G + 'grpc_pipelines.py', G + 'activities_parts.py'],
     [('execution and replies', R + 'grpc/backend_service.rs'), ('activities', R + 'pipelines/activities_parts.rs'), ('instances', R + 'features/analysis/patterns/activity_instances.rs: extract_activities_instances')])

prop('C27', 'The backend reads and writes logs without losing or inventing anything',
     'A log written as XES is a well-formed document that holds exactly its extensions, classifiers, properties, defaults, traces with events, names, dates and attributes with their values, whatever characters they contain, and reading it gives them back. A XES document is read as the standard says: attributes in either tag form, escapes, defaults of events overridden by their own attributes, unknown elements and nested attributes ignored, nothing read from comments. A damaged file never blocks or ends the process, and a file that ends early gives the complete events before that point and no others. Writing to bxes and reading back gives the same log, every trace of a variant, and an error where a value can not be represented. The reading and writing parts of a pipeline do the same, and the log of the pipeline stays as it is; a missing file or path is reported as an error.',
     ['inputs', 'crash_points', 'configurations'], 'all small logs; every value and text at every place; all sequences of <= 2 fragments of XES; every prefix and single damage of two documents; all bxes values at every place',
     'Tests of the backend read and write a few well-formed logs.',
     [R + 'event_log/xes/reader/file_xes_log_reader.rs', R + 'event_log/xes/reader/xes_log_trace_reader.rs', R + 'event_log/xes/reader/utils.rs', R + 'event_log/xes/writer/xes_event_log_writer.rs', R + 'event_log/xes/xes_event_log.rs', R + 'event_log/xes/xes_event.rs', R + 'event_log/xes/xes_trace.rs', R + 'event_log/bxes/bxes_to_xes_converter.rs', R + 'event_log/bxes/xes_to_bxes_converter.rs', R + 'event_log/bxes/conversions.rs', R + 'event_log/core/event/event.rs', R + 'event_log/core/event/lifecycle/braf_lifecycle.rs', R + 'event_log/core/event/lifecycle/standard_lifecycle.rs', R + 'utils/xml_utils.rs', R + 'pipelines/xes_parts.rs', G + 'xes_parts.py'],
     [('reading', R + 'event_log/xes/reader/xes_log_trace_reader.rs'), ('writing', R + 'event_log/xes/writer/xes_event_log_writer.rs: serialize_event_log'), ('bxes', R + 'event_log/bxes/conversions.rs')])

prop('C28', 'Discovery gives the net or the graph the algorithm defines for the log',
     'For every log, whatever its size, its order of traces and the names of its classes, discovery ends with a result and leaves the log as it is. The alpha, alpha+, alpha++ and alpha++ nfc nets have exactly the transitions of the classes of the log and exactly the places which the relations of the algorithm define, arcs of weight one, and (but for alpha++ nfc) a start place and an end place with the initial and final marking. The net of the heuristic miner has the places and silent transitions which the dependency measures, the thresholds and the and/xor groups define, with every arc once. The directly follows graph has every class once and an edge with the number of direct followings; the fuzzy graph has the edges and nodes which its correlation, cutoffs and ratios keep, and clusters which hold exactly the nodes left out. Names play no part besides labels, and the same results come out of a pipeline through the client.',
     ['inputs', 'configurations', 'histories'], 'all logs up to renaming of <= 3 traces and <= 8 events, with up to 6 classes; all single changes of logs with implicit dependencies; all thresholds and parameters on their boundaries; all sets of forks',
     'Tests of the backend compare the nets of a few hand-written logs.',
     [R + 'features/discovery/alpha/alpha.rs', R + 'features/discovery/alpha/alpha_set.rs', R + 'features/discovery/alpha/utils.rs', R + 'features/discovery/alpha/providers/alpha_provider.rs', R + 'features/discovery/alpha/providers/alpha_plus_provider.rs', R + 'features/discovery/alpha/providers/alpha_plus_nfc_provider.rs', R + 'features/discovery/alpha/alpha_plus_plus_nfc/alpha_plus_plus_nfc.rs', R + 'features/discovery/heuristic/heuristic_miner.rs', R + 'features/discovery/fuzzy/fuzzy_miner.rs', R + 'features/analysis/event_log_info.rs', R + 'features/analysis/directly_follows_graph.rs', R + 'features/discovery/fuzzy/fuzzy_metrics_provider.rs', R + 'features/discovery/heuristic/relations_provider.rs', R + 'features/discovery/alpha/providers/relations_cache.rs', R + 'utils/graph/graph.rs', R + 'utils/sets/two_sets.rs', R + 'pipelines/discovery_parts.rs', G + 'discovery_parts.py'],
     [('alpha', R + 'features/discovery/alpha/alpha.rs'), ('heuristic', R + 'features/discovery/heuristic/heuristic_miner.rs'), ('fuzzy', R + 'features/discovery/fuzzy/fuzzy_miner.rs')])

prop('C29', 'Replay, annotations and PNML of a Petri net say what the net does',
     'A trace is replayed on a net exactly when its events can be fired in their order from the initial marking, with silent transitions between them, each transition taking its tokens from places which have enough of them; the replay is such a firing sequence without circles, and it is found or refused in finite time for every net with a bounded number of tokens. The count of an arc is the number of its firings in these replays, the frequency its share of all counts, the trace frequency its count per trace; traces without replay are left out, or the annotation fails when it is asked to, and it fails without an initial marking. EnsureInitialMarking adds a marked start place before the first events of the traces and an end place after the last ones. PNML is a well-formed document with exactly the places, transitions, names and arcs of the net, whatever their names. The client receives the same net and the same annotations.',
     ['inputs', 'schedules', 'configurations'], 'all nets of <= 3 places and <= 2 transitions (2 places and 3 transitions in thorough) with labels a, b and silent x markings x all traces of <= 4 events; rings, splits and diamonds of silent transitions; all logs of <= 3 classes for discovered nets; all pairs of 20 texts as names',
     'Tests of the backend replay a few logs on the nets discovered from them.',
     [R + 'features/discovery/petri_net/replay.rs', R + 'features/discovery/petri_net/annotations.rs', R + 'features/discovery/petri_net/marking.rs', R + 'features/discovery/petri_net/pnml_serialization.rs', R + 'features/discovery/petri_net/petri_net.rs', R + 'features/discovery/petri_net/transition.rs', R + 'features/discovery/petri_net/arc.rs', R + 'pipelines/annotations_parts.rs', R + 'pipelines/discovery_parts.rs', R + 'grpc/converters.rs', R + 'utils/xml_utils.rs', G + 'discovery_parts.py'],
     [('replay', R + 'features/discovery/petri_net/replay.rs: replay_petri_net'), ('annotations', R + 'features/discovery/petri_net/annotations.rs'), ('PNML', R + 'features/discovery/petri_net/pnml_serialization.rs')])

prop('C30', 'Measures of a log are those of its present events, whatever was done before',
     'After any sequence of filtering by name, names, regex or trace, renaming, adding artificial events, pushing, inserting, adding traces and copying, the log holds exactly the events and traces the operations leave (a trace that loses its events is dropped by filtering), a copy is independent of its original, and everything measured is that of these events, whatever was measured before: names, hashes (equal for equal classes of events and no others), counts and positions of classes, positional entropy (both algorithms agree), entropy of the directly-follows relation (also smoothed) and groups of equal traces, with ignored events left out. Regexes as class extractors cut a name at the end of a match at its start. An interval tree finds exactly the intervals at a point, overlapping or inside a range; a graph keeps exactly the nodes and edges added, and merging nodes leads their outer edges to the new node; user data holds per key the last value put, shared by copies.',
     ['inputs', 'histories', 'configurations'], 'all logs of <= 3 classes, <= 3 traces and a few events x sets of ignored events x all sequences of 2 of 34 or 3-4 of 12 operations; all graphs of 3 nodes x all merges, all sequences of 5-6 graph operations; all sets of 3 intervals of 4-5 numbers; all sequences of 4-5 operations on user data',
     'Tests of the backend measure a few logs once.',
     [R + f for f in ('event_log/core/event/events_holder.rs', 'event_log/core/event/event_hasher.rs', 'event_log/core/trace/traces_holder.rs', 'event_log/core/trace/trace.rs', 'event_log/core/event_log.rs', 'event_log/simple/simple_event_log.rs', 'event_log/xes/xes_event_log.rs', 'features/analysis/entropy/pos_entropy.rs', 'features/analysis/entropy/pos_entropy_fast.rs', 'features/analysis/entropy/dfg_entropy.rs', 'features/analysis/entropy/shared.rs', 'features/analysis/event_log_info.rs', 'features/mutations/filtering.rs', 'features/mutations/mutations.rs', 'features/mutations/split.rs', 'utils/interval_tree/interval_tree.rs', 'utils/graph/graph.rs', 'utils/graph/graph_clusters.rs', 'utils/user_data/user_data.rs')],
     [('operations and caches', R + 'event_log/core/event/events_holder.rs'), ('entropies', R + 'features/analysis/entropy'), ('graphs', R + 'utils/graph/graph_clusters.rs'), ('interval trees', R + 'utils/interval_tree/interval_tree.rs')])

prop('C31', 'Clustering groups traces and activities by what its dataset shows',
     'The dataset of a clustering has one row per trace (or discovered activity), in order, whose columns are the classes of events (as shortened by the class extractor) with their scaled counts. Distances are L1, L2, cosine or the edit distance, and DBSCAN labels two objects alike exactly when a chain of core objects within the tolerance connects them; noise gets its own label. k-means gives every object one of the asked clusters. Labels in the dataset, colours of the labels, names and colours of merged activities and the logs the clusters are shown as all agree; clustering does not change the events of the log, merging activities changes nothing but their ids and names. Invalid parameters are answered with an error and never stop the server, and the client receives what was computed.',
     ['inputs', 'configurations'], 'all logs of <= 3 classes, <= 3 traces and a few events x 4 distances x tolerances between the attained distances x minimal sizes; activities of nested repeats x class extractors; k-means and grid searches; invalid values of every parameter',
     'Tests of the backend look at a few datasets and distances.',
     [R + 'features/clustering/traces/dbscan.rs', R + 'features/clustering/activities/merging.rs', R + 'features/clustering/activities/dbscan.rs', R + 'features/clustering/activities/k_means.rs', R + 'features/clustering/activities/activities_common.rs', R + 'features/clustering/common.rs', R + 'utils/distance/distance.rs', R + 'utils/dataset/dataset.rs', R + 'pipelines/activities_parts.rs', R + 'grpc/converters.rs', G + 'activities_parts.py'],
     [('clustering of traces', R + 'features/clustering/traces/dbscan.rs'), ('clustering of activities', R + 'features/clustering/activities'), ('distances', R + 'utils/distance/distance.rs')])

MORE = {'C04': [L + 'pipelines/analysis/high_level.py'],
        'C15': [L + 'pipelines/analysis/high_level.py'],
        'C16': [L + 'analysis/patterns/event_log_patterns.py'],
        'C17': [L + 'pipelines/analysis/high_level.py'],
        'C19': [G + 'drawing_parts.py', G + 'util_parts.py', G + 'activities_parts.py', G + 'data_models.py'],
        'C21': [G + 'drawing_parts.py', G + 'util_parts.py', G + 'activities_parts.py', G + 'xes_parts.py', L + 'util.py'],
        'C22': [L + 'pipelines/filtering/filter_parts.py', G + 'drawing_parts.py', G + 'activities_parts.py', G + 'grpc_pipelines.py'],
        'C23': [L + 'analysis/patterns/event_log_patterns.py', L + 'analysis/patterns/patterns_models.py'],
        'C24': [L + 'analysis/patterns/patterns_models.py', L + 'analysis/common/common_models.py'],
        'C03': [L + 'log/event_log.py']}
for p in P:
    p['anchors']['files'] += [f for f in MORE.get(p['id'], []) if f not in p['anchors']['files']]
    for f in p['anchors']['files']:
        assert os.path.exists('/repo/' + f), f

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    print(len(P))
