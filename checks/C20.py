"""C20: encoding of pipelines for the backend. A table (the model) states for every part the name the backend registers and the key, the
value type and the source of every parameter; all configurations within the bounds are encoded by the real code and compared with the
model, and the model itself is compared with the sources of the backend."""
import functools
import inspect
import itertools
import os
import re
import struct

from vlib.core import Family, Violation, check, check_eq, REPO
from vlib import gen as G
from vlib.fakegrpc import Backend, callback_parts, played_by, printed

from ficus.grpc_pipelines import (activities_parts, discovery_parts, drawing_parts, filtering_parts, grpc_pipelines, mutation_parts,
                                  patterns_parts, util_parts, xes_parts)
from ficus.grpc_pipelines import context_values as cv
from ficus.grpc_pipelines.data_models import (ActivitiesLogsSource, ActivitiesRepresentationSource, ActivityFilterKind, Distance,
                                              NarrowActivityKind, PatternsDiscoveryStrategy, PatternsKind, TracesRepresentationSource)
from ficus.grpc_pipelines.grpc_pipelines import Pipeline2, PipelineContextValue
from ficus.legacy.analysis.event_log_analysis import DatasetVisualizationMethod, NComponents
from ficus.legacy.analysis.patterns.patterns_models import UndefinedActivityHandlingStrategy
from ficus.legacy.pipelines.analysis.patterns.models import AdjustingMode

PROPERTY = 'C20'
ASSUMPTIONS = ['the backend reads parameters by key, so their order within one part has no meaning',
               'the Rust backend cannot be built here: its names, keys, key types and enum values are read from its sources']
MODULES = [activities_parts, discovery_parts, drawing_parts, filtering_parts, mutation_parts, patterns_parts, util_parts, xes_parts,
           grpc_pipelines]

NARROW = ('ActivityNarrowingKind', NarrowActivityKind)
FILTER = ('ActivityInTraceFilterKind', ActivityFilterKind)
UNDEF = ('UndefActivityHandlingStrategyDto', UndefinedActivityHandlingStrategy)
KIND = ('PatternsKindDto', PatternsKind)
STRATEGY = ('PatternsDiscoveryStrategy', PatternsDiscoveryStrategy)
ADJUST = ('AdjustingMode', AdjustingMode)
SOURCE = ('ActivitiesLogsSourceDto', ActivitiesLogsSource)
REPR = ('ActivityRepresentationSource', ActivitiesRepresentationSource)
DISTANCE = ('FicusDistance', Distance)
TREPR = ('TracesRepresentationSource', TracesRepresentationSource)

CLUSTER = [('activity_level', 'activity_level', 'uint'), ('tolerance', 'tolerance', 'float'),
           ('activities_repr_source', 'activities_repr_source', REPR), ('distance', 'distance', DISTANCE),
           ('class_extractor', 'event_class_regex', 'str')]
LEVELS = [('narrow_activities', 'narrow_activities', NARROW), ('adjusting_mode', 'adjusting_mode', ADJUST),
          ('activity_level', 'activity_level', 'uint'), ('min_events_in_unattached_subtrace_count', 'events_count', 'uint'),
          ('patterns_kind', 'patterns_kind', KIND), ('strategy', 'patterns_discovery_strategy', STRATEGY),
          ('min_events_in_activity_count', 'min_activity_length', 'uint'), ('max_array_length', 'tandem_array_length', 'uint'),
          ('activity_filter_kind', 'activity_in_trace_filter_kind', FILTER)]
FLOATS = lambda *ks: [(k, w, 'float') for k, w in ks]
COLORS = ['colors_event_log']
ANNOTATE = [('terminate_on_unreplayable_trace', 'terminate_on_unreplayable_traces', 'bool')]
LABELED = ['labeled_traces_activities_dataset']
TANDEM = [('max_array_length', 'tandem_array_length', 'uint'), ('class_extractor', 'event_class_regex', 'str')]
REPEATS = [('strategy', 'patterns_discovery_strategy', STRATEGY), ('class_extractor', 'event_class_regex', 'str')]

# class -> (part name of the backend, or None for a request of a value of the context; requested keys; parameters)
TABLE = {
    'DiscoverActivities2': ('DiscoverActivities', [], [('activity_level', 'activity_level', 'uint')]),
    'DiscoverActivitiesInstances2': ('DiscoverActivitiesInstances', [], [
        ('narrow_activities', 'narrow_activities', NARROW), ('min_events_in_activity', 'min_activity_length', 'uint'),
        ('activity_filter_kind', 'activity_in_trace_filter_kind', FILTER)]),
    'CreateLogFromActivitiesInstances2': ('CreateLogFromActivities', [], [('strategy', 'undef_activity_handling_strategy', UNDEF)]),
    'DiscoverActivitiesForSeveralLevels2': ('DiscoverActivitiesForSeveralLevels', [],
                                            LEVELS + [('event_classes', 'event_classes_regexes', 'strs')]),
    'DiscoverActivitiesUntilNoMore2': ('DiscoverActivitiesUntilNoMore', [], LEVELS + [
        ('event_class', 'event_class_regex', 'str'), ('undef_strategy', 'undef_activity_handling_strategy', UNDEF),
        ('after_activities_extraction_pipeline', 'pipeline', 'pipeline'),
        ('execute_only_on_last_extraction', 'execute_only_on_last_extraction', 'bool')]),
    'ExecuteWithEachActivityLog2': ('ExecuteWithEachActivityLog', [], [
        ('activities_logs_source', 'activities_logs_source', SOURCE), ('activity_level', 'activity_level', 'uint'),
        ('activity_log_pipeline', 'pipeline', 'pipeline')]),
    'SubstituteUnderlyingEvents2': ('SubstituteUnderlyingEvents', [], []),
    'ClearActivitiesRelatedStuff2': ('ClearActivities', [], []),
    'PrintNumberOfUnderlyingEvents2': ('GetUnderlyingEventsCount', ['underlying_events_count'], []),
    'ApplyClassExtractor2': ('ApplyClassExtractor', [], [('class_extractor_regex', 'event_class_regex', 'str'),
                                                         ('filter_regex', 'regex', 'str')]),
    'ClusterizeActivitiesFromTracesKMeans': ('ClusterizeActivitiesFromTracesKMeans', LABELED, CLUSTER + [
        ('clusters_count', 'clusters_count', 'uint'), ('learning_iterations_count', 'learning_iterations_count', 'uint')]),
    'ClusterizeActivitiesFromTracesKMeansGridSearch': ('ClusterizeActivitiesFromTracesKMeansGridSearch', LABELED, CLUSTER + [
        ('learning_iterations_count', 'learning_iterations_count', 'uint')]),
    'ClusterizeActivitiesFromTracesDbscan': ('ClusterizeActivitiesFromTracesDbscan', LABELED, CLUSTER + [
        ('min_events_count_in_cluster', 'min_events_in_cluster_count', 'uint')]),
    'VisualizeTracesActivities2': ('CreateTracesActivitiesDataset', ['traces_activities_dataset'], [
        ('activity_level', 'activity_level', 'uint'), ('class_extractor', 'event_class_regex', 'str'),
        ('activities_repr_source', 'activities_repr_source', REPR)]),
    'ClusterizeLogTracesDbscan': ('ClusterizeLogTraces', ['labeled_log_traces_dataset'], [
        ('tolerance', 'tolerance', 'float'), ('distance', 'distance', DISTANCE), ('traces_repr_source', 'traces_repr_source', TREPR),
        ('min_events_count_in_cluster', 'min_events_in_cluster_count', 'uint'), ('after_clusterization_pipeline', 'pipeline', 'pipeline'),
        ('class_extractor', 'event_class_regex', 'str')]),
    'DiscoverPetriNetAlpha2': ('DiscoverPetriNetAlpha', [], []),
    'DiscoverPetriNetAlphaPlus2': ('DiscoverPetriNetAlphaPlus', [], []),
    'DiscoverPetriNetAlphaPlusPlus2': ('DiscoverPetriNetAlphaPlusPlus', [], []),
    'DiscoverPetriNetAlphaPlusPlusNfc2': ('DiscoverPetriNetAlphaPlusPlusNfc', [], []),
    'DiscoverPetriNetHeuristic2': ('DiscoverPetriNetHeuristic', [], [
        ('positive_observations_threshold', 'positive_observations_threshold', 'uint')] + FLOATS(
        ('dependency_threshold', 'dependency_threshold'), ('relative_to_best_threshold', 'relative_to_best_threshold'),
        ('and_threshold', 'and_threshold'), ('loop_length_two_threshold', 'loop_length_two_threshold'))),
    'DiscoverFuzzyGraph': ('DiscoverFuzzyGraph', [], FLOATS(
        ('unary_frequency_threshold', 'unary_frequency_threshold'),
        ('binary_significance_threshold', 'binary_frequency_significance_threshold'), ('preserve_threshold', 'preserve_threshold'),
        ('ratio_threshold', 'ratio_threshold'), ('utility_rate', 'utility_rate'), ('edge_cutoff_threshold', 'edge_cutoff_threshold'),
        ('node_cutoff_threshold', 'node_cutoff_threshold'))),
    'SerializePetriNetToPNML2': ('SerializePetriNet', [], [('save_path', 'path', 'str'),
                                                           ('use_names_as_ids', 'pnml_use_names_as_ids', 'bool')]),
    'ViewPetriNet2': (None, ['petri_net'], []),
    'ViewGraph2': (None, ['graph'], []),
    'ViewDirectlyFollowsGraph2': ('DiscoverDirectlyFollowsGraph', ['graph'], []),
    'AnnotatePetriNetWithCount2': ('AnnotatePetriNetWithCount', ['petri_net', 'petri_net_count_annotation'], ANNOTATE),
    'AnnotatePetriNetWithFrequency2': ('AnnotatePetriNetWithFrequency', ['petri_net', 'petri_net_frequency_annotation'], ANNOTATE),
    'AnnotatePetriNetWithTraceFrequency2': ('AnnotatePetriNetWithTraceFrequency',
                                            ['petri_net', 'petri_net_trace_frequency_annotation'], ANNOTATE),
    'EnsureInitialMarking': ('EnsureInitialMarking', [], []),
    'ReadLogFromXes2': ('ReadLogFromXes', [], []),
    'WriteLogToXes2': ('WriteLogToXes', [], [('save_path', 'path', 'str')]),
    'ReadLogFromBxes2': ('ReadLogFromBxes', [], []),
    'WriteLogToBxes2': ('WriteLogToBxes', [], [('save_path', 'path', 'str')]),
    'AddStartEndArtificialEvents2': ('AddArtificialStartEndEvents', [], []),
    'AddStartArtificialEvents2': ('AddArtificialStartEvents', [], []),
    'AddEndArtificialEvents2': ('AddArtificialEndEvents', [], []),
    'FilterTracesByEventsCount2': ('FilterTracesByEventsCount', [], [('min_events_in_trace', 'events_count', 'uint')]),
    'FilterEventsByName2': ('FilterEventsByName', [], [('event_name', 'event_name', 'str')]),
    'FilterEventsByRegex2': ('FilterEventsByRegex', [], [('regex', 'regex', 'str')]),
    'FilterLogByVariants2': ('FilterLogByVariants', [], []),
    'UseNamesEventLog2': ('UseNamesEventLog', [], []),
    'PrintEventLog2': ('GetNamesEventLog', ['names_event_log'], []),
    'PrintEventLogInfo2': ('GetEventLogInfo', ['event_log_info'], []),
    'FindPrimitiveTandemArrays2': ('FindPrimitiveTandemArrays', [], TANDEM),
    'FindMaximalTandemArrays2': ('FindMaximalTandemArrays', [], TANDEM),
    'FindMaximalRepeats2': ('FindMaximalRepeats', [], REPEATS),
    'FindSuperMaximalRepeats2': ('FindSuperMaximalRepeats', [], REPEATS),
    'FindNearSuperMaximalRepeats2': ('FindNearSuperMaximalRepeats', [], REPEATS),
}
for _suffix in ('', 'Canvas'):
    TABLE['TracesDiversityDiagram2' + _suffix] = ('TracesDiversityDiagram', COLORS, [])
    TABLE['DrawPlacementsOfEventByName2' + _suffix] = ('DrawPlacementOfEventByName', COLORS, [('event_name', 'event_name', 'str')])
    TABLE['DrawPlacementOfEventsByRegex2' + _suffix] = ('DrawPlacementOfEventsByRegex', COLORS, [('regex', 'regex', 'str')])
    TABLE['DrawFullActivitiesDiagram2' + _suffix] = ('DrawFullActivitiesDiagram', COLORS, [])
    TABLE['DrawShortActivitiesDiagram2' + _suffix] = ('DrawShortActivitiesDiagram', COLORS, [])

NAMES = sorted(TABLE)


def cls_of(name):
    for m in MODULES:
        if hasattr(m, name):
            return getattr(m, name)
    raise Violation(f'the part {name} does not exist any more')


def f32(x):
    return struct.unpack('f', struct.pack('f', x))[0]


# ------------------------------------------------------------------------------------------------ pictures of what is sent
def pic_value(v):
    which = v.WhichOneof('contextValue')
    x = getattr(v, which) if which else None
    if which == 'enum':
        return 'enum', x.enumType, x.value
    if which == 'strings':
        return 'strings', tuple(x.strings)
    if which == 'pipeline':
        return 'pipeline', pic_pipeline(x)
    if which in ('string', 'uint32', 'bool', 'float'):
        return which, x
    return which, str(x)


def pic_config(part):
    kvs = sorted((kv.key.name, pic_value(kv.value)) for kv in part.configuration.configurationParameters)
    check(len({k for k, _ in kvs}) == len(kvs), f'a parameter is sent twice: {kvs}')
    return part.name, tuple(kvs)


def pic_part(base):
    which = base.WhichOneof('part')
    if which == 'defaultPart':
        return ('default',) + pic_config(base.defaultPart)
    if which == 'simpleContextRequestPart':
        return 'request', (base.simpleContextRequestPart.key.name,)
    if which == 'complexContextRequestPart':
        p = base.complexContextRequestPart
        return ('request after', tuple(k.name for k in p.keys)) + pic_config(p.beforePipelinePart)
    return which, str(base)


def pic_pipeline(p):
    return tuple(pic_part(b) for b in p.parts)


# ------------------------------------------------------------------------------------------------ the model
def model_value(kind, value):
    if kind == 'str':
        return 'string', value
    if kind == 'uint':
        return 'uint32', value
    if kind == 'float':
        return 'float', f32(value)
    if kind == 'bool':
        return 'bool', value
    if kind == 'strs':
        return 'strings', tuple(value)
    if kind == 'pipeline':
        return 'pipeline', model_pipeline(value)
    return 'enum', kind[0], value.name


def model_part(name, kwargs):
    part_name, keys, params = TABLE[name]
    if part_name is None:
        return 'request', tuple(keys)
    sent = []
    defaults = defaults_of(name)
    for kwarg, key, kind in params:
        value = kwargs[kwarg] if kwarg in kwargs else defaults[kwarg]
        if value is not None:
            sent.append((key, model_value(kind, value)))
    if keys:
        return 'request after', tuple(keys), part_name, tuple(sorted(sent))
    return 'default', part_name, tuple(sorted(sent))


@functools.lru_cache(None)
def _signature(name):
    return inspect.signature(cls_of(name).__init__)


@functools.lru_cache(None)
def _defaults(name):
    return {p.name: p.default for p in _signature(name).parameters.values() if p.default is not inspect.Parameter.empty}


def defaults_of(name):
    return _defaults(name)


PATTERN_PARTS = {PatternsKind.MaximalRepeats: 'FindMaximalRepeats2', PatternsKind.SuperMaximalRepeats: 'FindSuperMaximalRepeats2',
                 PatternsKind.NearSuperMaximalRepeats: 'FindNearSuperMaximalRepeats2',
                 PatternsKind.PrimitiveTandemArrays: 'FindPrimitiveTandemArrays2',
                 PatternsKind.MaximalTandemArrays: 'FindMaximalTandemArrays2'}


class S:
    """a part as specified: class name and arguments; a pipeline is a tuple of these"""

    def __init__(self, name, /, **kwargs):
        self.name, self.kwargs = name, kwargs

    def build(self):
        kwargs = {k: build_pipeline(v) if isinstance(v, tuple) and (not v or isinstance(v[0], S)) else v for k, v in self.kwargs.items()}
        return cls_of(self.name)(**kwargs)

    def model(self):
        if self.name == 'DiscoverActivitiesFromPatterns2':
            k = dict({'strategy': PatternsDiscoveryStrategy.FromAllTraces, 'max_array_length': 20, 'activity_level': 0}, **self.kwargs)
            part = PATTERN_PARTS[k['patterns_kind']]
            first = model_part(part, {'max_array_length': k['max_array_length']} if 'Tandem' in part else {'strategy': k['strategy']})
            inner = (first, model_part('DiscoverActivities2', {'activity_level': k['activity_level']}))
            return 'default', 'ExecuteFrontendPipeline', (('pipeline', ('pipeline', inner)),)
        if self.name == 'PrintEventlogInfoBeforeAfter':
            info = model_part('PrintEventLogInfo2', {})
            inner = (info,) + model_pipeline(self.kwargs['inner_pipeline']) + (info,)
            return 'default', 'ExecuteFrontendPipeline', (('pipeline', ('pipeline', inner)),)
        return model_part(self.name, self.kwargs)

    def __repr__(self):
        return f'{self.name}({self.kwargs})'


def build_pipeline(spec):
    return Pipeline2(*[s.build() for s in spec])


def model_pipeline(spec):
    return tuple(s.model() for s in spec)


# ------------------------------------------------------------------------------------------------ values
INNER = (S('FilterLogByVariants2'),)
INNER2 = (S('FilterTracesByEventsCount2', min_events_in_trace=3), S('ViewGraph2'))
POOLS = {'uint': [3, 0, 1, 2 ** 32 - 1], 'str': ['a.b', '', 'caf\u00e9 "x"\n', '0'], 'float': [0.25, 0.0, 1e-5, 1.0, -3.5, 1.25e-9, 123456.789],
         'bool': [True, False], 'strs': [['b', 'a', 'a'], [], ['']], 'pipeline': [INNER2, (), INNER]}
OTHER = {'title': 'T', 'save_path': 'out.png', 'plot_legend': None, 'height_scale': 3, 'width_scale': 4, 'name': 'N',
         'background_color': 'black', 'engine': 'neato', 'export_path': 'x.svg', 'rankdir': 'TB', 'show_places_names': True,
         'annotation': {1: 'x'}, 'fig_size': (1, 2), 'view_params': (3, 4), 'font_size': 5, 'legend_cols': 9,
         'n_components': NComponents.Two, 'visualization_method': DatasetVisualizationMethod.TSNE, 'show_visualization': False}


def pool(name, kwarg, kind):
    vals = list(kind[1]) if isinstance(kind, tuple) else list(POOLS[kind])
    d = defaults_of(name).get(kwarg, 'required')
    if d is None:
        vals.insert(1, None)
    if d != 'required' and d is not None:  # the first two values differ from each other and the first from the default
        vals = sorted(vals, key=lambda v: v == d)
    return vals


def config_cases(name):
    params = TABLE[name][2]
    pools = {k: pool(name, k, kind) for k, _, kind in params}
    for combo in itertools.product(*[range(min(2, len(pools[k]))) for k, _, _ in params]):
        yield {k: i for (k, _, _), i in zip(params, combo)}
    for k, _, _ in params:
        for i in range(2, len(pools[k])):
            for base in (0, 1):
                yield {q: (i if q == k else min(base, len(pools[q]) - 1)) for q, _, _ in params}
    required = [p.name for p in _signature(name).parameters.values() if p.name != 'self' and p.default is inspect.Parameter.empty and
                p.kind not in (p.VAR_POSITIONAL, p.VAR_KEYWORD)]
    yield {k: 0 for k, _, _ in params if k in required}  # defaults


def encode(ctx, part):
    """the part as sent by a pipeline (through the wire)"""
    backend = Backend(lambda request: [])
    with played_by(backend), printed():
        Pipeline2(part).execute({})
    ctx.op()
    return backend.requests[0].pipeline


def fam_configs(quick):
    def gen():
        for name in NAMES:
            cases = list(config_cases(name))
            for i in range(0, len(cases), 32):
                yield (name, i)

    @functools.lru_cache(4)
    def cases_of(name):
        return list(config_cases(name))

    def run(ctx, name, start):
        params = TABLE[name][2]
        pools = {k: pool(name, k, kind) for k, _, kind in params}
        for idx in cases_of(name)[start:start + 32]:
            kwargs = {k: pools[k][i] for k, i in idx.items()}
            spec = S(name, **kwargs)
            ctx.state((name, idx))
            part = spec.build()
            sent = encode(ctx, part)
            got, want = pic_pipeline(sent), (spec.model(),)
            check_eq(got, want, f'request sent for {spec}')
            ids = [u for u, _ in callback_parts(sent)]
            check(len(set(ids)) == len(ids) and all(ids), f'identities {ids} of {spec}')
            check_eq(pic_pipeline(encode(ctx, part)), want, f'second request sent for {spec}')
            ctx.ok((name, got))

    return Family('configurations', gen, run, f'{len(NAMES)} parts, all combinations of two values of every parameter, every further value of '
                                              'each parameter (all enum members, limits of the numbers), and the defaults')


def fam_other(quick):
    """parameters of drawing and the like stay on this side"""

    def gen():
        for name in NAMES:
            yield (name,)

    def run(ctx, name):
        wire = {k for k, _, _ in TABLE[name][2]}
        params = TABLE[name][2]
        base = {k: pool(name, k, kind)[0] for k, _, kind in params}
        others = [p for p in _signature(name).parameters if p in OTHER and p not in wire]
        for sub in itertools.chain.from_iterable(itertools.combinations(others, r) for r in (0, 1, 2, len(others))):
            kwargs = {o: (not defaults_of(name)[o] if OTHER[o] is None else OTHER[o]) for o in sub}
            ctx.state((name, sub))
            spec = S(name, **base, **kwargs)
            check_eq(pic_pipeline(encode(ctx, spec.build())), (S(name, **base).model(),), f'request sent for {spec}')
            ctx.ok(None)

    return Family('local_parameters', gen, run, 'parameters which are not sent, set alone, in pairs and all together, do not change the request')


def small(name):
    return S(name, **{k: pool(name, k, kind)[0] for k, _, kind in TABLE[name][2]})


def fam_sequences(quick):
    """parts next to each other do not influence each other"""

    def gen():
        n = len(NAMES)
        for i in range(n):
            for j in range(n):
                yield (i, j)

    def run(ctx, i, j):
        a, b = small(NAMES[i]), small(NAMES[j])
        specs = [(a, b), (a, b, a)] if quick else [(a, b), (a, b, a)] + [(a, b, small(c)) for c in NAMES]
        for spec in specs:
            ctx.state(tuple(s.name for s in spec))
            pipeline = build_pipeline(spec)
            grpc_pipeline = pipeline.to_grpc_pipeline()
            ctx.op()
            check_eq(pic_pipeline(grpc_pipeline), model_pipeline(spec), f'request sent for {spec}')
            ids = [u for u, _ in callback_parts(grpc_pipeline)]
            check(len(set(ids)) == len(ids) and all(ids), f'identities {ids} of {spec}')
            ctx.ok(None)
        # the same parts in another pipeline
        p, q = a.build(), b.build()
        for order in ((p, q), (q, p), (p, q), (p, p), (p, q, p), (q, p, p, q)):
            sent = Pipeline2(*order).to_grpc_pipeline()
            ctx.op()
            check_eq(pic_pipeline(sent), tuple((a if x is p else b).model() for x in order), 'parts encoded again in another order')

    return Family('sequences', gen, run, 'all ordered pairs of parts (and triples' + (' of the form a, b, a' if quick else '') + '), parts reused in other pipelines')


# ------------------------------------------------------------------------------------------------ nesting
def forests(n, depth):
    if n == 0:
        yield ()
        return
    for k in range(1, n + 1):
        for first in trees(k, depth):
            for rest in forests(n - k, depth):
                yield (first,) + rest


def trees(n, depth):
    if n == 1:
        yield from ('v', 'g', 'i', 'a')
    if depth > 0:
        for c in 'CEDP':
            for inner in forests(n - 1, depth - 1):
                yield (c, inner)


def spec_of(shape, counter):
    out = []
    for node in shape:
        i = next(counter)
        if node == 'v':
            out.append(S('FilterTracesByEventsCount2', min_events_in_trace=i))
        elif node == 'g':
            out.append(S('ViewGraph2'))
        elif node == 'i':
            out.append(S('PrintEventLogInfo2'))
        elif node == 'a':
            out.append(S('DiscoverActivitiesFromPatterns2', patterns_kind=list(PatternsKind)[i % 5], activity_level=i, max_array_length=10 + i,
                         strategy=list(PatternsDiscoveryStrategy)[i % 2]))
        else:
            c, inner = node
            inner = spec_of(inner, counter)
            out.append({'C': lambda: S('ClusterizeLogTracesDbscan', after_clusterization_pipeline=inner, min_events_count_in_cluster=i),
                        'E': lambda: S('ExecuteWithEachActivityLog2', activities_logs_source=list(ActivitiesLogsSource)[i % 2],
                                       activity_level=i, activity_log_pipeline=inner),
                        'D': lambda: S('DiscoverActivitiesUntilNoMore2', after_activities_extraction_pipeline=inner, activity_level=i),
                        'P': lambda: S('PrintEventlogInfoBeforeAfter', inner_pipeline=inner)}[c]())
    return tuple(out)


def _tup(x):
    return tuple(_tup(e) for e in x) if isinstance(x, (list, tuple)) else x


def fam_nesting(quick):
    bound = 4 if quick else 5

    def gen():
        for n in range(bound + 1):
            for shape in forests(n, 3):
                yield (shape,)
        for n in (20, 150):
            yield (tuple('vgia'[(i * i) % 4] for i in range(n)),)
            yield (tuple(('CEDP'[i % 4], ('v',) if i % 3 else ()) for i in range(n)),)
        for n in (5, 12):  # (protobuf messages nest at most 100 levels)
            deep = ('v', 'g')
            for i in range(n):
                deep = ('a', ('CEDP'[i % 4], deep)) if i % 2 else (('CEDP'[i % 4], deep), 'v')
            yield (deep,)

    def run(ctx, shape):
        shape = _tup(shape)
        ctx.state(shape)
        spec = spec_of(shape, itertools.count())
        pipeline = build_pipeline(spec)
        backend = Backend(lambda request: [])
        with played_by(backend), printed():
            pipeline.execute({'pipeline': PipelineContextValue(pipeline)} if len(shape) == 1 else {})
            pipeline.execute({})
        ctx.op(2)
        want = model_pipeline(spec)
        for r in backend.requests:
            check_eq(pic_pipeline(r.pipeline), want, f'request sent for {spec}')
            ids = [u for u, _ in callback_parts(r.pipeline)]
            check(len(set(ids)) == len(ids) and all(ids), f'identities {ids} of {spec}')
            for kv in r.initialContext:
                check_eq((kv.key.name, pic_value(kv.value)), ('pipeline', ('pipeline', want)), 'pipeline in the initial context')
        ctx.ok(want)

    return Family('nesting', gen, run, f'all nestings of <={bound} parts (4 kinds of leaves, 4 kinds of parts holding pipelines) to depth 3, sent twice')


# ------------------------------------------------------------------------------------------------ patterns part
def fam_from_patterns(quick):
    def gen():
        for k in range(5):
            for s in range(2):
                for length in (0, 1, 20, 2 ** 32 - 1):
                    for level in (0, 1, 7):
                        yield (k, s, length, level)

    def run(ctx, k, s, length, level):
        ctx.state((k, s, length, level))
        spec = S('DiscoverActivitiesFromPatterns2', patterns_kind=list(PatternsKind)[k], strategy=list(PatternsDiscoveryStrategy)[s],
                 max_array_length=length, activity_level=level)
        check_eq(pic_pipeline(encode(ctx, spec.build())), (spec.model(),), f'request sent for {spec}')
        spec = S('DiscoverActivitiesFromPatterns2', patterns_kind=list(PatternsKind)[k])
        check_eq(pic_pipeline(encode(ctx, spec.build())), (spec.model(),), f'request sent for {spec}')
        ctx.ok(None, 2)

    return Family('from_patterns', gen, run, 'activities from patterns: all kinds and strategies, 4 lengths, 3 levels')


# ------------------------------------------------------------------------------------------------ initial values
STRINGS = ['a', '', 'caf\u00e9\n']


def fam_values(quick):
    def gen():
        for kind, values in (('str', ['', 'a', '/p/x.xes', 'caf\u00e9 \u2603', 'a\nb', '0', 'True', 'x' * 100000]),
                             ('uint', [0, 1, 2, 255, 65536, 2 ** 31, 2 ** 32 - 1]), ('bool', [True, False]),
                             ('float', [0.0, 0.5, 1e-5, -1.25, 1.0, 1e30, 1.25e-9, 123456.789, 1 / 3, -0.1]),
                             ('enum', [[a, b] for a in ('FicusDistance', 'AdjustingMode') for b in ('L1', 'FromAllLog', '')]),
                             ('info', [list(t) for t in itertools.product([0, 1, 7, 2 ** 32 - 1], repeat=3)])):
            for v in values:
                yield (kind, v)
        for n in range(5):
            for w in itertools.product(range(3), repeat=n):
                yield ('strs', [STRINGS[i] for i in w])
        for log in G.logs(3, 3, 4 if quick else 6, canonical=False):
            yield ('names', [[STRINGS[i] for i in t] for t in log])
            yield ('hashes', [[(0, 1, 2 ** 64 - 1)[i] for i in t] for t in log])

    def run(ctx, kind, v):
        ctx.state((kind, v))
        make = {'str': lambda: cv.StringContextValue(v), 'uint': lambda: cv.Uint32ContextValue(v), 'bool': lambda: cv.BoolContextValue(v),
                'float': lambda: cv.FloatContextValue(v), 'enum': lambda: cv.EnumContextValue(*v),
                'info': lambda: cv.EventLogInfo(events_count=v[0], event_classes_count=v[1], traces_count=v[2]),
                'strs': lambda: cv.StringsContextValue(v), 'names': lambda: cv.NamesLogContextValue(v),
                'hashes': lambda: cv.HashesLogContextValue(v)}[kind]
        before = repr(v)
        backend = Backend(lambda request: [])
        with played_by(backend), printed():
            Pipeline2().execute({'first': cv.Uint32ContextValue(9), 'k': make(), 'last': cv.StringContextValue('z')})
        ctx.op()
        sent = {kv.key.name: kv.value for kv in backend.requests[0].initialContext}
        check_eq(sorted(sent), ['first', 'k', 'last'], 'keys of the initial values')
        x = sent['k']
        which = x.WhichOneof('contextValue')
        wires = {'str': 'string', 'uint': 'uint32', 'strs': 'strings', 'names': 'names_log', 'hashes': 'hashes_log', 'info': 'event_log_info'}
        check_eq(which, wires.get(kind, kind), f'type of the value sent for {kind} {before[:80]}')
        got = {'str': lambda: x.string, 'uint': lambda: x.uint32, 'bool': lambda: x.bool, 'float': lambda: x.float,
               'enum': lambda: [x.enum.enumType, x.enum.value], 'strs': lambda: list(x.strings.strings),
               'info': lambda: [x.event_log_info.events_count, x.event_log_info.event_classes_count, x.event_log_info.traces_count],
               'names': lambda: [list(t.events) for t in x.names_log.log.traces],
               'hashes': lambda: [list(t.events) for t in x.hashes_log.log.traces]}[kind]()
        check_eq(got, f32(v) if kind == 'float' else v, f'contents of the value sent for {kind}')
        check_eq(repr(v), before, 'the value of the caller')
        ctx.ok((kind, repr(got)[:200]))

    return Family('initial_values', gen, run, 'every type of initial value: limits of the numbers, all string lists of <=4, all logs of <=3 traces')


# ------------------------------------------------------------------------------------------------ the model and the backend
RUST = os.path.join(REPO, 'src', 'rust', 'ficus_backend', 'src')
RUST_TYPES = {'str': 'String', 'uint': 'u32', 'float': 'f64', 'bool': 'bool', 'strs': 'Vec<String>', 'pipeline': 'Pipeline'}


@functools.lru_cache(1)
def rust_text():
    out = []
    for d, _, fs in os.walk(RUST):
        for f in sorted(fs):
            if f.endswith('.rs'):
                with open(os.path.join(d, f), encoding='utf-8') as h:
                    out.append(h.read())
    return '\n'.join(out)


@functools.lru_cache(1)
def rust_key_types():
    """key name -> type, as far as it can be read from the sources"""
    t = rust_text()
    consts = dict(re.findall(r'const (\w+): &\'static str = "([^"]*)"', t))
    return {consts[k]: ty.split('::')[-1] for ty, k in re.findall(r'insert_key::<([^(]+)>\(\s*context,\s*Self::(\w+)\s*\)', t) if k in consts}


def rust_enum(name):
    m = re.search(r'impl FromStr for ' + name + r'\b(.*?)\n}', rust_text(), re.S)
    return set(re.findall(r'"(\w+)"\s*=>', m.group(1))) if m else None


def fam_backend(quick):
    def gen():
        for name in NAMES:
            yield (name,)

    def run(ctx, name):
        ctx.state(name)
        t = rust_text()
        if len(t) < 1000:
            return
        part_name, keys, params = TABLE[name]
        for literal in ([part_name] if part_name else []) + keys + [k for _, k, _ in params]:
            check(f'"{literal}"' in t, f'{literal!r}, sent for {name}, does not occur in the sources of the backend')
        types = rust_key_types()
        for _, key, kind in params:
            if key in types:
                want = kind[0] if isinstance(kind, tuple) else RUST_TYPES[kind]
                check_eq(want, types[key], f'type of the parameter {key} of {name} and the type the backend reads')
            if isinstance(kind, tuple):
                known = rust_enum(kind[0])
                if known:
                    missing = {e.name for e in kind[1]} - known
                    check(not missing, f'values {missing} of {kind[0]} are not known to the backend')
        ctx.op()
        ctx.ok(name)

    return Family('backend_sources', gen, run, 'names, keys, key types and enum values of the model occur in the sources of the backend')


def families(tier):
    q = tier == 'quick'
    return [fam_backend(q), fam_configs(q), fam_other(q), fam_sequences(q), fam_nesting(q), fam_from_patterns(q), fam_values(q)]
