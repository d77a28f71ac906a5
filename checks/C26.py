"""C26: a remote pipeline does on the backend exactly what its parts say."""
import itertools
import math
import os
import re

from vlib import fakegrpc, gen, rbackend, ref, rustlib
from vlib.core import Family, Violation, check, check_eq, known_findings
from vlib.rbackend import Probe, Spy, names_log, run, success
from vlib.rustlib import backend

from ficus.grpc_pipelines import activities_parts, discovery_parts, filtering_parts, mutation_parts, patterns_parts, util_parts
from ficus.grpc_pipelines.activities_parts import *
from ficus.grpc_pipelines.constants import *
from ficus.grpc_pipelines.context_values import (BoolContextValue, FloatContextValue, NamesLogContextValue, StringContextValue, StringsContextValue, Uint32ContextValue)
from ficus.grpc_pipelines.data_models import *
from ficus.grpc_pipelines.discovery_parts import *
from ficus.grpc_pipelines.drawing_parts import *
from ficus.grpc_pipelines.filtering_parts import *
from ficus.grpc_pipelines.grpc_pipelines import (Pipeline2, PipelinePart2, PrintEventLogInfo2, _create_complex_get_context_part, _create_default_pipeline_part,
                                                 append_pipeline_value, append_string_value, append_uint32_value)
from ficus.grpc_pipelines.models.pipelines_and_context_pb2 import GrpcPipelinePartBase, GrpcPipelinePartConfiguration
from ficus.grpc_pipelines.mutation_parts import *
from ficus.grpc_pipelines.patterns_parts import *
from ficus.grpc_pipelines.util_parts import *
from ficus.legacy.analysis.patterns.patterns_models import UndefinedActivityHandlingStrategy
from ficus.legacy.pipelines.analysis.patterns.models import AdjustingMode

PROPERTY = 'C26'
ASSUMPTIONS = ['the backend is compiled with stand-ins for the crates which are not in the crate cache (see DESIGN.md)',
               'messages are passed to the service as objects; the gRPC transport itself is trusted']
setup = rustlib.setup(PROPERTY)
NAMES = ['Aa', 'Ab', 'B', 'aB']


def initial(log):
    return {const_names_event_log: NamesLogContextValue(log)}


def named(log, letters=NAMES):
    return [[letters[i] for i in t] for t in log]


# ------------------------------------------------------------------------------------------------------- transformations
def drop_empty(log):
    return [t for t in log if t]


def m_extract(log, class_regex, filter_regex):
    def f(n):
        if not re.search(filter_regex, n):
            return n
        m = re.search(class_regex, n)
        return m.group(0) if m and m.start() == 0 else n
    return [[f(n) for n in t] for t in log]


def m_variants(log):
    out = []
    for t in log:
        if t not in out:
            out.append(t)
    return out


STEPS = [
    (lambda: FilterEventsByName2('Aa'), lambda g: drop_empty([[n for n in t if n != 'Aa'] for t in g])),
    (lambda: FilterEventsByName2('A'), lambda g: drop_empty([[n for n in t if n != 'A'] for t in g])),
    (lambda: FilterEventsByRegex2('^A'), lambda g: drop_empty([[n for n in t if not re.search('^A', n)] for t in g])),
    (lambda: FilterEventsByRegex2('B'), lambda g: drop_empty([[n for n in t if 'B' not in n] for t in g])),
    (lambda: FilterLogByVariants2(), m_variants),
    (lambda: FilterTracesByEventsCount2(2), lambda g: [t for t in g if len(t) >= 2]),
    (lambda: FilterTracesByEventsCount2(0), lambda g: g),
    (lambda: AddStartEndArtificialEvents2(), lambda g: [['ARTIFICIAL_START'] + t + ['ARTIFICIAL_END'] for t in g]),
    (lambda: AddStartArtificialEvents2(), lambda g: [['ARTIFICIAL_START'] + t for t in g]),
    (lambda: AddEndArtificialEvents2(), lambda g: [t + ['ARTIFICIAL_END'] for t in g]),
    (lambda: ApplyClassExtractor2('^A', '.'), lambda g: m_extract(g, '^A', '.')),
    (lambda: ApplyClassExtractor2('B', 'a'), lambda g: m_extract(g, 'B', 'a')),
    (lambda: UseNamesEventLog2(), None),  # back to the names last asked for
]


def m_info(g):
    return sum(map(len, g)), len(g), len({n for t in g for n in t})


def m_dfg(g):
    edges = {}
    for t in g:
        for a, b in zip(t, t[1:]):
            edges[a, b] = edges.get((a, b), 0) + 1
    return sorted({n for t in g for n in t}), sorted((a, b, str(c)) for (a, b), c in edges.items())


def graph_of(value):
    g = value.graph
    names = {n.id: n.data for n in g.nodes}
    check_eq(len(names), len(g.nodes), 'ids of graph nodes')
    return sorted(names.values()), sorted((names[e.from_node], names[e.to_node], e.data) for e in g.edges)


def observe(ctx, seen, k):
    return [Spy(PrintEventLog2(), seen, ('log', k)), Spy(PrintEventLogInfo2(), seen, ('info', k)), Spy(ViewDirectlyFollowsGraph2(), seen, ('dfg', k))]


def gen_steps(tier):
    q = tier == 'quick'
    for log in gen.logs(4, 3, 4 if q else 5, min_traces=0):
        for i in range(len(STEPS)):
            yield [log, [i]]
    n = range(len(STEPS))
    for pick in itertools.product(n, n):
        yield [[[0, 1, 2], [0, 1, 2], [3, 0], []], list(pick)]
        yield [[[2, 2, 0], [1], [0], [3, 3]], list(pick)]
    if not q:
        for pick in itertools.product(n, n, n):
            yield [[[0, 1, 2], [0, 1, 2], [3, 0], []], list(pick)]
            yield [[[2, 2, 0], [1], [0], [3, 3]], list(pick)]


def run_steps(ctx, log, pick):
    g = named(log)
    seen = []
    parts, want, states = [UseNamesEventLog2()], {}, []
    parts += observe(ctx, seen, 0)
    states.append(g)
    last_names = g
    for k, i in enumerate(pick, 1):
        make, model = STEPS[i]
        parts.append(make())
        g = last_names if model is None else model(g)
        states.append(g)
        last_names = g
        parts += observe(ctx, seen, k)
    last, real, _ = run(parts, initial(named(log)), what=f'{named(log)} {pick}')
    success(last, f'{named(log)} {pick}')
    ctx.op(len(parts))
    check_eq([t for t, _ in seen], [(w, k) for k in range(len(states)) for w in ('log', 'info', 'dfg')], 'order of callbacks')
    for (w, k), values in seen:
        g = states[k]
        what = f'{w} after {k} of steps {pick} on {named(log)}'
        if w == 'log':
            check_eq(names_log(values[const_names_event_log]), g, what)
        elif w == 'info':
            v = values[const_event_log_info].event_log_info
            check_eq((v.events_count, v.traces_count, v.event_classes_count), m_info(g), what)
        else:
            check_eq(graph_of(values[const_graph]), m_dfg(g), what)
        ctx.ok(g)
    check_eq(real.dropped, [True], 'the result was dropped on the backend')
    ctx.state([log, pick])


# -------------------------------------------------------------------------------------------------------------- drawings
def gen_draw(tier):
    for log in gen.logs(3, 3, 4 if tier == 'quick' else 5, min_traces=0):
        yield [log, []]
    # outcomes of the first random colours: equal to colours in use, black
    for a, b, c in itertools.product(range(2), repeat=3):
        pool = [[0, 0, 0], [9, 8, 7]]
        yield [[[0, 1, 2], [2, 2], []], pool[a] + pool[b] + pool[c]]


def colors_of(value):
    return [[((r.color.red, r.color.green, r.color.blue), r.start_index, r.length, r.name) for r in t.event_colors] for t in value.colors_log.traces]


class Colors:
    def __init__(self):
        self.by_name, self.by_color = {}, {}

    def add(self, name, color, what):
        check(self.by_name.setdefault(name, color) == color, f'{what}: two colours of {name}')
        check(self.by_color.setdefault(color, name) == name, f'{what}: {name} and {self.by_color.get(color)} have the same colour', color)


UNDEF = 'UNDEFINED_ACTIVITY'


def run_draw(ctx, log, random):
    g = named(log)
    seen = []
    parts = [UseNamesEventLog2()]
    parts += [Spy(p, seen, n) for n, p in enumerate([
        TracesDiversityDiagram2(), DrawPlacementsOfEventByName2('Aa'), DrawPlacementOfEventsByRegex2('^A'), TracesDiversityDiagram2Canvas(),
        DrawPlacementsOfEventByName2Canvas('B'), DrawPlacementOfEventsByRegex2Canvas('B')])]
    last, real, _ = run(parts, initial(g), random, what=g)
    success(last, g)
    ctx.op(len(parts))
    select = [lambda n: True, lambda n: n == 'Aa', lambda n: n.startswith('A'), lambda n: True, lambda n: n == 'B', lambda n: 'B' in n]
    colors = Colors()
    colors.add(UNDEF, (0, 0, 0), 'initial')
    check_eq([k for k, _ in seen], list(range(6)), 'callbacks')
    for k, values in seen:
        got = colors_of(values[const_colors_event_log])
        want = [[(i, 1, n if select[k](n) else UNDEF) for i, n in enumerate(t)] for t in g]
        check_eq([[r[1:] for r in t] for t in got], want, f'diagram {k} of {g}')
        for t in got:
            for color, _, _, name in t:
                colors.add(name, color, f'diagram {k} of {g} with random numbers {random}')
        ctx.ok(want)
    ctx.state([log, random])


# -------------------------------------------------------------------------------------------------------------- protocol
class Raw(PipelinePart2):
    def __init__(self, name, *pairs):
        super().__init__()
        self.name, self.pairs = name, pairs

    def to_grpc_part(self):
        c = GrpcPipelinePartConfiguration()
        for add, k, v in self.pairs:
            add(c, k, v)
        return GrpcPipelinePartBase(defaultPart=_create_default_pipeline_part(self.name, c))


class Nested(PipelinePart2):
    def __init__(self, *parts):
        super().__init__()
        self.inner = Pipeline2(*parts)

    def to_grpc_part(self):
        c = GrpcPipelinePartConfiguration()
        append_pipeline_value(c, const_pipeline, self.inner)
        return GrpcPipelinePartBase(defaultPart=_create_default_pipeline_part(const_execute_frontend_part, c))

    def append_parts_with_callbacks(self, parts):
        self.inner.append_parts_with_callbacks(parts)


FAIL = [
    ('missing value', lambda: Probe('patterns', [])),
    ('unknown key', lambda: Probe('no such key', [])),
    ('bad regex', lambda: FilterEventsByRegex2('(')),
    ('bad class regex', lambda: ApplyClassExtractor2('(', '.')),
    ('bad class regex of patterns', lambda: FindMaximalRepeats2(PatternsDiscoveryStrategy.FromAllTraces, '(')),
    ('bad class regex of tandem arrays', lambda: FindMaximalTandemArrays2(20, '[')),
    ('bad regex of a diagram', lambda: Raw(const_draw_placement_of_event_by_regex, (append_string_value, const_regex, '('))),
    ('bad class regex of levels', lambda: DiscoverActivitiesForSeveralLevels2(['^a', '('], PatternsKind.MaximalRepeats)),
    ('no activities', lambda: Raw(const_draw_full_activities_diagram)),
    ('missing option of patterns', lambda: Raw(const_find_maximal_tandem_arrays)),
    ('missing path', lambda: Raw(const_read_log_from_xes)),
    ('missing log', lambda: Raw(const_discover_activities, (append_uint32_value, const_activity_level, 0))),
    ('missing option', lambda: Raw(const_filter_events_by_name)),
]


def gen_protocol(tier):
    n = 4 if tier == 'quick' else 5
    kinds = 'pts' if tier == 'quick' else 'ptsl'
    for k in range(n + 1):
        for word in itertools.product(kinds, repeat=k):
            for nest in range(2 ** max(0, k - 1) if k < 4 else 2):
                yield [''.join(word), nest, None, 0]
    for k in range(4):
        for word in itertools.product('pt', repeat=k):
            for pos in range(k + 1):
                for f in range(len(FAIL)):
                    for depth in range(3):
                        yield [''.join(word), 0, [pos, f], depth]


def run_protocol(ctx, word, nest, fail, depth):
    """p: a probe; t: a transformation; s: probe of several values; l: a long run of 12 probes (more messages than the channel holds)"""
    seen, parts, want = [], [], []
    g = [['x', 'y'], ['x']]
    for k, c in enumerate(word):
        if fail and fail[0] == k:
            parts.append(FAIL[fail[1]][1]())
        if c == 'p':
            parts.append(Spy(PrintEventLog2(), seen, k))
            want.append((k, g))
        elif c == 't':
            parts.append(AddStartArtificialEvents2())
            g = [['ARTIFICIAL_START'] + t for t in g]
        elif c == 's':
            parts.append(Spy(PrintEventLogInfo2(), seen, k))
            want.append((k, m_info(g)))
        else:
            for j in range(12):
                parts.append(Spy(PrintEventLog2(), seen, (k, j)))
                want.append(((k, j), g))
        if fail and fail[0] > k or not fail:
            done = len(want)
    if fail and fail[0] == len(word):
        parts.append(FAIL[fail[1]][1]())
    if fail:
        done = sum(1 for k, _ in want if k < fail[0])
        want = want[:done]
        for _ in range(depth):
            parts = [Nested(*parts)]
    else:
        # every bit of nest wraps a suffix of the parts
        for i in range(len(parts) - 1, 0, -1):
            if nest >> (i - 1) & 1:
                parts[i:] = [Nested(*parts[i:])]
    what = f'{word} {nest} {fail} {depth}'
    last, real, printed = run([UseNamesEventLog2()] + parts, initial([['x', 'y'], ['x']]), what=what)
    ctx.op(len(parts))
    if fail:
        check_eq(last.finalResult.WhichOneof('executionResult'), 'error', f'{what}: a failing part ({FAIL[fail[1]][0]})')
        check(last.finalResult.error != '', f'{what}: the error has a text')
        check_eq(real.dropped, [], f'{what}: nothing to drop')
    else:
        success(last, what)
        check_eq(real.dropped, [True], f'{what}: the result is dropped exactly once')
        check_eq(real.drop(real.drops[0]), False, f'{what}: a dropped result cannot be dropped again')
        check_eq(rbackend.get_value(real.drops[0], const_names_event_log).WhichOneof('contextValueResult'), 'error', f'{what}: values of a dropped result')
    got = [(k, names_log(v[const_names_event_log]) if const_names_event_log in v else
            (v[const_event_log_info].event_log_info.events_count, v[const_event_log_info].event_log_info.traces_count, v[const_event_log_info].event_log_info.event_classes_count)) for k, v in seen]
    check_eq(got, want, f'{what}: callbacks, in order, with the values at that point')
    ctx.ok(want)
    ctx.state([word, nest, fail, depth])


# ----------------------------------------------------------------------------------------------- results kept by the backend
def gen_results(tier):
    """histories of executions, reads and drops over two or three results"""
    ops = ['e', 'g0', 'g1', 'd0', 'd1', 'x']
    for n in range(1, 5 if tier == 'quick' else 6):
        for h in itertools.product(range(len(ops)), repeat=n):
            if ops[h[0]] == 'e':
                yield [[ops[i] for i in h]]


class _Keep(list):
    def append(self, guid):
        super().append(guid)


def run_results(ctx, history):
    guids, logs, dropped = [], [], set()
    for k, op in enumerate(history):
        if op in 'ex':
            g = [['n%d' % k, 'm']] * (k + 1)
            real = rbackend.RealBackend()
            from vlib import fakegrpc
            with fakegrpc.played_by(real), fakegrpc.printed():
                parts = [UseNamesEventLog2(), PrintEventLog2()] + ([Probe('no such key', [])] if op == 'x' else [])
                last = Pipeline2(*parts).execute(initial(g))
            ctx.op()
            if op == 'x':
                check_eq(last.finalResult.WhichOneof('executionResult'), 'error', history)
            else:
                success(last, history)
                check(last.finalResult.success.guid not in guids, 'results are identified by different ids')
                check_eq(real.drops, [last.finalResult.success.guid], 'the client drops what it got')
                guids.append(last.finalResult.success.guid)
                logs.append(g)
        else:
            i = int(op[1])
            if i >= len(guids):
                return
            if op[0] == 'd':
                r = backend()('drop', request=rbackend.encode(rbackend.GrpcGuid(guid=guids[i])))
                check_eq('ok' in r, i not in dropped, f'{history}: drop of result {i}')
                dropped.add(i)
            else:
                r = rbackend.get_value(guids[i], const_names_event_log)
                if i in dropped:
                    check_eq(r.WhichOneof('contextValueResult'), 'error', f'{history}: value of a dropped result')
                else:
                    check_eq(names_log(r.value), logs[i], f'{history}: value of result {i}')
                    check_eq(rbackend.get_value(guids[i], 'no such key').WhichOneof('contextValueResult'), 'error', 'unknown key')
                    check_eq(rbackend.get_value(guids[i], 'patterns').WhichOneof('contextValueResult'), 'error', 'absent value')
        ctx.ok(op)
    for i, g in enumerate(guids):
        if i not in dropped:
            check_eq(names_log(rbackend.get_value(g, const_names_event_log).value), logs[i], f'{history}: value of result {i} at the end')
            rbackend.backend()('drop', request=rbackend.encode(rbackend.GrpcGuid(guid=g)))
    ctx.state(history)


# ----------------------------------------------------------------------------------------------------- several clients
CLIENTS = [  # (log, steps, fails at the end)
    ([[0, 1], [0, 1], [2]], [4], False),
    ([[2, 2, 0], [1], [0, 3]], [0, 7, 5], False),
    ([[1, 1, 0], [3]], [10, 12, 7, 9, 4, 6], False),
    ([[0], [0], [1, 2]], [4, 8], True),
    ([[3, 3]], [], True),
]
KEYS = [const_names_event_log, 'patterns']
_requests = {}


class _Request(Exception):
    pass


class _Capture(fakegrpc.Backend):
    def __init__(self):
        super().__init__(None)

    def execute(self, request):
        raise _Request(rbackend.encode(request))


def client(k):
    """the request of a client and the replies it has to get"""
    if k not in _requests:
        log, steps, fails = CLIENTS[k]
        g = last_names = named(log, [f'{n}{k}' for n in NAMES])
        first = g
        parts, want = [UseNamesEventLog2(), PrintEventLog2()], [g]
        for i in steps:
            make, model = STEPS[i]
            g = last_names if model is None else model(g)
            last_names = g
            parts += [make(), PrintEventLog2()]
            want.append(g)
        if fails:
            parts.append(Probe('no such key', []))
        try:
            with fakegrpc.played_by(_Capture()), fakegrpc.printed():
                Pipeline2(*parts).execute(initial(first))
        except _Request as e:
            _requests[k] = e.args[0], want, 'Error' if fails else 'Success'
    return _requests[k]


def interleavings(programs):
    """all orders of the steps of the programs"""
    counts = [len(p) for p in programs]

    def go(at):
        if all(a == c for a, c in zip(at, counts)):
            yield []
        for i in range(len(at)):
            if at[i] < counts[i]:
                for rest in go(at[:i] + [at[i] + 1] + at[i + 1:]):
                    yield [[i, programs[i][at[i]]]] + rest
    yield from go([0] * len(programs))


def gen_clients(tier):
    q = tier == 'quick'
    whole = lambda n: ['start', n, 99, 'get', 'drop', 'get']  # noqa: E731
    for a, b in ((0, 1), (1, 2), (2, 3), (2, 2), (3, 4)) if q else itertools.combinations_with_replacement(range(len(CLIENTS)), 2):
        for n in (2,) if q else (1, 2, 5):
            for s in interleavings([whole(n), whole(4)]):
                yield [[a, b], s]
    for a, b in itertools.product(range(len(CLIENTS)), repeat=2):
        for n in range(0, 8):
            for s in interleavings([['start', n, 'close'], ['start', 3, 99, 'get', 'drop']]):
                yield [[a, b], s]
    for three in ((0, 1, 2), (2, 3, 1)):
        for s in interleavings([['start', 99, 'drop']] * 3 if q else [['start', 3, 99, 'drop']] * 3):
            yield [list(three), s]


def run_clients(ctx, clients, schedule):
    what = f'clients {clients}, schedule {schedule}'
    asks = [client(k) for k in clients]
    steps = [['next', i, s] if isinstance(s, int) else [s, i, const_names_event_log] for i, s in schedule]
    r = backend()('schedule', requests=[a[0] for a in asks], schedule=steps)
    got, done, dropped = [[] for _ in clients], [False] * len(clients), [False] * len(clients)
    for (i, s), reply in zip(schedule, r):
        request, want, final = asks[i]
        ctx.op()
        if s == 'start':
            check(reply['started'], f'{what}: the backend refused client {i}')
        elif isinstance(s, int):
            for m in reply:
                check('ok' in m, f'{what}: client {i} got no message: {m}')
                check(not done[i], f'{what}: client {i} got a message after its final result')
                (kind, inner), = m['ok']['result'].items()
                if kind == 'PipelinePartResult':
                    logs = [[t['events'] for t in v['value']['context_value']['NamesLog']['log']['traces']] for v in inner['context_values']]
                    check_eq(logs, want[len(got[i]):len(got[i]) + 1], f'{what}: callback {len(got[i])} of client {i}')
                    got[i].append(logs)
                elif kind == 'FinalResult':
                    (outcome, _), = inner['execution_result'].items()
                    check_eq((outcome, len(got[i])), (final, len(want)), f'{what}: final result and callbacks of client {i}')
                    done[i] = True
            check(s < 99 or done[i], f'{what}: the stream of client {i} ended without a final result', reply)
        elif s == 'get':
            if final == 'Success' and not dropped[i]:
                names = reply['ok']['context_value_result']['Value']['context_value']['NamesLog']['log']['traces']
                check_eq([t['events'] for t in names], want[-1], f'{what}: value of the result of client {i}')
            else:
                check('Error' in reply['ok']['context_value_result'], f'{what}: value of the absent result of client {i}', reply)
        elif s == 'drop':
            check_eq('ok' in reply, final == 'Success' and not dropped[i], f'{what}: drop of the result of client {i}')
            dropped[i] = True
        ctx.ok(s)
    ctx.state((clients, schedule))


# ------------------------------------------------------------------------------------------------------------ activities
PATTERNS = {
    PatternsKind.PrimitiveTandemArrays: ('primitive', lambda m, c: FindPrimitiveTandemArrays2(20, c)),
    PatternsKind.MaximalTandemArrays: ('tandem', lambda m, c: FindMaximalTandemArrays2(20, c)),
    PatternsKind.MaximalRepeats: ('maximal', lambda m, c: FindMaximalRepeats2(m, c)),
    PatternsKind.SuperMaximalRepeats: ('super', lambda m, c: FindSuperMaximalRepeats2(m, c)),
    PatternsKind.NearSuperMaximalRepeats: ('near', lambda m, c: FindNearSuperMaximalRepeats2(m, c)),
}
KINDS = list(PATTERNS)
MODES = [PatternsDiscoveryStrategy.FromAllTraces, PatternsDiscoveryStrategy.FromSingleMergedTrace]
NARROW = list(NarrowActivityKind)
KEEP = [(ActivityFilterKind.NoFilter, 0), (ActivityFilterKind.DefaultFilter, 0), (ActivityFilterKind.DefaultFilter, 2)]
UNDEFS = list(UndefinedActivityHandlingStrategy)


def classes_of(log, regex):
    return [[m_extract([[n]], regex, '')[0][0] if regex else n for n in t] for t in log]


def hierarchy(log, kind, merged, regex=None, name_regex=None, level=0):
    """the top-level activities found directly by the functions that C25 checks"""
    kw = dict(regex=regex) if regex else {}
    roots = backend()('tree', log=log, kind=PATTERNS[kind][0], limit=20, merged=bool(merged), level=level, name_regex=name_regex, **kw)
    made = {}

    def act(n):
        a = made.get(tuple(n['classes']))
        if a is None:
            a = made[tuple(n['classes'])] = ref.Act(n['name'], n['classes'])
            a.level = n['level']
            a.children = [act(c) for c in n['children']]
        return a
    return [act(n) for n in roots]


def instances(words, roots, narrow, keep):
    """per trace: (start, length, admissible names) of what has to be found"""
    kind, least = keep
    out = []
    for w in words:
        found = []
        for start, ln, acts in ref.segment(w, roots, narrow in (NarrowActivityKind.NarrowUp, NarrowActivityKind.NarrowDown)):
            size = len(acts[0].classes)
            if kind == ActivityFilterKind.NoFilter or size >= least and ln > size // 2:
                found.append((start, ln, acts))
        out.append(found)
    return out


def full_diagram(log, found, values, what):
    """compares the diagram with the instances; returns the instances with the activities that were chosen"""
    got = colors_of(values[const_colors_event_log])
    check_eq(len(got), len(log), f'{what}: traces of the diagram')
    chosen = []
    for w, acts, rects in zip(log, found, got):
        want, k, picked = [], 0, []
        for s, ln in sorted([(s, ln) for s, ln, _ in acts] + [(a, b - a) for a, b in ref.gaps(len(w), [(s, ln) for s, ln, _ in acts])]):
            want.append((s, ln))
        check_eq([(r[1], r[2]) for r in rects], want, f'{what}: rectangles of {w}')
        byplace = {(s, ln): a for s, ln, a in acts}
        for color, s, ln, name in rects:
            a = byplace.get((s, ln))
            if a is None:
                check_eq((name, color), (UNDEF, (0, 0, 0)), f'{what}: uncovered events of {w}')
            else:
                check(name in {x.name for x in a}, f'{what}: activity at {s} of {w}', name, sorted(x.name for x in a))
                picked.append((s, ln, next(x for x in a if x.name == name)))
        chosen.append(picked)
    return chosen


def short_diagram(log, chosen, values, what):
    want = []
    for w, acts in zip(log, chosen):
        row = sorted([(s, a.name) for s, _, a in acts] + [(a, UNDEF) for a, _ in ref.gaps(len(w), [(s, ln) for s, ln, _ in acts])])
        want.append([(i, 1, n) for i, (_, n) in enumerate(row)])
    check_eq([[r[1:] for r in t] for t in colors_of(values[const_colors_event_log])], want, f'{what}: short diagram')


def abstract(log, chosen, undef):
    """log whose events are (name, events below)"""
    out = []
    for w, acts in zip(log, chosen):
        rows = [(s, [(a.name, w[s:s + ln])]) for s, ln, a in acts]
        for a, b in ref.gaps(len(w), [(s, ln) for s, ln, _ in acts]):
            if undef == UndefinedActivityHandlingStrategy.InsertAsSingleEvent:
                rows.append((a, [(UNDEF, None)]))
            elif undef == UndefinedActivityHandlingStrategy.InsertAllEvents:
                rows.append((a, list(w[a:b])))
        out.append([e for _, es in sorted(rows, key=lambda r: r[0]) for e in es])
    return out


def nm(log):
    return [[e[0] for e in t] for t in log]


def expand(events):
    out = []
    for n, below in events:
        out += expand(below) if below is not None else [n]
    return out


def leaves(log):
    return [[(n, None) for n in t] for t in log]


def check_logs(rows, want, what):
    check_eq(sorted(map(repr, rows)), sorted(map(repr, want)), what)


def gen_activities(tier):
    q = tier == 'quick'
    logs = [g for g in gen.logs(3, 2, 6 if q else 7, min_traces=1)]
    for i, g in enumerate(logs):
        for kind in range(len(KINDS)):
            yield [g, kind, i % 2, 3, 0, (i + kind) % 3, None]
    # every combination of options
    for g in ([[0, 1, 0, 1, 2, 0, 2, 0]], [[0, 1, 2, 0, 1, 2], [0, 1, 3, 0, 1]], [[0, 1, 2, 3, 0, 1, 2], [0, 1, 3, 0, 1], [2, 2]], [[0, 0, 0], [0], []], [[3], [1, 2]]):
        for kind, mode, narrow, keep, undef in itertools.product(range(5), range(2), range(4), range(3), range(3)):
            yield [g, kind, mode, narrow, keep, undef, None]
        for regex in ('^A', '^.', 'B', '^(Aa|B)'):
            for kind, mode, narrow in itertools.product(range(5), range(2), (0, 3)):
                yield [g, kind, mode, narrow, 0, 2, regex]
    for w in gen.rgs(7 if q else 8, 3, 7 if q else 8):
        for kind in (2, 4):
            yield [[list(w)], kind, 0, 3, 0, 2, None]


def run_activities(ctx, log, kind, mode, narrow, keep, undef, regex):
    g = named(log)
    kind, narrow, keep, undef = KINDS[kind], NARROW[narrow], KEEP[keep], UNDEFS[undef]
    what = f'{g} {kind.name} {MODES[mode].name} {narrow.name} {keep} {undef.name} {regex}'
    level = len(g)
    seen = []
    each = lambda tag: Pipeline2(Spy(PrintEventLog2(), seen, tag))
    parts = [UseNamesEventLog2(), PATTERNS[kind][1](MODES[mode], regex), DiscoverActivities2(level),
             DiscoverActivitiesInstances2(narrow, keep[1], keep[0]),
             Spy(DrawFullActivitiesDiagram2(), seen, 'full'), Spy(DrawShortActivitiesDiagram2(), seen, 'short'),
             Spy(DrawFullActivitiesDiagram2Canvas(), seen, 'full'), Spy(DrawShortActivitiesDiagram2Canvas(), seen, 'short'),
             ExecuteWithEachActivityLog2(ActivitiesLogsSource.TracesActivities, level, each('each')),
             ExecuteWithEachActivityLog2(ActivitiesLogsSource.TracesActivities, level + 1, each('other level')),
             Spy(PrintEventLog2(), seen, 'same'),
             CreateLogFromActivitiesInstances2(undef), Spy(PrintEventLog2(), seen, 'log'), Spy(PrintEventLogInfo2(), seen, 'info'),
             Spy(PrintNumberOfUnderlyingEvents2(), seen, 'under'),
             ExecuteWithEachActivityLog2(ActivitiesLogsSource.Log, 0, each('below')),
             SubstituteUnderlyingEvents2(), Spy(PrintEventLog2(), seen, 'back'), Spy(PrintNumberOfUnderlyingEvents2(), seen, 'under2')]
    last, real, printed = run(parts, initial(g), what=what)
    success(last, what)
    ctx.op(len(parts))
    roots = hierarchy(g, kind, mode, regex, None, level)
    found = instances(classes_of(g, regex), roots, narrow, keep)
    tags = [t for t, _ in seen]
    chosen = full_diagram(g, found, seen[0][1], what)
    made = abstract(leaves(g), chosen, undef)
    kept = [expand(t) for t in made]
    each_log, below = {}, {}
    for w, acts, t in zip(g, chosen, made):
        for s, ln, a in acts:
            each_log.setdefault(a.name, []).append(w[s:s + ln])
        for n, e in t:
            if e is not None:
                below.setdefault(n, []).append(expand(e))
    check_eq(tags, ['full', 'short'] * 2 + ['each'] * len(each_log) + ['same', 'log', 'info', 'under'] + ['below'] * len(below) + ['back', 'under2'], f'{what}: callbacks')
    rows = {}
    for t, v in seen:
        if t == 'full':
            full_diagram(g, [[(s, ln, [a]) for s, ln, a in acts] for acts in chosen], v, what)
        elif t == 'short':
            short_diagram(g, chosen, v, what)
        elif t == 'info':
            i = v[const_event_log_info].event_log_info
            check_eq((i.events_count, i.traces_count, i.event_classes_count), m_info(nm(made)), f'{what}: counts')
        elif t in ('under', 'under2'):
            u = v[const_underlying_events_count]
            check_eq((u.WhichOneof('contextValue'), u.uint32), ('uint32', sum(map(len, kept))), f'{what}: number of underlying events')
        else:
            rows.setdefault(t, []).append(names_log(v[const_names_event_log]))
    check_logs(rows.get('each', []), list(each_log.values()), f'{what}: logs of activities')
    check_logs(rows.get('below', []), list(below.values()), f'{what}: logs of activities, from the new log')
    check_eq(rows['same'], [g], f'{what}: the log itself')
    check_eq(rows['log'], [nm(made)], f'{what}: log of activities')
    check_eq(rows['back'], [kept], f'{what}: events substituted back')
    ctx.ok(nm(made))
    ctx.state([log, kind.name, mode, narrow.name, keep[1], undef.name, regex])


# ------------------------------------------------------------------------------------------------------- several levels
LNAMES = ['Aa', 'Ab', 'Ba', 'Bb']
CLASSES = ['^.', '^A', 'x', '^[AB]a', '^..']


def unattached(log, chosen):
    return [[e for a, b in ref.gaps(len(w), [(s, ln) for s, ln, _ in acts]) for e in w[a:b]] for w, acts in zip(log, chosen)]


def gen_levels(tier):
    q = tier == 'quick'
    logs = [g for g in gen.logs(4, 2, 6 if q else 7, min_traces=1) if sum(map(len, g)) >= 4 and len(g) < 3]
    regexes = [[a] for a in range(5)] + [list(x) for x in itertools.permutations(range(5), 2)]
    for i, g in enumerate(logs):
        for j in range(2 if q else 5):
            yield [g, regexes[(i * 7 + j * 11) % len(regexes)], (i + j) % 5, (i // 5) % 2, 3 * (i % 2), i % 3, j % 2, 0]
    for g in ([[0, 1, 0, 1, 2, 3, 2, 3]], [[0, 2, 1, 3, 0, 2, 1, 3], [0, 1, 1]], [[0, 0, 1, 2, 2, 3], [3, 3]], [[], [0, 1, 2]], [[3]]):
        for classes in regexes + [[]]:
            for kind, mode, adjust, least in itertools.product(range(5), range(2), range(2), (0, 3)):
                yield [g, classes, kind, mode, 3, 0, adjust, least]


def run_levels(ctx, log, classes, kind, mode, narrow, keep, adjust, least):
    g = named(log, LNAMES)
    kind, narrow, keep = KINDS[kind], NARROW[narrow], KEEP[keep]
    adjust = list(AdjustingMode)[adjust]
    regexes = [CLASSES[c] for c in classes]
    what = f'{g} {regexes} {kind.name} {MODES[mode].name} {narrow.name} {keep} {adjust.name} {least}'
    seen = []
    parts = [UseNamesEventLog2(), DiscoverActivitiesForSeveralLevels2(regexes, kind, narrow, 5, MODES[mode], 20, adjust, least, keep[1], keep[0])]
    if regexes:
        parts += [Spy(DrawFullActivitiesDiagram2(), seen, 'full')]
        parts += [ExecuteWithEachActivityLog2(ActivitiesLogsSource.TracesActivities, 5 + k, Pipeline2(Spy(PrintEventLog2(), seen, k))) for k in range(len(regexes))]
    parts += [Spy(PrintEventLog2(), seen, 'same')]
    last, real, _ = run(parts, initial(g), what=what)
    success(last, what)
    ctx.op(len(parts))
    if regexes:
        got = colors_of(seen[0][1][const_colors_event_log])
    roots, chosen = [], [[] for _ in g]
    for k, regex in enumerate(reversed(regexes)):
        source = unattached(g, chosen) if adjust == AdjustingMode.FromUnattachedSubTraces else g
        roots = roots + hierarchy(source, kind, mode, regex, regex, 5 + k)
        words = classes_of(g, regex)
        new = []
        for w, acts, rects in zip(words, chosen, got):
            row = list(acts)
            for a, b in ref.gaps(len(w), [(s, ln) for s, ln, _ in acts]):
                if b - a < least:
                    continue
                for s, ln, options in instances([w[a:b]], roots, narrow, keep)[0]:
                    name = {(r[1], r[2]): r[3] for r in rects}.get((a + s, ln))
                    # activities of several levels can have the same name and classes
                    pick = [o for o in options if o.name == name]
                    check(pick, f'{what}: level {k}, activity at {a + s} of length {ln}', name, sorted(o.name for o in options))
                    row.append((a + s, ln, pick[0]))
            new.append(sorted(row, key=lambda r: r[:2]))
        chosen = new
        ctx.ok([[r[:2] for r in t] for t in chosen])
    if regexes:
        full_diagram(g, [[(s, ln, [a]) for s, ln, a in acts] for acts in chosen], seen[0][1], what)
    rows = {}
    for t, v in seen[1 if regexes else 0:]:
        rows.setdefault(t, []).append(names_log(v[const_names_event_log]))
    names = [(a.name, a.classes, a.level) for r in roots for a in [r] + r.children]
    for k in range(len(regexes)):
        want = {}
        for w, acts in zip(g, chosen):
            for s, ln, a in acts:
                if a.level == 5 + k:
                    want.setdefault(a.name, []).append(w[s:s + ln])
        check_logs(rows.get(k, []), list(want.values()), f'{what}: logs of activities of level {k}')
    check_eq(rows['same'], [g], f'{what}: the log itself')
    ctx.state(['l', log, classes, kind.name, mode, narrow.name, keep[1], adjust.name, least])


# ---------------------------------------------------------------------------------------------------------- until no more
def gen_until(tier):
    q = tier == 'quick'
    logs = [g for g in gen.logs(3, 2, 6 if q else 7, min_traces=1) if sum(map(len, g)) >= 3]
    for i, g in enumerate(logs):
        for j in range(3 if q else 8):
            yield [g, (i + j) % 5, (i // 2) % 2, 3 * (j % 2), (i // 3) % 3, (i + j // 2) % 3, (i // 7) % 2, None]
    for g in ([[0, 1, 0, 1, 2, 0, 2, 0]], [[0, 1, 2, 0, 1, 2], [0, 1, 3, 0, 1]], [[0, 1, 2, 3, 0, 1, 2], [0, 1, 3, 0, 1], [2, 2]], [[0, 0, 0], [0], []], [[3], [1, 2]]):
        for kind, mode, narrow, keep, undef, last in itertools.product(range(5), range(2), (0, 3), range(3), range(3), range(2)):
            yield [g, kind, mode, narrow, keep, undef, last, [None, '^A', '^.'][(kind + keep + undef) % 3]]


def run_until(ctx, log, kind, mode, narrow, keep, undef, only_last, regex):
    g = named(log)
    kind, narrow, keep, undef = KINDS[kind], NARROW[narrow], KEEP[keep], UNDEFS[undef]
    what = f'{g} {kind.name} {MODES[mode].name} {narrow.name} {keep} {undef.name} {bool(only_last)} {regex}'
    seen = []
    inner = Pipeline2(Spy(DrawFullActivitiesDiagram2(), seen, 'full'), Spy(PrintEventLog2(), seen, 'log'))
    until = lambda pipeline, last: DiscoverActivitiesUntilNoMore2(regex, kind, narrow, 2, MODES[mode], undef, 20, AdjustingMode.FromAllLog, 0, keep[1], keep[0], pipeline, last)
    parts = [UseNamesEventLog2(), until(inner, False), Spy(PrintEventLog2(), seen, 'end'), SubstituteUnderlyingEvents2(), Spy(PrintEventLog2(), seen, 'back')]
    last, real, _ = run(parts, initial(g), what=what)
    success(last, what)
    ctx.op(len(parts))
    cur, k, states, settled = leaves(g), 0, [], []
    while True:
        roots = hierarchy(nm(cur), kind, mode, regex, regex, 2)
        found = instances(classes_of(nm(cur), regex), roots, narrow, keep)
        if not any(found):
            break
        check(2 * k + 1 < len(seen) and seen[2 * k][0] == 'full', f'{what}: iteration {k} was not executed')
        chosen = full_diagram(nm(cur), found, seen[2 * k][1], what)
        check_eq(names_log(seen[2 * k + 1][1][const_names_event_log]), nm(cur), f'{what}: log of iteration {k}')
        settled.append(all(ln == 1 for t in chosen for _, ln, _ in t))
        states.append((cur, chosen))
        new = abstract(cur, chosen, undef)
        size = sum(map(len, cur))
        cur = new
        k += 1
        ctx.ok(nm(cur))
        if sum(map(len, cur)) == size:
            break
    check_eq([t for t, _ in seen], ['full', 'log'] * k + ['end', 'back'], f'{what}: iterations')
    check_eq(names_log(seen[-2][1][const_names_event_log]), nm(cur), f'{what}: final log')
    check_eq(names_log(seen[-1][1][const_names_event_log]), [expand(t) for t in cur], f'{what}: events substituted back')
    # the same, the pipeline only after the last extraction
    if only_last:
        seen = []
        inner = Pipeline2(Spy(DrawFullActivitiesDiagram2(), seen, 'full'), Spy(PrintEventLog2(), seen, 'log'))
        parts = [UseNamesEventLog2(), until(inner, True), Spy(PrintEventLog2(), seen, 'end'), Raw(const_discover_activities_instances)]
        last, real, _ = run(parts, initial(g), what=what)
        check_eq(last.finalResult.WhichOneof('executionResult'), 'error', f'{what}: activities are cleared at the end')
        if len(states) == len({repr(nm(s)) for s, _ in states}):
            at = next((i for i, s in enumerate(settled) if s), None)
            check_eq([t for t, _ in seen], (['full', 'log'] if at is not None else []) + ['end'], f'{what}: executed once, after the last extraction')
            if at is not None:
                check_eq(names_log(seen[1][1][const_names_event_log]), nm(states[at][0]), f'{what}: log at the last extraction')
                full_diagram(nm(states[at][0]), [[(s, ln, [a]) for s, ln, a in acts] for acts in states[at][1]], seen[0][1], what)
    ctx.state(['u', log, kind.name, mode, narrow.name, keep[1], undef.name, only_last, regex])


def families(tier):
    q = tier == 'quick'
    return [
        Family('steps', lambda: gen_steps(tier), run_steps, f'all logs of <= 3 traces and {4 if q else 5} events over 4 names x {len(STEPS)} parts; all sequences of {2 if q else 3} parts on two logs; log, counts and DFG after every step'),
        Family('drawings', lambda: gen_draw(tier), run_draw, 'six diagrams in one pipeline of all logs of <= 3 traces and 4 (5) events; all outcomes of the first random colours among black and one other'),
        Family('protocol', lambda: gen_protocol(tier), run_protocol, 'all sequences of <= 4 (5) parts of 3 (4) kinds x nestings; a failing part of 13 kinds at every place at depth 0..2'),
        Family('activities', lambda: gen_activities(tier), run_activities, 'all logs of <= 2 traces and 6 (7) events over 3 names x 5 kinds; every combination of options on five logs; traces of 7 (8) events'),
        Family('several levels', lambda: gen_levels(tier), run_levels, 'logs of <= 2 traces and 6 (7) events over 4 names x sequences of class regexes; every combination of options on five logs'),
        Family('until no more', lambda: gen_until(tier), run_until, 'logs of <= 2 traces and 6 (7) events x options; every combination of options on five logs'),
        Family('clients', lambda: gen_clients(tier), run_clients, 'all interleavings of the steps (start, receive some messages, receive the rest, read, drop, read) of two clients; of three clients; of a client which leaves after 0..7 messages and another one'),
        Family('results', lambda: gen_results(tier), run_results, 'all histories of <= 4 (5) executions, failing executions, reads and drops of two results'),
    ]
