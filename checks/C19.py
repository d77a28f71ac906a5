"""C19: remote execution. The client runs against a backend played by the harness: all streams of messages up to a length, all nestings
of parts awaiting values with all orders of replies, all initial contexts and all histories of executions; a family over a real
loopback gRPC server validates the played backend."""
import itertools
import re
from concurrent import futures

import grpc

from vlib.core import Family, check, check_eq
from vlib.fakegrpc import (Backend, TransportError, DEFAULT_ADDRESS, callback_parts, m_empty, m_error, m_log, m_result, m_success,
                           played_by, printed, v_str, v_uint)

from ficus.grpc_pipelines.activities_parts import (ClusterizeLogTracesDbscan, DiscoverActivitiesUntilNoMore2,
                                                   ExecuteWithEachActivityLog2)
from ficus.grpc_pipelines.context_values import (BoolContextValue, EnumContextValue, FloatContextValue, NamesLogContextValue,
                                                 StringContextValue, StringsContextValue, Uint32ContextValue)
from ficus.grpc_pipelines.data_models import ActivitiesLogsSource
from ficus.grpc_pipelines.filtering_parts import FilterLogByVariants2
from ficus.grpc_pipelines.grpc_pipelines import (Pipeline2, PipelineContextValue, PipelinePart2WithCallback)
from ficus.grpc_pipelines.models.pipelines_and_context_pb2 import (GrpcContextKey, GrpcContextValue, GrpcEventLogInfo,
                                                                   GrpcPipelinePartBase, GrpcSimpleContextRequestPipelinePart)
from ficus.grpc_pipelines.models.util_pb2 import GrpcUuid
from ficus.grpc_pipelines.util_parts import PrintEventlogInfoBeforeAfter, UseNamesEventLog2

PROPERTY = 'C19'
ASSUMPTIONS = ['the gRPC library delivers the messages of a stream in the order they were sent (validated on a loopback server)',
               'the key names of one result are distinct']
MARK = '\u27e6'
UNKNOWN = '00000000-0000-4000-8000-000000000000'


class Raised(Exception):
    pass


class Probe(PipelinePart2WithCallback):
    """a part awaiting a value; prints a line when called back, so that the order relative to log messages is seen too"""

    def __init__(self, name, sink):
        super().__init__()
        self.name, self.sink, self.fail = name, sink, False

    def to_grpc_part(self):
        return GrpcPipelinePartBase(simpleContextRequestPart=GrpcSimpleContextRequestPipelinePart(
            key=GrpcContextKey(name='key_' + self.name), frontendPartUuid=GrpcUuid(uuid=str(self.uuid))))

    def execute_callback(self, values):
        self.sink.append((self.name, {k: v.SerializeToString(deterministic=True) for k, v in values.items()}))
        print(f'{MARK}callback {self.name} {sorted(values)}')
        if self.fail:
            raise Raised(self.name)


def ser(values):
    return {k: v.SerializeToString(deterministic=True) for k, v in values}


def marks(out):
    return [line for line in out.getvalue().split('\n') if line.startswith(MARK)]


def uuids_by_name(request):
    return {keys[0][len('key_'):]: u for u, keys in callback_parts(request.pipeline) if keys[0].startswith('key_')}


# ------------------------------------------------------------------------------------------------ streams
# symbol -> what is sent; 1 and 2: log messages, A, a, B: values, E: result without values, U: unknown part, M: message without content
VALUES = {'A': ('A', [('key_A', v_str('va'))]), 'a': ('A', [('key_A', v_str(''))]),
          'B': ('B', [('key_B', v_uint(5)), ('other', v_str('x'))]), 'E': ('A', [])}
LOGS = {'1': MARK + 'log one', '2': MARK + 'log  two \u00e9 '}
NONFINAL = '12AaBEUM'


def message(sym, uuids):
    if sym in LOGS:
        return m_log(LOGS[sym])
    if sym in VALUES:
        name, values = VALUES[sym]
        return m_result(uuids[name], values)
    return {'U': lambda: m_result(UNKNOWN, [('key_A', v_str('unknown'))]), 'M': m_empty, 'F': lambda: m_success('guid-1'),
            'X': lambda: m_error('failed: no such part'), 'T': lambda: TransportError('lost')}[sym]()


def expectation(seq):
    """(callbacks, marked lines, terminator or None)"""
    calls, lines = [], []
    for s in seq:
        if s in LOGS:
            lines.append(LOGS[s])
        elif s in VALUES:
            name, values = VALUES[s]
            calls.append((name, ser(values)))
            lines.append(f'{MARK}callback {name} {sorted(k for k, _ in values)}')
        elif s in 'FXT':
            return calls, lines, s
    return calls, lines, None


def run_once(ctx, pipeline, sink, seq, initial, guard=None):
    """executes, returns (backend, result or exception, printed)"""
    backend = Backend(lambda request: [message(s, uuids_by_name(request)) for s in seq])
    failure = result = None
    with played_by(backend), printed() as out:
        try:
            result = pipeline.execute(initial)
        except grpc.RpcError as e:
            failure = e
        except Raised as e:
            failure = e
    ctx.op()
    return backend, result, failure, out


def check_run(ctx, seq, backend, result, failure, out, sink, address=DEFAULT_ADDRESS):
    calls, lines, end = expectation(seq)
    check_eq(sink, calls, f'values delivered to the parts for the stream {seq!r}')
    check_eq(marks(out), lines, f'order of log messages and callbacks for the stream {seq!r}')
    check_eq(backend.addresses, [address], 'address of the backend')
    check_eq(len(backend.requests), 1, 'number of executions requested')
    check_eq(backend.open_channels, 0, 'channels left open')
    if end == 'T':
        check(isinstance(failure, TransportError), f'the transport failed, but execute returned {result!r}')
    else:
        check(failure is None, f'execute raised {failure!r}')
    if end == 'F':
        check(result is not None and result.finalResult.HasField('success') and result.finalResult.success.guid == 'guid-1',
              f'the final result of the backend is not what is returned: {result!r}')
    if end == 'X':
        check(result is not None and result.finalResult.HasField('error') and result.finalResult.error == 'failed: no such part',
              f'the failure reported by the backend is not what is returned: {result!r}')
    if end is None:
        check(result is None or not result.HasField('finalResult'), f'a final result the backend has not sent: {result!r}')
    check_eq(backend.drops, ['guid-1'] if end == 'F' else [], 'executions the backend was asked to drop')
    ctx.ok((len(calls), len(lines), end))


def fam_streams(quick):
    bound = 4 if quick else 5

    def gen():
        for n in range(bound + 1):
            for s in itertools.product(NONFINAL, repeat=n):
                yield (''.join(s),)
        for n in (17, 130, 600):
            for s in ('A', '1', 'AB', '1A', 'AaBE12UM'):
                yield ((s * n)[:n],)

    def run(ctx, prefix):
        for tail in ('', 'F', 'X', 'T', 'FA1', 'XB2', 'F1X', 'XAF'):
            seq = prefix + tail
            ctx.state(seq)
            sink = []
            pipeline = Pipeline2(Probe('A', sink), FilterLogByVariants2(), Probe('B', sink))
            check_run(ctx, seq, *run_once(ctx, pipeline, sink, seq, {}), sink)

    return Family('streams', gen, run, f'all sequences of <={bound} messages (2 log texts, 4 results for 2 parts, a result for an unknown part, an empty '
                                       'message), then end of stream, success, failure, transport error, or a final message with messages after it')


# ------------------------------------------------------------------------------------------------ nesting
CONTAINERS = 'CEDPd'  # clusterization (awaits a value itself), each activity log, until no more, print before/after, until no more without pipeline


def forests(n, depth):
    """all ordered forests with n nodes; node = 'p' (probe), 'x' (part without callback) or (container, forest)"""
    if n == 0:
        yield ()
        return
    for first in trees(n, depth):
        yield (first,)
    for k in range(1, n):
        for first in trees(k, depth):
            for rest in forests(n - k, depth):
                yield (first,) + rest


def trees(n, depth):
    if n == 1:
        yield 'p'
        yield 'x'
        yield 'd'
    if depth > 0:
        for c in 'CEDP':
            for inner in forests(n - 1, depth - 1):
                yield (c, inner)


def build(shape, sink, counter, parts):
    out = []
    for node in shape:
        if node == 'p':
            p = Probe(f'p{next(counter)}', sink)
            parts.append(p)
            out.append(p)
        elif node == 'x':
            out.append(UseNamesEventLog2())
        elif node == 'd':
            out.append(DiscoverActivitiesUntilNoMore2())
        else:
            c, inner = node
            inner = Pipeline2(*build(inner, sink, counter, parts))
            if c == 'C':
                out.append(ClusterizeLogTracesDbscan(inner, show_visualization=False))
            elif c == 'E':
                out.append(ExecuteWithEachActivityLog2(ActivitiesLogsSource.Log, 0, inner))
            elif c == 'D':
                out.append(DiscoverActivitiesUntilNoMore2(after_activities_extraction_pipeline=inner))
            else:
                out.append(PrintEventlogInfoBeforeAfter(inner))
    return out


def count_probes(shape):
    return sum(1 if n == 'p' else 0 if isinstance(n, str) else count_probes(n[1]) for n in shape)


def count_prints(shape):
    return sum(0 if isinstance(n, str) else (2 if n[0] == 'P' else 0) + count_prints(n[1]) for n in shape)


def fam_nesting(quick):
    bound = 4 if quick else 5

    def gen():
        for n in range(1, bound + 1):
            for shape in forests(n, 3):
                if count_probes(shape) + count_prints(shape):
                    yield (shape,)

    def run(ctx, shape):
        shape = _tup(shape)
        ctx.state(shape)
        probes, prints = count_probes(shape), count_prints(shape)
        orders = list(itertools.permutations(range(probes))) if probes <= 3 else [tuple(range(probes)), tuple(reversed(range(probes)))]
        for order in orders or [()]:
            sink = []
            parts = []
            pipeline = Pipeline2(*build(shape, sink, itertools.count(), parts))
            want = []

            def script(request):
                by_name = uuids_by_name(request)
                check_eq(sorted(by_name), sorted(f'p{i}' for i in range(probes)), 'parts of the request which await a value')
                infos = [u for u, keys in callback_parts(request.pipeline) if keys == ['event_log_info']]
                check_eq(len(infos), prints, 'requests for the event log info')
                out = []
                for rnd in range(2):  # parts inside of a loop get several results
                    for i in order:
                        v = [(f'key_p{i}', v_uint(100 * rnd + i))]
                        want.append((f'p{i}', ser(v)))
                        out.append(m_result(by_name[f'p{i}'], v))
                    for j, u in enumerate(infos):
                        out.append(m_result(u, [('event_log_info', GrpcContextValue(event_log_info=GrpcEventLogInfo(
                            events_count=3987650001 + 10 * j + rnd, traces_count=3, event_classes_count=2)))]))
                return out + [m_success('g')]

            backend = Backend(script)
            with played_by(backend), printed() as out:
                pipeline.execute({})
            ctx.op()
            check_eq(sink, want, 'values delivered to the parts, nested ones included')
            numbers = [n for line in out.getvalue().split('\n') for n in range(3987650001, 3987650001 + 10 * prints + 2) if re.search(rf'(?<![\d.]){n}(?!\d)', line)]
            check_eq(numbers, [3987650001 + 10 * j + rnd for rnd in range(2) for j in range(prints)], 'event log infos printed')
            check_eq(backend.drops, ['g'], 'executions dropped')
            ctx.ok((probes, prints))

    return Family('nesting', gen, run, f'all nestings of <={bound} parts (parts awaiting a value, other parts, the four kinds of parts holding '
                                       'pipelines) to depth 3, replies in all orders, two per part')


def _tup(x):
    return tuple(_tup(e) for e in x) if isinstance(x, (list, tuple)) else x


# ------------------------------------------------------------------------------------------------ initial context
POOL = [('path', lambda: StringContextValue('/logs/a.xes')), ('event_name', lambda: StringContextValue('')),
        ('activity_level', lambda: Uint32ContextValue(0)), ('tolerance', lambda: FloatContextValue(0.5)),
        ('execute_only_on_last_extraction', lambda: BoolContextValue(False)),
        ('names_event_log', lambda: NamesLogContextValue([['A', 'B'], [], ['A']])),
        ('event_classes_regexes', lambda: StringsContextValue(['a', ''])),
        ('distance', lambda: EnumContextValue('FicusDistance', 'L1')),
        ('pipeline', lambda: PipelineContextValue(Pipeline2(UseNamesEventLog2())))]


def fam_context(quick):
    def gen():
        n = len(POOL)
        for k in range(n + 1):
            if quick and 4 < k < n - 1:
                continue
            for sub in itertools.combinations(range(n), k):
                for addr in (None, 'first', 'last'):
                    yield (list(sub), addr)

    def run(ctx, sub, addr):
        ctx.state((sub, addr))
        for seq in ('AF', 'X', 'T'):
            initial = {}
            if addr == 'first':
                initial['backend'] = '10.0.0.1:4242'
            for i in sub:
                initial[POOL[i][0]] = POOL[i][1]()
            if addr == 'last':
                initial['backend'] = '10.0.0.1:4242'
            before = list(initial.items())
            pictures = [repr(v) for _, v in before if not isinstance(v, PipelineContextValue)]
            want = {POOL[i][0]: POOL[i][1]().to_grpc_context_value().SerializeToString(deterministic=True) for i in sub}
            sink = []
            pipeline = Pipeline2(Probe('A', sink))
            for _ in range(2):
                sink.clear()
                backend, result, failure, out = run_once(ctx, pipeline, sink, seq, initial)
                check_run(ctx, seq, backend, result, failure, out, sink, '10.0.0.1:4242' if addr else DEFAULT_ADDRESS)
                sent = [(kv.key.name, kv.value.SerializeToString(deterministic=True)) for kv in backend.requests[0].initialContext]
                check_eq(len(sent), len(want), 'number of initial values sent')
                check_eq(dict(sent), want, 'initial values sent')
                check(list(initial) == [k for k, _ in before] and all(initial[k] is v for k, v in before),
                      f'the initial context of the caller was modified: {before} -> {initial}')
                check_eq([repr(v) for v in initial.values() if not isinstance(v, PipelineContextValue)], pictures, 'initial values of the caller')

    return Family('initial_context', gen, run, 'all subsets of 9 initial values of different types' + (' (of <=4 or >=8)' if quick else '') +
                  ', with and without the address of the backend, executed twice')


# ------------------------------------------------------------------------------------------------ histories
def fam_histories(quick):
    bound = 3 if quick else 4
    streams = ['1AaF', 'BX', 'AT', 'A1', 'UF', '!AF']

    def gen():
        ops = list(itertools.product(range(3), range(len(streams))))
        for n in range(2, bound + 1):
            for seq in itertools.product(range(len(ops)), repeat=n):
                if n == 4 and len(set(seq)) < 3:
                    continue
                yield ([ops[i] for i in seq],)

    def run(ctx, history):
        ctx.state(history)
        sink = []
        a, b = Probe('A', sink), Probe('B', sink)
        pipelines = [Pipeline2(a, b), Pipeline2(ExecuteWithEachActivityLog2(ActivitiesLogsSource.Log, 0, Pipeline2(b, a))),
                     Pipeline2(PrintEventlogInfoBeforeAfter(Pipeline2(a)), b)]
        shared = {'path': StringContextValue('p')}
        sent = {}
        for which, s in history:
            seq = streams[s]
            fails = seq.startswith('!')
            seq = seq.lstrip('!')
            a.fail = fails
            sink.clear()
            backend, result, failure, out = run_once(ctx, pipelines[which], sink, seq, shared)
            if fails:
                check(isinstance(failure, Raised), f'an exception of a callback was swallowed, execute returned {result!r}')
                check_eq(len(sink), 1, 'callbacks')
                check_eq(backend.open_channels, 0, 'channels left open')
            else:
                check_run(ctx, seq, backend, result, failure, out, sink)
            request = backend.requests[0].SerializeToString(deterministic=True)
            for i, (u, _) in enumerate(callback_parts(backend.requests[0].pipeline)):
                request = request.replace(u.encode(), b'%036d' % i)
            check_eq(sent.setdefault(which, request), request, 'request of the same pipeline in a later execution')

    return Family('histories', gen, run, f'all histories of 2..{bound} executions of 3 pipelines sharing parts, 6 outcomes each (successes, failure, '
                                         'transport error, end of stream, exception in a callback)')


# ------------------------------------------------------------------------------------------------ log messages
TEXTS = ['', ' ', 'a', ' b ', 'two\nlines', 'line end\n', '\t', '%s {0} \\n', 'caf\u00e9 \u4e2d', 'x' * 5000, '\r', "'quoted'"]


def fam_texts(quick):
    def gen():
        for n in range(1, 3 if quick else 4):
            for seq in itertools.product(range(len(TEXTS)), repeat=n):
                yield (list(seq),)
        yield (list(range(len(TEXTS))) * 3,)

    def run(ctx, seq):
        ctx.state(('texts', seq))
        for end in ([], [m_success('g')], [m_error('failed')]):
            backend = Backend(lambda request: [m_log(TEXTS[i]) for i in seq] + end)
            with played_by(backend), printed() as out:
                Pipeline2(UseNamesEventLog2()).execute({})
            ctx.op()
            check_eq(out.getvalue(), ''.join(TEXTS[i] + '\n' for i in seq), 'log messages printed')
        ctx.ok(len(seq))

    return Family('log_messages', gen, run, 'all sequences of <=2 (3) of 12 texts: empty, blank, with line breaks, special characters, long')


# ------------------------------------------------------------------------------------------------ pipelines edited between executions
def fam_edited(quick):
    bound = 4 if quick else 5
    ops = ['top+', 'in+', 'top-', 'in-', 'share', 'run']

    def gen():
        for n in range(1, bound + 1):
            for seq in itertools.product(ops, repeat=n):
                if n == 1 or 'run' in seq[:-1]:
                    yield (list(seq),)

    def run(ctx, seq):
        ctx.state(('edited', seq))
        for kind in 'EP':
            sink = []
            probes = [Probe(f'p{i}', sink) for i in range(2 + len(seq))]
            unused = list(probes)
            inner = Pipeline2(unused.pop(0))
            holder = ExecuteWithEachActivityLog2(ActivitiesLogsSource.Log, 0, inner) if kind == 'E' else PrintEventlogInfoBeforeAfter(inner)
            top = Pipeline2(holder, unused.pop(0))
            for op in list(seq) + ['run']:
                where = top if op.startswith('top') else inner
                if op.endswith('+'):
                    where.parts.append(unused.pop(0))
                elif op.endswith('-'):
                    ps = [x for x in where.parts if x is not holder]
                    if ps:
                        where.parts.remove(ps[0])
                elif op == 'share':
                    inner.parts.extend(x for x in top.parts[-1:] if x is not holder)
                else:
                    sink.clear()
                    backend = Backend(lambda request: [m_result(str(x.uuid), [('v', v_uint(i))]) for i, x in enumerate(probes)] + [m_success('g')])
                    with played_by(backend), printed():
                        top.execute({})
                    ctx.op()
                    present = [i for i, x in enumerate(probes) if any(x is y for y in top.parts + inner.parts)]
                    check_eq(sink, [(f'p{i}', ser([('v', v_uint(i))])) for i in present], f'{seq}: values delivered to the parts of the edited pipeline')
                    sent = [u for u, keys in callback_parts(backend.requests[0].pipeline) if keys != ['event_log_info']]
                    want = [str(x.uuid) for y in top.parts for x in (inner.parts if y is holder else [y])]
                    check_eq(sent, want, f'{seq}: parts sent for the edited pipeline')
                    ctx.ok((kind, present))

    return Family('edited', gen, run, f'all sequences of <={bound} edits of a pipeline and of a pipeline nested in it (adding, removing, sharing parts), '
                                      'executed in between')


def fam_many_values():
    def gen():
        for n in (33, 65, 130, 300):
            yield (n,)

    def run(ctx, n):
        kinds = [StringContextValue, lambda x: Uint32ContextValue(len(x)), lambda x: StringsContextValue([x]), lambda x: BoolContextValue(len(x) % 2 == 0)]
        initial = {f'key {i * i % 1009} {i}': kinds[i % 4]('v' * (i % 7)) for i in range(n)}
        backend = Backend(lambda request: [m_success('g')])
        with played_by(backend), printed():
            Pipeline2(UseNamesEventLog2()).execute(initial)
        ctx.op()
        check_eq(sorted((kv.key.name, kv.value.SerializeToString(deterministic=True)) for kv in backend.requests[0].initialContext),
                 sorted((k, v.to_grpc_context_value().SerializeToString(deterministic=True)) for k, v in initial.items()), 'initial values sent')
        ctx.ok(n)
        ctx.state(('many', n))

    return Family('many_values', gen, run, 'up to 300 initial values')


# ------------------------------------------------------------------------------------------------ loopback
def _serve(script):
    from ficus.grpc_pipelines.models import backend_service_pb2_grpc as pbg
    from google.protobuf.empty_pb2 import Empty
    seen = {'requests': [], 'drops': []}

    class Servicer(pbg.GrpcBackendServiceServicer):
        def ExecutePipeline(self, request, context):
            seen['requests'].append(request)
            for m in script(request):
                if isinstance(m, BaseException):
                    context.abort(grpc.StatusCode.INTERNAL, 'lost')
                yield m

        def DropExecutionResult(self, request, context):
            seen['drops'].append(request.guid)
            return Empty()

    server = grpc.server(futures.ThreadPoolExecutor(max_workers=2))
    pbg.add_GrpcBackendServiceServicer_to_server(Servicer(), server)
    port = server.add_insecure_port('127.0.0.1:0')
    server.start()
    return server, port, seen


def fam_loopback(quick):
    def gen():
        bodies = ['', 'A', 'B1', '1A2', 'UAa', 'MBE', 'ABA12'] if quick else [''.join(s) for n in range(3) for s in itertools.product(NONFINAL, repeat=n)]
        for body in bodies:
            for end in ('', 'F', 'X', 'T'):
                yield (body + end,)

    def run(ctx, seq):
        ctx.state(('loopback', seq))
        server, port, seen = _serve(lambda request: [message(s, uuids_by_name(request)) for s in seq])
        sink = []
        calls, lines, end = expectation(seq)
        try:
            pipeline = Pipeline2(Probe('A', sink), Probe('B', sink))
            failure = result = None
            with printed() as out:
                try:
                    result = pipeline.execute({'backend': f'127.0.0.1:{port}', 'path': StringContextValue('x')})
                except grpc.RpcError as e:
                    failure = e
            ctx.op()
        finally:
            server.stop(0)
        check_eq(sink, calls, f'loopback: values delivered for {seq!r}')
        check_eq(marks(out), lines, f'loopback: order for {seq!r}')
        check_eq(seen['drops'], ['guid-1'] if end == 'F' else [], 'loopback: drops')
        check_eq([kv.key.name for kv in seen['requests'][0].initialContext], ['path'], 'loopback: initial values')
        check((failure is not None) == (end == 'T'), f'loopback: {failure!r} for {seq!r}')
        if end in ('F', 'X'):
            check(result.finalResult.HasField('success' if end == 'F' else 'error'), f'loopback: result {result!r}')
        # the played backend behaves as the real channel does
        sink.clear()
        fake = run_once(ctx, pipeline, sink, seq, {})
        check_eq((sink, marks(fake[3]), fake[1], fake[2] is None), (calls, lines, result, failure is None), 'played backend and real channel')
        ctx.ok(seq)

    return Family('loopback', gen, run, 'streams over a real gRPC server on the loopback interface, same results as with the played backend')


def families(tier):
    q = tier == 'quick'
    return [fam_streams(q), fam_nesting(q), fam_context(q), fam_histories(q), fam_texts(q), fam_edited(q), fam_many_values(), fam_loopback(q)]
