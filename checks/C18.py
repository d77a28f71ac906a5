"""C18: text and pm4py conversions, Petri net discovery steps."""
import contextlib
import copy
import datetime
import io
import itertools
import warnings

from vlib.core import Family, check, check_eq
from vlib import gen
from vlib.fic import history_family, mk_log, snap, names as log_names, ev

import pm4py
from pm4py.objects.log.obj import Event, EventLog, Trace

from ficus.legacy.log.event_log import MyEvent, MyEventLog, MyTrace
from ficus.legacy.log.functions import (parse_log_from_string, parse_log_from_strings, parse_trace_from_string, serialize_log,
                                        serialize_logs)
from ficus.legacy.log.pm4py_converters import from_pm4py_log, to_pm4py_log
from ficus.legacy.pipelines.contexts.accessors import log as log_of, petri_net
from ficus.legacy.pipelines.contexts.part_results import PipelinePartResult
from ficus.legacy.pipelines.discovery.discovery_parts import (DiscoverPetriNetAlpha, DiscoverPetriNetAlphaPlus, DiscoverPetriNetHeuristic,
                                                              DiscoverPetriNetInductive)
from ficus.legacy.pipelines.pipelines import Pipeline
from ficus.legacy.util import concept_name

PROPERTY = 'C18'
ASSUMPTIONS = ['separators do not occur in names and are not built up by neighbouring names', 'pm4py itself is trusted',
               'nets are compared up to renaming of places and silent transitions by colour refinement']

# ------------------------------------------------------------------------------------------------------------- text
SEPS = [',', '\n', '\n\n', ';', '|', '::', '\t', ', ', '-->', '.', '*', '\\', ' ']
TNAMES = ['A', 'B', 'aA', 'A B', ' A', 'A ', 'é', '0', '(', 'x.y', '\U0001F600', '"', '%s', '\\n']


def usable(names, seps):
    """separators are separated and do not occur inside or across names"""
    if any(a != b and (a in b) for a in seps for b in seps) or len(set(seps)) < len(seps):
        return False
    for s in seps:
        if any(set(s) & set(n) for n in names):
            return False
    return True


def gen_text(tier):
    q = tier == 'quick'
    for t in gen.logs(2, 3, 4 if q else 5, canonical=False):
        for es in SEPS:
            for ts in SEPS:
                if es != ts:
                    yield [t, 0, 1, es, ts]
    for a, b in itertools.product(range(len(TNAMES)), repeat=2):
        for es in SEPS:
            for ts in SEPS:
                yield [[[0, 1], [1], [0, 0, 1]], a, b, es, ts]


def run_text(ctx, traces, a, b, es, ts):
    nm = [TNAMES[a], TNAMES[b]]
    log = mk_log(traces, nm)
    pic = snap(log)
    text = serialize_log(log, traces_separator=ts, events_separator=es)
    want = ts.join(es.join(nm[c] for c in t) for t in traces)
    check_eq(text, want, f'{traces} {nm} {es!r} {ts!r}: text')
    if (es, ts) == (',', '\n'):
        check_eq(serialize_log(log), want, 'text with the default separators')
    ctx.op(2)
    check_eq(snap(log), pic, 'serialising modified the log')
    check_eq(serialize_log(log, ts, es), want, 'text, positional separators')
    if traces and all(traces) and usable(nm, [es, ts]):
        back = parse_log_from_strings(text.split(ts), separator=es)
        check_eq(log_names(back), [[nm[c] for c in t] for t in traces], f'{traces} {nm} {es!r} {ts!r}: parsed back')
        check_eq(log_names(parse_log_from_strings(text.split(ts), es)), log_names(back), 'positional separator')
        for t, line in zip(traces, text.split(ts)):
            check_eq([e[concept_name] for e in parse_trace_from_string(line, es)], [nm[c] for c in t], 'one trace')
            check_eq(log_names(parse_log_from_string(line, separator=es)), [[nm[c] for c in t]], 'one-trace log')
            if es == ',':
                check_eq(log_names(parse_log_from_string(line)), [[nm[c] for c in t]], 'one-trace log, default separator')
        for t in back:
            for e in t:
                check_eq(list(e.payload), [concept_name], 'attributes of a parsed event')
    ctx.ok(text)
    ctx.state((traces, a, b, es, ts))


def gen_texts(tier):
    n = 3 if tier == 'quick' else 4
    pool = [[], [[]], [[0]], [[0, 1]], [[0], [1]], [[], [1, 1]], [[1, 0], [0]]]
    for k in range(0, n + 1):
        for idx in itertools.product(range(len(pool)), repeat=k):
            yield [[pool[i] for i in idx]]


def run_texts(ctx, logs):
    ls = [mk_log(t) for t in logs]
    pics = [snap(x) for x in ls]
    for ks, ts, es in (('\n\n', '\n', ','), ('#', '/', '+'), ('', '', ''), ('\n', ';', ' ')):
        want = ks.join(ts.join(es.join('AB'[c] for c in t) for t in lg) for lg in logs)
        check_eq(serialize_logs(ls, logs_separator=ks, traces_separator=ts, events_separator=es), want, f'{logs}: text of several logs')
        check_eq(serialize_logs(ls, ks, ts, es), want, f'{logs}: text of several logs')
        ctx.op(2)
    check_eq(serialize_logs(ls), '\n\n'.join('\n'.join(','.join('AB'[c] for c in t) for t in lg) for lg in logs), f'{logs}: default separators')
    check_eq([snap(x) for x in ls], pics, 'serialising modified a log')
    ctx.ok(want)
    ctx.state(logs)


# ------------------------------------------------------------------------------------------------------------ pm4py
D1 = datetime.datetime(2020, 1, 2, 3, 4, 5, 678, tzinfo=datetime.timezone.utc)
VALUES = ['v', '', 0, -1, 1.5, True, False, None, D1, [1, [2]], {'a': {'b': 1}}, 'é\n<&>']


def mv(i):
    return copy.deepcopy(VALUES[i])


def pm_pic(log):
    return ([[list(map(lambda kv: (repr(kv[0]), type(kv[1]).__name__, repr(kv[1])), e.items())) for e in t] for t in log])


def my_pic(log):
    return ([[list(map(lambda kv: (repr(kv[0]), type(kv[1]).__name__, repr(kv[1])), e.payload_items())) for e in t] for t in log])


def mutables(x, out=None):
    out = {} if out is None else out
    if isinstance(x, (list, dict, set, MyEvent, MyTrace, MyEventLog, Event, Trace, EventLog)):
        if id(x) in out:
            return out
        out[id(x)] = x
        if isinstance(x, dict):
            for v in x.values():
                mutables(v, out)
        elif isinstance(x, (list, set)):
            for v in x:
                mutables(v, out)
        elif isinstance(x, MyEvent):
            mutables(x.payload, out)
        elif isinstance(x, MyTrace):
            mutables(x.attributes, out)
            mutables(list(x), out)
        elif isinstance(x, MyEventLog):
            for v in (x.attributes, x.properties, x.classifiers, x.extensions, x.global_values, list(x)):
                mutables(v, out)
        elif isinstance(x, Event):
            mutables(dict(x.items()), out)
        elif isinstance(x, Trace):
            mutables(x.attributes, out)
            mutables(list(x), out)
        elif isinstance(x, EventLog):
            for v in (x.attributes, x.properties, x.classifiers, x.extensions, x.omni_present, list(x)):
                mutables(v, out)
    return out


def disjoint(a, b, what):
    A, B = mutables(a), mutables(b)
    common = set(A) & set(B)
    check(not common, f'{what}: shares mutable state with its source', [A[c] for c in common][:3])


def gen_pm(tier):
    q = tier == 'quick'
    for t in gen.logs(2, 3, 4 if q else 5, canonical=False):
        yield [t, 0, 4]
    for i, j in itertools.product(range(len(VALUES)), repeat=2):
        for t in ([[0]], [[0, 1], []], [[1], [0, 0]]):
            yield [t, i, j]


def run_pm(ctx, traces, i, j):
    log = mk_log(traces)
    for k, e in enumerate(e for t in log for e in t):
        e['x'] = mv(i)
        if k % 2:
            e['y y'] = mv(j)
    before, pic = snap(log), my_pic(log)
    pm = to_pm4py_log(log)
    ctx.op()
    check(isinstance(pm, EventLog) and all(isinstance(t, Trace) and all(isinstance(e, Event) for e in t) for t in pm), 'wrong types')
    check_eq(pm_pic(pm), pic, f'{traces} {i} {j}: to pm4py')
    check_eq(snap(log), before, 'converting modified the log')
    disjoint(pm, log, 'the pm4py log')
    back = from_pm4py_log(pm)
    ctx.op()
    check_eq(my_pic(back), pic, f'{traces} {i} {j}: to pm4py and back')
    disjoint(back, pm, 'the log converted back')
    ctx.ok((pic,))
    ctx.state((traces, i, j))


META = [{}, {'k': 'v'}, {'a': 1, 'b': [1, 2]}, {'n': {'m': {'o': 'x'}}, 'concept:name': 'L'}]


def gen_from(tier):
    for a in itertools.product(range(4), repeat=3):
        for b in itertools.product(range(4), repeat=2):
            yield [list(a), list(b), [[0, 1], []]]
    for t in gen.logs(2, 3, 4, canonical=False):
        yield [[1, 2, 3], [3, 2], t]


def run_from(ctx, a, b, traces):
    m = lambda i: copy.deepcopy(META[i])
    pm = EventLog(attributes=m(a[0]), extensions=m(a[1]), classifiers=m(a[2]), omni_present=m(b[0]), properties=m(b[1]))
    for k, t in enumerate(traces):
        tr = Trace(attributes=m((a[0] + k) % 4))
        for n, c in enumerate(t):
            tr.append(Event({concept_name: 'AB'[c], 'n': n, 'o': [n]}))
        pm.append(tr)
    pic = pm_pic(pm)
    my = from_pm4py_log(pm)
    ctx.op()
    check_eq(pm_pic(pm), pic, 'converting modified the pm4py log')
    check_eq(my_pic(my), pic, f'{traces}: from pm4py')
    check_eq((my.attributes, my.extensions, my.classifiers, my.global_values, my.properties), (m(a[0]), m(a[1]), m(a[2]), m(b[0]), m(b[1])), f'{a} {b}: log attributes, extensions, classifiers, defaults, properties')
    check_eq([t.attributes for t in my], [m((a[0] + k) % 4) for k in range(len(traces))], f'{a}: trace attributes')
    disjoint(my, pm, 'the converted log')
    check_eq(pm_pic(to_pm4py_log(my)), pic, f'{traces}: from pm4py and back')
    ctx.op()
    ctx.ok((pic, a, b))
    ctx.state((a, b, traces))


# -------------------------------------------------------------------------------------------------------- discovery
def net_pic(net, im, fm):
    col = {}
    for p in net.places:
        col[p] = ('p', im.get(p, 0), fm.get(p, 0))
    for t in net.transitions:
        col[t] = ('t', t.label)
    for _ in range(6):
        nxt = {}
        for x in col:
            nxt[x] = hash((col[x], tuple(sorted(str((col[a.source], a.weight)) for a in x.in_arcs)), tuple(sorted(str((col[a.target], a.weight)) for a in x.out_arcs))))
        col = nxt
    return (len(net.places), sorted(str(t.label) for t in net.transitions), len(net.arcs), sum(im.values()), sum(fm.values()), sorted(col.values()))


def direct_log(traces):
    lg = EventLog()
    for t in traces:
        tr = Trace()
        for c in t:
            tr.append(Event({concept_name: 'ABC'[c]}))
        lg.append(tr)
    return lg


MINERS = [
    (lambda: DiscoverPetriNetAlpha(), lambda l: pm4py.discover_petri_net_alpha(l)),
    (lambda: DiscoverPetriNetAlphaPlus(), lambda l: pm4py.discover_petri_net_alpha_plus(l)),
    (lambda: DiscoverPetriNetInductive(), lambda l: pm4py.discover_petri_net_inductive(l, noise_threshold=0)),
    (lambda: DiscoverPetriNetInductive(0.4), lambda l: pm4py.discover_petri_net_inductive(l, noise_threshold=0.4)),
    (lambda: DiscoverPetriNetInductive(noise_threshold=0.9), lambda l: pm4py.discover_petri_net_inductive(l, noise_threshold=0.9)),
    (lambda: DiscoverPetriNetHeuristic(), lambda l: pm4py.discover_petri_net_heuristics(l, dependency_threshold=0.5, and_threshold=0.5, loop_two_threshold=0.5)),
    (lambda: DiscoverPetriNetHeuristic(0.9, 0.1, 0.95), lambda l: pm4py.discover_petri_net_heuristics(l, dependency_threshold=0.9, and_threshold=0.1, loop_two_threshold=0.95)),
    (lambda: DiscoverPetriNetHeuristic(dependency_threshold=0.2, and_threshold=0.9, two_loops_threshold=0.1),
     lambda l: pm4py.discover_petri_net_heuristics(l, dependency_threshold=0.2, and_threshold=0.9, loop_two_threshold=0.1)),
]
_seen = set()


def gen_disc(tier):
    q = tier == 'quick'
    for t in gen.logs(3, 3, 4 if q else 5, min_traces=1):
        if all(t):
            yield [t]
    extra = [[[0, 1, 2], [0, 2, 1], [0, 1, 1, 2]], [[0, 1, 0, 1, 0]], [[0, 1, 2]] * 9 + [[0, 2, 1]], [[0, 1, 2]] * 5 + [[0, 2]] + [[1, 0]], [[0, 1, 0, 2]] * 3 + [[0, 2]] * 2,
             [[0], [1], [2], [0, 1]], [[0, 0, 1]] * 4 + [[0, 1]], [[0, 1, 0, 1, 2]] * 2 + [[0, 1, 2]] * 7]
    for t in extra:
        yield [t]


def attempt(f):
    with contextlib.redirect_stderr(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            return ('net', net_pic(*f()))
        except Exception as e:
            return ('error', type(e).__name__)


def run_disc(ctx, traces):
    for k, (part, direct) in enumerate(MINERS):
        log = mk_log(traces)
        for e in (e for t in log for e in t):
            del e['id']
        pic = snap(log)
        want = attempt(lambda: direct(direct_log(traces)))
        box = []

        def go():
            res = Pipeline(part())(PipelinePartResult().with_log(log))
            box.append(res)
            n = petri_net(res)
            return n.petri_net, n.start_marking, n.end_marking
        got = attempt(go)
        ctx.op()
        if want[0] == 'error':
            ctx.ok('error')
            continue
        check_eq(got, want, f'{traces}: net discovered by step {k}')
        check_eq(snap(log), pic, f'{traces}: discovering modified the log')
        check_eq(snap(log_of(box[0])), pic, f'{traces}: the log of the context after discovery')
        ctx.ok(want)
    ctx.state(traces)


def gen_scale():
    for n in (100, 257, 1100):
        yield [n]


def run_scale(ctx, n):
    traces = [[(i * i) % 2 for i in range(n)]] + [[i % 2] for i in range(n)] + [[1] * (n // 3)]
    run_text(ctx, traces, 0, 1, ',', '\n')
    run_pm(ctx, traces, 0, 9)
    run_from(ctx, [1, 2, 3], [3, 2], traces)
    run_texts(ctx, [[[0, 1], [1]]] * n)


def families(tier):
    q = tier == 'quick'
    return [
        Family('text', lambda: gen_text(tier), run_text, f'all logs of <=3 traces/<={4 if q else 5} events over 2 names x {len(SEPS)}^2 separators; all pairs of {len(TNAMES)} names x separators'),
        Family('texts', lambda: gen_texts(tier), run_texts, 'all lists of <=3 (4) logs out of 7 x separators'),
        Family('to_pm4py', lambda: gen_pm(tier), run_pm, f'all small logs; all pairs of {len(VALUES)} attribute values'),
        Family('from_pm4py', lambda: gen_from(tier), run_from, 'all assignments of 4 metadata contents to 5 places; all small logs'),
        history_family(run_text, args=lambda t: [[[min(c, 1) for c in x] for x in t], 0, 1, ",", "\n"]),
        Family('scale', gen_scale, run_scale, 'logs of up to 1100 traces, traces of up to 1100 events'),
        Family('discovery', lambda: gen_disc(tier), run_disc, f'all canonical logs of <=3 non-empty traces/<={4 if q else 5} events over 3 names, skewed logs x {len(MINERS)} miners and thresholds'),
    ]
