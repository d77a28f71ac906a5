"""C13: log mutations and simple filters against a plain list-of-lists-of-dicts model."""
import itertools

from vlib.core import Family, check, check_eq
from vlib import gen
from vlib.fic import history_family, ev, snap

from ficus.legacy.log.event_log import MyEvent, MyEventLog, MyTrace
from ficus.legacy.mutations.event_log_mutations import (filter_log, preprocess_event_names_inplace, preprocess_events, remove_empty_traces,
                                                        remove_event_from_log, remove_events_from_log, remove_lifecycle_attribute)
from ficus.legacy.pipelines.contexts.accessors import log as log_of
from ficus.legacy.pipelines.contexts.part_results import PipelinePartResult
from ficus.legacy.pipelines.filtering.filter_parts import FilterTracesByCount
from ficus.legacy.pipelines.mutations.mutations_parts import (AddArtificialStartEndEvents, ApplyClassExtractor, PreprocessEvents, PreprocessEventsNames,
                                                              RemoveEventFromLogByName, RemoveEventsFromLogByNames, RemoveEventsFromLogPredicate,
                                                              RemoveLifecycleTransitionsAttributes)
from ficus.legacy.util import concept_name as CN, lifecycle_transition as LC

PROPERTY = 'C13'


# ---- model operations on [[dict]] --------------------------------------------------------------------------------------
def m_filter(keep):
    return lambda m: [t for t in ([dict(e) for e in t if keep(e)] for t in m) if t]


def m_each(f):
    def run(m):
        for t in m:
            for e in t:
                f(e)
        return m
    return run


def setname(f):
    def g(e):
        e[CN] = f(e[CN])
    return g


def m_startend(m):
    for t in m:
        t.insert(0, {CN: 'ARTIFICIAL_START'})
        t.append({CN: 'ARTIFICIAL_END'})
    return m


def mutator(e):
    e['seen'] = e[CN] + '!' if 'seen' not in e else e['seen'] + '!'
    if e[CN] == 'B':
        del e[CN]
        e[CN] = 'b'


def part(p):
    return lambda log: log_of(p(PipelinePartResult().with_log(log)))


def inplace(f, *a):
    def run(log):
        check(f(log, *a) is None or True, '')
        return log
    return run


odd = lambda e: e['id'] % 2 == 1 if 'id' in e else False
sel = lambda e: e[CN] in ('A', 'C')
cls = lambda e: e[CN].lower() + str(e['id'] % 2 if 'id' in e else '')


# name, pure?, [implementations], model
def ops():
    out = []
    for n in ('A', 'B', 'Z'):
        out.append((f'remove {n}', True, [lambda l, n=n: remove_event_from_log(l, n), part(RemoveEventFromLogByName(n))], m_filter(lambda e, n=n: e[CN] != n)))
    for ns in (['A', 'B'], [], ['B', 'C', 'Z'], ['A', 'B', 'C']):
        out.append((f'remove {ns}', True, [lambda l, ns=ns: remove_events_from_log(l, set(ns)), part(RemoveEventsFromLogByNames(ns))] +
                    ([part(RemoveEventsFromLogByNames(tuple(ns)))]), m_filter(lambda e, ns=ns: e[CN] not in ns)))
    out.append(('remove odd', True, [lambda l: filter_log(l, odd), part(RemoveEventsFromLogPredicate(odd))], m_filter(lambda e: not odd(e))))
    out.append(('remove selected', True, [lambda l: filter_log(l, sel), part(RemoveEventsFromLogPredicate(sel))], m_filter(lambda e: not sel(e))))
    for k in (0, 1, 2):
        out.append((f'count {k}', True, [lambda l, k=k: remove_empty_traces(l, k), part(FilterTracesByCount(k))] + ([remove_empty_traces, part(FilterTracesByCount())] if k == 0 else []),
                    lambda m, k=k: [t for t in m if len(t) > k]))
    ren = lambda s: 'A' if s == 'B' else s + s
    out.append(('rename', False, [inplace(preprocess_event_names_inplace, ren), part(PreprocessEventsNames(ren))], m_each(setname(ren))))
    out.append(('mutate', False, [inplace(preprocess_events, mutator), part(PreprocessEvents(mutator))], m_each(mutator)))
    out.append(('classes', False, [part(ApplyClassExtractor(cls))], m_each(lambda e: e.__setitem__(CN, cls(e)))))
    out.append(('classes of odd', False, [part(ApplyClassExtractor(cls, odd))], m_each(lambda e: e.__setitem__(CN, cls(e)) if odd(e) else None)))
    swap = lambda e: {'A': 'B', 'B': 'A'}.get(e[CN], 'A')
    out.append(('classes of selected', False, [part(ApplyClassExtractor(cls, sel))], m_each(lambda e: e.__setitem__(CN, cls(e)) if sel(e) else None)))
    out.append(('swapped classes of selected', False, [part(ApplyClassExtractor(swap, sel))], m_each(lambda e: e.__setitem__(CN, swap(e)) if sel(e) else None)))
    out.append(('lifecycle', False, [inplace(remove_lifecycle_attribute), part(RemoveLifecycleTransitionsAttributes())], m_each(lambda e: e.pop(LC, None))))
    out.append(('start/end', False, [part(AddArtificialStartEndEvents())], m_startend))
    return out


OPS = ops()


def build(traces, attrs):
    """attrs: 0 plain, 1 with lifecycle on some events, 2 lifecycle on all and extra attributes, trace and log attributes"""
    log, model, n = MyEventLog(), [], 0
    for ti, t in enumerate(traces):
        tr, mt = MyTrace(attributes={'case': ti} if attrs == 2 else None), []
        for c in t:
            d = {CN: gen.LETTERS[c], 'id': n}
            if attrs == 2 or (attrs == 1 and n % 2 == 0):
                d[LC] = 'complete'
            if attrs == 2:
                d['x'] = None
            tr.append(MyEvent(dict(d)))
            mt.append(d)
            n += 1
        log.append(tr)
        model.append(mt)
    if attrs == 2:
        log.attributes['k'] = 'v'
    return log, model


def view(log):
    return [[dict(e.payload) for e in t] for t in log]


def apply_all(ctx, traces, attrs, seq):
    variants = max(len(OPS[i][2]) for i in seq)
    for v in range(variants):
        log, model = build(traces, attrs)
        hist, sources = [], []
        for i in seq:
            name, pure, impls, m = OPS[i]
            before = snap(log)
            objs = [list(map(id, t)) for t in log]
            new = impls[min(v, len(impls) - 1)](log)
            ctx.op()
            hist.append(name)
            if pure:
                check_eq(snap(log), before, f'{traces} {hist}: the input log was modified')
                check_eq([list(map(id, t)) for t in log], objs, f'{traces} {hist}: the input log was modified')
            if name.startswith('remove'):
                sources.append((log, objs, len(hist)))
            for src, was, at in sources:
                check_eq([list(map(id, t)) for t in src], was, f'{traces} {hist}: the log given to operation {at} lost or gained events later')
            model = m(model)
            check_eq(view(new), model, f'{traces} attrs={attrs} {hist}')
            if name.startswith('count'):
                tr = [t for t in log if len(t) > int(name[-1])]
                check_eq([getattr(t, 'attributes', None) for t in new], [t.attributes for t in tr], f'{hist}: attributes of the kept traces')
            if not pure:
                check_eq([dict(t.attributes) for t in new], [dict(t.attributes) for t in log], f'{hist}: trace attributes')
            log = new
        ctx.ok(model)
        ctx.state([view(log), v])


def gen_single(tier):
    n = 5 if tier == 'quick' else 6
    for t in gen.logs(3, 3, n, canonical=False):
        if len(t) == 3 and sum(map(len, t)) > n - 1:
            continue
        for a in (0, 1, 2):
            yield [t, a]


def run_single(ctx, traces, a):
    for i in range(len(OPS)):
        apply_all(ctx, traces, a, [i])


def gen_seq(tier):
    d = 3
    for logn in range(len(SEQLOGS)):
        for s in itertools.product(range(len(OPS)), repeat=d):
            yield [logn, list(s)]


SEQLOGS = [([[0, 1, 2], [], [1, 1], [2]], 1), ([[0, 1, 0, 2], [0, 0], [3, 1]], 2)]


def run_seq(ctx, k, seq):
    apply_all(ctx, SEQLOGS[k][0], SEQLOGS[k][1], seq)


def gen_names():
    yield from ([x, y] for x, y in itertools.permutations(gen.CONFUSABLE, 2))


def run_names(ctx, x, y):
    mk = lambda: MyEventLog([MyTrace([ev(x), ev(y), ev(x + y)]), MyTrace([ev(x)]), MyTrace([ev(y)])])
    keep = lambda drop: [t for t in ([n for n in t if n not in drop] for t in [[x, y, x + y], [x], [y]]) if t]
    names = lambda l: [[e[CN] for e in t] for t in l]
    check_eq(names(remove_event_from_log(mk(), x)), keep({x}), f'removing {x!r}')
    check_eq(names(remove_events_from_log(mk(), {x})), keep({x}), f'removing {x!r}')
    check_eq(names(log_of(RemoveEventsFromLogByNames([y, y])(PipelinePartResult().with_log(mk())))), keep({y}), f'removing {y!r}')
    ctx.op(3)
    ctx.ok()
    ctx.state([x, y])


def gen_scale():
    for n in (200, 1500):
        for d in (2, 9):
            yield [n, d]


def run_scale(ctx, n, d):
    tr = [[(i * i + i // d) % 3 for i in range(k)] for k in (n, 0, n // 3, 1, 2)] * 4
    for i in range(len(OPS)):
        apply_all(ctx, tr, 1, [i])


def families(tier):
    return [
        Family('single', lambda: gen_single(tier), run_single, f'all logs of <=3 traces/<=5 (6) events over 3 names x attribute settings x {len(OPS)} operations x entry points'),
        Family('sequences', lambda: gen_seq(tier), run_seq, f'all sequences of 3 of {len(OPS)} operations on 2 logs x entry points'),
        Family('names', gen_names, run_names, 'all ordered pairs of confusable names'),
        history_family(run_single, wide=False, args=lambda t: [t, 1]),
        Family('scale', gen_scale, run_scale, 'long logs'),
    ]
