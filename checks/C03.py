"""C03: abstraction into activity events and expansion back are lossless."""
import itertools

from vlib.core import Family, check, check_eq
from vlib import gen, ref
from vlib.fic import mk_log, snap, snap_event, flat, inst, ev, names as log_names

from ficus.legacy.analysis.patterns.constants import undefined_activity, underlying_activities_key, underlying_events_key
from ficus.legacy.analysis.patterns.event_log_patterns import (calculate_underlying_events_count, count_underlying_events,
                                                               create_new_log_from_activities, execute_with_underlying_events)
from ficus.legacy.analysis.patterns.patterns_models import UndefinedActivityHandlingStrategy
from ficus.legacy.analysis.patterns.util import substitute_original_events
from ficus.legacy.log.event_log import MyEventLog
from ficus.legacy.pipelines.analysis.patterns.patterns_parts import CreateLogFromActivities
from ficus.legacy.pipelines.contexts.accessors import log as log_of
from ficus.legacy.pipelines.contexts.part_results import PipelinePartResult
from ficus.legacy.pipelines.mutations.mutations_parts import SubstituteUnderlyingEvents
from ficus.legacy.pipelines.pipelines import Pipeline
from ficus.legacy.util import concept_name

PROPERTY = 'C03'
ASSUMPTIONS = ['activity instances of a trace are given in increasing order without overlap, as the discovery steps report them (C04, C08)']
S = UndefinedActivityHandlingStrategy
STRATS = [S.DontInsert, S.InsertAsSingleEvent, S.InsertAllEvents]
UA, UE = underlying_activities_key, underlying_events_key

_nodes = []


def nodes():
    if not _nodes:
        # equal names on purpose at index 0 and 3: the unique names must still differ
        _nodes.extend(flat([['A', 'B'], ['A'], ['C', 'B'], ['A', 'B', 'C'], ['D']], names=['x', 'A', 'b c', 'x', undefined_activity]))
    return _nodes


def leaves(e):
    """reference expansion"""
    if UE in e.payload:
        return [x for u in e.payload[UE] for x in leaves(u)]
    return [e]


def nested_activities(events):
    out = []
    for e in events:
        out += [id(n) for n in e.payload.get(UA, [])]
    return out


def check_abstracted(ctx, log, acts, new, strat, hashed, what):
    check_eq(len(new), len(log), f'{what}: number of traces')
    for t, a, nt in zip(log, acts, new):
        want = []
        pos = 0
        for s, e in [(i.start_pos, i) for i in a] + [(len(t), None)]:
            if pos < s:
                if strat == S.InsertAllEvents:
                    want += [('keep', t[i]) for i in range(pos, s)]
                elif strat == S.InsertAsSingleEvent:
                    want.append(('undef', None))
            if e is not None:
                want.append(('act', e))
                pos = e.start_pos + e.length
        check_eq(len(nt), len(want), f'{what}: length of the abstracted trace')
        for x, (k, v) in zip(nt, want):
            if k == 'keep':
                check_eq(snap_event(x), snap_event(v), f'{what}: kept event')
            elif k == 'undef':
                check_eq(x[concept_name], undefined_activity, f'{what}: event of an uncovered stretch')
            else:
                check_eq(x[concept_name], v.node.unique_name() if hashed else v.node.name, f'{what}: name of the activity event')
                cov = [t[i] for i in range(v.start_pos, v.start_pos + v.length)]
                check_eq([snap_event(u) for u in x[UE]], [snap_event(u) for u in cov], f'{what}: events of the activity event')
                check_eq(sorted(id(n) for n in x[UA]), sorted(nested_activities(cov) + [id(v.node)]), f'{what}: activities of the activity event')
        ctx.ok(len(want))
    n = sum(len(leaves(e)) for t in new for e in t)
    check_eq(calculate_underlying_events_count(new), n, f'{what}: number of underlying events')
    for t in new:
        for e in t:
            check_eq(count_underlying_events(e), len(leaves(e)), f'{what}: underlying events of one event')
            seen = []
            execute_with_underlying_events(e, seen.append)
            check_eq(sorted(map(snap_event, seen)), sorted(map(snap_event, leaves(e))), f'{what}: visited underlying events')


def expand(log):
    return log_of(SubstituteUnderlyingEvents().execute(PipelinePartResult().with_log(log)))


def abstract(ctx, log, acts, strat, hashed, part):
    before = snap(log)
    acts_before = [[(id(i.node), i.start_pos, i.length) for i in t] for t in acts]
    if part:
        new = log_of(Pipeline(CreateLogFromActivities(strat, hashed))(PipelinePartResult().with_log(log).with_trace_activities(acts)))
    else:
        new = create_new_log_from_activities(log, acts, strategy=strat, **({} if hashed else {'use_hashes_as_names': False}))
    ctx.op()
    check_eq(snap(log), before, 'the original log was modified')
    check_eq([[(id(i.node), i.start_pos, i.length) for i in t] for t in acts], acts_before, 'the instances were modified')
    return new


def step(ctx, log, acts, strat, hashed, part, what):
    new = abstract(ctx, log, acts, strat, hashed, part)
    check_abstracted(ctx, log, acts, new, strat, hashed, what)
    return new


def check_lossless(ctx, orig, new, what):
    pic = snap(new)
    back = expand(new)
    ctx.op()
    check_eq([[snap_event(e) for e in t] for t in back], [[snap_event(e) for e in t] for t in orig], f'{what}: expanding does not give the original back')
    check_eq(snap(new), pic, f'{what}: expanding modified the abstracted log')
    for t, o in zip(new, orig):
        check_eq([snap_event(e) for e in substitute_original_events(t)], [snap_event(e) for e in o], f'{what}: expanding one trace')
    check_eq(calculate_underlying_events_count(new), sum(map(len, orig)), f'{what}: number of underlying events')
    ctx.ok()


def assign(intervals, rot):
    ns = nodes()
    return [inst(ns[(i + rot) % len(ns)], s, ln) for i, (s, ln) in enumerate(intervals)]


def gen_one(tier):
    n = 6 if tier == 'quick' else 8
    for total in range(0, n + 1):
        for t in range(0 if total == 0 else 1, 4 if total <= 4 else 3):
            for lens in (gen.compositions(total, t) if t else [[]]):
                for ivs in itertools.product(*[list(gen.intervals(k)) for k in lens]):
                    yield [lens, list(ivs)]


def run_one(ctx, lens, ivs):
    check_eq(len({n.unique_name() for n in nodes()}), len(nodes()), 'different activities need different unique names')
    log = mk_log([[(i + k) % 3 for i in range(n)] for k, n in enumerate(lens)])
    for t in log:
        for e in t:
            if e['id'] % 2:
                e['extra'] = [e['id']]
    what = (lens, ivs)
    for rot in (0, 3):
        acts = [assign(iv, rot + k) for k, iv in enumerate(ivs)]
        for strat in STRATS:
            for hashed in (False, True):
                new = step(ctx, log, acts, strat, hashed, rot == 0, (what, strat.name, hashed))
                if strat == S.InsertAllEvents:
                    check_lossless(ctx, log, new, what)
                back = expand(new)
                if strat == S.DontInsert:
                    kept = [[t[i] for s, ln in iv for i in range(s, s + ln)] for t, iv in zip(log, ivs)]
                    check_eq([[snap_event(e) for e in t] for t in back], [[snap_event(e) for e in t] for t in kept], f'{what}: expansion without uncovered events')
                b = snap(log)
                for t in new:
                    for e in t:
                        for u in e.payload.get(UE, []):
                            u[concept_name] = 'changed'
                            u['more'] = 1
                check_eq(snap(log), b, f'{what}: changing the events of an activity event changed the original log')
                ctx.state([lens, ivs, rot, strat.name, hashed])


def gen_nested(tier):
    n = 4 if tier == 'quick' else 5
    for k in range(1, n + 1):
        for iv in gen.intervals(k):
            yield [k, iv, 3 if k <= (3 if tier == 'quick' else 4) else 2]


def run_nested(ctx, n, iv, rounds):
    orig = mk_log([[0, 1, 2, 0, 1, 2][:n], [1] * (n % 2)])

    def rec(log, ivs, depth, hist):
        acts = [assign(ivs, depth), []]
        for hashed in ((False, True) if depth == 1 else (True,)):
            new = step(ctx, log, acts, S.InsertAllEvents, hashed, False, hist)
            check_lossless(ctx, orig, new, hist)
            ctx.state([n, hist, hashed])
            if depth < rounds:
                for nxt in gen.intervals(len(new[0])):
                    rec(new, nxt, depth + 1, hist + [nxt])
    rec(orig, iv, 1, [iv])


def gen_odd():
    # events of the original log that themselves look unusual
    for k in range(6):
        for iv in gen.intervals(3):
            yield [k, iv]


def run_odd(ctx, k, iv):
    log = MyEventLog()
    from ficus.legacy.log.event_log import MyTrace
    kinds = [lambda: ev(undefined_activity), lambda: ev('x', a=None, b=True), lambda: ev('', z=[1, {'q': 2}]),
             lambda: ev('Activity_0'), lambda: ev('dup', id=7), lambda: ev('x', **{'lifecycle:transition': 'start'})]
    log.append(MyTrace([kinds[k](), ev('A'), kinds[k]()]))
    for strat in STRATS:
        for hashed in (False, True):
            new = step(ctx, log, [assign(iv, k)], strat, hashed, True, (k, iv))
            if strat == S.InsertAllEvents:
                check_lossless(ctx, log, new, (k, iv))
            ctx.state([k, iv, strat.name, hashed])


def gen_deep(tier):
    for depth in (5, 40):
        for width in (1, 2, 3):
            for shape in range(4):
                yield [depth, width, shape]
    yield [1, 400, 0]
    yield [1, 400, 2]
    for width in (1, 2, 256, 1001, 2999):
        yield [2, width, 3]


def run_deep(ctx, depth, width, shape):
    """many rounds: each covers the whole trace / its head / its tail / all of it in pairs"""
    n = 6 if width < 100 and depth > 2 else 3000
    orig = mk_log([[i % 3 for i in range(n)]])
    cur = orig
    for r in range(depth):
        m = len(cur[0])
        iv = {0: [[0, m]], 1: [[0, min(width, m)]], 2: [[m - min(width, m), min(width, m)]],
              3: [[i, min(width, m - i)] for i in range(0, m, width)]}[shape]
        cur = step(ctx, cur, [assign(iv, r)], S.InsertAllEvents, bool(r % 2), True, (depth, width, shape, r))
        check_lossless(ctx, orig, cur, (depth, width, shape, r))
    ctx.state([depth, width, shape])


def families(tier):
    q = tier == 'quick'
    return [
        Family('layouts', lambda: gen_one(tier), run_one, f'all trace lengths with <={6 if q else 8} events in total x all sets of disjoint instances x 3 strategies x 2 naming modes x 2 node assignments'),
        Family('nested', lambda: gen_nested(tier), run_nested, f'all histories of <=3 rounds of instances on <={4 if q else 5} events'),
        Family('odd_events', gen_odd, run_odd, 'unusual event contents x all instances on 3 events x strategies'),
        Family('deep', lambda: gen_deep(tier), run_deep, 'up to 40 nested rounds of regular layouts; instances of 400 events in 3000'),
    ]
