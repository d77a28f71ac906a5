"""C14: trace variants."""
import itertools

from vlib.core import Family, check, check_eq
from vlib import gen
from vlib.fic import history_family, ev, mk_log, snap

from ficus.legacy.analysis.event_log_split import split_log_by_traces
from ficus.legacy.log.event_log import MyEventLog, MyTrace
from ficus.legacy.pipelines.contexts.accessors import log as log_of
from ficus.legacy.pipelines.contexts.part_results import PipelinePartResult
from ficus.legacy.pipelines.filtering.filter_parts import FilterTracesByVariants
from ficus.legacy.util import concept_name as CN

PROPERTY = 'C14'


def check_log(ctx, log, what):
    before = snap(log)
    order = {id(t): i for i, t in enumerate(log)}
    groups = split_log_by_traces(log)
    ctx.op()
    got = []
    for g in groups:
        for t in g:
            check(id(t) in order, f'{what}: a group contains something that is not a trace of the log')
        got.append([order[id(t)] for t in g])
    ref = {}
    for i, t in enumerate(log):
        ref.setdefault(tuple(e[CN] for e in t), []).append(i)
    check_eq(sorted(got), sorted(ref.values()), f'{what}: variants')
    new = log_of(FilterTracesByVariants()(PipelinePartResult().with_log(log)))
    ctx.op()
    firsts = sorted(g[0] for g in ref.values())
    check_eq(sorted(repr([(sorted(map(str, e.payload.items()))) for e in t]) for t in new),
             sorted(repr([(sorted(map(str, e.payload.items()))) for e in log[i]]) for i in firsts), f'{what}: one trace, the earliest, of every variant')
    check_eq(snap(log), before, 'the log was modified')
    ctx.ok(sorted(ref.values()))


def gen_logs(tier):
    q = tier == 'quick'
    yield from ([t] for t in gen.logs(3, 3, 5, canonical=False) if len(t) < 3)
    yield from ([t] for t in gen.logs(3, 4, 6 if q else 7))
    # all logs of up to 5 traces out of a small set of traces
    pool = [[], [0], [1], [0, 0], [0, 1], [1, 0], [0, 0, 1]]
    for n in range(1, 6 if q else 7):
        for p in itertools.product(range(len(pool)), repeat=n):
            yield [[pool[i] for i in p]]


def run_logs(ctx, traces):
    check_log(ctx, mk_log(traces), traces)
    ctx.state(traces)


def gen_pairs():
    c = gen.CONFUSABLE
    for x, y in itertools.combinations_with_replacement(range(len(c)), 2):
        yield [x, y]


def run_pairs(ctx, i, j):
    x, y = gen.CONFUSABLE[i], gen.CONFUSABLE[j]
    for t in ([[x], [y], [x]], [[x, y], [y, x], [x, y]], [[x, 'q'], [y, 'q'], ['q', x], ['q', y]], [[x, x], [y, y], [x + x], [y + y]],
              [['q'] * 9 + [x], ['q'] * 9 + [y], ['q'] * 9 + [x]], [[x, y, ''], ['', x, y], [x + y, '', '']]):
        check_log(ctx, mk_log(t), t)
        ctx.state(t)


def gen_joined():
    n = len(list(gen.joined()))
    yield from ([k, m] for k in range(n) for m in range(3))


def run_joined(ctx, k, m):
    (a, b), (c, d) = list(gen.joined(*[('p', 'q', 'r'), ('', '', ''), ('p', '', 'p')][m]))[k]
    for t in ([[a, b], [c, d]], [[c, d], [a, b], [c, d]], [[a, b, 'z'], [c, d, 'z'], [a, b, 'z']], [['z', a, b], ['z', c, d]], [[a, b, a, b], [c, d, a, b], [a, b, c, d], [c, d, c, d]],
              [[a, c], [c, a], [b, d], [d, b]]):
        check_log(ctx, mk_log(t), t)
        ctx.state(t)


def gen_short():
    """all pairs of traces of two names out of short strings over a few characters"""
    yield from ([k] for k in range(len(SHORT)))


SHORT = [''.join(p) for n in range(0, 4) for p in itertools.product('aAB', repeat=n)] + ['ba', 'ab', 'Ba', 'C#', '\x00', '\x00\x00', '\x01']


def run_short(ctx, k):
    x = SHORT[k]
    tr = [[s] for s in SHORT] + [[x]] + [[s, x] for s in SHORT] + [[x, s] for s in SHORT]
    check_log(ctx, mk_log(tr), ('short', x))
    ctx.state(x)


def gen_scale():
    for n in (1, 40, 300):
        for d in (2, 3, 7):
            yield [n, d]


def run_scale(ctx, n, d):
    base = [f'event number {(i * i + i // d) % 50}' for i in range(n)]
    tr = []
    for k in list(range(0, n, max(1, n // 20))) * 2:
        t = list(base)
        t[k] = 'other'
        tr += [t, list(base), t[:-1], t[::-1]]
    check_log(ctx, mk_log(tr), (n, d))
    ctx.state([n, d])


def gen_attrs():
    for t in gen.logs(2, 3, 4, min_traces=2):
        yield [t]


def run_attrs(ctx, traces):
    """attributes other than the name do not matter, and the kept traces keep them"""
    log = MyEventLog([MyTrace([ev('AB'[c], x=i * 10 + j, **({'lifecycle:transition': 'start'} if i % 2 else {})) for j, c in enumerate(t)], {'case': i})
                      for i, t in enumerate(traces)])
    check_log(ctx, log, traces)
    new = log_of(FilterTracesByVariants()(PipelinePartResult().with_log(log)))
    first = {}
    for i, t in enumerate(traces):
        first.setdefault(tuple(t), i)
    check_eq(sorted(t.attributes['case'] for t in new), sorted(first.values()), f'{traces}: attributes of the kept traces')
    ctx.state(traces)


def families(tier):
    return [
        Family('logs', lambda: gen_logs(tier), run_logs, 'all logs of <=2 traces/<=5 events over 3 names, canonical ones of <=4 traces/<=6 (7) events, all sequences of <=5 (6) traces out of 7 short ones'),
        Family('name_pairs', gen_pairs, run_pairs, 'all pairs of confusable names in 6 positions'),
        Family('short_names', gen_short, run_short, 'all pairs of names of <=3 characters over 3 letters, alone and in two positions'),
        Family('joined_names', gen_joined, run_joined, f'{len(gen.JOINERS)} texts that may join names x 3 sets of name parts x 6 logs'),
        Family('attributes', gen_attrs, run_attrs, 'all small logs with differing other attributes'),
        history_family(run_logs),
        Family('scale', gen_scale, run_scale, 'long traces differing in one place'),
    ]
