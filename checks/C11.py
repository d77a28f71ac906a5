"""C11: position entropies, fast and plain."""
import itertools
import math

import numpy as np

from vlib.core import Family, check, check_eq
from vlib import gen
from vlib.fic import history_family, mk_log, snap

from ficus.legacy.analysis.event_log_analysis_entropy import (PositionEntropyIgnoredEvents, calculate_pos_entropy_std, calculate_pos_entropy_var,
                                                              calculate_position_entropies, calculate_position_entropies_fast,
                                                              calculate_position_entropies_fast_sum, calculate_position_entropies_sum,
                                                              calculate_position_entropy, calculate_position_entropy_fast, create_events_positions)
from ficus.legacy.analysis.event_log_info import calculate_events_in_each_trace
from ficus.legacy.mutations.event_log_mutations import remove_events_from_log

PROPERTY = 'C11'
ASSUMPTIONS = ['values are compared with a tolerance of 1e-9', 'per-event values are asked for names that occur in the log and are not ignored']
EPS = 1e-9


def close(a, b):
    return math.isfinite(a) and abs(a - b) <= EPS


def reference(traces):
    ne = [t for t in traces if t]
    n = len(ne)
    out = {}
    for x in {y for t in ne for y in t}:
        if n == 1:
            out[x] = 0.0
            continue
        fr = [sum(1 for t in ne if p < len(t) and t[p] == x) / n for p in range(max(map(len, ne)))]
        fr = [f for f in fr if f]
        out[x] = sum(-math.log(f, n) for f in fr) / len(fr)
    return out


def same(got, want, what):
    check_eq(sorted(got), sorted(want), f'{what}: events with an entropy')
    for x, v in want.items():
        check(close(got[x], v), f'{what}: position entropy of {x!r} is {got[x]!r}, by definition {v!r}')
        check(got[x] >= -EPS, f'{what}: negative entropy')


def check_log(ctx, log, tr, what, ignored=None):
    kept = [[x for x in t if not ignored or x not in ignored] for t in tr]
    want = reference(kept)
    if ignored:
        ign = PositionEntropyIgnoredEvents(set(ignored), calculate_events_in_each_trace(log))
    else:
        ign = None
    what = (what, ignored)
    pos = create_events_positions(log)
    tot = sum(want.values())
    for cached in (None, pos, pos):
        same(calculate_position_entropies_fast(log, ign, cached), want, (what, 'fast', cached is not None))
        check(close(calculate_position_entropies_fast_sum(log, ign, cached), tot), f'{what}: sum (fast)')
        ctx.op(2)
    same(calculate_position_entropies(log, ign), want, (what, 'plain'))
    check(close(calculate_position_entropies_sum(log, ign), tot), f'{what}: sum (plain)')
    ctx.op(2)
    for x, v in want.items():
        for got in (calculate_position_entropy_fast(log, x, ign), calculate_position_entropy_fast(log, x, ign, pos), calculate_position_entropy(log, x, ign)):
            check(close(got, v), f'{what}: position entropy of {x!r} is {got!r}, by definition {v!r}')
        ctx.op(3)
    ctx.ok(sorted((k, round(v, 9)) for k, v in want.items()))
    if not ignored:
        if want:
            check(close(calculate_pos_entropy_var(log), np.var(list(want.values()))), f'{what}: variance')
            check(close(calculate_pos_entropy_std(log), np.std(list(want.values()))), f'{what}: standard deviation')
    elif want:
        phys = remove_events_from_log(log, set(ignored))
        same(calculate_position_entropies_fast(phys), want, (what, 'fast after removing'))
        same(calculate_position_entropies(phys), want, (what, 'plain after removing'))
        ctx.op(2)


def gen_logs(tier):
    yield from ([t] for t in gen.logs(3, 3, 4 if tier == 'quick' else 5, canonical=False) if len(t) < 3)
    yield from ([t] for t in gen.logs(3, 3, 6 if tier == 'quick' else 7))
    yield from ([t] for t in gen.logs(2, 4, 5 if tier == 'quick' else 6) if len(t) == 4)


def run_logs(ctx, traces):
    log = mk_log(traces)
    tr = [[gen.LETTERS[c] for c in t] for t in traces]
    b = snap(log)
    for ign in gen.subsets(sorted({x for t in tr for x in t})):
        check_log(ctx, log, tr, traces, set(ign))
    if traces:
        check_log(ctx, log, tr, traces, {'Z'})
    check_eq(snap(log), b, 'the log was modified')
    ctx.state(traces)


def gen_names():
    yield from ([x, y] for x, y in itertools.combinations(gen.CONFUSABLE, 2))


def run_names(ctx, x, y):
    for t in ([[x, y, x], [y, x]], [[x], [y], [y, x]], [[x, y], [x + y], [y + x, x]]):
        log = mk_log(t)
        check_log(ctx, log, t, t)
        check_log(ctx, log, t, t, {y})
        ctx.state(t)


def gen_scale():
    for n in (50, 300):
        for d in (2, 5, 13):
            yield [n, d]


def run_scale(ctx, n, d):
    tr = [[f'n{(i * (i + j) + i // d) % (2 * d)}' for i in range(k)] for j, k in enumerate((n, 0, n // 3, 1, n // 2, n - 1))] * 2
    log = mk_log(tr)
    check_log(ctx, log, tr, (n, d))
    check_log(ctx, log, tr, (n, d), {f'n{i}' for i in range(d)})
    ctx.state([n, d])


def families(tier):
    return [
        Family('logs', lambda: gen_logs(tier), run_logs, 'all logs of <=2 traces/<=4 (5) events, canonical ones of <=3 traces/<=6 (7) events over 3 names and 4 traces/<=5 (6) events over 2 names x all ignored subsets'),
        Family('names', gen_names, run_names, 'all pairs of confusable names'),
        history_family(run_logs),
        Family('scale', gen_scale, run_scale, 'long regular logs'),
    ]
