"""C10: directly-follows entropies."""
import itertools
import math
from collections import Counter

from vlib.core import Family, check, check_eq
from vlib import gen
from vlib.fic import history_family, mk_log, snap

from ficus.legacy.analysis.event_log_analysis_entropy import (calculate_default_entropies, calculate_default_entropy_average,
                                                              calculate_default_entropy_sum, calculate_laplace_entropies,
                                                              calculate_laplace_or_default_entropies, create_entropies_df)
from ficus.legacy.util import fake_end_name, fake_start_name

PROPERTY = 'C10'
ASSUMPTIONS = ['no event carries the reserved names of the artificial start and end', 'values are compared with a tolerance of 1e-9']
EPS = 1e-9


def close(a, b):
    return math.isfinite(a) and abs(a - b) <= EPS


def h(ps):
    return -sum(p * math.log2(p) for p in ps if p > 0)


def reference(traces, laplace):
    """definition: distributions of successors / predecessors, with boundary markers"""
    succ, pred, cnt = {}, {}, Counter()
    for t in traces:
        for i, x in enumerate(t):
            cnt[x] += 1
            succ.setdefault(x, Counter())[('e', t[i + 1]) if i + 1 < len(t) else 'end'] += 1
            pred.setdefault(x, Counter())[('e', t[i - 1]) if i else 'start'] += 1
    out = {}
    for x, n in cnt.items():
        v = 0
        for tab, border in ((succ[x], 'end'), (pred[x], 'start')):
            outcomes = [('e', y) for y in cnt] + [border]
            if laplace:
                a = 1 / n
                v += h([(a + tab[o]) / (a * len(outcomes) + n) for o in outcomes])
            else:
                v += h([tab[o] / n for o in outcomes])
        out[x] = v
    return out


def same(got, want, what):
    check_eq(sorted(got), sorted(want), f'{what}: events with an entropy')
    for x, v in want.items():
        check(close(got[x], v), f'{what}: entropy of {x!r} is {got[x]!r}, by definition {v!r}')
        check(got[x] >= -EPS, f'{what}: negative entropy')


def check_log(ctx, log, tr, what, ignored=None):
    kept = [[x for x in t if not ignored or x not in ignored] for t in tr]
    for laplace in (False, True):
        want = reference(kept, laplace)
        args = [None, set()] if not ignored else [set(ignored)]
        for a in args:
            same((calculate_laplace_entropies if laplace else calculate_default_entropies)(log, a), want, (what, laplace, ignored))
            same(calculate_laplace_or_default_entropies(log, laplace, a), want, (what, laplace, ignored))
            s, m = calculate_default_entropy_sum(log, laplace, a), calculate_default_entropy_average(log, laplace, a)
            tot = sum(want.values())
            check(close(s, tot), f'{what}: sum {s} instead of {tot}')
            check(close(m, tot / len(want) if want else 0), f'{what}: average {m}')
            ctx.op(4)
        ctx.ok(sorted((k, round(v, 9)) for k, v in want.items()))
    if not ignored:
        df = create_entropies_df(log)
        ctx.op()
        want = reference(kept, False)
        check_eq(sorted(df.index), sorted(want), f'{what}: rows of the table')
        vals = list(df['Entropy'])
        for x, v in zip(df.index, vals):
            check(close(v, want[x]), f'{what}: table value of {x}')
        check(all(vals[i] >= vals[i + 1] for i in range(len(vals) - 1)), f'{what}: the table is not sorted')


def gen_logs(tier):
    yield from ([t] for t in gen.logs(3, 3, 5 if tier == 'quick' else 6, canonical=False) if len(t) < 3 and sum(map(len, t)) <= 4)
    yield from ([t] for t in gen.logs(4, 3, 6 if tier == 'quick' else 7))


def run_logs(ctx, traces):
    log = mk_log(traces)
    tr = [[gen.LETTERS[c] for c in t] for t in traces]
    b = snap(log)
    for ign in gen.subsets(sorted({x for t in tr for x in t})[:3]):
        check_log(ctx, log, tr, traces, set(ign))
    check_eq(snap(log), b, 'the log was modified')
    ctx.state(traces)


def gen_names():
    c = [x for x in gen.CONFUSABLE if x not in (fake_start_name, fake_end_name)]
    yield from ([x, y] for x, y in itertools.combinations(c, 2))


def run_names(ctx, x, y):
    for t in ([[x, y, x, x]], [[x], [y], [y, x]], [[x, y], [x + y], [y + x, x]]):
        log = mk_log(t)
        check_log(ctx, log, t, t)
        check_log(ctx, log, t, t, {y})
        ctx.state(t)


def gen_scale():
    for n in (50, 400):
        for d in (2, 5, 13):
            yield [n, d]


def run_scale(ctx, n, d):
    tr = [[f'n{(i * i + i // d) % (2 * d)}' for i in range(k)] for k in (n, 0, n // 3, 1)] * 3
    log = mk_log(tr)
    check_log(ctx, log, tr, (n, d))
    check_log(ctx, log, tr, (n, d), {f'n{i}' for i in range(d)})
    ctx.state([n, d])


def families(tier):
    return [
        Family('logs', lambda: gen_logs(tier), run_logs, 'all logs of <=2 traces/<=4 events over 3 names and canonical logs of <=3 traces/<=6 (7) events over 4 names x all ignored subsets of 3 names'),
        Family('names', gen_names, run_names, 'all pairs of confusable names'),
        history_family(run_logs),
        Family('scale', gen_scale, run_scale, 'long regular logs'),
    ]
