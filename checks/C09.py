"""C09: directly-follows counts and log statistics."""
import itertools
from collections import Counter

from vlib.core import Family, check, check_eq
from vlib import gen
from vlib.fic import history_family, mk_log, snap

from ficus.legacy.analysis.event_log_info import (DirectlyFollowsGraph, apply_to_all_events, calculate_events_count,
                                                  calculate_events_in_each_trace, create_dfg, create_log_information, find_all_events_names)
from ficus.legacy.mutations.event_log_mutations import remove_events_from_log
from ficus.legacy.util import concept_name, fake_end_name, fake_start_name

PROPERTY = 'C09'
ASSUMPTIONS = ['no event carries the reserved names of the artificial start and end']


def ref_pairs(traces, fake):
    c = Counter()
    for t in traces:
        if not t:
            continue
        s = ([fake_start_name] if fake else []) + list(t) + ([fake_end_name] if fake else [])
        c.update(zip(s, s[1:]))
    return dict(c)


def check_dfg(dfg, pairs, what):
    check_eq(dict(dfg.pairs), pairs, f'{what}: directly-follows counts')
    fol = {}
    for (a, b), n in pairs.items():
        fol.setdefault(a, {})[b] = n
    check_eq({k: dict(v) for k, v in dfg.followed_events.items()}, fol, f'{what}: followers')
    check_eq(set(dfg.events_with_single_follower), {a for a, f in fol.items() if len(f) == 1}, f'{what}: events with a single follower')


def check_info(ctx, log, traces, what, ignored=None):
    kept = [[x for x in t if not ignored or x not in ignored] for t in traces]
    counts = dict(Counter(x for t in kept for x in t))
    for fake in (True, False):
        kw = {} if fake else {'add_fake_start_end_events': False}
        for arg in ([ignored] if ignored else [None, set()]):
            info = create_log_information(log, arg, **kw)
            ctx.op()
            check_dfg(info.dfg, ref_pairs(kept, fake), (what, fake, ignored))
            check_eq(dict(info.events_count), counts, f'{(what, ignored)}: event counts')
            ctx.ok(sorted(counts.items()))
    if ignored:
        phys = remove_events_from_log(log, set(ignored))
        for fake in (True, False):
            a = create_log_information(log, set(ignored), add_fake_start_end_events=fake)
            b = create_log_information(phys, add_fake_start_end_events=fake)
            ctx.op(2)
            check_eq((dict(a.dfg.pairs), dict(a.events_count)), (dict(b.dfg.pairs), dict(b.events_count)), f'{what}: ignoring and removing {ignored} differ')
    else:
        check_dfg(create_dfg(log), ref_pairs(traces, False), (what, 'create_dfg'))
        tc = calculate_events_in_each_trace(log)
        check_eq([(dict(c.counts), c.overall_count) for c in tc], [(dict(Counter(t)), len(t)) for t in traces], f'{what}: per-trace counts')
        check_eq(calculate_events_count(log), sum(map(len, traces)), f'{what}: total count')
        seen = []
        apply_to_all_events(log, lambda e: seen.append(e['id']))
        check_eq(seen, [e['id'] for t in log for e in t], f'{what}: visited events')
        ctx.op(4)


def gen_logs(tier):
    yield from ([t] for t in gen.logs(3, 3, 5 if tier == 'quick' else 6, canonical=False) if len(t) < 3 or sum(map(len, t)) <= 4)
    yield from ([t] for t in gen.logs(4, 3, 6 if tier == 'quick' else 7) if sum(map(len, t)) >= 5)


def run_logs(ctx, traces):
    log = mk_log(traces)
    tr = [[gen.LETTERS[c] for c in t] for t in traces]
    b = snap(log)
    for ign in gen.subsets(sorted({x for t in tr for x in t})[:3] + ['Z']):
        check_info(ctx, log, tr, traces, set(ign))
    check_eq(snap(log), b, 'the log was modified')
    ctx.state(traces)


def gen_names():
    c = [x for x in gen.CONFUSABLE if x not in (fake_start_name, fake_end_name)]
    for x, y in itertools.combinations(c, 2):
        yield [x, y]


def run_names(ctx, x, y):
    for t in ([[x, y, x, x]], [[x], [y], [y, x]], [[x, y], [x + y], [y + x, x]]):
        log = mk_log(t)
        check_info(ctx, log, t, t)
        check_info(ctx, log, t, t, {x})
        ctx.state(t)


def gen_joined():
    for a, b in gen.joined():
        yield [list(a), list(b)]


def run_joined(ctx, a, b):
    for t in ([a, b], [a + b], [b, a, a], [[a[0]], [b[1]], a, b[::-1]]):
        log = mk_log(t)
        check_info(ctx, log, t, t)
        check_info(ctx, log, t, t, {a[0]})
        ctx.state(t)


def gen_dfg(tier):
    # all count tables over 3 names (each cell absent, 1 or 2) in two key orders, and 4 names presence tables with few cells
    cells = list(itertools.product(range(3), repeat=2))
    for p in itertools.product(range(2), repeat=9):
        yield [3, list(p)]
    if tier != 'quick':
        for p in itertools.product(range(3), repeat=9):
            if 2 in p:
                yield [3, list(p)]


def run_dfg(ctx, k, p):
    cells = list(itertools.product(gen.LETTERS[:k], repeat=2))
    items = [(c, 1 + (i + v) % 4) for i, (c, v) in enumerate(zip(cells, p)) if v]
    for order in (items, items[::-1], items[1::2] + items[::2]):
        check_dfg(DirectlyFollowsGraph(dict(order)), dict(order), (k, p))
        ctx.op()
        ctx.ok(order)
    ctx.state([k, p])


def gen_pred(tier):
    for t in gen.logs(3, 2, 5 if tier == 'quick' else 6):
        n = sum(map(len, t))
        for bits in range(2 ** n):
            yield [t, bits]


def run_pred(ctx, traces, bits):
    log = mk_log(traces)
    calls = []
    got = find_all_events_names(log, lambda e: bool(bits >> e['id'] & 1))
    ctx.op()
    bad = {e[concept_name] for t in log for e in t if not bits >> e['id'] & 1}
    want = {e[concept_name] for t in log for e in t} - bad
    check_eq(set(got), want, f'{traces} {bits:b}: names all of whose events satisfy the predicate')
    ctx.ok(sorted(want))
    ctx.state([traces, bits])


def gen_scale():
    for n in (300, 2000):
        for d in (2, 7, 40):
            yield [n, d]


def run_scale(ctx, n, d):
    tr = [[f'n{(i * i + i // d) % (d * 3)}' for i in range(k)] for k in (n, 0, n // 3, 1)] * 3
    log = mk_log(tr)
    check_info(ctx, log, tr, (n, d))
    check_info(ctx, log, tr, (n, d), {f'n{i}' for i in range(d)})
    ctx.state([n, d])


def families(tier):
    q = tier == 'quick'
    return [
        Family('logs', lambda: gen_logs(tier), run_logs, f'all logs of <=2 traces/<={5 if q else 6} events (3 traces: 4) over 3 names and canonical ones of <={6 if q else 7} over 4, x all ignored subsets'),
        Family('joined_names', gen_joined, run_joined, 'pairs of names which become equal when joined by any of 49 separators'),
        Family('names', gen_names, run_names, 'all pairs of confusable names'),
        Family('dfg', lambda: gen_dfg(tier), run_dfg, 'all 512 pair tables over 3 names x orders'),
        Family('predicates', lambda: gen_pred(tier), run_pred, 'all small logs x all truth assignments of a predicate to events'),
        history_family(run_logs),
        Family('scale', gen_scale, run_scale, 'long regular logs'),
    ]
