"""C16: iterated discovery and abstraction: every round is a correct step, the iteration ends at a fixpoint, nothing is lost."""
import itertools

from vlib.core import Family, check, check_eq
from vlib import gen, ref
from vlib.fic import history_family, mk_log, snap, as_ref, classes
from checks.C03 import S, check_abstracted, check_lossless

from ficus.legacy.analysis.patterns.util import default_class_extractor
from ficus.legacy.pipelines.analysis.high_level import (DiscoverActivitiesInstancesFromRepeats,
                                                        DiscoverActivitiesInstancesFromRepeatsUntilNoMore)
from ficus.legacy.pipelines.analysis.patterns.patterns_parts import ActivitiesDiscoveryStrategy
from ficus.legacy.pipelines.contexts.accessors import activities, log as log_of, traces_activities
from ficus.legacy.pipelines.contexts.part_results import PipelinePartResult, RepeatActivitiesSource
from ficus.legacy.pipelines.pipelines import InternalPipelinePart, Pipeline
from ficus.legacy.util import concept_name

PROPERTY = 'C16'
ASSUMPTIONS = ['class extractors given with the merged discovery strategy keep the unique separators apart (identity)',
               'the caller\'s hooks do not themselves modify the log']
ALL, MERGED = ActivitiesDiscoveryStrategy.DiscoverFromAllTraces, ActivitiesDiscoveryStrategy.DiscoverFromSingleMergedTrace
EXTR = [default_class_extractor, lambda e: e[concept_name][:1], lambda e: e[concept_name].split('_')[0].lower()]
KEEP = [None, lambda name, ln: ln >= 2, lambda name, ln: ln == 1, lambda name, ln: 'A' not in name]


class Probe(InternalPipelinePart):
    def __init__(self, kind, out):
        self.kind, self.out = kind, out

    def execute(self, current_input):
        r = current_input
        self.out.append((self.kind, log_of(r), list(activities(r)), [list(t) for t in traces_activities(r)], snap(log_of(r))))
        return r


def walk(roots):
    st = list(roots)
    while st:
        a = st.pop()
        yield a
        st.extend(a.child_nodes)


def check_round(ctx, cfg, cur, rec, level, what):
    strat, ei, ki, narrow, hashed, _, _ = cfg
    ext = EXTR[ei]
    words = [[ext(e) for e in t] for t in cur]
    uni = sorted({c for w in words for c in w})
    _, _, roots, insts, _ = rec
    reps = set()
    for w in ([ref.merged(words)] if strat == MERGED else words):
        reps |= {frozenset(s) for s in ref.maximal_repeats(w)}
    check_eq(sorted(map(sorted, (classes(a, uni) for a in walk(roots)))), sorted(map(sorted, reps)), f'{what}: activities of the round')
    for a in walk(roots):
        check_eq(a.activity_level, level, f'{what}: level of the activities')
    racts = as_ref(roots, uni)
    check_eq(len(insts), len(words), f'{what}: traces with instances')
    for w, got in zip(words, insts):
        k = 0
        for s, ln, adm in ref.segment(w, racts, narrow):
            ok = [a for a in adm if KEEP[ki] is None or KEEP[ki](a.name, ln)]
            if k < len(got) and (got[k].start_pos, got[k].length) == (s, ln):
                check(any(got[k].node is a.node for a in ok), f'{what}: activity of the instance at {s}', got[k].node.name)
                k += 1
            else:
                check(len(ok) < len(adm), f'{what}: the instance at {s} is missing', w, [(i.start_pos, i.length) for i in got])
        check_eq(k, len(got), f'{what}: superfluous instance')


def check_run(ctx, traces, cfg, names=gen.LETTERS):
    strat, ei, ki, narrow, hashed, lvl, inc = cfg
    what = (traces, cfg)
    log = mk_log(traces, names)
    before = snap(log)
    recs = []
    kw = dict(use_hashes_as_event_name=hashed, discovery_strategy=strat, should_narrow_activity=narrow,
              initial_activity_level=lvl, increase_activity_level=inc)
    if ki:
        kw['activity_in_trace_filter'] = lambda i: KEEP[ki](i.node.name, i.length)
    part = DiscoverActivitiesInstancesFromRepeatsUntilNoMore(EXTR[ei], before_log_creation_pipeline=Pipeline(Probe('before', recs)),
                                                             after_log_creation_pipeline=Pipeline(Probe('after', recs)), **kw)
    res = Pipeline(part)(PipelinePartResult().with_log(log))
    ctx.op()
    check_eq(snap(log), before, f'{what}: the original log was modified')
    check_eq([r[0] for r in recs], ['before', 'after'] * (len(recs) // 2), f'{what}: order of the hooks')
    cur, sizes = log, [sum(map(len, log))]
    for k in range(0, len(recs), 2):
        b, a = recs[k], recs[k + 1]
        check_eq(b[4], snap(cur), f'{what}: log at the start of round {k // 2}')
        check_round(ctx, cfg, cur, b, lvl + (k // 2 if inc else 0), what)
        check(sum(map(len, b[3])) > 0, f'{what}: a round without instances')
        check_abstracted(ctx, cur, b[3], a[1], S.InsertAllEvents, hashed, what)
        check_lossless(ctx, log, a[1], what)
        cur = a[1]
        sizes.append(sum(map(len, cur)))
        check_eq(a[4], snap(cur), f'{what}: a later round modified an earlier log')
    final = log_of(res)
    check_eq(snap(final), snap(cur), f'{what}: resulting log')
    check(all(x > y for x, y in zip(sizes[:-1], sizes[1:-1])), f'{what}: went on after a round that did not shorten the log', sizes)
    if len(sizes) == 1 or sizes[-1] < sizes[-2]:
        nxt = Pipeline(DiscoverActivitiesInstancesFromRepeats(RepeatActivitiesSource.MaximalRepeats, class_extractor=EXTR[ei],
                                                              activities_discovery_strategy=strat, should_narrow_activity=narrow,
                                                              **({'activity_in_trace_filter': kw['activity_in_trace_filter']} if ki else {})))(
            PipelinePartResult().with_log(cur))
        check_eq(sum(map(len, traces_activities(nxt))), 0, f'{what}: stopped although a further round finds instances')
        if not ki:
            ws = [[EXTR[ei](e) for e in t] for t in cur]
            check(not any(ref.maximal_repeats(w) for w in ([ref.merged(ws)] if strat == MERGED else ws)), f'{what}: stopped although repeats are left')
    ctx.ok((sizes, [[len(t) for t in cur]]), len(recs) // 2 + 1)
    for s in sizes:
        ctx.state((traces, cfg, s))
    # the hooks are optional and do not influence the result; a second execution of the same part works from scratch
    res2 = Pipeline(DiscoverActivitiesInstancesFromRepeatsUntilNoMore(EXTR[ei], **kw))(PipelinePartResult().with_log(log))
    rounds = len(recs)
    del recs[:]
    res3 = Pipeline(part)(PipelinePartResult().with_log(log))
    ctx.op(2)
    for r in (res2, res3):
        check_eq(shape(log_of(r)), shape(final), f'{what}: a second execution differs')
    check_eq(len(recs), rounds, f'{what}: rounds of a second execution')
    for k in range(0, len(recs), 2):
        for a in walk(recs[k][2]):
            check_eq(a.activity_level, lvl + (k // 2 if inc else 0), f'{what}: level of the activities of a second execution')
    check_eq(snap(log), before, f'{what}: the original log was modified')


def shape(log):
    def ev(e):
        if 'id' in e.payload:
            return e['id']
        return [ev(u) for k, v in e.payload.items() if isinstance(v, list) and v and hasattr(v[0], 'payload') for u in v]
    return [[ev(e) for e in t] for t in log]


MAIN = [(s, 0, 0, n, h, 0, False) for s in (ALL, MERGED) for n in (True, False) for h in (True, False)]
OPTS = [(ALL, 0, 1, True, True, 0, True), (MERGED, 0, 1, True, False, 2, True), (ALL, 0, 2, True, True, 1, False), (MERGED, 0, 2, False, False, 0, True),
        (ALL, 0, 3, True, False, 0, False), (ALL, 1, 0, True, True, 0, True), (ALL, 1, 1, False, False, 0, False), (ALL, 2, 0, True, True, 3, True),
        (MERGED, 0, 3, False, True, 5, True)]


def gen_logs(tier):
    q = tier == 'quick'
    for t in gen.logs(3, 2, 5 if q else 6, canonical=True):
        yield [t, 'all']
    for t in gen.logs(3, 3, 4 if q else 5, min_traces=3):
        yield [t, 'main']
    for w in gen.rgs(8 if q else 10, 3, 6):
        yield [[w], 'main']
    for w in gen.rgs(6 if q else 8, 4, 5):
        for i in range(len(w) + 1):
            yield [[w[:i], w[i:]], 'opts']


def run_logs(ctx, traces, which):
    for cfg in (MAIN if which != 'opts' else []) + (OPTS if which != 'main' else []):
        check_run(ctx, traces, cfg)


def gen_names():
    for a, b in itertools.permutations(range(len(gen.CONFUSABLE)), 2):
        yield [a, b]


def run_names(ctx, a, b):
    nm = [gen.CONFUSABLE[a], gen.CONFUSABLE[b]]
    for cfg in ((ALL, 0, 0, True, False, 0, False), (MERGED, 0, 0, True, True, 0, False)):
        check_run(ctx, [[0, 1, 0, 1], [1, 0]], cfg, nm)


def gen_scale(tier):
    for n in (8, 13, 21, 34) + (() if tier == 'quick' else (55, 80)):
        for k in range(5):
            yield [n, k]


def run_scale(ctx, n, k):
    w = {0: [i % 2 for i in range(n)], 1: [i % 3 for i in range(n)], 2: [(i * i) % 5 for i in range(n)],
         3: [0] * (n // 2) + [1] * (n - n // 2), 4: [bin(i).count('1') % 4 for i in range(n)]}[k]
    for cfg in MAIN[:1] + MAIN[5:6] + OPTS[:1]:
        check_run(ctx, [w, w[::-1], w[: n // 2]], cfg)


def pseudo(seed, n, k):
    """a fixed irregular word"""
    x = seed * 2654435761 % 2 ** 32
    for _ in range(n):
        x = (x * 1664525 + 1013904223) % 2 ** 32
        yield (x >> 16) % k


def gen_rounds(tier):
    for n, k, parts, seed in ((100, 6, 2, 2), (200, 12, 2, 6), (300, 12, 2, 14)) + (() if tier == 'quick' else ((240, 12, 3, 19), (300, 12, 2, 31))):
        for i in range(3):
            yield [n, k, parts, seed, i]


def run_rounds(ctx, n, k, parts, seed, i):
    w = list(pseudo(seed, n, k))
    check_run(ctx, [w[j * n // parts:(j + 1) * n // parts] for j in range(parts)],
              [(MERGED, 0, 0, False, True, 0, True), (MERGED, 0, 0, False, False, 3, False), (ALL, 0, 0, False, False, 1, True)][i])


def families(tier):
    q = tier == 'quick'
    return [
        Family('logs', lambda: gen_logs(tier), run_logs, f'all canonical logs of <=2 traces/<={5 if q else 6} events/3 names, 3 traces/<={4 if q else 5}, single traces <={8 if q else 10}; 4 names <={6 if q else 8} events in <=2 traces; x 8 main and 9 option settings'),
        Family('names', gen_names, run_names, 'all pairs of confusable names'),
        history_family(run_logs, wide=False, args=lambda t: [t, 0]),
        Family('scale', lambda: gen_scale(tier), run_scale, 'long regular logs'),
        Family('rounds', lambda: gen_rounds(tier), run_rounds, 'irregular logs of up to 300 events with up to 19 rounds'),
    ]
