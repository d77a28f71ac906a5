"""C06: maximal / super-maximal / near-super-maximal repeats are exact."""
import itertools

from vlib.core import Family, check, check_eq
from vlib import gen, ref
from vlib.fic import history_family, mk_log, snap, names

from ficus.legacy.analysis.event_log_split import merge_all_traces_in_one_log
from ficus.legacy.analysis.patterns.event_log_patterns import (find_maximal_repeats, find_near_super_maximal_repeats,
                                                               find_super_maximal_repeats)
from ficus.legacy.pipelines.analysis.patterns.patterns_parts import (ActivitiesDiscoveryStrategy,
                                                                     DiscoverActivitiesFromPatterns, DiscoverRepeats)
from ficus.legacy.pipelines.contexts.accessors import activities, log as get_log, patterns
from ficus.legacy.pipelines.contexts.part_results import RepeatActivitiesSource
from ficus.legacy.pipelines.pipelines import Pipeline
from ficus.legacy.pipelines.start.start_parts import UseExistingLog

PROPERTY = 'C06'
ASSUMPTIONS = ['results are compared as sets of contents with positions checked; the order of reported repeats is not promised']

FUNCS = [find_maximal_repeats, find_super_maximal_repeats, find_near_super_maximal_repeats]
KINDS = [RepeatActivitiesSource.MaximalRepeats, RepeatActivitiesSource.SuperMaximalRepeats, RepeatActivitiesSource.NearSuperMaximalRepeats]
KN = ['maximal', 'super-maximal', 'near-super-maximal']


def contents(w, infos, what):
    out = []
    for r in infos:
        check(0 <= r.first_pos and r.length >= 1 and r.first_pos + r.length <= len(w), f'{what}: repeat outside the trace', r)
        out.append(tuple(w[r.first_pos:r.first_pos + r.length]))
    check(len(out) == len(set(out)), f'{what}: a repeat is reported twice', out)
    return set(out)


def compare_words(ctx, got, traces, kind, what):
    check_eq(len(got), len(traces), f'{what}: number of analysed traces')
    for w, infos in zip(traces, got):
        c = contents(w, infos, what)
        check_eq(sorted(map(repr, c)), sorted(map(repr, ref.repeats(w, kind))), f'{KN[kind]} repeats of {w} in {what}')
        ctx.ok(sorted(map(repr, c)))


def compare(ctx, log, traces, what, extractor=None):
    for kind in range(3):
        got = FUNCS[kind](log, extractor) if extractor is not None else FUNCS[kind](log)
        ctx.op()
        compare_words(ctx, got, traces, kind, what)


def gen_words(tier):
    q = tier == 'quick'
    for w in gen.rgs(6, 4):
        yield [w]
    for k, hi in ((2, 11 if q else 14), (3, 9 if q else 11), (4, 8 if q else 10)):
        for w in gen.rgs(hi, k, 7):
            if len(set(w)) == k or (k == 2 and len(set(w)) == 1):
                yield [w]


def run_word(ctx, w):
    log = mk_log([w])
    ctx.op(len(w) + 1)
    before = snap(log)
    compare(ctx, log, [w], w)
    check_eq(snap(log), before, 'the log was modified')
    ctx.state(w)


def gen_logs(tier):
    for t in gen.logs(3, 3, 6 if tier == 'quick' else 7):
        yield [t]


def run_log(ctx, traces):
    """several traces: independent analysis, and analysis after merging (pipeline)"""
    log = mk_log(traces)
    ctx.op(sum(map(len, traces)) + 1)
    before = snap(log)
    compare(ctx, log, traces, traces)
    for kind in range(3):
        got = patterns(Pipeline(UseExistingLog(), DiscoverRepeats(KINDS[kind]))(log))
        ctx.op()
        compare_words(ctx, got, traces, kind, ('pipeline', traces))
        for strategy, ws in ((ActivitiesDiscoveryStrategy.DiscoverFromAllTraces, traces),
                             (ActivitiesDiscoveryStrategy.DiscoverFromSingleMergedTrace, [ref.merged(traces)])):
            res = Pipeline(UseExistingLog(), DiscoverActivitiesFromPatterns(DiscoverRepeats(KINDS[kind]), strategy))(log)
            ctx.op()
            compare_words(ctx, patterns(res), ws, kind, ('strategy', strategy, traces))
            check(get_log(res) is log, 'the log in the context was replaced')
            sets = {frozenset(c) for w in ws for c in ref.repeats(w, kind)}
            got_names = set()
            stack = list(activities(res))
            while stack:
                a = stack.pop()
                got_names.add(a.name)
                stack.extend(a.child_nodes)
            check_eq(sorted(got_names), sorted('::'.join(sorted(gen.LETTERS[i] for i in s)) for s in sets), f'activities of {traces} kind {KN[kind]}, strategy {strategy}')
            ctx.ok()
    check_eq(snap(log), before, 'the log was modified')
    ctx.state(traces)


def gen_merge(tier):
    for t in gen.logs(3, 4, 5 if tier == 'quick' else 6):
        yield [t]


def run_merge(ctx, traces):
    log = mk_log(traces)
    before = snap(log)
    m = merge_all_traces_in_one_log(log)
    ctx.op()
    check_eq(len(m), 1, 'number of traces after merging')
    out = list(m[0])
    expected_len = sum(map(len, traces)) + len(traces)
    check_eq(len(out), expected_len, 'events after merging')
    i, uniq = 0, []
    for t in log:
        for e in t:
            check(out[i] is not e, 'merged events must be copies')
            check_eq(dict(out[i].payload), dict(e.payload), 'merged event')
            i += 1
        uniq.append(out[i]['concept:name'])
        i += 1
    check(len(set(uniq)) == len(uniq) and not set(uniq) & {n for t in names(log) for n in t}, 'separators must be unique', uniq)
    for e in out:
        e['changed'] = 1
    check_eq(snap(log), before, 'changing the merged log changed the original')
    ctx.state(['m', traces])
    ctx.ok(traces)


def gen_names():
    c = gen.CONFUSABLE
    for i, j in itertools.permutations(range(len(c)), 2):
        yield [i, j]


def run_names(ctx, i, j):
    x, y = gen.CONFUSABLE[i], gen.CONFUSABLE[j]
    for w in ([x, y], [x, x, y], [x, y, x], [x, y, y, x, y], [x, 'Q', y, 'Q', x], [y, 'P', x, 'P', y, x]):
        log = mk_log([w])
        compare(ctx, log, [w], w)
        ctx.state(w)


EXTR = [lambda e: e['concept:name'][0], lambda e: e['concept:name'][1:], lambda e: 'x', lambda e: str(e['id'] % 2)]


def gen_extr(tier):
    for w in gen.rgs(6, 4):
        for k in range(len(EXTR)):
            yield [w, k]


def run_extr(ctx, w, k):
    log = mk_log([w, w[::-1]], ['Aa', 'Ab', 'Ba', 'Bb'])
    ws = [[EXTR[k](e) for e in t] for t in log]
    compare(ctx, log, ws, (w, 'extractor', k), extractor=EXTR[k])
    for kind in range(3):
        got = patterns(Pipeline(UseExistingLog(), DiscoverRepeats(KINDS[kind], class_extractor=EXTR[k]))(log))
        ctx.op()
        compare_words(ctx, got, ws, kind, ('pipeline', w, k))
    ctx.state(['x', w, k])


def gen_long():
    for n in range(1, 41):
        for form in range(5):
            yield [n, form]


def run_long(ctx, n, form):
    """parametrised longer traces: a^n, (ab)^n, u x u with |u| = n, u x u y u, u^3 over n letters"""
    u = [f'e{i}' for i in range(n)]
    if form == 0:
        w = ['a'] * n
    elif form == 1:
        w = ['a', 'b'] * min(n, 15)
    elif form == 2:
        w = u + ['X'] + u
    elif form == 3:
        w = u + ['X'] + u + ['Y'] + u[:n // 2]
    else:
        w = (u * 3)[:40]
    compare(ctx, mk_log([w]), [w], w)
    ctx.state(w)


def families(tier):
    q = tier == 'quick'
    return [
        Family('words', lambda: gen_words(tier), run_word, f'all traces up to renaming: <=6/4 classes, {11 if q else 14}/2, {9 if q else 11}/3, {8 if q else 10}/4'),
        Family('logs', lambda: gen_logs(tier), run_log, f'all logs of <=3 traces, <={6 if q else 7} events, 3 classes; all kinds, both strategies'),
        Family('merge', lambda: gen_merge(tier), run_merge, 'all logs of <=4 traces'),
        Family('names', gen_names, run_names, 'all ordered pairs of confusable names in 6 layouts'),
        Family('extractors', lambda: gen_extr(tier), run_extr, 'all traces up to 6 events x 4 class extractors'),
        history_family(run_log),
        Family('long', gen_long, run_long, 'five parametrised families of traces, n = 1..40'),
    ]
