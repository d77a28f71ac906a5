"""C17: logs of activities (plain and with promotion), level selection and event class trees."""
import copy
import itertools

from vlib.core import Family, check, check_eq
from vlib import gen
from vlib.fic import history_family, mk_log, snap, snap_event, flat, forest, inst, ev, classes, snap_inst

from ficus.legacy.analysis.patterns.event_log_patterns import (build_class_tree, create_logs_for_activities,
                                                               create_logs_for_activities_with_promote)
from ficus.legacy.analysis.patterns.patterns_models import SubArrayWithTraceIndex
from ficus.legacy.analysis.patterns.util import (default_class_extractor, get_activities_for_level,
                                                 select_traces_activities_for_activity_level, split_activities_by_level,
                                                 split_activities_by_levels_dict)
from ficus.legacy.pipelines.analysis.high_level import AdjustingMode, DiscoverActivitiesForSeveralLevels
from ficus.legacy.pipelines.analysis.patterns.patterns_graph_parts import BuildEventClassTree
from ficus.legacy.pipelines.analysis.patterns.patterns_parts import (ActivitiesDiscoveryStrategy, CreateLogsForActivities,
                                                                     CreateLogsForActivitiesWithPromote)
from ficus.legacy.pipelines.contexts.accessors import activities_to_logs, event_class_tree, log as log_of, traces_activities
from ficus.legacy.pipelines.contexts.part_results import PipelinePartResult
from ficus.legacy.pipelines.pipelines import Pipeline
from ficus.legacy.util import concept_name

PROPERTY = 'C17'
ASSUMPTIONS = ['the class extractors of successive levels coarsen each other (applying a coarser one to the class given by a finer one '
               'gives the same as applying it to the event), as the level hierarchy requires',
               'the instances of a trace are ordered and disjoint (C04, C08)']
NAMES = ['Aa1', 'Aa2', 'Ab1', 'Bb1']
EXT = [default_class_extractor, lambda e: e[concept_name][:2], lambda e: e[concept_name][:1]]


def renamed(e, ext):
    c = dict(e.payload)
    c[concept_name] = ext(e)
    return tuple(sorted((str(k), repr(v)) for k, v in c.items()))


def pic(logs):
    return {n: [[tuple(sorted((str(k), repr(v)) for k, v in e.payload.items())) for e in t] for t in lg] for n, lg in logs.items()}


def check_logs(ctx, log, acts, got, want, what):
    """got: name -> log; want: name -> list of traces of pictures"""
    check_eq(pic(got), want, f'{what}: logs of the activities')
    b = snap(log)
    for lg in got.values():
        for t in lg:
            for e in t:
                e[concept_name] = 'changed'
                e['extra'] = 1
            if len(t):
                t.append(t[0])
    check_eq(snap(log), b, f'{what}: the created logs share events with the original log')
    ctx.ok(sorted((n, len(v)) for n, v in want.items()))


# -------------------------------------------------------------------------------------------------------- plain
_nodes = {}


def plain_nodes():
    if not _nodes:
        _nodes[0] = (flat([['Aa1'], ['Aa1', 'Bb1']], level=0) + flat([['Aa'], ['Ab', 'Aa']], level=1) + flat([['Aa1']], level=1) + flat([['Bb1']], level=2))
    return _nodes[0]


def gen_plain(tier):
    n = 4 if tier == 'quick' else 5
    for total in range(0, n + 1):
        for t in range(0 if total == 0 else 1, 3):
            for lens in (gen.compositions(total, t) if t else [[]]):
                for ivs in itertools.product(*[list(gen.intervals(k)) for k in lens]):
                    cnt = sum(map(len, ivs))
                    if cnt <= (3 if tier == 'quick' else 4):
                        for asg in itertools.product(range(6), repeat=cnt):
                            yield [lens, list(ivs), list(asg)]


def build(lens, ivs, asg, nodes):
    log = mk_log([[(i * 3 + k) % 4 for i in range(n)] for k, n in enumerate(lens)], NAMES)
    it = iter(asg)
    return log, [[inst(nodes[next(it)], s, ln) for s, ln in iv] for iv in ivs]


def run_plain(ctx, lens, ivs, asg):
    for level in (0, 1, 3):
        for xi, part in ((0, False), (1, True), (2, False)):
            log, acts = build(lens, ivs, asg, plain_nodes())
            b, ba = snap(log), snap_inst(acts)
            want = {}
            for t, a in zip(log, acts):
                for i in a:
                    if i.node.activity_level == level:
                        want.setdefault(i.node.name, []).append([renamed(t[j], EXT[xi]) for j in range(i.start_pos, i.start_pos + i.length)])
            if part:
                res = Pipeline(CreateLogsForActivities(level, EXT[xi]))(PipelinePartResult().with_log(log).with_trace_activities(acts))
                got = activities_to_logs(res)
                check(log_of(res) is log or snap(log_of(res)) == b, 'the log of the context was replaced')
            else:
                got = create_logs_for_activities(log, acts, level, EXT[xi])
            ctx.op()
            what = (lens, ivs, asg, level, xi)
            check_eq(snap(log), b, f'{what}: the log was modified')
            check_eq(snap_inst(acts), ba, f'{what}: the instances were modified')
            check_logs(ctx, log, acts, got, want, what)
        sel = select_traces_activities_for_activity_level(acts, level)
        check_eq(snap_inst(sel), snap_inst([[i for i in t if i.node.activity_level == level] for t in acts]), f'{what}: instances of level {level}')
    ctx.state((lens, ivs, asg))


# ----------------------------------------------------------------------------------------------------- promotion
_pn = {}


def promo_nodes():
    if not _pn:
        sets = [['Aa1'], ['Aa1', 'Aa2'], ['Aa1', 'Bb1'], ['Aa2', 'Ab1']]
        _pn[0] = [n for lv in range(3) for n in flat(sets, level=lv, extractor=EXT[lv])]
        _pn[1] = [s for lv in range(3) for s in sets]
    return _pn[0], _pn[1]


def gen_promo(tier):
    n = 3 if tier == 'quick' else 4
    for w in gen.words(4, n, 1):
        for iv in gen.intervals(len(w), 2):
            if not iv:
                continue
            for asg in itertools.product(range(12), repeat=len(iv)):
                if len(iv) == 2 and tier == 'quick' and asg[0] % 4 and asg[1] % 4:
                    continue
                yield [w, iv, list(asg)]


def expect_promo(log, acts, d, adjust, repeat_classes):
    want = {}
    for t, a in zip(log, acts):
        for i in a:
            lv = i.node.activity_level
            if lv > d:
                continue
            cov = [t[j] for j in range(i.start_pos, i.start_pos + i.length)]
            if lv < d and {EXT[d](e) for e in cov} != repeat_classes(i.node, d):
                continue
            want.setdefault(i.node.name, []).append([renamed(e, EXT[d] if adjust else default_class_extractor) for e in cov])
    return want


def run_promo(ctx, w, iv, asg):
    nodes, sets = promo_nodes()
    by = {id(n): s for n, s in zip(nodes, sets)}
    for d in range(3):
        for adjust in (True, False):
            log = mk_log([w], NAMES)
            acts = [[inst(nodes[k], s, ln) for (s, ln), k in zip(iv, asg)]]
            b, ba = snap(log), snap_inst(acts)
            want = expect_promo(log, acts, d, adjust, lambda n, d: {EXT[d](ev(x)) for x in by[id(n)]})
            if adjust:
                got = create_logs_for_activities_with_promote(log, acts, d, EXT[:d + 1])
            else:
                got = activities_to_logs(Pipeline(CreateLogsForActivitiesWithPromote(d, EXT[:d + 1], False))(
                    PipelinePartResult().with_log(log).with_trace_activities(acts)))
            ctx.op()
            what = (w, iv, asg, d, adjust)
            check_eq(snap(log), b, f'{what}: the log was modified')
            check_eq(snap_inst(acts), ba, f'{what}: the instances were modified')
            check_logs(ctx, log, acts, got, want, what)
        # activities that know only the place of their pattern in this log, not its events
        log = mk_log([w, [], [NAMES.index(x) for s in sets for x in s]], NAMES)
        acts = [[], [], []]
        for (s, ln), k in zip(iv, asg):
            bare = copy.copy(nodes[k])
            bare.repeat_events = None
            bare.repeat_set = SubArrayWithTraceIndex(first_pos=sum(map(len, sets[:k])), length=len(sets[k]), trace_index=2)
            acts[0].append(inst(bare, s, ln))
        byn = {id(i.node): sets[k] for i, k in zip(acts[0], asg)}
        want = expect_promo(log, acts, d, True, lambda n, d: {EXT[d](ev(x)) for x in byn[id(n)]})
        got = create_logs_for_activities_with_promote(log, acts, d, EXT[:d + 1])
        ctx.op()
        check_logs(ctx, log, acts, got, want, (w, iv, asg, d, 'pattern in the log'))
    ctx.state((w, iv, asg))


# ----------------------------------------------------------------------------------------------------- pipelines
def gen_pipe(tier):
    q = tier == 'quick'
    for t in gen.logs(4, 2, 5 if q else 6, canonical=True):
        yield [t]
    for w in gen.words(4, 6 if q else 7, 6):
        if len(set(w)) <= 3 and w[0] <= 1:
            yield [[w[:4], w[4:]]]


def run_pipe(ctx, traces):
    for strat in (ActivitiesDiscoveryStrategy.DiscoverFromAllTraces, ActivitiesDiscoveryStrategy.DiscoverFromSingleMergedTrace):
        for mode in (AdjustingMode.FromAllLog, AdjustingMode.FromUnattachedSubTraces):
            for levels in (2, 3):
                log = mk_log(traces, NAMES)
                # with the merged strategy coarser classes of the random separators could coincide with real ones: use a class
                # that no separator has
                res = Pipeline(DiscoverActivitiesForSeveralLevels(EXT[:levels] if strat == 0 else [sep_safe(x) for x in EXT[:levels]],
                                                                  discovering_strategy=strat, adjusting_mode=mode))(PipelinePartResult().with_log(log))
                acts = traces_activities(res)
                d = levels - 1
                what = (traces, strat, mode.name, levels)
                b = snap(log)
                for lv in range(levels):
                    got = activities_to_logs(Pipeline(CreateLogsForActivities(lv, EXT[lv]))(PipelinePartResult().with_log(log).with_trace_activities(acts)))
                    want = {}
                    for t, a in zip(log, acts):
                        for i in a:
                            if i.node.activity_level == lv:
                                want.setdefault(i.node.name, []).append([renamed(t[j], EXT[lv]) for j in range(i.start_pos, i.start_pos + i.length)])
                    check_logs(ctx, log, acts, got, want, what)
                want = expect_promo(log, acts, d, True, lambda n, d: {EXT[d](ev(c)) for c in classes(n, uni(n.activity_level))})
                got = activities_to_logs(Pipeline(CreateLogsForActivitiesWithPromote(d, EXT[:d + 1]))(
                    PipelinePartResult().with_log(log).with_trace_activities(acts)))
                ctx.op(levels + 2)
                check_logs(ctx, log, acts, got, want, what)
                check_eq(snap(log), b, f'{what}: the log was modified')
    ctx.state(traces)


def sep_safe(x):
    return lambda e: x(e) if e[concept_name] in NAMES else e[concept_name]


def uni(lv):
    return sorted({EXT[lv](ev(n)) for n in NAMES})


# ---------------------------------------------------------------------------------------------------- class trees
SEX = [lambda s: s, lambda s: s[:2], lambda s: s[:1], lambda s: s[-1:], lambda s: 'all', lambda s: s.lower(), lambda s: s + '!', lambda s: s[::-1]]
CN = ['Aa1', 'Aa2', 'Ab1', 'aA1', 'A', '']


def gen_tree(tier):
    for names in gen.subsets(range(6)):
        for k in range(0, 3 if tier == 'quick' else 4):
            for ex in itertools.product(range(len(SEX)), repeat=k):
                yield [names, list(ex)]


def tree_pic(nodes):
    return sorted((n.name, tree_pic(n.child_nodes)) for n in nodes)


def run_tree(ctx, names, ex):
    tr = [[CN[i] for i in names], [CN[i] for i in names[::-1]], []]
    log = mk_log(tr)
    b = snap(log)
    layer = [(CN[i], []) for i in names]
    for x in ex:
        nxt = {}
        for n in layer:
            nxt.setdefault(SEX[x](n[0]), []).append(n)
        layer = [(k, sorted(v)) for k, v in nxt.items()]
    want = sorted(layer)
    for got in (build_class_tree(log, [SEX[x] for x in ex]),
                event_class_tree(Pipeline(BuildEventClassTree([SEX[x] for x in ex]))(PipelinePartResult().with_log(log)))):
        check_eq(tree_pic(got), want, f'{tr} {ex}: class tree')
    ctx.op(2)
    check_eq(snap(log), b, 'the log was modified')
    ctx.ok(want)
    ctx.state((names, ex))


# --------------------------------------------------------------------------------------------------------- levels
def gen_levels(tier):
    for k in range(0, 5 if tier == 'quick' else 6):
        for lv in itertools.product((0, 1, 3), repeat=k):
            yield [list(lv)]


def run_levels(ctx, lv):
    nodes = [flat([[NAMES[i % 4]]], level=x)[0] for i, x in enumerate(lv)]
    want = {x: [id(n) for n, y in zip(nodes, lv) if y == x] for x in set(lv)}
    check_eq({k: [id(n) for n in v] for k, v in split_activities_by_levels_dict(nodes).items()}, want, f'{lv}: activities by level')
    check_eq([(k, [id(n) for n in v]) for k, v in split_activities_by_level(nodes)], sorted(want.items()), f'{lv}: activities by level, sorted')
    for x in want:
        check_eq([id(n) for n in get_activities_for_level(nodes, x)], want[x], f'{lv}: activities of level {x}')
    ctx.op(2)
    ctx.ok(lv)
    ctx.state(lv)


def gen_scale():
    for n in (40, 130, 300, 1100):
        for d in (1, 2, 7):
            yield [n, d]


def run_scale(ctx, n, d):
    """long traces with many instances, many traces, many activities, many names"""
    ivs = [(i, min(d, n - i)) for i in range(0, n, d + 1)]
    run_plain(ctx, [n, d, n], [ivs, [(0, d)], ivs[::3]], [(i * i + i // 3) % 6 for i in range(2 * len(ivs) + 1)])
    run_plain(ctx, [d] * n, [[(0, d)]] * n, [i % 6 for i in range(n)])
    names = [f'{"ABC"[i % 3]}{i % (d + 3)}_{i}' for i in range(n)]
    log = mk_log([[names[(i * i) % n] for i in range(n)], names])
    exs = [lambda x: x.split('_')[0], lambda x: x[0], lambda x: '']
    layer = [(x, []) for x in names]
    for x in exs:
        nxt = {}
        for a in layer:
            nxt.setdefault(x(a[0]), []).append(a)
        layer = [(k, sorted(v)) for k, v in nxt.items()]
    check_eq(tree_pic(build_class_tree(log, exs)), sorted(layer), f'class tree over {n} names')
    many = mk_log([['A'] * n, ['B'] * d])
    check_eq(tree_pic(build_class_tree(many, exs)), [('', [('A', [('A', [('A', [])])]), ('B', [('B', [('B', [])])])])], f'class tree of a name with {n} events')
    nodes = [flat([[NAMES[i % 4]]], level=(i * i) % (d + 1))[0] for i in range(n)]
    got = split_activities_by_level(nodes)
    check_eq([(k, [id(x) for x in v]) for k, v in got], [(k, [id(x) for i, x in enumerate(nodes) if (i * i) % (d + 1) == k]) for k in sorted({(i * i) % (d + 1) for i in range(n)})], 'activities by level')
    ctx.op(4)
    ctx.state([n, d])


def families(tier):
    q = tier == 'quick'
    return [
        Family('plain', lambda: gen_plain(tier), run_plain, f'all trace lengths with <={4 if q else 5} events in <=2 traces x all disjoint instances (<={3 if q else 4}) x all assignments of 6 activities of 3 levels x levels x extractors'),
        Family('promotion', lambda: gen_promo(tier), run_promo, f'all traces of <={3 if q else 4} events over 4 names x all pairs of instances x 12 activities of 3 levels x requested levels x naming'),
        Family('pipelines', lambda: gen_pipe(tier), run_pipe, 'all canonical logs of <=2 traces/<=5 (6) events over 4 names, longer ones over 3 names, through multi-level discovery x strategies x modes'),
        Family('class_trees', lambda: gen_tree(tier), run_tree, f'all subsets of 6 names x all sequences of <={2 if q else 3} of 8 extractors'),
        history_family(run_pipe, wide=False),
        Family('scale', gen_scale, run_scale, 'up to 1100 events, traces, instances and names'),
        Family('levels', lambda: gen_levels(tier), run_levels, 'all sequences of levels'),
    ]
