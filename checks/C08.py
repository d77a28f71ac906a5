"""C08: completing unattached events keeps existing instances and adds exactly the instances of the free stretches."""
import copy
import itertools

from vlib.core import Family, check, check_eq
from vlib import gen, ref
from vlib.fic import history_family, mk_log, snap, snap_event, forest, flat, inst, as_ref, snap_inst, snap_nodes

from ficus.legacy.analysis.patterns.event_log_patterns import add_unattached_activities, create_unattached_events_log, full_fill_activities
from ficus.legacy.analysis.patterns.util import default_class_extractor
from ficus.legacy.pipelines.analysis.high_level import (AdjustingMode, AdjustWithActivitiesFromUnattachedEvents, DiscoverActivitiesForSeveralLevels)
from ficus.legacy.pipelines.analysis.patterns.patterns_parts import (ActivitiesDiscoveryStrategy, DiscoverActivitiesInUnattachedSubTraces)
from ficus.legacy.pipelines.contexts.accessors import activities, log as log_of, traces_activities
from ficus.legacy.pipelines.contexts.part_results import PipelinePartResult
from ficus.legacy.pipelines.pipelines import Pipeline
from ficus.legacy.util import concept_name

PROPERTY = 'C08'
ASSUMPTIONS = ['the given instances of a trace are ordered and disjoint, as every discovery step reports them',
               'instance filters look at the activity and the length of an instance, not at its absolute position']
N = 'ABC'


# ------------------------------------------------------------------------------------------------- unattached events log
def gen_unatt(tier):
    n = 6 if tier == 'quick' else 8
    for total in range(0, n + 1):
        for t in range(0 if total == 0 else 1, 4 if total <= 4 else 3):
            for lens in (gen.compositions(total, t) if t else [[]]):
                for ivs in itertools.product(*[list(gen.intervals(k)) for k in lens]):
                    yield [lens, list(ivs)]


_foreign = []


def foreign():
    if not _foreign:
        _foreign.extend(flat([['Q'], ['A', 'B']], level=7, names=['f0', 'f1']))
    return _foreign


def run_unatt(ctx, lens, ivs):
    log = mk_log([[i % 3 for i in range(n)] for n in lens])
    acts = [[inst(foreign()[i % 2], s, ln) for i, (s, ln) in enumerate(iv)] for iv in ivs]
    b, ba = snap(log), snap_inst(acts)
    got = create_unattached_events_log(log, acts)
    ctx.op()
    want = [[snap_event(t[i]) for s, e in ref.gaps(len(t), iv) for i in range(s, e)] for t, iv in zip(log, ivs)]
    check_eq([[snap_event(e) for e in t] for t in got], want, f'{lens} {ivs}: unattached events')
    # completing with a caller's creator: it gets every free stretch once, what it makes is added
    seen, made = [], []

    def create(events):
        seen.append([snap_event(e) for e in events])
        made.append(inst(foreign()[1], 100 + len(made), len(seen[-1])))
        return [made[-1]]
    full = full_fill_activities(log, acts, create)
    ctx.op()
    check_eq(seen, [[snap_event(e) for e in list(t)[s:e_]] for t, iv in zip(log, ivs) for s, e_ in ref.gaps(len(t), iv)], f'{lens} {ivs}: stretches given to the creator')
    check_eq(len(full), len(lens), f'{lens} {ivs}: number of traces')
    ids = lambda xs: sorted((i.start_pos, i.length, i.node.name) for i in xs)
    k = 0
    for t, iv, a, g in zip(log, ivs, acts, full):
        n = len(ref.gaps(len(t), iv))
        check_eq(ids(g), ids(a + made[k:k + n]), f'{lens} {ivs}: completed instances')
        k += n
    check_eq(snap(log), b, 'the log was modified')
    check_eq(snap_inst(acts), ba, 'the instances were modified')
    ctx.ok(want)
    ctx.state([lens, ivs])


# ------------------------------------------------------------------------------------------------------- adding activities
def check_added(ctx, words, old, new, racts, narrow, min_events, keep, what):
    """old/new: lists of lists of instances; racts: reference hierarchy of the activities used"""
    check_eq(len(new), len(words), f'{what}: number of traces')
    by_node = {}
    st = list(racts)
    while st:
        a = st.pop()
        by_node[id(a.node)] = a
        st.extend(a.children)
    for w, o, g in zip(words, old, new):
        pos = 0
        for i in g:
            check(i.start_pos >= pos and i.length > 0, f'{what}: instances unsorted or overlapping', [(x.start_pos, x.length) for x in g])
            pos = i.start_pos + i.length
        check(pos <= len(w), f'{what}: instance outside the trace')
        oldkeys = [(i.start_pos, i.length, id(i.node)) for i in o]
        newkeys = [(i.start_pos, i.length, id(i.node)) for i in g]
        for k in oldkeys:
            check(k in newkeys, f'{what}: an existing instance was lost or altered', k[:2])
        added = [i for i in g if (i.start_pos, i.length, id(i.node)) not in oldkeys]
        want = []
        for s, e in ref.gaps(len(w), [(i.start_pos, i.length) for i in o]):
            if e - s < min_events:
                continue
            want += [(s + a, ln, adm) for a, ln, adm in ref.segment(w[s:e], racts, narrow)]
        if keep is not None:
            sel = []
            k = 0
            for s, ln, adm in want:
                cand = [a for a in adm if keep(a.name, ln)]
                if k < len(added) and added[k].start_pos == s:
                    sel.append((s, ln, cand))
                    k += 1
                else:
                    check(len(cand) < len(adm), f'{what}: instance at {s} is missing')
            want = sel
        check_eq([(i.start_pos, i.length) for i in added], [(s, ln) for s, ln, _ in want], f'{what}: added instances')
        for i, (s, ln, adm) in zip(added, want):
            a = by_node.get(id(i.node))
            check(a is not None and any(a is x for x in adm), f'{what}: activity of the added instance at {s}: {i.node.name}, expected one of {[x.name for x in adm]}')
        ctx.ok([(s, ln, sorted(x.name for x in adm)) for s, ln, adm in want])


HIER = [[], [['A']], [['A', 'B'], ['A']], [['A', 'B'], ['B', 'C'], ['B']], [['A', 'B', 'C'], ['A', 'C'], ['C'], ['A']], [['C'], ['B']]]
KEEP = [None, lambda name, ln: ln >= 2, lambda name, ln: 'A' not in name]
_h = {}


def hier(k):
    if k not in _h:
        roots, _ = forest(HIER[k], level=1)
        _h[k] = roots, as_ref(roots, N)
    return _h[k]


def gen_add(tier):
    for w in gen.words(3, 4 if tier == 'quick' else 5):
        for iv in gen.intervals(len(w)):
            yield [[w], [iv]]
    for w in gen.rgs(6 if tier == 'quick' else 7, 3, 5):
        for iv in gen.intervals(len(w), 3):
            yield [[w], [iv]]
    for n, m in itertools.product(range(3), repeat=2):
        for iv1 in gen.intervals(n + 1):
            for iv2 in gen.intervals(m):
                yield [[[0, 1, 2][:n + 1], [1, 0][:m]], [iv1, iv2]]


def run_add(ctx, traces, ivs):
    log = mk_log(traces)
    words = [[N[c] for c in t] for t in traces]
    b = snap(log)
    for k in range(len(HIER)):
        roots, racts = hier(k)
        for mn in ((1, 2, 3) if k in (1, 3) else (1,)):
            for ki, keep in enumerate(KEEP):
                for narrow in ((True, False) if ki == 0 else (True,)):
                    old = [[inst(foreign()[j % 2], s, ln) for j, (s, ln) in enumerate(iv)] for iv in ivs]
                    ob = snap_inst(old)
                    kw = dict(should_narrow_activity=narrow)
                    if keep is not None:
                        kw['activities_in_trace_filter'] = lambda i, f=keep: f(i.node.name, i.length)
                    what = (traces, ivs, HIER[k], mn, ki, narrow)
                    if ki == 1:
                        res = PipelinePartResult().with_log(log).with_activities(list(roots)).with_trace_activities(old)
                        new = traces_activities(Pipeline(DiscoverActivitiesInUnattachedSubTraces(default_class_extractor, mn, **kw))(res))
                    else:
                        new = add_unattached_activities(log, roots, old, default_class_extractor, min_number_of_events=mn, **kw)
                    ctx.op()
                    check_added(ctx, words, old, new, racts, narrow, mn, keep, what)
                    check_eq(snap_inst(old), ob, f'{what}: the given instances were modified')
    check_eq(snap(log), b, 'the log was modified')
    ctx.state([traces, ivs])


# ------------------------------------------------------------------------------------------------------------ level loop
PN = ['Aa', 'Ab', 'Ba', 'Cb']
EX = [lambda e: e[concept_name], lambda e: e[concept_name][0], lambda e: e[concept_name][1:]]
UNI = sorted(PN + ['A', 'B', 'C', 'a', 'b'])
CHAINS = [[0], [0, 1], [0, 2], [0, 1, 2], [1, 0], [2, 1]]


def gen_levels(tier):
    q = tier == 'quick'
    for t in gen.logs(4, 2, 5 if q else 6):
        yield [t]
    for w in gen.rgs(7 if q else 8, 4, 6):
        yield [[w]]
    for t in gen.logs(3, 3, 6 if q else 7, min_traces=3):
        if sum(map(len, t)) == 6:
            yield [t]


def ref_class_sets(words):
    return {frozenset(s) for w in words for s in ref.repeats(w, 0)}


def node_sets(racts):
    out = []
    st = list(racts)
    while st:
        a = st.pop()
        out.append(sorted(a.classes))
        st.extend(a.children)
    return sorted(out)


def run_levels(ctx, traces):
    log = mk_log(traces, PN)
    b = snap(log)
    long = sum(map(len, traces)) > 5
    for chain in CHAINS if not long else [CHAINS[3], CHAINS[5]]:
        for mode in (AdjustingMode.FromAllLog, AdjustingMode.FromUnattachedSubTraces):
            for mn, narrow, strat in ((1, True, 0), (2, True, 0), (1, False, 0), (1, True, 1)):
                strategy = [ActivitiesDiscoveryStrategy.DiscoverFromAllTraces, ActivitiesDiscoveryStrategy.DiscoverFromSingleMergedTrace][strat]
                if strat == 1 and not set(chain) <= {0}:
                    continue  # the class of a separator event under a user extractor is not specified
                what = (traces, chain, mode.name, mn, narrow, strat)
                cur = PipelinePartResult().with_log(log)
                prev = [[] for _ in traces]
                prev_roots = []
                for lev, x in enumerate(chain):
                    words = [[EX[x](e) for e in t] for t in log]
                    given = copy.copy(cur)
                    lists = (list(activities(cur)) if lev else [], snap_inst(prev))
                    shared = activities(cur) if lev else None
                    cur = AdjustWithActivitiesFromUnattachedEvents(EX[x], lev, activities_discovery_strategy=strategy, min_events_in_trace=mn,
                                                                   adjusting_mode=mode, should_narrow_activity=narrow)(cur)
                    ctx.op()
                    if lev:
                        check_eq(list(map(id, shared)), list(map(id, lists[0])), f'{what}: a list of activities of an earlier context was modified')
                    roots = activities(cur)
                    check_eq(list(map(id, roots[:len(prev_roots)])) if not lev else sorted(id(r) for r in prev_roots if any(r is y for y in roots)),
                             sorted(map(id, prev_roots)), f'{what}: activities of earlier levels were lost')
                    fresh = [r for r in roots if not any(r is y for y in prev_roots)]
                    rfresh = as_ref(fresh, UNI)
                    if mode == AdjustingMode.FromAllLog:
                        src = words
                    else:
                        src = [[w[i] for s, e in ref.gaps(len(w), [(i.start_pos, i.length) for i in p]) for i in range(s, e)] for w, p in zip(words, prev)]
                    if strat == 1:
                        src = [ref.merged(src)]
                    check_eq(node_sets(rfresh), sorted(map(sorted, ref_class_sets(src))), f'{what}: activities found at level {lev}')
                    for a in fresh:
                        check_eq(a.activity_level, lev, f'{what}: level of an activity')
                    racts = as_ref(roots, UNI)
                    check_added(ctx, words, prev, traces_activities(cur), racts, narrow, mn, None, (what, lev))
                    prev, prev_roots = traces_activities(cur), list(roots)
                # the loop over levels is the composition of the steps
                for init in (0, 3):
                    whole = DiscoverActivitiesForSeveralLevels([EX[x] for x in chain], strategy, init, mn, mode, should_narrow_activity=narrow)(PipelinePartResult().with_log(log))
                    ctx.op()
                    check_eq([[(i.start_pos, i.length, i.node.name, i.node.activity_level - init) for i in t] for t in traces_activities(whole)],
                             [[(i.start_pos, i.length, i.node.name, i.node.activity_level) for i in t] for t in prev], f'{what}: several levels at once')
                    check_eq(sorted((a.name, a.activity_level - init) for a in activities(whole)), sorted((a.name, a.activity_level) for a in prev_roots), f'{what}: activities of several levels at once')
                ctx.ok()
    check_eq(snap(log), b, 'the log was modified')
    ctx.state(traces)


def gen_scale():
    for n in (60, 300, 1300):
        for d in (2, 3, 5, 11):
            for g in (1, 2, 7):
                yield [n, d, g]


def run_scale(ctx, n, d, g):
    w = [(i * i + i // d) % 3 for i in range(n)]
    log = mk_log([w, w[::-1]])
    words = [[N[c] for c in t] for t in (w, w[::-1])]
    ivs = [[i, min(d, n - i)] for i in range(g, n, d + g)]
    for k in range(1, len(HIER)):
        roots, racts = hier(k)
        old = [[inst(foreign()[0], s, ln) for s, ln in ivs], []]
        new = add_unattached_activities(log, roots, old, default_class_extractor, min_number_of_events=1 + k % 3)
        ctx.op()
        check_added(ctx, words, old, new, racts, True, 1 + k % 3, None, (n, d, g, k))
    ctx.state([n, d, g])


def families(tier):
    q = tier == 'quick'
    return [
        Family('unattached_log', lambda: gen_unatt(tier), run_unatt, f'all trace lengths with <={6 if q else 8} events x all sets of disjoint instances'),
        Family('adding', lambda: gen_add(tier), run_add, 'all traces of <=4 (5) events over 3 classes and canonical ones of <=6 (7) x all disjoint instances x 6 hierarchies x min sizes x filters x narrowing'),
        Family('levels', lambda: gen_levels(tier), run_levels, 'all logs of <=2 traces/<=5 (6) events over 4 names, canonical traces of 6-7 (8) events, 3-trace logs x chains of extractors x modes x sizes x strategies'),
        history_family(run_levels, wide=False),
        Family('scale', gen_scale, run_scale, 'long regular layouts'),
    ]
