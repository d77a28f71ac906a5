"""C04: greedy segmentation of traces into activity instances."""
import itertools

from vlib.core import Family, check, check_eq
from vlib import gen, ref
from vlib.fic import history_family, mk_log, snap, forest, flat, as_ref, snap_nodes, code_of

from ficus.legacy.analysis.patterns.event_log_patterns import extract_activities_from_log
from ficus.legacy.pipelines.analysis.high_level import (DiscoverActivitiesFromTandemArrays, DiscoverActivitiesInstancesFromRepeats)
from ficus.legacy.pipelines.analysis.patterns.models import TandemArrayKind
from ficus.legacy.pipelines.analysis.patterns.patterns_parts import ActivitiesDiscoveryStrategy, DiscoverActivitiesInTraces
from ficus.legacy.pipelines.contexts.accessors import activities, traces_activities
from ficus.legacy.pipelines.contexts.part_results import PipelinePartResult, RepeatActivitiesSource
from ficus.legacy.pipelines.pipelines import Pipeline
from ficus.legacy.pipelines.start.start_parts import UseExistingLog
from ficus.legacy.util import concept_name

PROPERTY = 'C04'
ASSUMPTIONS = ['the given activities are the roots of one hierarchy, or roots at several levels, as the discovery steps produce them']


def check_trace(ctx, w, got, racts, narrow, what, keep=None):
    """w: classes of the events; racts: reference roots"""
    want = ref.segment(w, racts, narrow)
    by_node = {}
    stack = list(racts)
    while stack:
        a = stack.pop()
        by_node[id(a.node)] = a
        stack.extend(a.children)
    if keep is not None:
        # the filter sees a finished instance; its verdict may depend on the reported activity
        chosen = []
        k = 0
        for s, ln, adm in want:
            cand = [a for a in adm if keep(a.name, s, ln)]
            g = got[k] if k < len(got) and got[k].start_pos == s else None
            if g is None:
                check(len(cand) < len(adm), f'{what}: instance at {s} length {ln} is missing')
            else:
                chosen.append((s, ln, cand))
                k += 1
        want = chosen
    check_eq([(g.start_pos, g.length) for g in got], [(s, ln) for s, ln, _ in want], f'{what}: instances')
    last = 0
    for g, (s, ln, adm) in zip(got, want):
        check(g.start_pos >= last and g.length > 0 and g.start_pos + g.length <= len(w), f'{what}: instance not inside the trace in order')
        last = g.start_pos + g.length
        a = by_node.get(id(g.node))
        check(a is not None, f'{what}: the reported activity is not one of the given hierarchy', g.node.name)
        check(set(w[s:s + ln]) <= a.classes, f'{what}: event outside the classes of the activity')
        check(any(a is x for x in adm), f'{what}: instance at {s} reports {sorted(a.classes)}, expected one of {[sorted(x.classes) for x in adm]}')
    ctx.ok([(s, ln, sorted(x.name for x in adm)) for s, ln, adm in want])


NAMES = 'ABCD'
_cache = {}


def hierarchy(fam, k):
    key = (tuple(fam), k)
    if key not in _cache:
        _cache.clear()
        sets = [[NAMES[i] for i in range(k) if m >> i & 1] for m in fam]
        roots, _ = forest(sets)
        _cache[key] = roots, as_ref(roots, NAMES)
    return _cache[key]


def gen_fam3(tier):
    sets = list(range(1, 8))
    for bits in range(2 ** 7):
        fam = [s for i, s in enumerate(sets) if bits >> i & 1]
        for p in itertools.product(range(4), repeat=2):
            yield [fam, 3, 5 if tier == 'quick' else 6, list(p), 4]


def gen_fam4(tier):
    sets = list(range(1, 16))
    for n in range(1, 4 if tier == 'quick' else 5):
        for fam in itertools.combinations(sets, n):
            if max(fam) < 8:
                continue
            yield [list(fam), 4, 4 if tier == 'quick' else 5, [], 4]


def run_fam(ctx, fam, k, max_len, prefix, letters):
    roots, racts = hierarchy(fam, k)
    pic = snap_nodes(roots)
    words = [list(prefix) + w for w in gen.words(letters, max_len - len(prefix))]
    if prefix and all(x == 0 for x in prefix):
        words += list(gen.words(letters, 1))
    log = mk_log(words)
    before = snap(log)
    for narrow in (True, False):
        res = extract_activities_from_log(log, roots, **({} if narrow else {'should_narrow_activity': False}))
        ctx.op(len(words))
        check_eq(len(res), len(words), 'one list of instances per trace')
        for w, got in zip(words, res):
            check_trace(ctx, [NAMES[c] for c in w], got, racts, narrow, (w, fam, narrow))
    check_eq(snap(log), before, 'the log was modified')
    check_eq(snap_nodes(roots), pic, 'the activities were modified')
    for w in words:
        ctx.state([fam, w])


# the order in which activities are given, filters, extractors, levels
FILTERS = [None, lambda name, s, ln: ln >= 2, lambda name, s, ln: s % 2 == 0, lambda name, s, ln: 'A' not in name, lambda name, s, ln: False,
           lambda name, s, ln: ln != 2]


def gen_opts(tier):
    fams = [[3, 6], [1, 2, 4], [7, 3, 1], [3, 5, 6], [7, 1, 2, 4], [3, 4], [5, 3, 1], [1, 6, 3, 7], [4, 3, 6, 2]]
    for fi, fam in enumerate(fams):
        for perm in itertools.permutations(range(len(fam))):
            if len(fam) > 3 and perm[0] > perm[-1]:
                continue
            for w in gen.words(4, 4 if tier == 'quick' else 5, 4):
                if len(set(w)) == 1 and w[0]:
                    continue
                yield [[fam[i] for i in perm], w]


def run_opts(ctx, fam, w):
    roots, racts = hierarchy(fam, 3)
    log = mk_log([w, [], w[::-1]])
    for f in FILTERS:
        for narrow in (True, False):
            kw = {}
            if f is not None:
                kw['activity_in_trace_filter'] = lambda i, f=f: f(i.node.name, i.start_pos, i.length)
            order = list(roots) if narrow else list(roots)[::-1]
            res = traces_activities(Pipeline(DiscoverActivitiesInTraces(should_narrow_activity=narrow, **kw))(
                PipelinePartResult().with_log(log).with_activities(order)))
            ctx.op()
            for t, got in zip([w, [], w[::-1]], res):
                check_trace(ctx, [NAMES[c] for c in t], got, racts, narrow, (fam, t, narrow, FILTERS.index(f)), f)
    ctx.state([fam, w])


# several levels mixed: a list of roots that are not an antichain (activities of different levels, same classes allowed)
def gen_levels(tier):
    sets = list(range(1, 8))
    for a, b, c in itertools.product(sets, sets, [0] + sets):
        for w in gen.words(3, 4 if tier == 'quick' else 5, 4):
            yield [a, b, c, w]


_lv = {}


def run_levels(ctx, a, b, c, w):
    key = (a, b, c)
    if key not in _lv:
        _lv.clear()
        roots = []
        for lev, m in enumerate([a, b, c]):
            if m:
                roots += flat([[NAMES[i] for i in range(3) if m >> i & 1]], level=lev, names=[f'{lev}:{m}'])
        _lv[key] = roots, as_ref(roots, NAMES)
    roots, racts = _lv[key]
    res = extract_activities_from_log(mk_log([w]), roots)
    ctx.op()
    check_trace(ctx, [NAMES[x] for x in w], res[0], racts, True, (a, b, c, w))
    ctx.state([a, b, c, w])


# extractor: classes are computed from the event
PN = ['Aa', 'Ab', 'Ba', 'Cb']
EXTR = [lambda e: e[concept_name][0], lambda e: e[concept_name][1:], lambda e: str(e['id'] % 2)]


def gen_extr(tier):
    for x in range(len(EXTR)):
        for w in gen.words(4, 5 if tier == 'quick' else 6, 1):
            yield [x, w]


def run_extr(ctx, x, w):
    f = EXTR[x]
    log = mk_log([w], PN)
    cl = [f(e) for e in log[0]]
    uni = sorted({'A', 'B', 'C', 'a', 'b', '0', '1'})
    for sets in ([['A', 'B'], ['a'], ['0']], [['A'], ['B', 'C'], ['a', 'b'], ['1']], [['A', 'B', 'C'], ['A', 'C'], ['C'], ['b'], ['0', '1'], ['0']]):
        roots, _ = forest(sets)
        racts = as_ref(roots, uni)
        for narrow in (True, False):
            res = extract_activities_from_log(log, roots, f, **({} if narrow else {'should_narrow_activity': False}))
            ctx.op()
            check_trace(ctx, cl, res[0], racts, narrow, (x, w, sets))
    ctx.state([x, w])


# the combined discovery steps
COMB = [(0, TandemArrayKind.MaximalArray), (0, TandemArrayKind.PrimitiveArray), (1, RepeatActivitiesSource.MaximalRepeats),
        (1, RepeatActivitiesSource.SuperMaximalRepeats), (1, RepeatActivitiesSource.NearSuperMaximalRepeats)]


def gen_comb(tier):
    for t in gen.logs(3, 2, 6 if tier == 'quick' else 7, min_traces=1):
        yield [t, 0]
    for w in gen.words(3, 6 if tier == 'quick' else 7, 4):
        yield [[w], 1]
    for w in gen.rgs(8 if tier == 'quick' else 9, 4, 7):
        yield [[w], 0]


CEX = [None, lambda e: {'A': 'x', 'B': 'y', 'C': 'x'}[e[concept_name]]]


def ref_sets(w, kind, val):
    if kind == 0:
        f = ref.tandems if val == TandemArrayKind.MaximalArray else ref.primitive_tandems
        return {frozenset(w[i:i + L]) for i, L, r in f(w, 20)}
    return {frozenset(s) for s in ref.repeats(w, val.value)}


def run_comb(ctx, traces, x):
    log = mk_log(traces)
    before = snap(log)
    ex = CEX[x]
    kw = {} if ex is None else {'class_extractor': ex}
    f = ex or (lambda e: e[concept_name])
    words = [[f(e) for e in t] for t in log]
    uni = sorted({c for w in words for c in w})
    flt = lambda i: i.length != 2
    rflt = lambda name, s, ln: ln != 2
    for kind, val in COMB:
        for strat in ((0, 1) if kind == 1 and ex is None and len(traces) > 1 else (0,)):
            for narrow, filt in ((True, False), (False, False), (False, True), (True, True)):
                k2 = dict(kw, should_narrow_activity=narrow, activity_level=2)
                if filt:
                    k2['activity_in_trace_filter'] = flt
                if kind == 1:
                    k2['activities_discovery_strategy'] = [ActivitiesDiscoveryStrategy.DiscoverFromAllTraces, ActivitiesDiscoveryStrategy.DiscoverFromSingleMergedTrace][strat]
                part = (DiscoverActivitiesFromTandemArrays if kind == 0 else DiscoverActivitiesInstancesFromRepeats)(val, **k2)
                res = Pipeline(UseExistingLog(), part)(log)
                ctx.op()
                racts = as_ref(activities(res), uni)
                src = words if strat == 0 else [ref.merged(words)]
                want = {s for w in src for s in ref_sets(w, kind, val)}
                got = set()
                st = list(racts)
                while st:
                    a = st.pop()
                    got.add(a.classes)
                    check_eq(a.node.activity_level, 2, 'level of a discovered activity')
                    st.extend(a.children)
                what = (traces, val.name, strat, narrow, filt)
                check_eq(sorted(map(sorted, got)), sorted(map(sorted, want)), f'{what}: activities')
                for w, g in zip(words, traces_activities(res)):
                    check_trace(ctx, w, g, racts, narrow, what, rflt if filt else None)
                check_eq(len(traces_activities(res)), len(traces), f'{what}: number of traces')
    check_eq(snap(log), before, 'the log was modified')
    ctx.state([traces, x])


def gen_scale(tier):
    for n in (12, 30):
        for step in (1, 2, 3, 5, 7):
            for width in (1, 2, 4, 9):
                yield [n, step, width]


def run_scale(ctx, n, step, width):
    """many classes with long names, overlapping activities of many sizes, a long trace"""
    nm = [f'event class number {i}' for i in range(n)]
    sets = {tuple(sorted({nm[(i + j) % n] for j in range(1 + (i % width) + (3 if i % 5 == 0 else 0))})) for i in range(n)}
    sets |= {tuple(sorted(nm[:n // 2])), tuple(sorted(nm[n // 3:]))}
    sets = sorted(sets, key=lambda s: (len(s) * 7 + len(s[0])) % 11)
    w = [nm[(i * step + (i // 7) * (i % 3)) % n] for i in range(400)]
    roots, _ = forest([list(s) for s in sets])
    racts = as_ref(roots, nm)
    log = mk_log([w, w[::-1]])
    for narrow in (True, False):
        res = extract_activities_from_log(log, roots, **({} if narrow else {'should_narrow_activity': False}))
        ctx.op()
        for t, g in zip([w, w[::-1]], res):
            check_trace(ctx, t, g, racts, narrow, (n, step, width, narrow))
    ctx.state([n, step, width])


def families(tier):
    q = tier == 'quick'
    return [
        Family('families3', lambda: gen_fam3(tier), run_fam, f'all 128 families of class sets over 3 classes x all traces of <={5 if q else 6} events over 4 classes x narrowing'),
        Family('families4', lambda: gen_fam4(tier), run_fam, f'all families of <={3 if q else 4} class sets over 4 classes x all traces of <={4 if q else 5} events x narrowing'),
        Family('options', lambda: gen_opts(tier), run_opts, 'orders of activities x traces x 6 filters x narrowing through the pipeline part'),
        Family('levels', lambda: gen_levels(tier), run_levels, 'all triples of unrelated activities over 3 classes x all traces'),
        Family('extractors', lambda: gen_extr(tier), run_extr, 'class extractors x all traces over 4 names'),
        Family('combined', lambda: gen_comb(tier), run_comb, 'tandem and repeat discovery steps x kinds x strategies x narrowing x filter on all small logs'),
        history_family(run_comb, wide=False, args=lambda t: [t, 0]),
        Family('scale', lambda: gen_scale(tier), run_scale, 'regular long traces with up to 30 classes and long names'),
    ]
