"""C07: repeat sets are unique, the hierarchy is the containment hierarchy."""
import itertools

from vlib.core import Family, check, check_eq
from vlib import gen, ref
from vlib.fic import history_family, mk_log, snap

from ficus.legacy.analysis.patterns.event_log_patterns import build_repeat_set_tree, create_repeat_sets
from ficus.legacy.analysis.patterns.patterns_models import MaximalRepeatInfo, SubArrayWithTraceIndex
from ficus.legacy.analysis.patterns.util import (convert_log_sub_arrays_to_event_names, convert_sub_arrays_to_event_names, create_activity_name_from_log,
                                                    default_class_extractor, sub_array_with_event_index_to_event_names)
from ficus.legacy.pipelines.analysis.patterns.models import TandemArrayKind
from ficus.legacy.pipelines.analysis.patterns.patterns_parts import (ActivitiesDiscoveryStrategy, DiscoverActivities,
                                                                     DiscoverActivitiesFromPatterns, DiscoverRepeats,
                                                                     DiscoverRepeatsSets, DiscoverTandemArrays)
from ficus.legacy.pipelines.contexts.accessors import activities, patterns, repeat_sets
from ficus.legacy.pipelines.contexts.part_results import RepeatActivitiesSource, PipelinePartResult
from ficus.legacy.pipelines.pipelines import Pipeline
from ficus.legacy.pipelines.start.start_parts import UseExistingLog

PROPERTY = 'C07'
ASSUMPTIONS = ['the hierarchy is built from repeat sets with pairwise different class sets, as the repeat-set step delivers them']


# -------------------------------------------------------------------------------------------------------- repeat sets
def all_subarrays(traces):
    return [(ti, s, ln) for ti, t in enumerate(traces) for s in range(len(t)) for ln in range(1, len(t) - s + 1)]


def gen_sets(tier):
    n = 4 if tier == 'quick' else 5
    for t in gen.logs(3, 2, n, min_traces=1):
        subs = all_subarrays(t)
        for c in range(0, 3):
            for p in itertools.product(range(len(subs)), repeat=c):
                yield [t, [subs[i] for i in p]]
    for t in gen.logs(3, 2, 3, min_traces=1):
        subs = all_subarrays(t)
        for p in itertools.product(range(len(subs)), repeat=3):
            yield [t, [subs[i] for i in p]]


def check_repeat_sets(ctx, got, words, subs, what):
    cls = lambda ti, s, ln: frozenset(words[ti][s:s + ln])
    want = {cls(*x) for x in map(tuple, subs)}
    seen = []
    for r in got:
        key = (r.trace_index, r.first_pos, r.length)
        check(list(key) in [list(s) for s in subs], f'{what}: repeat set that is not one of the patterns', key)
        seen.append(cls(*key))
    check(len(seen) == len(set(seen)), f'{what}: the same class set twice', seen)
    check_eq(sorted(map(sorted_repr, set(seen))), sorted(map(sorted_repr, want)), f'{what}: class sets')
    ctx.ok(sorted(map(sorted_repr, want)))


def sorted_repr(s):
    return sorted(map(repr, s))


def run_sets(ctx, traces, subs):
    log = mk_log(traces)
    pats = [[MaximalRepeatInfo(first_pos=s, length=ln) for ti, s, ln in subs if ti == k] for k in range(len(traces))]
    before = snap(log)
    got = create_repeat_sets(log, pats)
    ctx.op()
    check_repeat_sets(ctx, got, traces, subs, (traces, subs))
    # the names reported for them
    names = lambda r: sorted({gen.LETTERS[c] for c in traces[r.trace_index][r.first_pos:r.first_pos + r.length]})
    check_eq([sorted(x) for x in convert_sub_arrays_to_event_names(log, got)], [names(r) for r in got], f'{traces} {subs}: names of the repeat sets')
    for r in got:
        check_eq(sorted(sub_array_with_event_index_to_event_names(log, r)), names(r), f'{traces} {subs}: names of a repeat set')
    check_eq(convert_log_sub_arrays_to_event_names(log, pats), [[[gen.LETTERS[c] for c in t[x.first_pos:x.first_pos + x.length]] for x in ps] for t, ps in zip(traces, pats)],
             f'{traces} {subs}: names of the patterns')
    check_eq(snap(log), before, 'the log was modified')
    ctx.state([traces, subs])


def gen_setnames():
    c = gen.CONFUSABLE
    for i, j in itertools.combinations(range(len(c)), 2):
        yield [i, j]


PAIRNAMES = ['a', 'b', 'c', 'B', 'ab', 'ba', 'aA', 'BB', '']


def run_setnames(ctx, i, j):
    x, y = gen.CONFUSABLE[i], gen.CONFUSABLE[j]
    for w, subs in (([x, y, x], [(0, 0, 1), (0, 1, 1), (0, 2, 1)]), ([x, y, 'Q', x], [(0, 0, 2), (0, 1, 2), (0, 2, 2), (0, 0, 4)]),
                    ([x, 'Q', 'Q', y], [(0, 0, 2), (0, 2, 2)])):
        log = mk_log([w])
        got = create_repeat_sets(log, [[MaximalRepeatInfo(first_pos=s, length=ln) for _, s, ln in subs]])
        ctx.op()
        check_repeat_sets(ctx, got, [w], subs, (w, subs))
        ctx.state([w, subs])


def gen_setpairs():
    for q in itertools.product(range(len(PAIRNAMES)), repeat=4):
        if q[0] != q[1] and q[2] != q[3]:
            yield list(q)
    # equal sets found in different orders: the order of the elements in a hash table may differ
    for c in itertools.combinations(range(len(PAIRNAMES)), 3):
        for p in itertools.permutations(c):
            yield list(c) + list(p)


def run_setpairs(ctx, *q):
    w = [PAIRNAMES[i] for i in q]
    k = len(w) // 2
    subs = [(0, 0, k), (0, k, k)]
    log = mk_log([w])
    got = create_repeat_sets(log, [[MaximalRepeatInfo(first_pos=s, length=ln) for _, s, ln in subs]])
    ctx.op()
    check_repeat_sets(ctx, got, [w], subs, (w, subs))
    ctx.state(w)


ALPHABETS = ['abcdef', 'ABCDEF', '012345', 'uvwxyz']


def gen_subsetpairs(tier):
    """all pairs of sets over consecutive one-letter names, in one trace and in two traces, and all sets at once"""
    n = 5 if tier == 'quick' else 6
    for a in range(len(ALPHABETS)):
        yield [a, 0, 0]
        for x, y in itertools.combinations(range(1, 2 ** n), 2):
            yield [a, x, y]


def run_subsetpairs(ctx, a, x, y):
    of = lambda m: [c for i, c in enumerate(ALPHABETS[a]) if m >> i & 1]
    masks = [x, y] if x else range(1, 64)
    for split in (False, True):
        traces, subs = [[]], []
        for m in masks:
            if split and traces[-1]:
                traces.append([])
            subs.append((len(traces) - 1, len(traces[-1]), len(of(m))))
            traces[-1].extend(of(m))
        log = mk_log(traces)
        got = create_repeat_sets(log, [[MaximalRepeatInfo(first_pos=s, length=ln) for ti, s, ln in subs if ti == k] for k in range(len(traces))])
        ctx.op()
        check_repeat_sets(ctx, got, traces, subs, (traces, subs))
    ctx.state([a, x, y])


# ---------------------------------------------------------------------------------------------------------- hierarchy
K = 4
SETS = [s for s in range(1, 2 ** K)]


def members(mask):
    return [i for i in range(K) if mask >> i & 1]


def gen_trees(tier):
    for n in range(0, 4 if tier == 'quick' else 5):
        for fam in itertools.permutations(SETS, n):
            yield [list(fam), 0]
    for bits in range(1, 2 ** len(SETS)):
        fam = [SETS[i] for i in range(len(SETS)) if bits >> i & 1]
        if tier == 'quick' and len(fam) > 6 and bits % 2:
            continue
        yield [fam, 1]
        if len(fam) > 3 and tier != 'quick':
            yield [fam[::-1], 2]
            yield [sorted(fam, key=lambda m: (m * 7) % 16), 0]


def check_tree(ctx, roots, classes_of, expected, level, what, names=None):
    """expected: {repeat set key: frozenset of classes}; classes_of(node) decodes a node's classes"""
    nodes, parent = [], {}
    stack = [(r, None) for r in roots]
    while stack:
        a, par = stack.pop()
        nodes.append(a)
        check(len(nodes) <= len(expected), f'{what}: more activities than repeat sets')
        parent[id(a)] = par
        stack.extend((c, a) for c in a.child_nodes)
    keys = [(a.repeat_set.trace_index, a.repeat_set.first_pos, a.repeat_set.length) for a in nodes]
    check_eq(sorted(keys), sorted(expected), f'{what}: every repeat set is one activity')
    sets = {}
    for a, k in zip(nodes, keys):
        sets[id(a)] = classes_of(a)
        check_eq(sorted_repr(sets[id(a)]), sorted_repr(expected[k]), f'{what}: classes of the activity for {k}')
        check_eq(a.length, len(expected[k]), f'{what}: size of the activity for {k}')
        check_eq(a.activity_level, level, f'{what}: level')
        if names is not None:
            check_eq(a.name, names[k], f'{what}: name of the activity for {k}')
    for a in nodes:
        sup = [b for b in nodes if sets[id(b)] > sets[id(a)]]
        par = parent[id(a)]
        if not sup:
            check(par is None, f'{what}: {a.name} must be top-level but is below {par and par.name}')
        else:
            check(par is not None, f'{what}: {a.name} must not be top-level')
            m = min(len(sets[id(b)]) for b in sup)
            check(sets[id(par)] > sets[id(a)] and len(sets[id(par)]) == m,
                  f'{what}: parent of {a.name} must be a smallest activity containing it', par.name)
    ctx.ok(sorted((a.name, parent[id(a)].name if parent[id(a)] else '') for a in nodes))


def codes(log_names, extractor=default_class_extractor):
    """internal code of every class, learned through the public API from one-event activities"""
    log = mk_log([log_names])
    roots = build_repeat_set_tree(log, [SubArrayWithTraceIndex(first_pos=i, length=1, trace_index=0) for i in range(len(log_names))],
                                  lambda r: str(r.first_pos), 0, extractor)
    return {next(iter(a.set_of_events)): extractor(log[0][a.repeat_set.first_pos]) for a in roots}


_codes = {}


def run_tree(ctx, fam, mode):
    """mode 0: each set written once; 1: events doubled so that the pattern is longer than the set; 2: two traces"""
    traces, rs, exp = [[]], [], {}
    for n, mask in enumerate(fam):
        m = members(mask)
        w = m if mode == 0 else (m + m[:1]) if mode == 1 else m[::-1]
        if mode == 2 and n % 2:
            traces.append([])
        t = traces[-1]
        rs.append(SubArrayWithTraceIndex(first_pos=len(t), length=len(w), trace_index=len(traces) - 1))
        exp[(len(traces) - 1, len(t), len(w))] = frozenset(gen.LETTERS[i] for i in m)
        t.extend(w)
    log = mk_log(traces)
    before = snap(log)
    if not _codes:
        _codes.update(codes([gen.LETTERS[i] for i in range(K)]))
    roots = build_repeat_set_tree(log, rs, lambda r: create_activity_name_from_log(log, r, default_class_extractor), 3)
    ctx.op()
    names = {k: '::'.join(sorted(v)) for k, v in exp.items()}
    check_tree(ctx, roots, lambda a: frozenset(_codes[c] for c in a.set_of_events), exp, 3, (fam, mode), names)
    res = Pipeline(DiscoverActivities(activity_level=2))(PipelinePartResult().with_log(log).with_repeat_sets(rs))
    ctx.op()
    check_tree(ctx, activities(res), lambda a: frozenset(_codes[c] for c in a.set_of_events), exp, 2, ('part', fam, mode), names)
    check_eq(snap(log), before, 'the log was modified')
    ctx.state([fam, mode])


def gen_wide():
    for n in (9, 17, 33, 65, 130, 260):
        for form in range(4):
            yield [n, form]


def run_wide(ctx, n, form):
    """many classes: one big set and all single ones / a chain of growing sets / many disjoint pairs / all windows of 3"""
    nm = [f'class {i}' for i in range(n)]
    if form == 0:
        sets = [list(range(n))] + [[i] for i in range(n)]
    elif form == 1:
        sets = [list(range(i + 1)) for i in range(0, n, 1 if n < 100 else 5)]
    elif form == 2:
        sets = [[i, i + 1] for i in range(0, n - 1, 2)] + [[i] for i in range(0, n, 3)]
    else:
        sets = [[i, i + 1, i + 2] for i in range(n - 2)] + [[i, i + 1] for i in range(0, n - 1, 2)] + [list(range(n // 2))]
    rs, exp, t = [], {}, []
    for s in sets:
        rs.append(SubArrayWithTraceIndex(first_pos=len(t), length=len(s), trace_index=0))
        exp[(0, len(t), len(s))] = frozenset(nm[i] for i in s)
        t.extend(nm[i] for i in s)
    log = mk_log([t])
    cs = codes(nm)
    pats = [[MaximalRepeatInfo(first_pos=r.first_pos, length=r.length) for r in rs]]
    check_repeat_sets(ctx, create_repeat_sets(log, pats), [t], [(0, r.first_pos, r.length) for r in rs], (n, form))
    roots = build_repeat_set_tree(log, rs, lambda r: create_activity_name_from_log(log, r, default_class_extractor), 1)
    ctx.op(2)
    check_tree(ctx, roots, lambda a: frozenset(cs[c] for c in a.set_of_events), exp, 1, (n, form), {k: '::'.join(sorted(v)) for k, v in exp.items()})
    ctx.state([n, form])


# ------------------------------------------------------------------------------------------------------------ pipelines
SOURCES = [('tandem', TandemArrayKind.MaximalArray), ('tandem', TandemArrayKind.PrimitiveArray),
           ('repeat', RepeatActivitiesSource.MaximalRepeats), ('repeat', RepeatActivitiesSource.SuperMaximalRepeats),
           ('repeat', RepeatActivitiesSource.NearSuperMaximalRepeats)]


def ref_patterns(w, src):
    if src == 0:
        return {tuple(w[i:i + L]) for i, L, r in ref.tandems(w, 20)}
    if src == 1:
        return {tuple(w[i:i + L]) for i, L, r in ref.primitive_tandems(w, 20)}
    return ref.repeats(w, src - 2)


def part(src, extractor=None):
    kind, val = SOURCES[src]
    return DiscoverTandemArrays(val, class_extractor=extractor) if kind == 'tandem' else DiscoverRepeats(val, class_extractor=extractor)


EXTR = [None, lambda e: e['concept:name'][0], lambda e: e['concept:name'][1:]]
PN = ['Aa', 'Ab', 'Ba', 'Cb']


def gen_pipe(tier):
    for t in gen.logs(4, 2, 6 if tier == 'quick' else 7):
        for x in (0, 1):
            yield [t, x]
    for w in gen.rgs(8, 3, 7):
        yield [[w], 0]
        yield [[w], 2]


def run_pipe(ctx, traces, x):
    log = mk_log(traces, PN)
    before = snap(log)
    ex = EXTR[x]
    f = ex or default_class_extractor
    words = [[f(e) for e in t] for t in log]
    cm = codes([e['concept:name'] for t in log for e in t], f) if any(traces) else {}
    for src in range(len(SOURCES)):
        res = Pipeline(UseExistingLog(), part(src, ex), DiscoverRepeatsSets(ex), DiscoverActivities(1, ex))(log)
        ctx.op(3)
        pats = [(ti, p.first_pos, p.length) for ti, t in enumerate(patterns(res)) for p in t]
        check_repeat_sets(ctx, repeat_sets(res), words, pats, (traces, x, src))
        want = {frozenset(c) for w in words for c in ref_patterns(w, src)}
        check_eq(len(repeat_sets(res)), len(want), f'number of repeat sets of {words} from source {src}')
        exp = {(r.trace_index, r.first_pos, r.length): frozenset(words[r.trace_index][r.first_pos:r.first_pos + r.length]) for r in repeat_sets(res)}
        check_eq(sorted(map(sorted_repr, exp.values())), sorted(map(sorted_repr, want)), f'class sets of {words} from source {src}')
        names = {k: '::'.join(sorted(v)) for k, v in exp.items()}
        check_tree(ctx, activities(res), lambda a: frozenset(cm[c] for c in a.set_of_events), exp, 1, (traces, x, src), names)
        for strat in (ActivitiesDiscoveryStrategy.DiscoverFromAllTraces, ActivitiesDiscoveryStrategy.DiscoverFromSingleMergedTrace):
            ws = words if strat == ActivitiesDiscoveryStrategy.DiscoverFromAllTraces else [ref.merged(words)]
            kw = {} if ex is None else {'class_extractor': ex}
            if ex is not None and strat == ActivitiesDiscoveryStrategy.DiscoverFromSingleMergedTrace:
                continue  # the class of a separator event under a user extractor is not specified
            r2 = Pipeline(UseExistingLog(), DiscoverActivitiesFromPatterns(part(src, ex), strat, activity_level=1, **kw))(log)
            ctx.op()
            want2 = {frozenset(c) for w in ws for c in ref_patterns(w, src)}
            got = []
            stack = list(activities(r2))
            while stack:
                a = stack.pop()
                got.append(frozenset(cm[c] for c in a.set_of_events))
                stack.extend(a.child_nodes)
            check_eq(sorted(map(sorted_repr, got)), sorted(map(sorted_repr, want2)), f'activities of {words}, source {src}, strategy {strat}')
            tops = {frozenset(cm[c] for c in a.set_of_events) for a in activities(r2)}
            check_eq(sorted(map(sorted_repr, tops)), sorted(map(sorted_repr, [s for s in want2 if not any(s < o for o in want2)])), 'top-level activities')
            ctx.ok()
    check_eq(snap(log), before, 'the log was modified')
    ctx.state([traces, x])


def families(tier):
    q = tier == 'quick'
    return [
        Family('repeat_sets', lambda: gen_sets(tier), run_sets, f'all logs of <=2 traces/<={4 if q else 5} events x all lists of <=2 patterns; <=3 events x 3 patterns'),
        Family('set_names', gen_setnames, run_setnames, 'all pairs of confusable names'),
        Family('subset_pairs', lambda: gen_subsetpairs(tier), run_subsetpairs, 'all pairs of sets over 5 (6) consecutive names of 4 alphabets, in one and in two traces, and all 63 sets at once'),
        Family('set_pairs', gen_setpairs, run_setpairs, 'all pairs of sequences of two classes and all orders of three classes over 9 names'),
        Family('hierarchies', lambda: gen_trees(tier), run_tree, 'all ordered families of <=3 class sets over 4 classes, all families (half of those above 6 sets when quick) in canonical order'),
        Family('wide', gen_wide, run_wide, 'hierarchies over up to 260 classes'),
        history_family(run_pipe, wide=False, args=lambda t: [t, 0]),
        Family('pipelines', lambda: gen_pipe(tier), run_pipe, f'all logs of <=2 traces/<={6 if q else 7} events/4 classes x 5 pattern sources x extractors x strategies'),
    ]
