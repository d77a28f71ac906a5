"""C31: clustering of traces and activities by the backend: datasets, distances, labels, colours, merged activities, logs of clusters."""
import itertools
import math
import re
from fractions import Fraction

from vlib import gen, rbackend, rustlib
from vlib.core import Family, Violation, check, check_eq
from vlib.rbackend import Probe, Spy, names_log, run, success
from vlib.rustlib import backend

from ficus.grpc_pipelines.activities_parts import (ClusterizeActivitiesFromTracesDbscan, ClusterizeActivitiesFromTracesKMeans,
                                                   ClusterizeActivitiesFromTracesKMeansGridSearch, ClusterizeLogTracesDbscan,
                                                   CreateLogFromActivitiesInstances2, DiscoverActivities2, DiscoverActivitiesInstances2,
                                                   VisualizeTracesActivities2)
from ficus.grpc_pipelines.constants import (const_colors_event_log, const_labeled_log_traces_dataset, const_labeled_traces_activities_dataset,
                                            const_names_event_log, const_traces_activities_dataset)
from ficus.grpc_pipelines.context_values import NamesLogContextValue, from_grpc_ficus_dataset, from_grpc_labeled_dataset
from ficus.grpc_pipelines.data_models import (ActivitiesRepresentationSource, ActivityFilterKind, Distance, NarrowActivityKind,
                                              PatternsDiscoveryStrategy, TracesRepresentationSource)
from ficus.grpc_pipelines.drawing_parts import DrawFullActivitiesDiagram2
from ficus.grpc_pipelines.grpc_pipelines import Pipeline2
from ficus.grpc_pipelines.patterns_parts import FindMaximalRepeats2
from ficus.grpc_pipelines.util_parts import PrintEventLog2, UseNamesEventLog2
from ficus.legacy.analysis.patterns.patterns_models import UndefinedActivityHandlingStrategy

PROPERTY = 'C31'
ASSUMPTIONS = ['the backend is compiled with stand-ins for linfa, linfa-clustering, linfa-nn and ndarray: DBSCAN by its definition, k-means from evenly '
               'spread initial centres (see DESIGN.md); what is judged is everything around them',
               'the Levenshtein distance of two traces is that of their rows, which are filled up to a common length',
               'cosine distances are judged where no row consists of zeros',
               'tolerances which equal an attained distance up to rounding are left out']
setup = rustlib.setup(PROPERTY)
DISTANCES = ('L1', 'L2', 'Cosine', 'Levenshtein')
NAMES = ('Ax', 'Bx', 'Ay', 'Bz')


# -------------------------------------------------------------------------------------------------------------- model
def distance(kind, a, b):
    if kind == 'L1':
        return sum(abs(x - y) for x, y in zip(a, b))
    if kind == 'L2':
        return math.sqrt(sum((x - y) ** 2 for x, y in zip(a, b)))
    if kind == 'Cosine':
        return 1 - sum(x * y for x, y in zip(a, b)) / (math.sqrt(sum(x * x for x in a)) * math.sqrt(sum(y * y for y in b)))
    row = list(range(len(b) + 1))
    for i, x in enumerate(a):
        old, row = row, [i + 1]
        for j, y in enumerate(b):
            row.append(min(old[j] + (x != y), old[j + 1] + 1, row[j] + 1))
    return float(row[-1])


def shorten(name, extractor):
    if extractor is None:
        return name
    m = re.search(extractor, name)
    return name[:m.end()] if m and m.start() == 0 else name


def scaled(rows):
    cols = [list(c) for c in zip(*rows)]
    out = []
    for c in cols:
        lo, hi = min(c), max(c)
        out.append([1.0 if lo == hi else (x - lo) / (hi - lo) for x in c])
    return [list(r) for r in zip(*out)] if cols else [[] for _ in rows]


def counted(lists, extractor):
    lists = [[shorten(n, extractor) for n in t] for t in lists]
    classes = sorted({n for t in lists for n in t})
    return classes, scaled([[float(t.count(c)) for c in classes] for t in lists])


def dbscan(rows, kind, tolerance, least):
    """cluster of each row, from 0, None for noise; or 'close' if some distance is too close to the tolerance, or undefined"""
    n = len(rows)
    if kind == 'Cosine' and not all(any(r) for r in rows):
        return 'close'
    d = [[distance(kind, a, b) for b in rows] for a in rows]
    if any(abs(x - tolerance) < 1e-6 for r in d for x in r):
        return 'close'
    near = [[j for j in range(n) if d[i][j] < tolerance] for i in range(n)]
    core = [len(x) >= least for x in near]
    labels, k = [None] * n, 0
    for i in range(n):
        if core[i] and labels[i] is None:
            todo = [i]
            while todo:
                j = todo.pop()
                if labels[j] is None:
                    labels[j] = k
                    if core[j]:
                        todo += near[j]
            k += 1
    return labels


def kmeans(rows, kind, k, iterations, tolerance):
    n = len(rows)
    centres = [list(rows[c * n // k]) for c in range(k)]

    def nearest(r):
        best = (math.inf, 0)
        for i, c in enumerate(centres):
            x = distance(kind, r, c)
            if x < best[0]:
                best = (x, i)
        return best[1]
    for _ in range(iterations):
        labels = [nearest(r) for r in rows]
        moved = 0.0
        for c in range(k):
            members = [r for r, l in zip(rows, labels) if l == c]
            for i in range(len(centres[c])) if members else ():
                mean = sum(m[i] for m in members) / len(members)
                moved = max(moved, abs(mean - centres[c][i]))
                centres[c][i] = mean
        if moved <= tolerance:
            break
    return [nearest(r) for r in rows]


def silhouette(rows, labels):
    n, kinds = len(rows), sorted(set(labels))
    if len(kinds) < 2:
        return 1.0
    total = 0.0
    for i in range(n):
        def mean(l):
            others = [j for j in range(n) if j != i and labels[j] == l]
            return sum(distance('L2', rows[i], rows[j]) for j in others) / len(others) if others else None
        a = mean(labels[i])
        if a is not None:
            b = min(m for m in (mean(l) for l in kinds if l != labels[i]) if m is not None)
            if max(a, b) > 0:
                total += (b - a) / max(a, b)
    return total / n


# ---------------------------------------------------------------------------------------------------------- distances
def gen_distances(tier):
    n = 3 if tier == 'quick' else 4
    for kind in DISTANCES:
        for size in range(1, n + 1):
            values = (0, 1, 2) if kind == 'Levenshtein' else (0, 0.5, 1, 3)
            yield [kind, size, values]
    yield ['lengths', n, (1, 2)]


def run_distances(ctx, kind, size, values):
    if kind == 'lengths':
        words = [list(w) for n in range(1, size + 2) for w in itertools.product(values, repeat=n)]
        pairs, kind = list(itertools.product(words, repeat=2)), 'Levenshtein'
    else:
        words = list(itertools.product(values, repeat=size))
        pairs = list(itertools.product(words, repeat=2))
    if kind == 'Cosine':
        pairs = [p for p in pairs if any(p[0]) and any(p[1])]
    for (a, b), (d, through, same) in zip(pairs, backend()('distance', distance=kind, pairs=pairs)):
        want = distance(kind, a, b)
        check(isinstance(d, float) and math.isclose(d, want, abs_tol=1e-9), f'{kind} distance of {a} and {b} is {d}, not {want}')
        check_eq((through, same), (d, True), f'{kind} distance of {a} and {b} through rdistance')
    ctx.op(len(pairs))
    ctx.ok((kind, size))
    ctx.state((kind, size, len(pairs)))


# -------------------------------------------------------------------------------------------------------------- traces
def fold(log, levels):
    """the same folding as the driver's; events are (name, events below)"""
    out = [[(n, None) for n in t] for t in log]
    for level in levels:
        new = []
        for t, acts in zip(out, level):
            row, at = [], 0
            for name, start, length in acts:
                row += t[at:start] + [(name, t[start:start + length])]
                at = start + length
            new.append(row + t[at:])
        out = new
    return out


def deepest(event):
    return [event[0]] if event[1] is None else [n for e in event[1] for n in deepest(e)]


def represented(trace, repr_):
    if repr_ == 'Events':
        return [n for n, _ in trace]
    if repr_ == 'UnderlyingEvents':
        return [n for e in trace for n in ([e[0]] if e[1] is None else [x for x, _ in e[1]])]
    return [n for e in trace for n in deepest(e)]


def traces_dataset(lists, kind, extractor):
    """columns, values"""
    if kind != 'Levenshtein':
        return counted(lists, extractor)
    ids, width = {}, max([0] + [len(t) + 1 for t in lists])
    rows = []
    for t in lists:
        row = [float(ids.setdefault(shorten(n, extractor), len(ids) + 1)) for n in t]
        rows.append(row + [0.0] * (width - len(row)))
    return [f'Symbol_{i}' for i in range(width)], rows


def same_values(got, want):
    return len(got) == len(want) and all(len(g) == len(w) and all(isinstance(x, float) and math.isclose(x, y, abs_tol=1e-6) for x, y in zip(g, w)) for g, w in zip(got, want))


def judge_colors(labels, colors, what):
    check_eq(len(colors), len(labels), f'{what}: colours')
    seen = {}
    for l, c in zip(labels, colors):
        c = tuple(c)
        check_eq(seen.setdefault(l, c), c, f'{what}: colour of label {l}')
        check(c != (0, 0, 0), f'{what}: label {l} is black')
    check_eq(len(set(seen.values())), len(seen), f'{what}: colours of labels are distinct')


def judge_dataset(d, columns, rows, values, what):
    check_eq(d['columns'], columns, f'{what}: columns')
    check_eq(d['rows'], rows, f'{what}: rows')
    check(same_values(d['values'], values), f'{what}: values are {d["values"]}, not {values}')


SETTINGS = [(t, m) for t in (0.4, 0.75, 1.15, 1.7) for m in (2, 3)]
EXTRACTORS = (None, '^.', 'x', '(?=B)')


def gen_traces(tier):
    q = tier == 'quick'
    for log in gen.logs(2, 4, 6 if q else 7, min_traces=1):
        for kind in DISTANCES:
            for t, m in SETTINGS if not q else SETTINGS[1::2]:
                yield [log, [], kind, t + (kind == 'Levenshtein') * 0.4, m, 'Events', None]
    for log in gen.logs(3, 3, 5, min_traces=1):
        for kind, t in (('L1', 1.15), ('Levenshtein', 1.5), ('L2', 0.75)):
            for e in EXTRACTORS[:2] if q else EXTRACTORS:
                yield [[[x if x < 2 else 3 for x in w] for w in log], [], kind, t, 2, 'Events', e]
    for log in gen.logs(4, 3, 4, min_traces=1):
        for e in EXTRACTORS:
            yield [log, [], 'L1', 0.75, 2, 'DeepestUnderlyingEvents', e]
    for log in ([[0, 1, 2], [1, 1, 3], [0, 0]], [[0, 1, 0, 1], [2, 2, 0], [0, 1]], [[3, 0, 1], [3, 0, 1, 0], [3, 0]]):
        places = [[], [['P', 0, 1]], [['P', 0, 2]], [['Ax', 1, 1]], [['P', 0, 1], ['Q', 1, 1]]]
        for p in itertools.product(places, repeat=2):
            for r in ('Events', 'UnderlyingEvents', 'DeepestUnderlyingEvents'):
                for kind in ('L1', 'Levenshtein'):
                    yield [log, [[p[0], p[1], [['P', 0, 2]]]], kind, 1.15, 2, r, None]
                    for top in ([['R', 0, 1]], [['P', 0, 2]]):
                        yield [log, [[p[0], p[1], []], [top, [['R', 0, 1]], []]], kind, 1.15, 2, r, '^.']


def run_traces(ctx, log, levels, kind, tolerance, least, repr_, extractor):
    names = [[NAMES[x] for x in t] for t in log]
    folded = fold(names, levels)
    what = f'{names} folded by {levels}, {kind} within {tolerance}, {least} points, {repr_}, classes {extractor}'
    r = backend()('cluster_traces', log=names, levels=levels, distance=kind, tolerance=tolerance, min_points=least, repr=repr_, extractor=extractor)
    ctx.op()
    check('error' not in r, f'{what}: {r}')
    columns, values = traces_dataset([represented(t, repr_) for t in folded], kind, extractor)
    judge_dataset(r['labeled']['dataset'], columns, [f'Trace_{i}' for i in range(len(log))], values, what)
    labels = r['labeled']['labels']
    judge_labels(labels, values, kind, tolerance, least, what)
    judge_colors(labels, r['labeled']['colors'], what)
    check_eq(r['held'], r['labeled']['colors'], f'{what}: colours by names of clusters')
    check(r['same'], f'{what}: the log was changed')
    groups = {}
    for t, l in zip(folded, labels):
        groups.setdefault(l, []).append([n for n, _ in t])
    check_eq(sorted(r['logs']), sorted(groups.values()), f'{what}: logs of clusters {labels}')
    ctx.ok(labels)
    ctx.state((str(names), str(levels), kind, tolerance, least, repr_, extractor))


def judge_labels(labels, values, kind, tolerance, least, what):
    want = dbscan(values, kind, tolerance, least) if values and values[0] else 'close'
    if want == 'close':
        check_eq(len(labels), len(values), f'{what}: number of labels')
    else:
        check_eq(labels, [0 if l is None else l + 1 for l in want], f'{what}: labels')


# ---------------------------------------------------------------------------------------------------------- activities
def activities_dataset(log, nodes, activities, level, repr_, extractor):
    """names, columns, values; None if a repeat set is missing"""
    lists, seen = [], {}
    for t in activities:
        for i, _, _ in t:
            n = nodes[i]
            if n['level'] != level or n['name'] in seen:
                continue
            if n['repeat'] is None:
                if repr_ == 'EventClasses':
                    return None
                seen[n['name']] = []
                continue
            s, ln, tr = n['repeat']
            names = [x for e in log[tr][s:s + ln] for x in (deepest(e) if repr_ == 'SubTracesUnderlyingEvents' else [e[0]])]
            seen[n['name']] = sorted({shorten(x, extractor) for x in names}) if repr_ == 'EventClasses' else names
    names = sorted(seen)
    columns, values = counted([seen[n] for n in names], None if repr_ == 'EventClasses' else extractor)
    return names, columns, values


def merged(nodes, activities, names, labels):
    """(name, level, classes, start, length, index of the node or None) of every instance afterwards"""
    groups = {}
    for n, l in zip(names, labels):
        if l is not None:
            groups.setdefault(l, []).append(n)
    of = {}
    for l, members in groups.items():
        if len(members) > 1:
            first = {}
            for n in nodes:
                first.setdefault(n['name'], n)
            classes = sorted({c for m in members for c in first[m]['classes']})
            for m in members:
                of[m] = [f'CLUSTER_{l}', first[members[0]]['level'], classes]
    out = []
    for t in activities:
        row = []
        for i, s, ln in t:
            n = nodes[i]
            new = of.get(n['name'])
            entry = (new or [n['name'], n['level'], sorted(n['classes'])]) + [s, ln, None if new else i]
            if row and row[-1][0] == entry[0] and row[-1][3] + row[-1][4] == s:
                row[-1] = row[-1][:4] + [row[-1][4] + ln, row[-1][5]]
            else:
                row.append(entry)
        out.append(row)
    return out


A_LOGS = ([[0, 1, 2, 0, 1], [1, 1, 0, 3]], [[0, 0, 1, 1, 2], [3, 2, 1]])
METHODS = [('dataset', {}), ('dbscan', dict(distance='L1', tolerance=0.75, min_points=2)), ('dbscan', dict(distance='L1', tolerance=1.15, min_points=2)),
           ('dbscan', dict(distance='Cosine', tolerance=0.35, min_points=2)), ('dbscan', dict(distance='L2', tolerance=1.15, min_points=3)),
           ('kmeans', dict(distance='L2', tolerance=1e-5, clusters=2, iterations=20)), ('kmeans', dict(distance='L1', tolerance=1e-5, clusters=1, iterations=5)),
           ('kmeans', dict(distance='L1', tolerance=0.3, clusters=2, iterations=1)), ('grid', dict(distance='L2', tolerance=1e-5, iterations=20)),
           ('grid', dict(distance='Levenshtein', tolerance=1e-5, iterations=20))]
REPRS = ('EventClasses', 'SubTraces', 'SubTracesUnderlyingEvents')


def node(i, repeat, level=0, classes=None):
    return {'name': f'N{i}', 'repeat': repeat, 'level': level, 'classes': classes if classes is not None else [i, i + 1]}


def everywhere(nodes):
    """a trace where every node stands apart"""
    return [[i, 2 * i, 1] for i in range(len(nodes))]


def placements(k, size):
    """disjoint instances of k nodes in a trace: touching or one event apart"""
    for seq in itertools.product(range(k), repeat=size):
        for gaps in itertools.product((0, 1), repeat=size - 1):
            for lens in ((1,) * size, (2, 1, 1, 1)[:size]):
                at, row = 0, []
                for i, g, ln in zip(seq, (0,) + gaps, lens):
                    row.append([i, at + g, ln])
                    at += g + ln
                yield row


def gen_activities(tier):
    q = tier == 'quick'
    for log in A_LOGS:
        spots = [[s, ln, tr] for tr, w in enumerate(log) for s in range(len(w)) for ln in (1, 2, 3) if s + ln <= len(w)]
        for size in (2, 3, 4):
            some = spots[::1 if size < 3 else 2 if size == 3 else 3] if q else spots[::1 if size < 4 else 2]
            for chosen in itertools.combinations(some, size):
                for m in range(len(METHODS)):
                    nodes = [node(i, s) for i, s in enumerate(chosen)]
                    yield [log, [], nodes, [everywhere(nodes), [[0, 0, 1], [size - 1, 1, 1], [0, 3, 1]]], 0, REPRS[(sum(map(sum, chosen)) + m) % 2], None, m]
    # placements of merged and of other activities
    log = A_LOGS[0]
    for chosen in (([0, 2, 0], [3, 2, 0], [3, 1, 1]), ([0, 1, 0], [1, 1, 0], [3, 1, 0]), ([0, 2, 0], [0, 3, 0], [1, 2, 0])):
        nodes = [node(i, s) for i, s in enumerate(chosen)]
        for row in (p for n in (1, 2, 3) for p in placements(3, n)):
            for m in (1, 2, 5, 6):
                yield [log, [], nodes, [everywhere(nodes), row], 0, 'EventClasses', None, m]
    # levels, missing repeat sets, nodes which share a name, extractors, folded logs
    base = [[0, 2, 0], [3, 1, 1], [2, 2, 0], [1, 1, 1]]
    for levels in itertools.product((0, 1), repeat=4):
        for missing in itertools.product((0, 1), repeat=2):
            nodes = [node(i, None if i < 2 and missing[i] else base[i], levels[i]) for i in range(4)]
            for m in (0, 1, 2, 5, 8):
                for r in REPRS:
                    for level in (0, 1):
                        yield [log, [], nodes, [[[0, 0, 1], [1, 1, 1]], [[2, 0, 2], [3, 2, 1], [3, 3, 1]]], level, r, None, m]
    for names in ('0102', '0011', '0100', '0000'):
        nodes = [dict(node(i, base[i]), name=f'N{c}') for i, c in enumerate(names)]
        for m in (0, 1, 2, 5):
            for r in REPRS:
                yield [log, [], nodes, [[[0, 0, 1], [1, 1, 1], [2, 2, 1]], [[3, 0, 2], [2, 2, 1]]], 0, r, None, m]
    for e in EXTRACTORS:
        for chosen in itertools.combinations([[0, 2, 0], [2, 2, 0], [1, 3, 0], [0, 2, 1], [2, 2, 1]], 3):
            for m in (0, 1, 4):
                for r in REPRS:
                    nodes = [node(i, s) for i, s in enumerate(chosen)]
                    yield [log, [], nodes, [everywhere(nodes), []], 0, r, e, m]
    for fold_ in ([[['P', 0, 2]], []], [[['P', 0, 1], ['Q', 1, 2]], [['P', 1, 2]]]):
        for top in ([], [[[['R', 0, 2]], []]], [[[], [['R', 1, 2]]]]):
            for chosen in itertools.combinations([[0, 1, 0], [0, 2, 0], [1, 1, 0], [0, 2, 1], [1, 1, 1]], 3):
                for r in REPRS:
                    for m in (0, 1, 5):
                        nodes = [node(i, s) for i, s in enumerate(chosen)]
                        yield [log, [fold_] + top, nodes, [everywhere(nodes), []], 0, r, None, m]


def run_activities(ctx, log, levels, nodes, activities, level, repr_, extractor, m):
    names = [[NAMES[x] for x in t] for t in log]
    folded = fold(names, levels)
    method, params = METHODS[m]
    what = f'{method} {params} of {[(n["name"], n["repeat"], n["level"]) for n in nodes]} placed {activities} in {names} folded {levels}, level {level}, {repr_}, classes {extractor}'
    if any(n['repeat'] and n['repeat'][0] + n['repeat'][1] > len(folded[n['repeat'][2]]) for n in nodes):
        return ctx.ok()
    r = backend()('cluster_activities', log=names, levels=levels, nodes=nodes, activities=activities, level=level, repr=repr_, extractor=extractor, method=method, **params)
    ctx.op()
    ctx.state((what,))
    as_is = [[[nodes[i]['name'], nodes[i]['level'], sorted(nodes[i]['classes']), s, ln, i] for i, s, ln in t] for t in activities]
    after = [[a[:6] for a in t] for t in r['activities']]
    if params.get('distance') == 'Levenshtein':
        check(r.get('none'), f'{what}: activities are not clustered by this distance', r)
        check_eq(after, as_is, f'{what}: activities afterwards')
        return ctx.ok()
    want = activities_dataset(folded, nodes, activities, level, repr_, extractor)
    if want is None:
        check_eq(r.get('error'), 'NoRepeatSet', f'{what}: result')
        check_eq(after, as_is, f'{what}: activities after a failure')
        return ctx.ok()
    rows, columns, values = want
    if method == 'dataset':
        judge_dataset(r['dataset'], columns, rows, values, what)
        check_eq(after, as_is, f'{what}: activities afterwards')
        return ctx.ok()
    n = len(rows)
    kind = params['distance']
    if method == 'grid' and n <= 2 or method == 'kmeans' and n < params['clusters']:
        check('error' in r, f'{what}: no error', r)
        check_eq(after, as_is, f'{what}: activities after a failure')
        return ctx.ok()
    check('error' not in r, f'{what}: {r.get("error")}')
    judge_dataset(r['dataset'], columns, rows, values, what)
    labels = r['labels']
    check_eq(len(labels), n, f'{what}: labels')
    if method == 'dbscan':
        judge_labels(labels, values, kind, params['tolerance'], params['min_points'], what)
    elif method == 'kmeans' and columns:
        check_eq(labels, kmeans(values, kind, params['clusters'], params['iterations'], params['tolerance']), f'{what}: labels')
    elif columns:
        options = [kmeans(values, kind, k, params['iterations'], params['tolerance']) for k in range(2, n)]
        scores = [silhouette(values, o) for o in options]
        check(labels in [o for o, s in zip(options, scores) if s > max(scores) - 1e-9], f'{what}: labels {labels} are not the best of {list(zip(options, scores))}')
    judge_colors(labels, r['colors'], what)
    clustered = [None if method == 'dbscan' and l == 0 else l for l in labels]
    check_eq(after, merged(nodes, activities, rows, clustered), f'{what}: activities afterwards, labels {dict(zip(rows, labels))}')
    color = {f'CLUSTER_{l}': c for l, c in zip(labels, r['colors'])}
    for t in r['activities']:
        for a in t:
            check(a[0] not in color or color[a[0]] == a[6], f'{what}: colour of {a[0]} in the log is {a[6]}, in the dataset {color.get(a[0])}')
    ctx.ok((labels, after))


# ----------------------------------------------------------------------------------------------------------- pipelines
def colors_of(value):
    return [[((r.color.red, r.color.green, r.color.blue), r.start_index, r.length, r.name) for r in t.event_colors] for t in value.colors_log.traces]


def unpack(value, labeled):
    kind = value.WhichOneof('contextValue')
    check_eq(kind, 'labeled_dataset' if labeled else 'dataset', 'kind of the value')
    d = value.labeled_dataset.dataset if labeled else value.dataset
    # values travel as float32; they are ratios of small numbers
    return list(d.columnsNames), list(d.rowNames), [[float(Fraction(v).limit_denominator(60)) for v in r.values] for r in d.matrix.rows], d


A_METHODS = (
    ('dbscan', lambda **kw: ClusterizeActivitiesFromTracesDbscan(min_events_count_in_cluster=2, tolerance=1.15, **kw), 'L1'),
    ('dbscan', lambda **kw: ClusterizeActivitiesFromTracesDbscan(min_events_count_in_cluster=2, tolerance=0.75, **kw), 'L2'),
    ('kmeans', lambda **kw: ClusterizeActivitiesFromTracesKMeans(clusters_count=2, learning_iterations_count=7, **kw), 'L2'),
    ('grid', lambda **kw: ClusterizeActivitiesFromTracesKMeansGridSearch(learning_iterations_count=9, **kw), 'L2'),
)


def gen_pipes(tier):
    q = tier == 'quick'
    for bad in range(9):
        yield ['bad', [[0, 1, 0, 1, 2], [0, 1, 2]], bad, 0]
    for log in gen.logs(3, 2, 7 if q else 8, min_traces=1):
        if len(log) == 2 and sum(map(len, log)) >= 6 and (not q or log[0][:1] == [0]):
            for m in range(4):
                yield ['activities', log, m, (sum(log[0]) + m) % 3]
    for log in gen.logs(2, 3, 5, min_traces=1):
        for kind in range(4):
            yield ['traces', log, kind, (sum(map(sum, log)) + kind) % 3]


def prepare():
    return [UseNamesEventLog2(), FindMaximalRepeats2(PatternsDiscoveryStrategy.FromAllTraces), DiscoverActivities2(0),
            DiscoverActivitiesInstances2(NarrowActivityKind.DontNarrow, 0, ActivityFilterKind.NoFilter)]


def run_pipes(ctx, mode, log, m, r):
    names = [[NAMES[x] for x in t] for t in log]
    given = {const_names_event_log: NamesLogContextValue(names)}
    ctx.op()
    ctx.state((mode, str(log), m, r))
    seen = []
    if mode == 'bad':
        inner = Pipeline2(Spy(PrintEventLog2(), seen, 'log'))
        part = [lambda: ClusterizeLogTracesDbscan(inner), lambda: ClusterizeLogTracesDbscan(inner, 0, 0.5), lambda: ClusterizeLogTracesDbscan(inner, 2, 0),
                lambda: ClusterizeLogTracesDbscan(inner, 2, 0.5, class_extractor='(', distance=Distance.L1),
                lambda: ClusterizeLogTracesDbscan(inner, 2, 0.5, class_extractor='(', distance=Distance.Levenshtein),
                lambda: ClusterizeActivitiesFromTracesDbscan(distance=Distance.L1),
                lambda: ClusterizeActivitiesFromTracesDbscan(min_events_count_in_cluster=2, distance=Distance.Levenshtein),
                lambda: ClusterizeActivitiesFromTracesKMeans(clusters_count=0, distance=Distance.L1),
                lambda: VisualizeTracesActivities2(class_extractor='(')][m]()
        what = f'{type(part).__name__} with bad parameters ({m})'
        last, _, _ = run([*prepare(), Spy(part, seen, 'it')], given, what=what)
        check_eq(last.finalResult.WhichOneof('executionResult'), 'error', f'{what}: result')
        check(last.finalResult.error, f'{what}: an error without a message')
        check_eq(seen, [], f'{what}: values')
        return ctx.ok(what)
    if mode == 'traces':
        kind, repr_ = DISTANCES[m], list(TracesRepresentationSource)[r]
        tolerance, extractor = (1.5, None) if kind == 'Levenshtein' else (0.75, '^.') if r == 1 else (1.125, None)
        what = f'{names} clustered by {kind}, {repr_.name}, classes {extractor}'
        if kind == 'Cosine' and not all(names):
            return ctx.ok()
        part = ClusterizeLogTracesDbscan(Pipeline2(Spy(PrintEventLog2(), seen, 'log')), 2, tolerance, distance=Distance[kind], traces_repr_source=repr_, class_extractor=extractor)
        last, _, _ = run([UseNamesEventLog2(), Spy(part, seen, 'it'), Spy(PrintEventLog2(), seen, 'after')], given, what=what)
        success(last, what)
        columns, values = traces_dataset(names, kind, extractor)
        check_eq([t for t, _ in seen][-2:], ['it', 'after'], f'{what}: order of callbacks')
        value = seen[-2][1][const_labeled_log_traces_dataset]
        c, rows, v, d = unpack(value, True)
        judge_dataset({'columns': c, 'rows': rows, 'values': v}, columns, [f'Trace_{i}' for i in range(len(log))], values, what)
        labels = list(value.labeled_dataset.labels)
        judge_labels(labels, values, kind, tolerance, 2, what)
        judge_colors(labels, [(x.red, x.green, x.blue) for x in value.labeled_dataset.labelsColors], what)
        groups = {}
        for t, l in zip(names, labels):
            groups.setdefault(l, []).append(t)
        logs = [names_log(x[const_names_event_log]) for t, x in seen if t == 'log']
        check_eq(sorted(logs), sorted(groups.values()), f'{what}: logs of clusters {labels}')
        check_eq(names_log(seen[-1][1][const_names_event_log]), names, f'{what}: the log afterwards')
        df = from_grpc_labeled_dataset(value.labeled_dataset)
        check_eq((list(df.index), list(df.columns), df['cluster_labels'].tolist()), (rows, columns + ['cluster_labels'], labels), f'{what}: data frame')
        return ctx.ok(labels)
    repr_ = list(ActivitiesRepresentationSource)[r]
    method, make, kind = A_METHODS[m]
    what = f'activities of {names} clustered by {method} {m}, {repr_.name}'
    part = make(distance=Distance[kind], activities_repr_source=repr_)
    level = 0
    last, real, _ = run([*prepare(), Spy(DrawFullActivitiesDiagram2(), seen, 'before'), Spy(VisualizeTracesActivities2(level, activities_repr_source=repr_), seen, 'set'),
                         Spy(part, seen, 'it'), Spy(DrawFullActivitiesDiagram2(), seen, 'after'),
                         CreateLogFromActivitiesInstances2(UndefinedActivityHandlingStrategy.InsertAllEvents), Spy(PrintEventLog2(), seen, 'log')], given, what=what)
    tags = dict(seen)
    before = [[[n, s, ln] for _, s, ln, n in t] for t in colors_of(tags['before'][const_colors_event_log])]
    undefined = 'UNDEFINED_ACTIVITY'
    found = sorted({n for t in before for n, _, _ in t if n != undefined})
    columns, rows, values, d = unpack(tags['set'][const_traces_activities_dataset], False)
    check_eq(rows, found, f'{what}: rows of the dataset')
    df = from_grpc_ficus_dataset(d)
    check_eq((list(df.index), list(df.columns)), (rows, columns), f'{what}: data frame')
    if method == 'grid' and len(found) <= 2 or method == 'kmeans' and len(found) < 2:
        check_eq(last.finalResult.WhichOneof('executionResult'), 'error', f'{what}: with {len(found)} activities')
        return ctx.ok()
    success(last, what)
    value = tags['it'][const_labeled_traces_activities_dataset]
    c2, r2, v2, _ = unpack(value, True)
    check_eq((c2, r2, v2), (columns, rows, values), f'{what}: dataset with labels and without')
    labels = list(value.labeled_dataset.labels)
    colors = [(x.red, x.green, x.blue) for x in value.labeled_dataset.labelsColors]
    judge_colors(labels, colors, what)
    if columns and method == 'dbscan':
        judge_labels(labels, values, kind, 1.15 if m == 0 else 0.75, 2, what)
    elif columns:
        options = [kmeans(values, kind, k, 7 if method == 'kmeans' else 9, 1e-5) for k in (range(2, len(rows)) if method == 'grid' else (2,))]
        scores = [silhouette(values, o) for o in options]
        check(labels in [o for o, s in zip(options, scores) if s > max(scores) - 1e-9], f'{what}: labels {labels} are not the best of {list(zip(options, scores))}')
    nodes = [{'name': n, 'level': 0, 'classes': []} for n in found]
    acts = [[[found.index(n), s, ln] for n, s, ln in t if n != undefined] for t in before]
    want = merged(nodes, acts, rows, [None if method == 'dbscan' and l == 0 else l for l in labels])
    after = colors_of(tags['after'][const_colors_event_log])
    check_eq([[[n, s, ln] for _, s, ln, n in t if n != undefined] for t in after], [[[a[0], a[3], a[4]] for a in t] for t in want], f'{what}: activities afterwards, labels {labels}')
    by = {f'CLUSTER_{l}': c for l, c in zip(labels, colors)}
    for t in after:
        for color, _, _, n in t:
            check(by.get(n, color) == color, f'{what}: colour of {n} in the diagram is {color}, in the dataset {by.get(n)}')
    made = []
    for w, t in zip(names, want):
        row, at = [], 0
        for a in t:
            row += w[at:a[3]] + [a[0]]
            at = a[3] + a[4]
        made.append(row + w[at:])
    check_eq(names_log(tags['log'][const_names_event_log]), made, f'{what}: log of activities')
    ctx.ok((labels, made))


def families(tier):
    q = tier == 'quick'
    return [
        Family('distances', lambda: gen_distances(tier), run_distances, f'all pairs of vectors of {3 if q else 4} values from 0, 1/2, 1, 3 (L1, L2, cosine) or 0, 1, 2 (Levenshtein); all pairs of words of different lengths'),
        Family('traces', lambda: gen_traces(tier), run_traces, f'all logs of 2 classes, 4 traces and {6 if q else 7} events x 4 distances x tolerances x least points; 3 and 4 classes x class extractors; folded logs x 3 representations'),
        Family('activities', lambda: gen_activities(tier), run_activities, 'all sets of 2 to 4 activities of 2 logs x 10 clusterings, all placements of 3 instances, levels, missing repeat sets, shared names, class extractors, folded logs'),
        Family('pipelines', lambda: gen_pipes(tier), run_pipes, f'activities of all logs of 3 classes, 2 traces and {7 if q else 8} events, logs of 2 classes and 3 traces, invalid parameters, through the client'),
    ]
