"""C30: measures of logs and operations on logs of the backend: histories of operations with everything measured after each."""
import itertools
import math
import re

from vlib import gen, rustlib
from vlib.core import Family, check, check_eq
from vlib.rustlib import backend

PROPERTY = 'C30'
ASSUMPTIONS = ['the backend is compiled with stand-ins for the crates which are not in the crate cache (see DESIGN.md)',
               'no event is named FAKE_START or FAKE_END, the names of the artificial first and last event',
               'positional entropy of a single trace (a division of zero by zero) is not judged',
               'the number of events in the information about a log counts ignored events']
setup = rustlib.setup(PROPERTY)
NAMES = ('A', 'B', 'Ab', 'c')
START, END = 'ARTIFICIAL_START', 'ARTIFICIAL_END'


# -------------------------------------------------------------------------------------------------------------- model
def without(log, drops):
    """remaining events, then the traces which have some; [(name, date)] per trace"""
    log = [[e for e in t if not drops(e[0])] for t in log]
    return [t for t in log if t]


def apply(log, op):
    kind = op[0]
    if kind == 'name':
        return without(log, lambda n: n == op[1])
    if kind == 'names':
        return without(log, lambda n: n in op[1])
    if kind == 'regex':
        return without(log, lambda n: re.search(op[1], n) is not None)
    if kind == 'traces':
        return [t for i, t in enumerate(log) if i not in op[1] and len(t) != op[2]]
    if kind == 'rename':
        return [[(op[1] if n in op[2] else n, d) for n, d in t] for t in log]
    if kind == 'ends':
        return [([(START, 'min')] if op[1] else []) + t + ([(END, 'max')] if op[2] else []) for t in log]
    if kind in ('push', 'insert'):
        new = [(op[2], 7)]
        return [(t + new if kind == 'push' else new + t) if i == op[1] else t for i, t in enumerate(log)]
    if kind == 'add':
        return log + [[(n, 7) for n in op[1]]]
    return log                                                                        # clone, aside


def positional(log, name):
    used = [t for t in log if t]
    n = len(used)
    if n < 2:
        return None
    ps = [sum(1 for t in used if i < len(t) and t[i] == name) / n for i in range(max(map(len, used)))]
    ps = [p for p in ps if p > 0]
    return sum(-math.log2(p) / math.log2(n) for p in ps) / len(ps) if ps else None


def entropy(ps):
    return sum(-p * math.log2(p) for p in ps if p)


def following(log, laplace):
    classes = sorted({n for t in log for n in t})
    pairs, counts = {}, {}
    for t in log:
        for a, b in zip([None] + t, t + [None]):
            pairs[(a, b)] = pairs.get((a, b), 0) + 1
        for n in t:
            counts[n] = counts.get(n, 0) + 1
    out = {}
    for c in classes:
        def p(k):
            if not laplace:
                return k / counts[c]
            alpha = 1 / counts[c]
            return (alpha + k) / (alpha * (len(classes) + 1) + counts[c])
        out[c] = entropy([p(pairs.get((c, d), 0)) for d in classes + [None]]) + entropy([p(pairs.get((d, c), 0)) for d in classes + [None]])
    return out


def same(got, want, what, any_where_none=True):
    check_eq(sorted(got), sorted(want), f'{what}: classes')
    for c, v in want.items():
        if v is None and any_where_none:
            continue
        check(got[c] is not None and abs(got[c] - v) < 1e-9, f'{what} of {c}: is {got[c]}, expected {v}')


# ------------------------------------------------------------------------------------------------------------ histories
def judge(snap, log, classes, ignored, what):
    names = [[n for n, _ in t] for t in log]
    check_eq(snap['raw'], names, f'{what}: names')
    first = {}
    check_eq(snap['hashes'], [[first.setdefault(n, len(first)) for n in t] for t in names], f'{what}: events with equal names have equal hashes, others have not')
    check_eq(len(snap['traces']), len(log), f'{what}: traces')
    for t, real in zip(log, snap['traces']):
        row = [n for n, _ in t]
        check_eq(real['names'], row, f'{what}: names of a trace')
        check_eq(real['counts'], {n: row.count(n) for n in row}, f'{what}: counts of {row}')
        check_eq(real['count'], len(row), f'{what}: number of events of {row}')
        check_eq([p or [] for p in real['positions']], [[i for i, n in enumerate(row) if n == c] for c in classes], f'{what}: positions in {row}')
        check_eq(real['dates'], [d if isinstance(d, str) else [d, 0] for _, d in t], f'{what}: dates of {row}')
    check_eq(snap['total'], sum(map(len, names)), f'{what}: count of events')
    check_eq(snap['info'], [len(names), sum(map(len, names)), len({n for t in names for n in t})], f'{what}: info')
    kept = [[n for n in t if n not in (ignored or ())] for t in names]
    want = {n: positional(kept, n) for t in kept for n in t}
    same(snap['slow'], want, f'{what}: positional entropy')
    same(snap['fast'], want, f'{what}: fast positional entropy')
    for c, pair in zip(classes, snap['one']):
        if want.get(c) is not None:
            check(pair is not None and all(v is not None and abs(v - want[c]) < 1e-9 for v in pair), f'{what}: positional entropies of {c} are {pair}, expected {want[c]}')
    # an ignored event is dropped before the directly-follows relation is looked at
    same(snap['dfg'], following(kept, False), f'{what}: entropy of the directly-follows relation', False)
    same(snap['laplace'], following(kept, True), f'{what}: smoothed entropy of the directly-follows relation', False)
    groups = {}
    for i, t in enumerate(names):
        groups.setdefault(tuple(t), []).append(i)
    groups = list(groups.values())
    check_eq(snap['groups'], groups, f'{what}: groups of equal traces')
    check_eq(snap['split'], [[names[i] for i in g] for g in groups], f'{what}: groups of equal traces')


def run_histories(ctx, kind, log, ignored, opss):
    classes = sorted({*NAMES, START, END, 'new', *(n for t in log for n in t)})
    for ops in opss:
        steps = [['measure']]
        for op in ops:
            steps += [op, ['measure']]
        out = backend()('history', kind=kind, log=log, classes=classes, ignored=ignored, ops=steps)
        model = [[(n, i * 100 + j) for j, n in enumerate(t)] for i, t in enumerate(log)]
        check_eq(len(out), len(ops) + 1, f'measures of {log}')
        for i in range(len(ops) + 1):
            if i:
                model = apply(model, ops[i - 1])
            judge(out[i], model, classes, ignored, f'{kind} log {log} after {ops[:i]}, ignoring {ignored}')
            ctx.state((kind, str(model), str(ignored), str(ops[max(0, i - 1):i])))
            ctx.op(1)
    ctx.ok((kind, str(log), str(ignored)))


def operations(names, traces):
    yield from (['name', n] for n in names)
    yield ['names', list(names[:2])]
    yield ['names', []]
    yield from (['regex', r] for r in ('A', '^A$', 'b$|B', 'z'))
    yield from (['traces', [i], 99] for i in range(min(traces, 2)))
    yield from (['traces', [], n] for n in range(3))
    yield ['traces', [0, 1, 2, 3], 99]
    yield ['rename', 'new', ['A']]
    yield ['rename', 'B', ['A']]
    yield ['rename', 'A', ['B', 'Ab']]
    yield from (['ends', s, e] for s, e in ((True, True), (True, False), (False, True)))
    yield from ([k, i, n] for k in ('push', 'insert') for i in range(min(traces, 2)) for n in ('A', 'Ab'))
    yield ['add', []]
    yield ['add', ['A', 'B']]
    yield ['clone']
    for op in (['name', 'A'], ['rename', 'new', ['A']], ['ends', True, True], ['push', 0, 'Ab'], ['traces', [0], 99]):
        yield ['aside', op]


def named(log):
    return [[NAMES[e] for e in t] for t in log]


def batches(items, n):
    items = list(items)
    for i in range(0, len(items), n):
        yield items[i:i + n]


def gen_histories(tier):
    q = tier == 'quick'
    for log in gen.logs(3, 3, 5 if q else 6, canonical=False) if not q else gen.logs(3, 3, 4, canonical=False):
        log = named(log)
        for kind in ('simple', 'xes'):
            for ignored in (None, [], ['A'], ['B', 'Ab'], ['z', 'A', 'B']):
                yield kind, log, ignored, [[]]
    # different traces which some way of joining names makes equal
    for one, other in gen.joined('A', 'B', 'c'):
        for kind in ('simple', 'xes'):
            yield kind, [list(one), list(other), list(one)], None, [[], [['name', 'c']], [['regex', '^A']]]
    plain = [n for n in gen.CONFUSABLE if not n.startswith('FAKE')]
    for x in plain:
        for y in plain[:8]:
            yield 'xes', [[x, y], [y, x], [x], [y]], ([x] if len(x) % 2 else None), [[], [['name', x]], [['rename', 'A', [y]]]]
    small = [named(l) for l in gen.logs(3, 2, 3 if q else 4, canonical=False)]
    for log in small:
        ops = list(operations(NAMES[:3], 2))
        for i, kind in enumerate(('simple', 'xes')):
            for b in batches([[a] for a in ops] + [[a, c] for a in ops for c in ops], 100):
                yield kind, log, [None, ['A']][(len(log) + i) % 2], b
    deep = [[['A', 'B']], [['A'], ['B', 'A']], [['A', 'B'], [], ['A', 'B', 'Ab']]]
    few = [['name', 'A'], ['names', ['A', 'B']], ['regex', 'b'], ['traces', [0], 99], ['rename', 'B', ['A']], ['ends', True, True], ['push', 0, 'A'], ['insert', 0, 'B'],
           ['add', ['B', 'B']], ['clone'], ['aside', ['name', 'A']], ['aside', ['ends', True, True]]]
    for log in deep:
        for kind in ('simple', 'xes'):
            for b in batches((list(s) for s in itertools.product(few, repeat=3 if q else 4)), 150):
                yield kind, log, ['B'], b


# ----------------------------------------------------------------------------------------------------------- information
INFO_NAMES = ['a', 'b', 'c', 'FAKE_START', 'FAKE_END', 'z']


def gen_info(tier):
    q = tier == 'quick'
    for log in gen.logs(3, 3, 5 if q else 6):
        for ignored in (None, [], ['a'], ['b', 'z'], ['a', 'c']):
            yield ['abc'[x] for t in log for x in t], [len(t) for t in log], ignored
    for log in gen.logs(2, 2, 8 if q else 10):
        yield ['abc'[x] for t in log for x in t], [len(t) for t in log], None


def run_info(ctx, events, lengths, ignored):
    log, i = [], 0
    for n in lengths:
        log.append(events[i:i + n])
        i += n
    kept = [[n for n in t if n not in (ignored or ())] for t in log]
    for fake in (False, True):
        for other in ((False, True) if fake and ignored is None else (False,)):
            what = f'information about {log}, ignoring {ignored}, {"with" if fake else "without"} artificial events'
            got = backend()('info', log=log, names=INFO_NAMES, ignored=ignored, fake=fake, other=other)
            pairs = {}
            for t in kept:
                t = ['FAKE_START'] + t + ['FAKE_END'] if fake and t else t
                for a, b in zip(t, t[1:]):
                    pairs[a, b] = pairs.get((a, b), 0) + 1
            flat = [n for t in kept for n in t]
            check_eq([got['traces'], got['events'], got['total'], got['classes_count']], [len(log), len(events), len(events), len(set(flat))], f'{what}: numbers')
            check_eq(sorted(got['classes']), sorted(set(flat)), f'{what}: classes')
            check_eq(sorted(got['start']), sorted({t[0] for t in kept if t}), f'{what}: first events')
            check_eq(sorted(got['end']), sorted({t[-1] for t in kept if t}), f'{what}: last events')
            check_eq(got['counts'], [flat.count(n) for n in INFO_NAMES], f'{what}: counts')
            check_eq(got['follows'], [[pairs.get((a, b), 0) for b in INFO_NAMES] for a in INFO_NAMES], f'{what}: directly-follows counts')
            check_eq(got['related'], [[(a, b) in pairs for b in INFO_NAMES] for a in INFO_NAMES], f'{what}: directly-follows relation')
            check_eq([m or {} for m in got['followed']], [{b: n for (x, b), n in pairs.items() if x == a} for a in INFO_NAMES], f'{what}: followers')
            check_eq([m or {} for m in got['precedes']], [{a: n for (a, x), n in pairs.items() if x == b} for b in INFO_NAMES], f'{what}: predecessors')
            check_eq(got['single'], [sum(1 for x, _ in pairs if x == a) == 1 for a in INFO_NAMES], f'{what}: events with one follower')
            ctx.op(1)
    ctx.state((str(log), str(ignored)))
    ctx.ok((str(log), str(ignored)))


# ---------------------------------------------------------------------------------------------------------------- names
TEXTS = ['', 'A', 'AB', 'BA', 'A B', 'a', 'ab', 'AAB', 'é', 'éA', 'A\nB', '(', '.', 'B', 'Aé', '😀A', 'ABAB']
REGEXES = ['', 'A', '^A', 'A$', 'B', 'A*', 'A+', 'A|AB', 'AB|A', '.', '..', '(?i)a', '[^A]', 'A(?=B)', '(?<=A)B', '^', '$', 'é', '\\.', '(A)(B)', 'A?B', '.*', '\\b', '^.é', '(', '[', '*', '(?P<x>A)']
BAD = ('(', '[', '*')


def gen_names(tier):
    for r in REGEXES:
        yield ('hasher', r)
    yield ('simple', None)


def run_names(ctx, kind, regex):
    if kind == 'simple':
        for log in gen.logs(3, 3, 4, canonical=False):
            log = named(log)
            check_eq(backend()('simple', log=log), log, f'names of a simple log of {log}')
            ctx.state(('simple', str(log)))
            ctx.op(1)
        ctx.ok('simple')
        return
    out = backend()('hasher', regex=regex, names=TEXTS)
    if regex in BAD:
        check(out is None, f'{regex!r} is accepted as a regex')
        ctx.ok(regex)
        return
    check(out is not None, f'{regex!r} is rejected')
    hashes = {}
    for n, (shown, of_name, of_event) in zip(TEXTS, out):
        m = re.search(regex, n)
        want = n[:m.end()] if m and m.start() == 0 else n
        check_eq(shown, want, f'class of {n!r} for {regex!r}')
        check_eq(of_name, of_event, f'hashes of {n!r} for {regex!r}')
        check_eq(hashes.setdefault(want, of_name), of_name, f'hash of the class {want!r}')
        ctx.state((regex, n))
        ctx.op(1)
    check_eq(len(set(hashes.values())), len(hashes), f'different classes have different hashes, for {regex!r}')
    ctx.ok(regex)


# ------------------------------------------------------------------------------------------------------------ intervals
def gen_intervals(tier):
    q = tier == 'quick'
    n = 4 if q else 5
    spans = [[a, b] for a in range(n) for b in range(a, n)]
    for k in (1, 2, 3):
        for c in batches(itertools.combinations_with_replacement(spans, k), 40):
            yield c, n
    wide = [[a, b] for a in range(0, 7, 1) for b in range(a, 7) if b - a in (0, 1, 3)]
    for c in batches(itertools.combinations(wide, 4 if q else 5), 100):
        yield c, 7
    for order in ([[0, 0], [1, 1], [2, 2], [3, 3], [4, 4]], [[0, 9], [1, 8], [2, 7], [3, 6], [4, 5]], [[0, 4], [4, 8], [8, 12], [2, 10], [4, 4]]):
        yield [list(p) for p in itertools.permutations(order)], 13


def run_intervals(ctx, sets, n):
    points = list(range(-1, n + 1))
    ranges = [[a, b] for a in points for b in points]
    for s in sets:
        s = [list(x) for x in s]
        out = backend()('intervals', intervals=s, points=points, ranges=ranges)
        items = [[a, b, i] for i, (a, b) in enumerate(s)]

        def agree(got, want, what):
            check_eq([g[0] for g in got], sorted(g[0] for g in got), f'{what}: sorted by the left end')
            check_eq(sorted(got), sorted(want), what)
        for p, got in zip(points, out['points']):
            agree(got, [x for x in items if x[0] <= p <= x[1]], f'intervals of {s} which contain {p}')
        for (a, b), (over, inside) in zip(ranges, out['ranges']):
            agree(over, [x for x in items if a <= b and x[0] <= b and x[1] >= a], f'intervals of {s} which overlap {a}..{b}')
            if a < b:
                agree(inside, [x for x in items if a <= x[0] and x[1] <= b], f'intervals of {s} inside {a}..{b}')
        ctx.state(str(s))
        ctx.op(len(points) + len(ranges))
    ctx.ok(str(sets[:1]))


# --------------------------------------------------------------------------------------------------------------- graphs
class Graph:
    def __init__(self):
        self.data, self.edges, self.alive = [], {}, []

    def apply(self, op):
        kind = op[0]
        if kind == 'node':
            self.data.append(op[1])
            self.alive.append(True)
        elif kind == 'connect':
            self.edges.setdefault((op[1], op[2]), op[3])
        elif kind == 'disconnect':
            self.edges.pop((op[1], op[2]), None)
        else:
            new, cluster = len(self.data), set(op[1])

            def text(items):
                return '+'.join(sorted('-' if x is None else x for x in items))
            moved = {}
            for (a, b), d in self.edges.items():
                if a in cluster and b in cluster:
                    continue
                moved.setdefault((new if a in cluster else a, new if b in cluster else b), []).append((d, a in cluster or b in cluster))
            self.data.append(text(self.data[i] for i in cluster))
            self.alive.append(True)
            for i in cluster:
                self.alive[i] = False
            self.edges = {k: text(d for d, _ in v) if v[0][1] else v[0][0] for k, v in moved.items()}


def graph_ops(g, tier, merges=True):
    live = [i for i, a in enumerate(g.alive) if a]
    if len(g.data) < 4:
        yield ['node', 'n' + str(len(g.data)) if len(g.data) % 2 else None]
    for a in live:
        for b in live:
            yield ['connect', a, b, f'{a}{b}' if (a + b) % 3 else None]
            if (a, b) in g.edges:
                yield ['disconnect', a, b]
    if merges:
        for s in gen.subsets(live):
            if s:
                yield ['merge', s]


def gen_graphs(tier):
    q = tier == 'quick'
    # all simple graphs of 3 nodes (with loops), then a merge or disconnections
    pairs = [(a, b) for a in range(3) for b in range(3)]
    base = [['node', 'x'], ['node', None], ['node', 'y']]
    for es in batches(gen.subsets(pairs), 16):
        batch = []
        for e in es:
            start = base + [['connect', a, b, f'{a}{b}' if (a * b) % 2 == 0 else None] for a, b in e]
            for s in gen.subsets(range(3)):
                if s:
                    batch.append(start + [['merge', s]])
            for a, b in e[:2]:
                batch.append(start + [['disconnect', a, b], ['connect', a, b, 'again'], ['connect', a, b, 'ignored'], ['merge', [0]]])
        yield (batch,)
    # all sequences of operations
    depth = 5 if q else 6

    def rec(ops, depth):
        if not depth:
            yield ops
            return
        g = Graph()
        for o in ops:
            g.apply(o)
        for o in graph_ops(g, tier):
            yield from rec(ops + [o], depth - 1)
    for b in batches(rec([['node', 'a'], ['node', 'b']], depth - 1), 200):
        yield (b,)
    # four nodes: every edge set of at most 3 (4) edges, two merges one after another
    pairs = [(a, b) for a in range(4) for b in range(4)]
    for k in (2, 3) if q else (2, 3, 4):
        batch = []
        for es in itertools.combinations(pairs, k):
            start = [['node', str(i)] for i in range(4)] + [['connect', a, b, f'{a}{b}'] for a, b in es]
            batch += [start + [['merge', [0, 1]], ['merge', [2, 4]]], start + [['merge', [0, 1]], ['merge', [2, 3]]], start + [['merge', [1, 2, 3]]]]
        for b in batches(batch, 200):
            yield (b,)


def run_graphs(ctx, batch):
    for ops in batch:
        out = backend()('graph', ops=ops)
        g = Graph()
        for i, (op, real) in enumerate(zip(ops, out['steps'])):
            g.apply(op)
            what = f'graph after {ops[:i + 1]}'
            live = [j for j, a in enumerate(g.alive) if a]
            check_eq(sorted(real['nodes'], key=str), sorted(([j, g.data[j], True] for j in live), key=str), f'{what}: nodes')
            check_eq(sorted(real['edges'], key=str), sorted(([a, b, d] for (a, b), d in g.edges.items()), key=str), f'{what}: edges')
            for j, (all_, out_, in_) in enumerate(real['around']):
                if g.alive[j]:
                    check_eq(sorted(out_), sorted(b for a, b in g.edges if a == j), f'{what}: nodes after {j}')
                    check_eq(sorted(in_), sorted(a for a, b in g.edges if b == j), f'{what}: nodes before {j}')
                    check_eq(set(all_), {b for a, b in g.edges if a == j} | {a for a, b in g.edges if b == j}, f'{what}: nodes around {j}')
            size = len(real['connected'])
            check_eq(real['connected'], [[(a, b) in g.edges for b in range(size)] for a in range(size)], f'{what}: connected')
            ctx.op(1)
        check_eq(out['default'], [sum(g.alive), True], f'{ops}: converted graph')
        ctx.state(str(ops))
    ctx.ok(str(batch[:1]))


# ------------------------------------------------------------------------------------------------------------ user data
def gen_user_data(tier):
    q = tier == 'quick'
    ops = [[k, h, key] + ([v] if k in ('put', 'put_any', 'change') else []) for h in (0, 1) for key in (0, 1)
           for k, v in (('put', 'p'), ('put_any', 'q'), ('remove', 0), ('remove_any', 0), ('change', 'c'))] + [['clone', 0], ['clone', 1]]
    for b in batches((list(s) for s in itertools.product(ops, repeat=4 if q else 5) if legal(s)), 500):
        yield (b,)
    few = [['put', 0, 0, 'p'], ['put', 1, 0, 'q'], ['change', 0, 0, 'c'], ['change', 1, 0, 'd'], ['remove', 0, 0], ['clone', 0], ['put_any', 1, 1, 'r'], ['remove_any', 1, 0]]
    for b in batches((list(s) for s in itertools.product(few, repeat=5) if legal(s)), 500):
        yield (b,)


def legal(ops):
    holders = 1
    for op in ops:
        if op[1] >= holders:
            return False
        holders += op[0] == 'clone'
    return True


def run_user_data(ctx, batch):
    for ops in batch:
        out = backend()('user_data', ops=ops)
        holders = [{}]
        for i, (op, real) in enumerate(zip(ops, out)):
            kind, h = op[:2]
            if kind in ('put', 'put_any'):
                holders[h][op[2]] = [op[3]]
            elif kind in ('remove', 'remove_any'):
                holders[h].pop(op[2], None)
            elif kind == 'change':
                if op[2] in holders[h]:
                    holders[h][op[2]][0] += op[3]
            else:
                holders.append(dict(holders[h]))
            want = [[len(u), [[u[k][0] if k in u else None] * 2 + [k in u] for k in (0, 1)]] for u in holders]
            check_eq(real, want, f'user data after {ops[:i + 1]}')
            ctx.op(1)
        ctx.state(str(ops))
    ctx.ok(str(batch[:1]))


def families(tier):
    q = tier == 'quick'
    return [
        Family('histories', lambda: gen_histories(tier), run_histories, f'all logs of 3 classes, 3 traces and {4 if q else 6} events with 5 sets of ignored events; all logs of 3 classes, 2 traces and {3 if q else 4} events x all sequences of 2 of 34 operations; 3 logs x all sequences of {3 if q else 4} of 12 operations; both kinds of logs; measured after every operation'),
        Family('information', lambda: gen_info(tier), run_info, f'all logs of 3 classes, 3 traces and {5 if q else 6} events with 5 sets of ignored events, of 2 classes, 2 traces and {8 if q else 10} events'),
        Family('names', lambda: gen_names(tier), run_names, f'{len(TEXTS)} names x {len(REGEXES)} regexes'),
        Family('intervals', lambda: gen_intervals(tier), run_intervals, f'all sets of at most 3 intervals of {4 if q else 5} numbers, sets of 4 and 5 of more, all points and ranges'),
        Family('graphs', lambda: gen_graphs(tier), run_graphs, f'all graphs of 3 nodes x all merges, all sequences of {5 if q else 6} operations, graphs of 4 nodes x merges of merges'),
        Family('user data', lambda: gen_user_data(tier), run_user_data, f'all sequences of {4 if q else 5} operations on copies, of 5 of 8 operations'),
    ]
