"""Reference models of the discovery algorithms: every definition is evaluated directly over sets (no caches, no hashing).

A net of a model is {'transitions': [(name, silent)], 'places': [(pre, post)], 'initial': [...], 'final': [...]} with pre and post
sorted tuples of names of transitions; a marking is the place it holds."""
import itertools


def follows_of(log, ignored=()):
    out = {}
    for t in log:
        f = [x for x in t if x not in ignored]
        for a, b in zip(f, f[1:]):
            out[a, b] = out.get((a, b), 0) + 1
    return out


def classes_of(log, ignored=()):
    return sorted({x for t in log for x in t if x not in ignored})


def triangles_of(log):
    out = {}
    for t in log:
        for a, b, c in zip(t, t[1:], t[2:]):
            if a == c:
                out[a, b] = out.get((a, b), 0) + 1
    return out


def loops_of(log):
    return {a for t in log for a, b in zip(t, t[1:]) if a == b}


def subsets(items):
    return [frozenset(c) for n in range(1, len(items) + 1) for c in itertools.combinations(items, n)]


class Relations:
    """how the events of a log follow each other; `kind` is the flavour of the causal relation"""
    def __init__(self, log, ignored=(), kind='alpha'):
        self.log, self.kind = log, kind
        self.classes = classes_of(log, ignored)
        self.follows = follows_of(log, ignored)
        self.triangles = triangles_of(log)
        rest = [[x for x in t if x not in ignored] for t in log]
        self.start, self.end = {t[0] for t in rest if t}, {t[-1] for t in rest if t}
        self.extra = set()
        self.memo = {}

    def extend(self, pairs):
        self.extra |= set(pairs)
        self.memo = {}

    def direct(self, a, b):
        return (a, b) in self.follows

    def tri(self, a, b):
        return (a, b) in self.triangles

    def causal(self, a, b):
        if self.kind == 'alpha':
            return self.direct(a, b) and not self.direct(b, a)
        if self.kind == 'alpha+':
            return self.direct(a, b) and (not self.direct(b, a) or self.tri(a, b) and self.tri(b, a))
        return (a, b) in self.extra or self.direct(a, b) and (not self.direct(b, a) or self.tri(a, b) or self.tri(b, a))

    def parallel(self, a, b):
        return self.direct(a, b) and self.direct(b, a) and not (self.tri(a, b) or self.tri(b, a))

    def unrelated(self, a, b):
        return not self.direct(a, b) and not self.direct(b, a)

    def left(self, a, b):
        return self.unrelated(a, b) and any(self.causal(c, a) and self.causal(c, b) for c in self.classes)

    def right(self, a, b):
        return self.unrelated(a, b) and any(self.causal(a, c) and self.causal(b, c) for c in self.classes)

    def eventually(self, a, b):
        """a is followed by b later, and nothing between them shares a cause or an effect with a"""
        if (a, b) not in self.memo:
            self.memo[a, b] = self._eventually(a, b)
        return self.memo[a, b]

    def _eventually(self, a, b):
        if a == b or self.direct(a, b):
            return False
        for t in self.log:
            last = None
            for i, x in enumerate(t):
                if x == a:
                    last = i
                elif x == b and last is not None:
                    between = [y for y in t[last + 1:i] if y in self.classes]
                    if between and not any(self.left(y, a) or self.right(y, a) for y in between):
                        return True
                    last = None
        return False

    def reaches(self, a, b):
        return self.causal(a, b) or self.eventually(a, b)


def alpha_sets(r):
    """the maximal pairs (A, B): every a causes every b, the members of A are unrelated, and so are those of B"""
    groups = [g for g in subsets(r.classes) if all(r.unrelated(a, b) for a in g for b in g)]
    pairs = [(a, b) for a in groups for b in groups if all(r.causal(x, y) for x in a for y in b)]
    return [p for p in pairs if not any(p != q and p[0] <= q[0] and p[1] <= q[1] for q in pairs)]


class Net:
    def __init__(self):
        self.transitions, self.places, self.initial, self.final = [], [], None, None

    def place(self, pre, post, name=None):
        self.places.append([list(pre), list(post), name])
        return self.places[-1]

    def incoming(self, name):
        return [i for i, p in enumerate(self.places) if name in p[1]]

    def outgoing(self, name):
        return [i for i, p in enumerate(self.places) if name in p[0]]

    def canon(self):
        place = lambda p: (tuple(sorted(p[0])), tuple(sorted(p[1])))
        return {'transitions': sorted(self.transitions), 'places': sorted(place(p) for p in self.places),
                'initial': self.initial and [(place(self.initial), 1)], 'final': self.final and [(place(self.final), 1)]}


def alpha_net(r):
    net = Net()
    net.transitions = [(c, False) for c in r.classes]
    for a, b in alpha_sets(r):
        net.place(a, b, (a, b))
    net.initial, net.final = net.place([], r.start), net.place(r.end, [])
    return net


def add_loops(net, log, loops):
    follows = follows_of(log)
    for c in sorted(loops):
        name = (frozenset(a for a, b in follows if b == c and a != c), frozenset(b for a, b in follows if a == c and b != c))
        net.transitions.append((c, False))
        place = next((p for p in net.places if p[2] == name), None) or net.place([], [], name)
        place[0].append(c)
        place[1].append(c)
    return net


def alpha(log):
    return alpha_net(Relations(log)).canon()


def alpha_plus(log):
    loops = loops_of(log)
    return add_loops(alpha_net(Relations(log, loops, 'alpha+')), log, loops).canon()


def maximize(elements, merge):
    """merges elements pairwise, as long as possible"""
    current = set(elements)
    while True:
        new, merged = set(), set()
        for x in current:
            for y in current:
                if x != y and (z := merge(x, y)) is not None:
                    new.add(z)
                    merged |= {x, y}
        if not merged:
            return current
        current = new | (current - merged)


def heuristic(log, dependency, observations, best, and_threshold, loop_two):
    follows, tri, classes = follows_of(log), triangles_of(log), classes_of(log)
    n = lambda a, b: follows.get((a, b), 0)
    measure = lambda a, b: n(a, a) / (n(a, a) + 1) if a == b else (n(a, b) - n(b, a)) / (n(a, b) + n(b, a) + 1)
    net = Net()
    net.transitions = [(c, False) for c in classes]
    for a in classes:
        ms = {b: measure(a, b) for b in classes if n(a, b) >= observations and measure(a, b) > dependency}
        followers = [b for b in ms if ms[b] >= max(ms.values()) * (1 - best)]
        if not followers:
            continue
        both = lambda b, c: (n(b, c) + n(c, b)) / (n(a, b) + n(a, c) + 1) > and_threshold
        cliques = [g for g in subsets(followers) if len(g) > 1 and all(both(b, c) for b in g for c in g if b != c)]
        groups = sorted(sorted(g) for g in cliques if not any(g < h for h in cliques))
        used = {b for g in groups for b in g}
        silent = [f'silent_start_{a}#{",".join(g)}' for g in groups]
        net.transitions += [(s, True) for s in silent]
        net.place([a], silent + [b for b in followers if b not in used])
        for s, g in zip(silent, groups):
            for b in g:
                net.place([s], [b])
    t = lambda a, b: tri.get((a, b), 0)
    extra = []
    for a in classes:
        for b in classes:
            if a != b and (t(a, b) + t(b, a)) / (t(a, b) + t(b, a) + 1) > loop_two:
                extra += [(p, 1, a) for p in net.outgoing(b)] + [(p, 0, a) for p in net.incoming(b)]
    for p, side, a in extra:
        if a not in net.places[p][side]:
            net.places[p][side].append(a)
    return net.canon()


# ------------------------------------------------------------------------------------------------------------ alpha++ nfc
def pre_names(net, p):
    return net.places[p][0]


def w1(r, net, a, b):
    if r.direct(a, b):
        return False
    for e in r.classes:
        for p in net.incoming(e):
            for q in net.incoming(e):
                first, second = net.places[p], net.places[q]
                if p != q and a in first[0] and a not in second[0] and b in second[1] and \
                        not any(r.reaches(x, a) or r.parallel(x, a) for x in second[0]):
                    return True
    return False


def w2(r, net, a, b):
    if not r.eventually(a, b):
        return False
    sees = lambda x, y: r.reaches(x, y) or r.parallel(x, y)
    out, into = net.outgoing(a), net.incoming(b)
    if len(out) > 1 and any(r.left(b, c) and any(not any(sees(t, b) for t in net.places[p][1]) and any(sees(t, c) for t in net.places[p][1])
                                                 for p in out) for c in r.classes):
        return True
    return len(into) > 1 and any(r.right(a, c) and any(not any(sees(a, t) for t in net.places[p][0]) and any(sees(c, t) for t in net.places[p][0])
                                                       for p in into) for c in r.classes)


def w3(r, net, a, b):
    if not r.eventually(a, b):
        return False
    post, pre = {c: set(net.outgoing(c)) for c in r.classes}, {c: set(net.incoming(c)) for c in r.classes}
    for c in r.classes:
        for d in r.classes:
            if c == d or not post[a] & post[c] or not pre[b] & pre[d] or r.eventually(a, d) or r.eventually(c, b) or not r.eventually(c, d):
                continue
            covered = set(pre[d])
            for t in r.classes:
                if not r.eventually(a, t) and r.eventually(c, t) and (r.parallel(d, t) or r.reaches(d, t)) and pre[b] & pre[t]:
                    covered |= pre[t]
            if pre[b] <= covered:
                return True
    return False


def nfc(log):
    loops = loops_of(log)
    whole = Relations(log, (), 'nfc')

    def triple_ok(x):
        return all(whole.direct(a, c) and not whole.tri(c, a) and whole.direct(c, b) and not whole.tri(c, b) and not whole.parallel(a, b)
                   and whole.unrelated(a, a) and whole.unrelated(b, b) for a in x[0] for b in x[1] for c in x[2])
    union = lambda x, y: tuple(p | q for p, q in zip(x, y))
    one = lambda x: frozenset([x])
    triples = {(one(a), one(b), one(c)) for a in whole.classes for b in whole.classes for c in loops}
    merged = lambda ok: (lambda x, y: union(x, y) if ok(union(x, y)) else None)
    l_w = maximize({x for x in triples if triple_ok(x)}, merged(triple_ok))

    net = add_loops(alpha_net(whole), log, loops)
    r = Relations(log, loops, 'nfc')
    pairs = [(a, b) for a in r.classes for b in r.classes]
    first = {p for p in pairs if w1(r, net, *p)}
    r.extend(first)

    net = add_loops(alpha_net(r), log, loops)
    all_second = {p for p in pairs if w2(r, net, *p)}
    second = {(a, c) for a, c in all_second if not any((a, b) in all_second and r.reaches(b, c) or (b, c) in all_second and r.reaches(a, b) for b in r.classes)}

    implied = first | second
    nothing = frozenset()

    def extended_ok(x):
        (a, b), left, right = x
        return not (left & a or right & b) and all((y, z) in implied for y in a for z in right) and \
            all((y, z) in implied for y in left for z in b | right) and \
            all(r.unrelated(y, z) and not r.eventually(y, z) for y in left for z in a) and \
            all(r.unrelated(z, y) and not r.eventually(z, y) for y in right for z in b)
    sides = [nothing] + [one(c) for c in r.classes]
    sets = alpha_sets(r)
    candidates = {(s, x, y) for s in sets for x in sides for y in sides}

    def merge(x, y):
        z = (x[0], x[1] | y[1], x[2] | y[2])
        return z if x[0] == y[0] and extended_ok(z) else None
    y_w = maximize({x for x in candidates if extended_ok(x)}, merge)

    r.extend(second)
    net = add_loops(alpha_net(r), log, loops)
    third = {p for p in pairs if w3(r, net, *p)}

    def pair_ok(x):
        return all((a, b) in third for a in x[0] for b in x[1]) and all(r.unrelated(a, b) for s in x for a in s for b in s)
    z_w = maximize({x for a, b in pairs if pair_ok(x := (one(a), one(b)))}, merged(pair_ok))

    places = set(z_w) | {(a | x, b | y) for (a, b), x, y in y_w}
    places -= {(a, b) for a, b, c in l_w}
    places |= {(a | c, b | c) for a, b, c in l_w}
    net = Net()
    net.transitions = [(c, False) for c in sorted(set(r.classes) | loops)]
    for a, b in places:
        net.place(a, b, (a, b))
    return net.canon()


# ----------------------------------------------------------------------------------------------------------- graphs
def dfg(log):
    return {'nodes': classes_of(log), 'edges': sorted((a, b, str(n)) for (a, b), n in follows_of(log).items())}


def proximity(log, times, a, b):
    """the average time from the last a to the b after it"""
    total, count = 0.0, 0
    for t, stamps in zip(log, times):
        last = None
        for x, stamp in zip(t, stamps):
            if x == a:
                last = stamp
            elif x == b and last is not None:
                total += float(stamp - last)
                count += 1
                last = None
    return total / count if count else 0.0


def divide(a, b):
    return a / b if b else float('nan')


def fuzzy_base(log, times, unary, binary, preserve, ratio, utility, edge_cutoff):
    """nodes and edges of the fuzzy graph before clusters are made"""
    follows = follows_of(log)
    n = lambda a, b: follows.get((a, b), 0)
    nodes = [c for c in classes_of(log) if sum(t.count(c) for t in log) > unary]
    edges = {(a, b) for a in nodes for b in nodes if n(a, b) > binary}
    sig = lambda a, b: divide(0.5 * n(a, b), sum(n(a, x) for x in nodes)) + divide(0.5 * n(a, b), sum(n(x, b) for x in nodes))
    for a, b in sorted(edges):
        if a <= b and {(a, b), (b, a)} <= edges:
            x, y = sig(a, b), sig(b, a)
            if x < preserve or y < preserve:
                if abs(x - y) > ratio:
                    edges.discard((a, b) if x < y else (b, a))
                else:
                    edges -= {(a, b), (b, a)}
    kept = set()
    for b in nodes:
        before = [a for a in nodes if (a, b) in edges]
        measures = {a: utility * n(a, b) + (1 - utility) * proximity(log, times, a, b) for a in before}
        low, high = min(measures.values(), default=0), max(measures.values(), default=0)
        kept |= {(a, b) for a in before if (1.0 if high == low else (measures[a] - low) / (high - low)) >= edge_cutoff}
    return nodes, {e: n(*e) for e in kept}


def fuzzy_clusters(log, times, nodes, edges, node_cutoff):
    """every set of clusters which some order of the nodes and of the clusters leads to"""
    memo = {}

    def near(a, b):
        if (a, b) not in memo:
            memo[a, b] = proximity(log, times, a, b)
        return memo[a, b]
    out = {c: {b for a, b in edges if a == c} for c in nodes}
    into = {c: {a for a, b in edges if b == c} for c in nodes}
    weak = [c for c in nodes if sum(t.count(c) for t in log) < node_cutoff]
    best = {}
    for c in weak:
        around = (out[c] | into[c]) - {c}
        best[c] = {x for x in around if near(c, x) == max(near(c, y) for y in around)}
    initial = set()

    def go(left, clusters):
        if not left:
            initial.add(frozenset(clusters))
        for c in left:
            for x in best[c] or [None]:
                rest = left - {c}
                if x is None:
                    go(rest, clusters)
                else:
                    home = next((k for k in clusters if x in k), None)
                    go(rest, (clusters - {home}) | {home | {c}} if home else clusters | {frozenset([c])})
    # nodes without neighbours are left alone whatever the order is
    go(frozenset(c for c in weak if best[c]), frozenset())

    final, seen, todo = set(), set(), list(initial)
    while todo:
        clusters = todo.pop()
        if clusters in seen:
            continue
        seen.add(clusters)
        home = {x: k for k in clusters for x in k}
        stuck = True
        for k in clusters:
            for step in (out, into):
                around = set().union(*(step[x] for x in k)) - k
                if around and all(x in home for x in around):
                    others = {home[x] for x in around}
                    corr = {o: sum(near(a, b) for a in k for b in o) / (len(k) * len(o)) for o in others}
                    for o in others:
                        if abs(corr[o] - max(corr.values())) < 1e-6:
                            todo.append((clusters - {k, o}) | {k | o})
                    stuck = False
                    break
        if stuck:
            final.add(clusters)
    return final


def fuzzy(log, times, params):
    *first, node_cutoff = params
    nodes, edges = fuzzy_base(log, times, *first)
    outcomes = []
    for clusters in fuzzy_clusters(log, times, nodes, edges, node_cutoff):
        home = {x: k for k in clusters for x in k}
        name = lambda x: ('cluster', *sorted(home[x])) if x in home else ('node', x)
        total = {}
        for (a, b), n in edges.items():
            if a not in home or home[a] != home.get(b):
                total[name(a), name(b)] = total.get((name(a), name(b)), 0) + n
        outcomes.append({'nodes': sorted({name(x) for x in nodes}), 'edges': sorted((a, b, float(n)) for (a, b), n in total.items())})
    return outcomes
