"""C28: what the backend discovers in a log (nets and graphs) is what the definition of the algorithm says."""
import itertools

from vlib import discovery as D, gen, rbackend, rustlib
from vlib.core import Family, Violation, check, check_eq
from vlib.rbackend import Probe, Spy, run, success
from vlib.rustlib import backend

from ficus.grpc_pipelines.constants import const_graph, const_names_event_log, const_petri_net
from ficus.grpc_pipelines.context_values import NamesLogContextValue
from ficus.grpc_pipelines.discovery_parts import (DiscoverFuzzyGraph, DiscoverPetriNetAlpha2, DiscoverPetriNetAlphaPlus2, DiscoverPetriNetAlphaPlusPlus2,
                                                  DiscoverPetriNetAlphaPlusPlusNfc2, DiscoverPetriNetHeuristic2, ViewDirectlyFollowsGraph2, ViewGraph2, ViewPetriNet2)
from ficus.grpc_pipelines.util_parts import UseNamesEventLog2

PROPERTY = 'C28'
ASSUMPTIONS = ['the backend is compiled with stand-ins for the crates which are not in the crate cache (see DESIGN.md)',
               'loops of length two (a, b, a) are looked for in the log itself, also by the algorithms which leave out events repeated in a row',
               'alpha++ adds nothing to alpha+, as the places of alpha+ are maximal; the second reduction rule of alpha++ nfc removes nothing',
               'fuzzy miner: which clusters are made depends on the order in which nodes and clusters are taken, every order is allowed; ratios are not negative']
setup = rustlib.setup(PROPERTY)
MODELS = {'alpha': D.alpha, 'alpha+': D.alpha_plus, 'alpha++': D.alpha_plus, 'nfc': D.nfc}


def canon(net, what, exact_names=False):
    """the net of the driver in the form of a model; checks that it is a proper net"""
    places, labels, silent_targets = dict(map(tuple, net['places'])), {}, {}
    transitions = net['transitions']
    check_eq(len(places), len(net['places']), f'{what}: ids of places')
    check_eq(len({t[0] for t in transitions}), len(transitions), f'{what}: ids of transitions')
    arcs = [a for t in transitions for a in t[4] + t[5]]
    check_eq(len({a[0] for a in arcs}), len(arcs), f'{what}: ids of arcs')
    check(not {t[0] for t in transitions} & set(places), f'{what}: ids of places and transitions')
    check(all(a[1] in places and a[2] == 1 for a in arcs), f'{what}: arcs lead to places of the net and move one token', net)
    readers = {}
    for t in transitions:
        for a in t[4]:
            readers.setdefault(a[1], []).append(t[1])
    for t in transitions:
        check_eq(t[3], t[1], f'{what}: data of a transition')
        labels[t[0]] = t[1] + '#' + ','.join(sorted(x for a in t[5] for x in readers.get(a[1], []))) if t[2] else t[1]
    pre, post = {p: [] for p in places}, {p: [] for p in places}
    for t in transitions:
        for a in t[4]:
            post[a[1]].append(labels[t[0]])
        for a in t[5]:
            pre[a[1]].append(labels[t[0]])
    form = {p: (tuple(sorted(pre[p])), tuple(sorted(post[p]))) for p in places}
    marking = lambda m: m and [(form[p], n) for p, n in m]
    if exact_names:
        for p, name in places.items():
            if [[p, 1]] not in (net['initial'], net['final']):
                check_eq(name, '({%s}, {%s})' % tuple(','.join(x) for x in form[p]), f'{what}: name of a place')
    return {'transitions': sorted((labels[t[0]], t[2]) for t in transitions), 'places': sorted(form.values()),
            'initial': marking(net['initial']), 'final': marking(net['final'])}


def differ(got, want, what):
    for key in want:
        check_eq(got[key], want[key], f'{what}: {key}')


def letters(log):
    return [[chr(97 + x) for x in t] for t in log]


def numbered(log):
    """logs of gen as letters (gen uses numbers or letters)"""
    return log if all(isinstance(x, str) for t in log for x in t) else letters(log)


def discover(log, algorithm, params=(), what=''):
    what = f'{algorithm}{list(params) if params else ""} on {log} {what}'
    net = canon(backend()('net', log=log, algorithm=algorithm, params=list(params)), what, algorithm == 'alpha')
    differ(net, D.heuristic(log, *params) if algorithm == 'heuristic' else MODELS[algorithm](log), what)
    return net


# --------------------------------------------------------------------------------------------------------------- alpha
def gen_alpha(tier):
    q = tier == 'quick'
    bounds = [(3, 3, 7), (5, 2, 6)] if q else [(3, 2, 9), (5, 3, 7), (4, 2, 8), (6, 1, 9)]
    for b in bounds:
        for log in gen.logs(*b):
            yield [numbered(log)]


def run_alpha(ctx, log):
    for algorithm in ('alpha', 'alpha+', 'alpha++'):
        net = discover(log, algorithm)
        ctx.op(1)
    ctx.state(repr(net['places']))
    ctx.ok(repr(log))


# ------------------------------------------------------------------------------------------------------- alpha++ nfc
NFC = [['abcadceb'], ['abcdbeca'], ['abacadbda'], ['abacbdcea'], ['abcbdbc'], ['acd', 'bce'], ['ab', 'cb', 'dad'], ['acd', 'bce', 'bccd', 'acce'],
       ['abcde', 'abdce', 'aebcd'], ['acfe', 'bcfd', 'acgd', 'bcge'], ['abfce', 'abfde', 'cdabf'], ['axcbd', 'aycbe', 'axxcbd']]


def gen_nfc(tier):
    q = tier == 'quick'
    for words in NFC:
        for k in range(1, len(words) + 1):
            for sub in itertools.permutations(words, k):
                yield [[list(w) for w in sub]]
        # every log at one edit from these
        for i, w in enumerate(words):
            for j in range(len(w)):
                for e in (w[:j] + w[j + 1:], w[:j] + w[j] + w[j:], w[:j] + 'z' + w[j:], w[:j] + w[j + 1:j + 2] + w[j] + w[j + 2:]):
                    yield [[list(e if x == i else y) for x, y in enumerate(words)]]
        if len(words[0]) < 7:
            for a, b in itertools.product(range(len(words[0])), repeat=2):
                yield [[list(words[0]), list(words[0][:a] + words[0][b:])] + [list(w) for w in words[1:]]]
    for b in [(3, 3, 6), (5, 2, 6)] if q else [(3, 2, 8), (5, 3, 7), (4, 1, 10), (5, 1, 9), (6, 1, 8)]:
        for log in gen.logs(*b):
            yield [numbered(log)]


def run_nfc(ctx, log):
    net = discover(log, 'nfc')
    ctx.op(1)
    ctx.state(repr(net['places']))
    ctx.ok(repr(log))


# ---------------------------------------------------------------------------------------------------------- heuristic
HEURISTIC = [(0.5, 1, 1.0, 0.1, 0.5), (0.0, 1, 1.0, 0.1, 0.5), (-1.0, 0, 1.0, 0.5, 0.4), (0.3, 2, 0.2, 0.5, 0.6), (0.4, 1, 0.0, 0.0, 0.9)]
ONE_BY_ONE = [(0.2, 1, 1.0, 0.1, 0.5)[:i] + (v,) + (0.2, 1, 1.0, 0.1, 0.5)[i + 1:]
              for i, vs in enumerate([(-2.0, -0.5, 0.25, 1 / 3, 0.5, 0.99), (0, 2, 3), (0.0, 0.3, 0.5), (-1.0, 0.0, 0.25, 0.5, 1.0, 2.0), (-1.0, 0.0, 2 / 3, 0.75)]) for v in vs]


def gen_heuristic(tier):
    q = tier == 'quick'
    for b, params in [((3, 2, 6), HEURISTIC), ((5, 2, 5), HEURISTIC[:2]), ((3, 3, 5), ONE_BY_ONE)] if q else \
            [((3, 2, 8), HEURISTIC), ((5, 2, 7), HEURISTIC[:3]), ((3, 2, 7), ONE_BY_ONE), ((6, 1, 8), HEURISTIC[:2])]:
        for log in gen.logs(*b):
            yield [numbered(log), params]
    # choices and forks: a starts, some of b, c, d, e follow in some of the orders
    pool = [list('a' + ''.join(p)) for k in (2, 3) for p in itertools.permutations('bcd', k)] + [list('ab'), list('ac'), list('ad')]
    for r in (1, 2, 3) if q else (1, 2, 3, 4):
        for combo in itertools.combinations(pool, r):
            yield [list(combo), HEURISTIC]
    for many in (2, 3, 5):
        for w in (list('aba'), list('abab'), list('abc'), list('acb'), list('aab')):
            for other in (list('abc'), list('ba'), list('cab')):
                yield [[w] * many + [other], HEURISTIC + ONE_BY_ONE]


def run_heuristic(ctx, log, params):
    for p in params:
        net = discover(log, 'heuristic', p)
        ctx.op(1)
        ctx.state(repr(net['places']))
    ctx.ok(repr(log))


# ------------------------------------------------------------------------------------------------------------- graphs
def graph(g, what):
    """the graph of the driver in the form of a model"""
    labels = {}
    for i, name in g['nodes']:
        cluster = name is not None and name.startswith('Cluster[')
        labels[i] = ('cluster', *sorted(name[8:-1].split(','))) if cluster else ('node', name)
    check_eq(len(labels), len(g['nodes']), f'{what}: ids of nodes')
    check_eq(len({tuple(e[:2]) for e in g['edges']}), len(g['edges']), f'{what}: edges between the same nodes')
    check(all(e[0] in labels and e[1] in labels for e in g['edges']), f'{what}: edges connect nodes of the graph', g)
    return {'nodes': sorted(labels.values()), 'edges': sorted((labels[a], labels[b], d) for a, b, d in g['edges'])}


TIMES = [lambda i, j: j * 1000, lambda i, j: (j * j * 700 + i * 300), lambda i, j: 5000, lambda i, j: 100000 - j * 1500 - i, lambda i, j: [0, 1, 5, 6, 7, 20, 21, 30, 31][j] * 250]
FUZZY = [(0, 0, 0, 0, 0, 0, 0), (1, 0, 0, 0, 1, 0, 0), (0, 1, 0, 0, 0.5, 0.5, 0), (0, 0, 0.6, 0.1, 0.5, 0.3, 0), (0, 0, 2, 0.2, 1, 0, 3), (0, 0, 0, 0, 0, 0, 2),
         (0, 0, 0, 0, 0, 0, 100), (0, 0, 0.4, 0, 0.3, 1, 100), (0, 0, 2, 0, 0, 0.2, 3), (-1, -1, 0.5, 0.1, 0.5, 0.5, 2), (0, 0, 0, 0, 0.5, 1.5, 9)]


def gen_graphs(tier):
    q = tier == 'quick'
    for b, times, params in [((3, 2, 6), [0, 1], FUZZY), ((4, 1, 7), [1, 4], FUZZY), ((5, 1, 6), [1], FUZZY[4:8])] if q else \
            [((3, 2, 7), range(5), FUZZY), ((4, 2, 7), [1, 4], FUZZY), ((5, 1, 8), [1, 4], FUZZY[4:8]), ((6, 1, 7), [1], FUZZY[4:8])]:
        for log in gen.logs(*b):
            yield [numbered(log), [i for i in times], params]
    grid = list(itertools.product((0, 1), (0, 1), (0, 0.5, 2), (0, 0.25), (0, 0.5, 1), (0, 0.5, 1), (0, 2, 9)))
    for log in (['abcab'], ['abab', 'ba'], ['aabbc', 'ac'], ['abcd', 'acbd', 'dcba']):
        for k in range(0, len(grid), 81):
            yield [[list(t) for t in log], [1], grid[k:k + 81]]


def run_graphs(ctx, log, patterns, params):
    what = f'directly follows graph of {log}'
    g = graph(backend()('dfg', log=log), what)
    want = D.dfg(log)
    differ(g, {'nodes': [('node', x) for x in want['nodes']], 'edges': sorted((('node', a), ('node', b), n) for a, b, n in want['edges'])}, what)
    for pattern in patterns:
        times = [[TIMES[pattern](i, j) for j in range(len(t))] for i, t in enumerate(log)]
        for n, p in enumerate(params):
            what = f'fuzzy graph of {log}, times {times}, parameters {p}'
            g = graph(backend()('fuzzy', log=log, times=times, params=list(p), default=n % 2 == 0), what)
            g['edges'] = [(a, b, float(d)) for a, b, d in g['edges']]
            outcomes = D.fuzzy(log, times, p)
            check(g in outcomes, f'{what}: {g} is not among {len(outcomes)} outcomes, such as {outcomes[:2]}')
            ctx.op(len(outcomes))
            ctx.state(repr(g))
    ctx.ok(repr(log))


# -------------------------------------------------------------------------------------------------------------- names
NAMES = [['aa', 'a', 'aaa', 'b'], ['b', 'a', 'd', 'c'], ['', ' ', '  ', '\n'], ['a,b', 'a', 'b', 'a},{b'], ['({a}, {b})', '{', '}', ','], ['StartPlace', 'EndPlace', 'Start', 'End'],
         ['Ы', 'ы', '日本', '🙂'], ['post_a', 'pre_a', 'a', 'post_pre_a'], ['ab', 'c', 'a', 'bc'], ['A', 'a', 'À', 'Z']]


def gen_names(tier):
    for log in gen.logs(4, 2, 5 if tier == 'quick' else 6, min_traces=1):
        yield [[[x if isinstance(x, int) else 'abcd'.index(x) for x in t] for t in log]]


def run_names(ctx, log):
    for names in NAMES:
        named = [[names[x] for x in t] for t in log]
        for algorithm in ('alpha', 'alpha+', 'alpha++', 'nfc'):
            net = discover(named, algorithm)
        discover(named, 'heuristic', HEURISTIC[1])
        discover(named, 'heuristic', HEURISTIC[2])
        ctx.op(6)
    ctx.state(repr(net))
    ctx.ok(repr(log))


# ---------------------------------------------------------------------------------------------------------- pipelines
def net_of_grpc(net):
    # the name is the only thing about a transition which is sent
    arcs = lambda arcs: [[a.id, a.placeId, a.tokens_count] for a in arcs]
    marking = lambda m: [[x.placeId, x.tokensCount] for x in m.markings]
    return {'places': [[p.id, p.name] for p in net.places],
            'transitions': [[t.id, t.data, t.data.startswith('silent_start_'), t.data, arcs(t.incomingArcs), arcs(t.outgoingArcs)] for t in net.transitions],
            'initial': marking(net.initial_marking) if net.HasField('initial_marking') else None,
            'final': marking(net.final_marking) if net.HasField('final_marking') else None}


def graph_of_grpc(g):
    return {'nodes': [[n.id, n.data] for n in g.nodes], 'edges': [[e.from_node, e.to_node, e.data] for e in g.edges]}


BINARY = [(0.5, 1, 1.0, 0.125, 0.5), (-0.5, 2, 0.5, 0.25, 0.75), (0.25, 1, 0.0, 0.5, -1.0)]
BINARY_FUZZY = [(0, 0, 0, 0, 0, 0, 0), (1, 0, 2, 0.25, 0.5, 0.75, 3), (0, 1, 0.5, 0.125, 1, 0.5, 2), (0, 0, 0.5, 0, 0.25, 0.25, 9), (0, 0, 0.5, 9, 0.25, 0.25, 0)]


def gen_pipes(tier):
    for log in gen.logs(4, 2, 5 if tier == 'quick' else 6, min_traces=1):
        yield [numbered(log)]


def run_pipes(ctx, log):
    initial = {const_names_event_log: NamesLogContextValue(log)}
    seen = []
    steps = []
    for part, algorithm in ((DiscoverPetriNetAlpha2, 'alpha'), (DiscoverPetriNetAlphaPlus2, 'alpha+'), (DiscoverPetriNetAlphaPlusPlus2, 'alpha++'), (DiscoverPetriNetAlphaPlusPlusNfc2, 'nfc')):
        steps += [part(), Spy(ViewPetriNet2(), seen, (algorithm, ()))]
    for p in BINARY:
        steps += [DiscoverPetriNetHeuristic2(*p), Spy(ViewPetriNet2(), seen, ('heuristic', p))]
    steps += [DiscoverPetriNetHeuristic2(), Spy(ViewPetriNet2(), seen, ('heuristic', None))]
    for p in BINARY_FUZZY:
        steps += [DiscoverFuzzyGraph(*map(float, p)), Spy(ViewGraph2(), seen, ('fuzzy', p))]
    steps += [Spy(ViewDirectlyFollowsGraph2(), seen, ('dfg', ())), Spy(ViewGraph2(), seen, ('dfg', ()))]
    last, _, _ = run([UseNamesEventLog2()] + steps, initial, what=f'discovery in {log}')
    success(last, f'discovery in {log}')
    check_eq(len(seen), 4 + len(BINARY) + 1 + len(BINARY_FUZZY) + 2, f'results of discovery in {log}')
    times = [[0] * len(t) for t in log]
    for (algorithm, p), values in seen:
        what = f'{algorithm} {p} through a pipeline on {log}'
        if algorithm == 'dfg':
            want = D.dfg(log)
            differ(graph(graph_of_grpc(values[const_graph].graph), what),
                   {'nodes': [('node', x) for x in want['nodes']], 'edges': sorted((('node', a), ('node', b), n) for a, b, n in want['edges'])}, what)
        elif algorithm == 'fuzzy':
            g = graph(graph_of_grpc(values[const_graph].graph), what)
            g['edges'] = [(a, b, float(d)) for a, b, d in g['edges']]
            # the events of such logs have the time of their creation, which is different by an unknown amount: judge what does not depend on it
            if p[4] == 1 and p[6] == 0 or p[5] == 0 and p[6] == 0:
                check(g in D.fuzzy(log, times, p), f'{what}: {g}')
            names = sorted(x for n in g['nodes'] for x in n[1:])
            check_eq(names, sorted(c for c in D.classes_of(log) if sum(t.count(c) for t in log) > p[0]), f'{what}: classes of the graph')
        else:
            net = canon(net_of_grpc(values[const_petri_net].petriNet), what)
            differ(net, D.heuristic(log, *(p or (0.5, 1, 1.0, 0.1, 0.5))) if algorithm == 'heuristic' else MODELS[algorithm](log), what)
        ctx.op(1)
    ctx.state(repr(log))
    ctx.ok(repr(log))


def families(tier):
    q = tier == 'quick'
    return [
        Family('alpha', lambda: gen_alpha(tier), run_alpha, f'alpha, alpha+ and alpha++ on all logs of (classes, traces, events) up to {"(3,3,7), (5,2,6)" if q else "(3,2,9), (5,3,7), (4,2,8), (6,1,9)"}'),
        Family('alpha++ nfc', lambda: gen_nfc(tier), run_nfc, f'all logs up to {"(3,3,6), (5,2,6)" if q else "(3,2,8), (5,3,7), (4,1,10), (5,1,9), (6,1,8)"}; {len(NFC)} logs with implicit dependencies: all sublogs in every order and every log at one edit'),
        Family('heuristic', lambda: gen_heuristic(tier), run_heuristic, f'all logs up to {"(3,2,6), (5,2,5), (3,3,5)" if q else "(3,2,8), (5,2,7), (3,2,7), (6,1,8)"} x up to {len(ONE_BY_ONE)} sets of thresholds; all sets of forks'),
        Family('graphs', lambda: gen_graphs(tier), run_graphs, f'DFG and fuzzy graphs: all logs up to {"(3,2,6), (4,1,7), (5,1,6)" if q else "(3,2,7), (4,2,7), (5,1,8), (6,1,7)"} x timings x {len(FUZZY)} sets of parameters; 4 logs x 648 sets'),
        Family('names', lambda: gen_names(tier), run_names, f'all logs of 4 classes, 2 traces and {5 if q else 6} events x {len(NAMES)} sets of names x 6 discoveries'),
        Family('pipelines', lambda: gen_pipes(tier), run_pipes, f'all logs of 4 classes, 2 traces and {5 if q else 6} events through the client: 15 discoveries in one pipeline'),
    ]
