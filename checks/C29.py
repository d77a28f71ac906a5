"""C29: Petri nets of the backend: replay of logs, annotations, the initial marking, PNML and what the client receives."""
import itertools
import math
import os
from xml.etree import ElementTree

from vlib import discovery as D, gen, rbackend, rustlib
from vlib.core import Family, Violation, check, check_eq
from vlib.rbackend import Spy, run, success
from vlib.rustlib import backend

from ficus.grpc_pipelines.constants import (const_names_event_log, const_petri_net, const_petri_net_count_annotation,
                                            const_petri_net_frequency_annotation, const_petri_net_trace_frequency_annotation)
from ficus.grpc_pipelines.context_values import NamesLogContextValue
from ficus.grpc_pipelines.discovery_parts import (AnnotatePetriNetWithCount2, AnnotatePetriNetWithFrequency2, AnnotatePetriNetWithTraceFrequency2,
                                                  DiscoverPetriNetAlpha2, DiscoverPetriNetAlphaPlus2, DiscoverPetriNetAlphaPlusPlusNfc2,
                                                  DiscoverPetriNetHeuristic2, EnsureInitialMarking, SerializePetriNetToPNML2, ViewPetriNet2)
from ficus.grpc_pipelines.util_parts import UseNamesEventLog2

PROPERTY = 'C29'
ASSUMPTIONS = ['the backend is compiled with stand-ins for the crates which are not in the crate cache (see DESIGN.md)',
               'a trace is replayed when its events can be fired in their order, with silent transitions between them; the final marking need not be reached',
               'where several firing sequences replay a trace any of them may be taken, if it fires nothing in circles',
               'nets whose silent transitions alone produce tokens without bound are left out',
               'names of places and transitions are distinct when they are used as ids in PNML']
setup = rustlib.setup(PROPERTY)
CAP = 6


# -------------------------------------------------------------------------------------------------------------- model
def fire(marking, t):
    m = list(marking)
    for p in t[2]:
        m[p] -= 1
    if min(m, default=0) < 0:
        return None
    for p in t[3]:
        m[p] += 1
    return tuple(m)


def initial_of(net):
    m = [0] * len(net['places'])
    for p, n in net['initial']:
        m[p] += n
    return tuple(m)


class Unbounded(Exception):
    pass


def reachable(net, trace):
    """can the trace be replayed; by breadth first search over (events replayed, marking)"""
    frontier = [(0, initial_of(net))]
    seen = set(frontier)
    found = len(trace) == 0
    while frontier:
        after = []
        for i, m in frontier:
            for t in net['transitions']:
                if t[1] or i < len(trace) and t[0] == trace[i]:
                    n = fire(m, t)
                    if n is None:
                        continue
                    if max(n, default=0) > CAP:
                        raise Unbounded()
                    s = (i if t[1] else i + 1, n)
                    found = found or s[0] == len(trace)
                    if s not in seen:
                        seen.add(s)
                        after.append(s)
        frontier = after
    return found


def follow(net, trace, fired, what):
    """the sequence is a replay of the trace which never comes back to where it was"""
    i, m = 0, initial_of(net)
    seen = {(i, m)}
    for k in fired:
        t = net['transitions'][k]
        m = fire(m, t)
        check(m is not None, f'{what}: {t[:4]} is fired without tokens in {fired}')
        if not t[1]:
            check(i < len(trace) and trace[i] == t[0], f'{what}: fires {t[0]} as event {i} in {fired}')
            i += 1
        check((i, m) not in seen, f'{what}: fires in circles in {fired}')
        seen.add((i, m))
    check_eq(i, len(trace), f'{what}: events replayed by {fired}')


def sequences(net, trace, limit=60):
    """all replays without circles which end with the last event"""
    out = []

    def go(i, m, fired, seen):
        if len(out) > limit:
            return
        if i == len(trace):
            out.append(fired)
            return
        for k, t in enumerate(net['transitions']):
            if t[1] or t[0] == trace[i]:
                n = fire(m, t)
                s = (i if t[1] else i + 1, n)
                if n is not None and s not in seen:
                    go(s[0], n, fired + [k], seen | {s})
    start = initial_of(net)
    go(0, start, [], {(0, start)})
    return out


def counts_of(net, fired):
    """number of firings of every arc, for one list of fired transitions"""
    out = {}
    for k in fired:
        for kind, ends in (('in', net['transitions'][k][2]), ('out', net['transitions'][k][3])):
            for j in range(len(ends)):
                out[(k, kind, j)] = out.get((k, kind, j), 0) + 1
    return out


def tuples(pairs, what):
    if pairs is None:
        return None
    out = {tuple(k): v for k, v in pairs}
    check_eq(len(out), len(pairs), f'{what}: an arc is annotated once')
    return out


def close(got, want, tolerance=1e-12):
    return got.keys() == want.keys() and all(math.isclose(got[k], want[k], rel_tol=tolerance) for k in got)


def judge(got, counts, traces, what):
    """annotations follow from the counts"""
    check_eq(got['counts'], counts, f'{what}: counts of arcs')
    total = sum(counts.values())
    check(close(got['frequencies'], {k: v / total for k, v in counts.items()}), f'{what}: frequencies {got["frequencies"]} of {counts}')
    check(close(got['trace_frequencies'], {k: v / traces for k, v in counts.items()}), f'{what}: frequencies per trace {got["trace_frequencies"]} of {counts}')


def add(a, b):
    out = dict(a)
    for k, v in b.items():
        out[k] = out.get(k, 0) + v
    return out


# ------------------------------------------------------------------------------------------------------------- replay
ALPHABET = 'ab'


def traces_up_to(n):
    return [list(t) for k in range(n + 1) for t in itertools.product(ALPHABET, repeat=k)]


def canonical(net):
    """is this net the first among its renamings of places and of a and b"""
    n = len(net['places'])
    form = lambda p, swap: (sorted((swap.get(t[0], t[0]), t[1], sorted(p[x] for x in t[2]), sorted(p[x] for x in t[3])) for t in net['transitions']),
                            sorted((p[x], k) for x, k in net['initial'] or []))
    me = form(list(range(n)), {})
    return all(me <= form(p, s) for p in itertools.permutations(range(n)) for s in ({}, {'a': 'b', 'b': 'a'}))


def nets(places, transitions, multi=False, markings=None):
    ends = [list(c) for k in range(places + 1) for c in itertools.combinations(range(places), k)]
    if multi:
        ends += [[p, p] for p in range(places)] + [[0, 0, 1]] * (places > 1)
    kinds = [[name, silent, i, o] for name, silent in (('a', False), ('b', False), ('s', True)) for i in ends for o in ends if not (silent and i == o)]
    for chosen in itertools.combinations_with_replacement(kinds, transitions):
        for initial in markings or ([], [[0, 1]], [[0, 2]], [[0, 1], [places - 1, 1]]):
            if initial and len(initial) == 2 and places == 1:
                continue
            net = {'places': [f'p{x}' for x in range(places)], 'transitions': [list(t) for t in chosen], 'initial': initial}
            if canonical(net):
                yield net


def gen_replay(tier):
    q = tier == 'quick'
    yield from ([n, 3, False] for n in nets(1, 2))
    yield from ([n, 3, False] for n in nets(2, 2))
    yield from ([n, 3, True] for n in nets(2, 2, True, ([[0, 1]], [[0, 2]], [[0, 3], [1, 1]])))
    yield from ([n, 2 if q else 3, False] for n in nets(3, 2, False, ([[0, 1]],) if q else ([[0, 1]], [[0, 1], [2, 1]])))
    if not q:
        yield from ([n, 4, False] for n in nets(2, 3, False, ([[0, 1]], [[0, 1], [1, 1]])))


def run_replay(ctx, net, length, _):
    log, results = [], []
    for trace in traces_up_to(length):
        try:
            results.append(reachable(net, trace))
            log.append(trace)
        except Unbounded:
            continue
    if not log:
        ctx.ok()
        return
    replay(ctx, net, log, results, f'{net["transitions"]} from {net["initial"]}')


def ask(net, log, stop):
    got = backend()('replay', net=net, log=log, stop=stop)
    for key in ('counts', 'frequencies', 'trace_frequencies'):
        got[key] = tuples(got[key], key)
    return got


def replay(ctx, net, log, results, what):
    got = ask(net, log, False)
    check_eq(len(got['states']), len(log), f'{what}: replayed traces')
    for trace, fired, possible in zip(log, got['states'], results):
        check_eq(fired is not None, possible, f'{what}: can {trace} be replayed')
        if possible:
            follow(net, trace, fired, f'{what}: replay of {trace}')
        ctx.op(1)
    certain, one = {}, None
    for trace, possible in zip(log, results):
        if possible:
            all_ways = sequences(net, trace)
            forms = {tuple(sorted(counts_of(net, s).items())) for s in all_ways}
            if len(forms) == 1:
                certain[tuple(trace)] = dict(forms.pop())
            elif one is None and len(all_ways) <= 60:
                one = trace, forms
    # traces with one replay, together with those which have none
    rest = [t for t, r in zip(log, results) if not r or tuple(t) in certain]
    if rest:
        counts = {}
        for t in rest:
            counts = add(counts, certain.get(tuple(t), {}))
        judge(ask(net, rest, False), counts, len(rest), f'{what}: {rest}')
        if len(rest) > len(certain):
            got = ask(net, rest, True)
            check_eq([got[k] for k in ('counts', 'frequencies', 'trace_frequencies')], [None] * 3, f'{what}: annotation which stops at traces without replay in {rest}')
        rest = [t for t in rest if tuple(t) in certain]
        if rest:
            judge(ask(net, rest + rest[-1:], True), add(counts, certain[tuple(rest[-1])]), len(rest) + 1, f'{what}: {rest} and its last trace again')
    if one is not None:
        got = ask(net, [one[0]], True)
        check(tuple(sorted(got['counts'].items())) in one[1], f'{what}: counts {got["counts"]} for {one[0]} are those of no replay')
        judge(got, got['counts'], 1, f'{what}: {one[0]}')
    ctx.state(what)
    ctx.ok(what)


# ------------------------------------------------------------------------------------------- cycles, long runs, no net
def gen_special(tier):
    q = tier == 'quick'
    # rings of silent transitions with an exit at every place
    for n in range(1, 5 if q else 8):
        for labels in itertools.product('ab-', repeat=n):
            for entry in range(n):
                yield ['ring', n, ''.join(labels), entry]
    # concurrent branches: silent splits and joins
    for n in range(1, 4 if q else 5):
        for lengths in itertools.product(range(0, 3), repeat=n):
            yield ['branches', list(lengths), '', 0]
    # many equivalent ways: silent loops on every place, traces of some length
    for n in range(1, 9 if q else 13):
        yield ['diamonds', n, '', 0]
    for n in (0, 1, 2):
        yield ['no marking', n, '', 0]
    yield ['no marking', 0, 'empty log', 0]


def run_special(ctx, kind, n, labels, entry):
    what = f'{kind} {n} {labels} {entry}'
    if kind == 'ring':
        net = {'places': [f'p{x}' for x in range(n)] + ['out'], 'initial': [[entry, 1]],
               'transitions': [[f's{x}', True, [x], [(x + 1) % n]] for x in range(n)] + [[c, False, [x], [n]] for x, c in enumerate(labels) if c != '-']}
        log = traces_up_to(2)
        replay(ctx, net, log, [reachable(net, t) for t in log], what)
    elif kind == 'branches':
        places, transitions, names = ['start', 'end'], [], []
        heads, tails = [], []
        for b, length in enumerate(n):
            ps = list(range(len(places), len(places) + length + 1))
            places += [f'p{p}' for p in ps]
            heads.append(ps[0])
            tails.append(ps[-1])
            for k in range(length):
                transitions.append([f'{b}{k}', False, [ps[k]], [ps[k + 1]]])
        transitions += [['split', True, [0], heads], ['join', True, tails, [1]], ['last', False, [1], []]]
        net = {'places': places, 'transitions': transitions, 'initial': [[0, 1]]}
        mine = [t[0] for t in transitions if not t[1]]
        log = []
        for t in itertools.permutations(mine):
            log.append(list(t))
            if len(log) == 40:
                break
        log += [mine[:-1], mine[:-2] + mine[-1:], mine + mine[-1:]]
        replay(ctx, net, log, [reachable(net, t) for t in log], what)
    elif kind == 'diamonds':
        # n diamonds of two silent ways each: 2^n ways to a place where nothing can be fired
        places = [f'p{x}' for x in range(3 * n + 1)]
        transitions = []
        for x in range(n):
            a, l, r, b = 3 * x, 3 * x + 1, 3 * x + 2, 3 * x + 3
            transitions += [[f'l{x}', True, [a], [l]], [f'r{x}', True, [a], [r]], [f'm{x}', True, [l], [b]], [f'n{x}', True, [r], [b]], [f'o{x}', True, [r], [a]]]
        transitions += [['a', False, [3 * n], [3 * n]]]
        net = {'places': places, 'transitions': transitions, 'initial': [[0, 1]]}
        got = ask(net, [['a'] * n, ['a'] * n + ['b'], []], False)
        check_eq([s is not None for s in got['states']], [True, False, True], f'{what}: traces replayed')
        follow(net, ['a'] * n, got['states'][0], what)
        ctx.op(3)
        ctx.ok(what)
    else:
        net = {'places': ['p'], 'transitions': [['a', False, [0], [0]]], 'initial': None}
        got = ask(net, [['a'] * n] * (not labels), False)
        if labels:
            check(all(v in (None, [], {}) for v in got.values()), f'{what}: {got}')
        else:
            check_eq(list(got.values()), [None] * 4, f'{what}: annotation of a net without initial marking')
        ctx.op(1)
        ctx.ok(what)


# ------------------------------------------------------------------------------------------------------ initial marking
ENSURE = [
    [['a', False, [], [0]], ['b', False, [0], []], ['c', False, [0], [0]]],
    [['a', False, [0], []]],
    [],
    [['b', False, [0, 0], [0]], ['d', True, [0], [0]]],
]


def gen_ensure(tier):
    for log in gen.logs(3, 3, 4 if tier == 'quick' else 6):
        for k in range(len(ENSURE)):
            for marked in (0, 1):
                yield [[[c if isinstance(c, str) else chr(97 + c) for c in t] for t in log], k, marked]


def shape(net):
    """a net of the driver by names"""
    names = dict(map(tuple, net['places']))
    marking = lambda m: m and sorted([names[p], k] for p, k in m)
    return {'places': sorted(names.values()), 'initial': marking(net['initial']), 'final': marking(net['final']),
            'transitions': sorted([t[1], t[2], sorted(names[a[1]] for a in t[4]), sorted(names[a[1]] for a in t[5])] for t in net['transitions'])}


def run_ensure(ctx, log, k, marked):
    what = f'initial marking of {ENSURE[k]} for {log}'
    net = {'places': ['p'], 'transitions': ENSURE[k], 'initial': [[0, 2]] if marked else None}
    got = backend()('ensure', net=net, log=log)
    starts, ends = {t[0] for t in log if t}, {t[-1] for t in log if t}
    want = {'places': sorted(['p', 'Start', 'End']), 'initial': [['Start', 1]], 'final': None, 'transitions': sorted(
        [t[0], t[1], sorted(['p'] * len(t[2]) + ['Start'] * (t[0] in starts)), sorted(['p'] * len(t[3]) + ['End'] * (t[0] in ends))] for t in ENSURE[k])}
    check_eq(shape(got), want, what)
    arcs = [a[0] for t in got['transitions'] for a in t[4] + t[5]]
    check_eq(len(set(arcs)), len(arcs), f'{what}: ids of arcs')
    ctx.op(1)
    ctx.ok((str(log), k, marked))


# ---------------------------------------------------------------------------------------------------------------- PNML
TEXTS = ['', ' ', 'c\rd', '  x ', '<', '&', '&amp;', '"', "'", '>', ']]>', 'ü', '\u4e2d', '😀', 'a\tb', 'a\nb', 'a--b', '{x}', '<!--', 'p' * 300]


def gen_pnml(tier):
    q = tier == 'quick'
    for net in itertools.chain(nets(2, 1, True), nets(2, 2, False, (None, [[0, 1]])), [] if q else nets(3, 2, False, (None,))):
        if len({t[0] for t in net['transitions']}) == len(net['transitions']):
            yield [net, False]
    for a, b in itertools.product(TEXTS, repeat=2):
        if a != b:
            yield [{'places': [a, b], 'transitions': [[a, False, [0], [1, 0]], [b, True, [1], []], [a + b + '2', False, [0, 1], [1], None, True]], 'initial': None}, True]
    yield [{'places': [], 'transitions': [], 'initial': None}, False]


def read_pnml(text, what):
    try:
        root = ElementTree.fromstring(text)
    except ElementTree.ParseError as e:
        raise Violation(f'{what}: the document is not well-formed: {e}')
    check_eq((root.tag, [x.tag for x in root]), ('pnml', ['net']), f'{what}: the document')
    out = {'place': [], 'transition': [], 'arc': []}
    for x in root[0]:
        check(x.tag in out, f'{what}: <{x.tag}>')
        if x.tag == 'arc':
            check_eq(len(x), 0, f'{what}: content of an arc')
            out['arc'].append((x.get('id'), x.get('source'), x.get('target')))
        else:
            check(all(y.tag == 'name' and [z.tag for z in y] == ['text'] for y in x) and len(x) <= 1, f'{what}: content of a {x.tag}')
            out[x.tag].append((x.get('id'), x[0][0].text or '' if len(x) else None))
    return out


def run_pnml(ctx, net, odd):
    what = f'PNML of {net}'
    for names in (False, True):
        for path in (None, ctx.path('net.pnml')):
            got = backend()('pnml', net=net, names=names, path=path)
            check('error' not in got, f'{what}: {got.get("error")}')
            doc = read_pnml(got['text'], what)
            real = got['net']
            place = {p[0]: p[1] if names else str(p[0]) for p in real['places']}
            transition = {t[0]: t[1] if names else str(t[0]) for t in real['transitions']}
            check_eq(sorted(doc['place'], key=str), sorted(((x, None) for x in place.values()), key=str), f'{what}: places')
            check_eq(sorted(doc['transition'], key=str), sorted(((transition[t[0]], t[3]) for t in real['transitions']), key=str), f'{what}: transitions')
            want = [(a[0], place[a[1]], transition[t[0]]) for t in real['transitions'] for a in t[4]] + [(a[0], transition[t[0]], place[a[1]]) for t in real['transitions'] for a in t[5]]
            if names:
                check_eq(sorted(a[1:] for a in doc['arc']), sorted(a[1:] for a in want), f'{what}: arcs')
                check_eq(sorted(a[0] for a in doc['arc']), sorted('[{%s}--{%s}]' % a[1:] for a in want), f'{what}: ids of arcs')
            else:
                check_eq(sorted(doc['arc']), sorted((str(a[0]), a[1], a[2]) for a in want), f'{what}: arcs')
            ctx.op(1)
    got = backend()('pnml', net=net, names=False, path=os.path.join(ctx.path('missing'), 'net.pnml'))
    check('error' in got, f'{what}: no error for a directory which does not exist')
    ctx.state(repr(net))
    ctx.ok(repr(net))


# ----------------------------------------------------------------------------------------------------------- pipelines
DISCOVERIES = [('alpha', DiscoverPetriNetAlpha2, ()), ('alpha+', DiscoverPetriNetAlphaPlus2, ()), ('nfc', DiscoverPetriNetAlphaPlusPlusNfc2, ()),
               ('heuristic', DiscoverPetriNetHeuristic2, (-0.5, 1, 0.5, 0.25, 0.75))]
ANNOTATIONS = [(AnnotatePetriNetWithCount2, const_petri_net_count_annotation), (AnnotatePetriNetWithFrequency2, const_petri_net_frequency_annotation),
               (AnnotatePetriNetWithTraceFrequency2, const_petri_net_trace_frequency_annotation)]


def model_of_grpc(net):
    """(net of the model, ids of arcs as the model names them)"""
    index = {p.id: k for k, p in enumerate(net.places)}
    arcs = {}
    transitions = []
    for k, t in enumerate(net.transitions):
        transitions.append([t.data, t.data.startswith('silent_start_'), [index[a.placeId] for a in t.incomingArcs], [index[a.placeId] for a in t.outgoingArcs]])
        for kind, ends in (('in', t.incomingArcs), ('out', t.outgoingArcs)):
            for j, a in enumerate(ends):
                arcs[a.id] = (k, kind, j)
    marking = [[index[m.placeId], m.tokensCount] for m in net.initial_marking.markings] if net.HasField('initial_marking') else None
    return {'places': [p.name for p in net.places], 'transitions': transitions, 'initial': marking}, arcs


def gen_pipes(tier):
    q = tier == 'quick'
    for log in gen.logs(3, 2, 5 if q else 6, min_traces=1):
        for k in range(len(DISCOVERIES)):
            for marked in (0, 1):
                yield [[[c if isinstance(c, str) else chr(97 + c) for c in t] for t in log], k, marked]


def run_pipes(ctx, log, k, marked):
    name, part, args = DISCOVERIES[k]
    what = f'{name} net of {log}'
    for stop in (False, True):
        for annotate, key in ANNOTATIONS:
            seen, path = [], ctx.path('net.pnml')
            steps = [UseNamesEventLog2(), part(*args)] + [EnsureInitialMarking()] * marked + [
                Spy(ViewPetriNet2(), seen, 'net'), SerializePetriNetToPNML2(path), Spy(annotate(terminate_on_unreplayable_trace=stop), seen, 'annotated')]
            last, _, _ = run(steps, {const_names_event_log: NamesLogContextValue(log)}, what=what)
            check(seen and seen[0][0] == 'net', f'{what}: no net')
            net, arcs = model_of_grpc(seen[0][1][const_petri_net].petriNet)
            results = [net['initial'] is not None and reachable(net, t) for t in log]
            doc = read_pnml(open(path).read(), what)
            check_eq([len(doc[x]) for x in ('place', 'transition', 'arc')], [len(net['places']), len(net['transitions']), len(arcs)], f'{what}: PNML of the net')
            check_eq({a[0] for a in doc['arc']}, {str(a) for a in arcs}, f'{what}: arcs of PNML')
            if net['initial'] is None or stop and not all(results):
                check_eq(len(seen), 1, f'{what}: annotation although the net has no initial marking or {log} has traces without replay')
                check(last.finalResult.WhichOneof('executionResult') == 'error', f'{what}: no error for traces without replay: {last}')
                continue
            success(last, what)
            check_eq(len(seen), 2, f'{what}: annotations')
            again, _ = model_of_grpc(seen[1][1][const_petri_net].petriNet)
            check_eq(sorted(map(repr, again['transitions'])), sorted(map(repr, net['transitions'])), f'{what}: the net after annotation')
            value = seen[1][1][key]
            kind = value.WhichOneof('contextValue')
            rows = value.count_annotation.annotations if kind == 'count_annotation' else value.frequency_annotation.annotations
            got = {arcs[r.entityId]: r.count if kind == 'count_annotation' else r.frequency for r in rows}
            check_eq(len(got), len(rows), f'{what}: an arc is annotated once')
            ways = [{tuple(sorted(counts_of(net, s).items())) for s in sequences(net, t, 200)} for t, r in zip(log, results) if r]
            candidates = []
            for choice in itertools.product(*ways):
                counts = {}
                for c in choice:
                    counts = add(counts, dict(c))
                scale = 1 if kind == 'count_annotation' else sum(counts.values()) if annotate is AnnotatePetriNetWithFrequency2 else len(log)
                candidates.append({a: v / scale for a, v in counts.items()})
            check(any(close(got, c, 1e-6) for c in candidates), f'{what}: annotation {key} is {got}, possible are {candidates[:3]}')
            ctx.op(1)
    ctx.state((str(log), k, marked))
    ctx.ok((str(log), k, marked))


def families(tier):
    q = tier == 'quick'
    return [
        Family('replay', lambda: gen_replay(tier), run_replay, f'all nets up to renaming: 2 places and 2 transitions (also with double arcs), 3 places and 2 transitions{"" if q else ", 2 places and 3 transitions"}, labels a, b and silent x markings x all traces of {"2 or 3" if q else "3 or 4"} events'),
        Family('special nets', lambda: gen_special(tier), run_special, 'rings of silent transitions with every set of exits, silent splits and joins in every order, silent diamonds, nets without marking'),
        Family('initial marking', lambda: gen_ensure(tier), run_ensure, f'all logs of 3 classes, 3 traces and {4 if q else 6} events x 4 nets x 2 markings'),
        Family('PNML', lambda: gen_pnml(tier), run_pnml, f'all nets of 2 places and 2 transitions{"" if q else ", 3 places and 2 transitions"}; all pairs of {len(TEXTS)} texts as names; ids and names as ids; as text and as file'),
        Family('pipelines', lambda: gen_pipes(tier), run_pipes, f'all logs of 3 classes, 2 traces and {5 if q else 6} events x 4 discoveries x 3 annotations x stopping or not, PNML, through the client'),
    ]
