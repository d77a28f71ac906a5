"""C21: values from the backend. Every small message is given to the decoders and to the callbacks of the parts; drawings are read back from
the DOT text handed to graphviz (our reader of DOT is compared with graphviz itself in one family)."""
import itertools
import json
import os
import shutil
import tempfile

from vlib import gen as G
from vlib.core import Family, check, check_eq
from vlib.dot import Html, by_graphviz, of_json, parse, shown
from vlib.fakegrpc import printed

from ficus.grpc_pipelines import context_values as cv
from ficus.grpc_pipelines.activities_parts import PrintNumberOfUnderlyingEvents2
from ficus.grpc_pipelines.discovery_parts import (AnnotatePetriNetWithCount2, AnnotatePetriNetWithFrequency2,
                                                  AnnotatePetriNetWithTraceFrequency2, ViewDirectlyFollowsGraph2, ViewGraph2,
                                                  ViewPetriNet2)
from ficus.grpc_pipelines.grpc_pipelines import PrintEventLogInfo2
from ficus.grpc_pipelines.models import pipelines_and_context_pb2 as pb
from ficus.grpc_pipelines.models import pm_models_pb2 as pm
from ficus.grpc_pipelines.models import util_pb2 as up
from ficus.grpc_pipelines.util_parts import PrintEventLog2

from vlib.capture import displayed

PROPERTY = 'C21'
ASSUMPTIONS = ['ids of places, transitions and arcs of a net differ from each other, as the backend generates them',
               'names contain no HTML entities (&...;), which graphviz replaces in every label',
               'graphviz draws what the DOT text says']
TOKEN = ('html', '&#9679;')


def setup_worker():
    tempfile.tempdir = os.path.join(os.getcwd(), 'tmp')
    os.makedirs(tempfile.tempdir, exist_ok=True)


def wire(m):
    return type(m).FromString(m.SerializeToString())


def callback(part, **values):
    part.execute_callback({k: wire(v) for k, v in values.items()})


def draw(ctx, part, **values):
    with displayed() as shown_objects, printed():
        callback(part, **values)
    ctx.op()
    check_eq(len(shown_objects), 1, 'number of drawings displayed')
    for f in os.listdir(tempfile.tempdir):
        os.unlink(os.path.join(tempfile.tempdir, f))
    return parse(shown_objects[0].source)


# ------------------------------------------------------------------------------------------------ petri nets
# a net: places [(id, name)], transitions [(id, data, incoming arcs, outgoing arcs)] with arcs (id, place, tokens),
# markings: None or list of (place, tokens)
def net_message(net):
    places, transitions, initial, final = net
    m = pm.GrpcPetriNet(places=[pm.GrpcPetriNetPlace(id=i, name=n) for i, n in places],
                        transitions=[pm.GrpcPetriNetTransition(
                            id=i, data=d, incomingArcs=[pm.GrpcPetriNetArc(id=a, placeId=p, tokens_count=c) for a, p, c in inc],
                            outgoingArcs=[pm.GrpcPetriNetArc(id=a, placeId=p, tokens_count=c) for a, p, c in out])
                            for i, d, inc, out in transitions])
    for field, marking in (('initial_marking', initial), ('final_marking', final)):
        if marking is not None:
            getattr(m, field).CopyFrom(pm.GrpcPetriNetMarking(
                markings=[pm.GrpcPetriNetSinglePlaceMarking(placeId=p, tokensCount=c) for p, c in marking]))
    return m


def net_of(n):
    """the local object as the tuple it was made of"""
    arcs = lambda xs: [(a.id, a.place_id, a.tokens_count) for a in xs]
    marking = lambda x: None if x is None else [(s.place_id, s.tokens_count) for s in x.markings]
    for k, p in list(n.places.items()) + list(n.transitions.items()):
        check_eq(k, p.id, 'key of a place or transition')
    return ([(p.id, p.name) for p in n.places.values()],
            [(t.id, t.data, arcs(t.incoming_arcs), arcs(t.outgoing_arcs)) for t in n.transitions.values()],
            marking(n.initial_marking), marking(n.final_marking))


def net_drawing(net, show_names, annotation):
    """nodes: id -> set of accepted pictures; edges: multiset"""
    places, transitions, initial, final = net
    ini, fin = ({p for p, _ in m} if m is not None else set() for m in (initial, final))
    nodes = {}
    for i, name in places:
        if i in ini and i in fin:
            nodes[str(i)] = {('circle', TOKEN), ('doublecircle', TOKEN)}
        elif i in ini:
            nodes[str(i)] = {('circle', TOKEN)}
        elif i in fin:
            nodes[str(i)] = {('doublecircle', TOKEN)}
        else:
            nodes[str(i)] = {('circle', name if show_names else '')}
    edges = []
    for i, data, inc, out in transitions:
        nodes[str(i)] = {('box', data)}
        edges += [(str(p), str(i), annotation.get(a, '')) for a, p, _ in inc]
        edges += [(str(i), str(p), annotation.get(a, '')) for a, p, _ in out]
    return nodes, edges


def trimmed(text):
    return text.strip('\n') if isinstance(text, str) else text


def compare(dot, nodes, edges, what):
    # line breaks at the ends of a name are invisible (and dropped by graphviz in some places)
    nodes = {k: {(a, trimmed(b)) for a, b in v} for k, v in nodes.items()}
    edges = [(a, b, trimmed(c)) for a, b, c in edges]
    got_nodes = {k: (a.get('shape', 'ellipse'), trimmed(shown(a.get('label'), k))) for k, a in dot.nodes.items()}
    got_edges = [(a, b, trimmed(shown(at.get('label', '')))) for a, b, at, _ in dot.edges]
    same = set(got_nodes) == set(nodes) and all(got_nodes[k] in nodes[k] for k in nodes) and sorted(got_edges) == sorted(edges)
    if not same and len(nodes) == len(got_nodes) <= 6:  # another choice of node ids is as good
        for perm in itertools.permutations(list(nodes)):
            m = dict(zip(got_nodes, perm))
            if all(got_nodes[k] in nodes[m[k]] for k in got_nodes) and sorted((m[a], m[b], x) for a, b, x in got_edges) == sorted(edges):
                return
    check(same, f'{what}: drawn {got_nodes} {sorted(got_edges)}, expected {nodes} {sorted(edges)}')


def markings(places, rich):
    """None, or any subset of the places, in both orders if rich"""
    ids = [i for i, _ in places]
    yield None
    for sub in G.subsets(ids):
        yield [(i, 1 + k) for k, i in enumerate(sub)]
        if rich and len(sub) > 1:
            yield [(i, 1) for i in reversed(sub)]


def nets(np, nt, names, datas):
    """all nets with the given numbers of places and transitions, without markings"""
    places = [(10 + i, names[i]) for i in range(np)]
    slots = [(t, d, p) for t in range(nt) for d in (0, 1) for p in range(np)]
    for mask in range(1 << len(slots)):
        trans = [(20 + t, datas[t], [], []) for t in range(nt)]
        arc = 30
        for k, (t, d, p) in enumerate(slots):
            if mask >> k & 1:
                trans[t][2 + d].append((arc, 10 + p, 1 + k % 3))
                arc += 1
        yield places, trans


def check_net(ctx, net, show_names, ann_kind):
    message = wire(net_message(net))
    check_eq(net_of(cv.from_grpc_petri_net(message)), tuple(list(x) if isinstance(x, list) else x for x in net), 'decoded petri net')
    arcs = [a for t in net[1] for a, _, _ in t[2] + t[3]]
    annotated = {None: [], 'none': [], 'odd': arcs[::2], 'all': arcs}[ann_kind]
    value = pb.GrpcContextValue(petriNet=message)
    annotation = {a: 'n' + str(a) for a in annotated}
    part = ViewPetriNet2(show_places_names=show_names, annotation=None if ann_kind is None else annotation)
    nodes, edges = net_drawing(net, show_names, annotation)
    compare(draw(ctx, part, petri_net=value), nodes, edges, f'net {net}')
    if annotated:
        compare(draw(ctx, part, petri_net=value), nodes, edges, f'net {net}, drawn a second time')
        check_eq(annotation, {a: 'n' + str(a) for a in annotated}, f'net {net}: the annotation after drawing')
    if ann_kind not in (None, 'none'):
        counts = pb.GrpcContextValue(count_annotation=pm.GrpcCountAnnotation(
            annotations=[pm.GrpcEntityCountAnnotation(entityId=a, count=a % 3) for a in annotated]))
        nodes, edges = net_drawing(net, show_names, {a: str(a % 3) for a in annotated})
        compare(draw(ctx, AnnotatePetriNetWithCount2(show_places_names=show_names), petri_net=value, petri_net_count_annotation=counts),
                nodes, edges, f'net {net} with counts')
    ctx.ok((len(nodes), len(edges)))


def fam_nets(quick):
    sizes = [(0, 0), (1, 0), (0, 1), (1, 1), (2, 1), (1, 2)] + ([(2, 2)] if quick else [(2, 2), (3, 1), (1, 3)])

    def gen():
        for np, nt in sizes:
            for k, (places, trans) in enumerate(nets(np, nt, 'pqr', ['A', '', 'B'])):
                yield (places, trans)
        for ln in (50, 110, 300):
            yield ([(1, 'n' * ln + ' A'), (2, 'n' * ln + ' B')], [(3, 'm' * ln + ' A', [(5, 1, 1)], [(6, 2, 1)]), (4, 'm' * ln + ' B', [(7, 2, 1)], [(8, 1, 1)])])
        for n in (11, 70):
            yield ([(i * 3, f'p{i}') for i in range(n)],
                   [(1 + i * 3, f't{i}', [(i * 10 + k, ((i + k) % n) * 3, 1 + k) for k in range(i % 4)], [(i * 10 + 5 + k, ((i * k) % n) * 3, 1) for k in range(3 - i % 3)])
                    for i in range(n + 5)])

    def run(ctx, places, trans):
        places = [tuple(p) for p in places]
        trans = [(t[0], t[1], [tuple(a) for a in t[2]], [tuple(a) for a in t[3]]) for t in trans]
        ms = list(markings(places, False)) if len(places) < 10 else [None, [(p, 1 + i % 2) for i, (p, _) in enumerate(places[::2])]]
        for initial in ms:
            for final in ms:
                net = (places, trans, initial, final)
                ctx.state(net)
                for show in (False, True):
                    for ann in ((None, 'odd') if quick or len(places) > 2 else (None, 'none', 'odd', 'all')):
                        check_net(ctx, net, show, ann)

    return Family('petri_nets', gen, run, f'all nets with (places, transitions) in {sizes}: all sets of arcs, all initial and final markings '
                                          '(absent, empty, every subset), with and without names and annotations')


def fam_net_order(quick):
    """parallel arcs, big and negative ids, markings in other orders, places which occur nowhere"""

    def gen():
        for ids in itertools.permutations([0, 5, -3, 2 ** 40]):
            for dup in (1, 2, 3):
                yield (list(ids), dup)

    def run(ctx, ids, dup):
        p, q, t, u = ids
        for show in (False, True):
            for im, fm in itertools.product([None, [], [(q, 2), (p, 1)], [(p, 1), (q, 1)], [(q, 1)], [(99, 1)], [(q, 1), (q, 3)], [(p, 2), (q, 1), (p, 2)]], repeat=2):
                net = ([(p, 'same'), (q, 'same')],
                       [(t, 'T', [(100 + i, p, 1 + i) for i in range(dup)], [(200, q, 2)]), (u, 'T', [], [(300 + i, p, 0) for i in range(dup - 1)])],
                       im, fm)
                ctx.state(net)
                for ann in (None, 'odd', 'all'):
                    check_net(ctx, net, show, ann)

    return Family('net_ids', gen, run, 'all assignments of 4 ids (zero, negative, beyond 32 bits) to 2 places and 2 transitions, 1..3 parallel arcs, markings in all orders')


def fam_frequencies(quick):
    values = [0.0, 0.5, 1.0, 0.1, 1e-3, 123456.75, 1e-7, 1 / 3]
    counts = [0, 1, 2, 12, 1000, 123456, 2 ** 31 - 1, 77]

    def gen():
        for n in range(4):
            for fs in itertools.product(range(len(values)), repeat=n):
                yield (list(fs),)

    def run(ctx, fs):
        ctx.state(fs)
        arcs = [30, 31, 32]
        net = ([(10, 'p')], [(20, 'A', [(30, 10, 1), (31, 10, 1)], [(32, 10, 1)])], None, None)
        message = pb.GrpcContextValue(petriNet=net_message(net))
        freq = wire(pm.GrpcFrequenciesAnnotation(annotations=[pm.GrpcEntityFrequencyAnnotation(entityId=a, frequency=values[f])
                                                              for a, f in zip(arcs, fs)]))
        want = {a.entityId: a.frequency for a in freq.annotations}
        check_eq({k: float(v) for k, v in cv.from_grpc_frequency_annotation(freq).items()}, want, 'decoded frequencies')
        count = wire(pm.GrpcCountAnnotation(annotations=[pm.GrpcEntityCountAnnotation(entityId=a, count=counts[f]) for a, f in zip(arcs, fs)]))
        check_eq(cv.from_grpc_count_annotation(count), {a: str(counts[f]) for a, f in zip(arcs, fs)}, 'decoded counts')
        for cls, key in ((AnnotatePetriNetWithFrequency2, 'petri_net_frequency_annotation'),
                         (AnnotatePetriNetWithTraceFrequency2, 'petri_net_trace_frequency_annotation')):
            dot = draw(ctx, cls(), petri_net=message, **{key: pb.GrpcContextValue(frequency_annotation=freq)})
            dot.edges = [(a, b, dict(at, label=str(float(at['label']))) if at.get('label') else at, p) for a, b, at, p in dot.edges]
            compare(dot, *net_drawing(net, False, {k: str(v) for k, v in want.items()}), 'net with frequencies')
        ctx.ok(sorted(want.values()))

    return Family('annotations', gen, run, 'all assignments of 8 frequencies and counts to up to 3 arcs')


# ------------------------------------------------------------------------------------------------ graphs
def graph_message(nodes, edges):
    return pb.GrpcContextValue(graph=pb.GrpcGraph(nodes=[pb.GrpcGraphNode(id=i, data=d) for i, d in nodes],
                                                  edges=[pb.GrpcGraphEdge(from_node=a, to_node=b, data=d) for a, b, d in edges]))


def check_graph(ctx, nodes, edges):
    value = graph_message(nodes, edges)
    g = cv.from_grpc_graph(wire(value.graph))
    check_eq([(n.id, n.data) for n in g.nodes], nodes, 'decoded nodes')
    check_eq([(e.from_node, e.to_node, e.data) for e in g.edges], edges, 'decoded edges')
    for part in (ViewGraph2(), ViewDirectlyFollowsGraph2(name='dfg')):
        dot = draw(ctx, part, graph=value)
        compare(dot, {str(i): {(dot.nodes.get(str(i), {}).get('shape', 'circle'), d)} for i, d in nodes},
                [(str(a), str(b), d) for a, b, d in edges], f'graph {nodes} {edges}')
    ctx.ok((len(nodes), len(edges)))


def fam_graphs(quick):
    bound = 3

    def gen():
        for n in range(bound + 1):
            slots = [(a, b) for a in range(n) for b in range(n)]
            for mask in range(1 << len(slots)):
                yield (n, [s for k, s in enumerate(slots) if mask >> k & 1])
        for n in (30, 300):
            yield (n, [((i * i) % n, (i * 7 + i // n) % n) for i in range(3 * n)])

    def run(ctx, n, pairs):
        if n > 3:
            return check_graph(ctx, [(i * 5, f'node {i % 250}') for i in range(n)], [(a * 5, b * 5, str(k % 11)) for k, (a, b) in enumerate(pairs)])
        for ids in ([0, 1, 2], [2 ** 63, 7, 0], [11, 1, 111]):
            for data in ('ABC', ['A', 'A', '']) + (() if quick else (['', '', ''], ['0', '1', '2'])):
                for labels in (['1', '2', '', '10'],) + (() if quick else ([''], ['x'])):
                    nodes = [(ids[i], data[i]) for i in range(n)]
                    edges = [(ids[a], ids[b], labels[k % len(labels)]) for k, (a, b) in enumerate(pairs)]
                    if len(edges) == 2:
                        edges.append(edges[0])
                    ctx.state((nodes, edges))
                    check_graph(ctx, nodes, edges)

    return Family('graphs', gen, run, f'all directed graphs of <={bound} nodes with loops (and parallel edges), several ids, names and labels, equal and empty ones included')


ALPHABET = ['a', '"', '\\', '<', '>', '\n', 'N', ' ', '|', '{', ':', ';', '-', '#', '\u00e9']


def fam_labels(quick):
    bound = 2 if quick else 3

    def gen():
        for n in range(bound + 1):
            for s in itertools.product(range(len(ALPHABET)), repeat=n):
                yield (''.join(ALPHABET[i] for i in s),)
        for s in ('n' * 130 + 'A', '<b>x</b>', 'C:\\new\\table', '<<a>>', '\\N\\G\\l', 'end\\', '"quoted"', 'a\\"b', '->', '\\\\', '<&#9679;>'[:-2] + '>', 'graph', 'node', 'digraph'):
            yield (s,)

    def run(ctx, s):
        ctx.state(s)
        check_graph(ctx, [(1, s), (2, 'other')], [(1, 2, s), (2, 2, s)])
        net = ([(10, s), (11, '')], [(20, s, [(30, 10, 1)], [(31, 11, 1)])], None, None)
        check_net(ctx, net, True, None)
        check_net(ctx, net, False, None)

    return Family('labels', gen, run, f'all names of <={bound} characters over an alphabet with the special characters of DOT, as names of places, transitions, nodes and edges')


def fam_graphviz(quick):
    """our reader of DOT against graphviz"""

    def gen():
        for i in range(0, len(ALPHABET)):
            yield (i,)

    def run(ctx, i):
        ctx.state(('dot', i))
        names = [ALPHABET[i] + b for b in ALPHABET] + [b + ALPHABET[i] for b in ALPHABET]
        with displayed() as objs, printed():
            callback(ViewGraph2(), graph=graph_message(list(enumerate(names)), [(k, (k + 1) % len(names), n) for k, n in enumerate(names)]))
            net = ([(100 + k, n) for k, n in enumerate(names)], [(200, ALPHABET[i], [(300 + k, 100 + k, 1) for k in range(5)], [])], [(100, 1)], [(101, 1)])
            callback(ViewPetriNet2(show_places_names=True), petri_net=pb.GrpcContextValue(petriNet=net_message(net)))
        for o in objs:
            ours = parse(o.source)
            nodes, edges = by_graphviz(o.source)
            check_eq(sorted(nodes), sorted(ours.nodes), 'nodes read by graphviz')
            for k, n in nodes.items():
                label = ours.nodes[k].get('label')
                # graphviz drops line breaks next to the quotes of the text
                check_eq(n['label'].strip('\n'), '\\N' if label is None else str(label).strip('\n'), 'label read by graphviz')
                check_eq(n.get('shape'), ours.nodes[k].get('shape'), 'shape read by graphviz')
            check_eq(sorted((a, b, e.get('label', '').strip('\n')) for a, b, e in edges),
                     sorted((a, b, at.get('label', '').strip('\n')) for a, b, at, _ in ours.edges), 'edges read by graphviz')
            ctx.ok(len(nodes))
            ctx.op()

    return Family('graphviz', gen, run, 'the reader of DOT used here gives what graphviz reads, for all pairs of special characters')


# ------------------------------------------------------------------------------------------------ export
def fam_export(quick):
    paths = ['x.json', 'd/x.json', 'd/e/x y.json', './z.json', 'ABS/f/x.json']
    settings = [('white', 'dot', 'LR'), ('black', 'neato', 'TB'), ('transparent', 'circo', 'BT'), ('#ff0000', 'dot', 'RL')]

    def gen():
        for path in paths:
            for s in range(len(settings)):
                for kind in ('net', 'graph'):
                    yield (path, s, kind)
        for ext in ('svg', 'png', 'pdf', 'gv', 'dot'):
            yield ('p/q.' + ext, 0, 'net')

    def run(ctx, path, s, kind):
        ctx.state((path, s, kind))
        bg, engine, rankdir = settings[s]
        root = ctx.path('export')
        shutil.rmtree(root, ignore_errors=True)
        os.makedirs(root)
        old = os.getcwd()
        os.chdir(root)
        try:
            target = path.replace('ABS', os.path.join(root, 'abs'))
            for rnd in range(2):  # the second export overwrites the first one
                args = dict(background_color=bg, engine=engine, rankdir=rankdir)
                net = ([(10, 'p'), (11, 'q')], [(20, f'T{rnd}', [(30, 10, 1)], [(31, 11, 1)])], [(10, 1)], None)
                graph = ([(1, f'A{rnd}'), (2, 'B')], [(1, 2, '5')])
                part, values = ((ViewPetriNet2, dict(petri_net=pb.GrpcContextValue(petriNet=net_message(net)))) if kind == 'net' else
                                (ViewGraph2, dict(graph=graph_message(*graph))))
                nodes, edges = net_drawing(net, False, {}) if kind == 'net' else ({str(i): {('circle', d)} for i, d in graph[0]},
                                                                                  [(str(a), str(b), d) for a, b, d in graph[1]])
                with displayed() as objs, printed():
                    callback(part(**args), **values)
                    check_eq(len(objs), 1, 'drawings displayed without a path')
                    attrs = parse(objs[0].source).attrs
                    check_eq((attrs.get('bgcolor'), attrs.get('rankdir')), (bg, rankdir), 'background and direction')
                    callback(part(export_path=target, **args), **values)
                    check_eq(len(objs), 1, 'an exported drawing is displayed too')
                files = sorted(os.path.relpath(os.path.join(d, f), root) for d, _, fs in os.walk(root) for f in fs)
                check_eq(files, [os.path.relpath(target, root)], 'files written by the export')
                check(os.path.getsize(target) > 0, 'the exported file is empty')
                if target.endswith('.json'):
                    with open(target) as f:
                        got = json.load(f)
                    objs_, edges_ = of_json(got)
                    check_eq({k: ('circle' if o.get('shape') == 'circle' else o.get('shape'),
                                  TOKEN if o['label'] == '&#9679;' else o['label']) for k, o in objs_.items()},
                             {k: next(iter(v)) for k, v in nodes.items()}, 'nodes of the exported drawing')
                    check_eq(sorted((a, b, e.get('label', '')) for a, b, e in edges_), sorted(edges), 'edges of the exported drawing')
                    check_eq((got.get('bgcolor'), got.get('rankdir')), (bg, rankdir), 'background and direction of the exported drawing')
                ctx.op(2)
                ctx.ok((path, s, kind))
        finally:
            os.chdir(old)
            shutil.rmtree(root, ignore_errors=True)

    return Family('export', gen, run, '5 paths (bare, nested, absolute) x 4 settings x nets and graphs exported with graphviz and read back, 5 further formats')


# ------------------------------------------------------------------------------------------------ logs, colours, tables
STR = ['a', '', 'caf\u00e9 "x"']


def fam_logs(quick):
    def gen():
        for log in G.logs(3, 3, 4 if quick else 6, canonical=False):
            yield ([[STR[i] for i in t] for t in log],)
        for n in (130, 1100):
            yield ([[STR[(i * i) % len(STR)] for i in range(n)], []] + [[STR[i % len(STR)]] * (i % 3) for i in range(n)],)

    def run(ctx, log):
        ctx.state(log)
        names = pm.GrpcNamesEventLog(traces=[pm.GrpcNamesTrace(events=t) for t in log])
        value = pb.GrpcContextValue(names_log=pb.GrpcNamesEventLogContextValue(log=names))
        check_eq(cv.from_grpc_names_log(wire(value.names_log)), log, 'decoded names log')
        check_eq(wire(cv.NamesLogContextValue(log).to_grpc_context_value()), value, 'encoded names log')
        with printed() as out:
            callback(PrintEventLog2(), names_event_log=value)
        lines = out.getvalue().split('\n')[:-1]
        check_eq(lines, [str(t) for t in log], 'printed log')
        ctx.op(3)
        ctx.ok(log)

    return Family('names_logs', gen, run, f'all logs of <=3 traces and <={4 if quick else 6} events, empty traces and names included; decoded, encoded and printed')


def fam_infos(quick):
    def gen():
        for t in itertools.product([0, 1, 2, 7, 2 ** 32 - 1], repeat=3):
            yield (list(t),)

    def run(ctx, t):
        ctx.state(t)
        m = pb.GrpcEventLogInfo(events_count=t[0], traces_count=t[1], event_classes_count=t[2])
        info = cv.from_grpc_event_log_info(wire(m))
        check_eq([info.events_count, info.traces_count, info.event_classes_count], t, 'decoded event log info')
        check_eq(wire(info.to_grpc_context_value().event_log_info), m, 'event log info encoded again')
        with printed() as out:
            callback(PrintEventLogInfo2(), event_log_info=pb.GrpcContextValue(event_log_info=m))
        for k, v in (('events_count', t[0]), ('traces_count', t[1]), ('event_classes_count', t[2])):
            check(f'{k}={v}' in out.getvalue().replace(': ', '=').replace(' ', '').replace(')', ',') .replace(',', ' ') + ' ', f'{k} {v} in {out.getvalue()!r}')
        with printed() as out:
            callback(PrintNumberOfUnderlyingEvents2(), underlying_events_count=pb.GrpcContextValue(uint32=t[0]))
        check(str(t[0]) in out.getvalue().split() or out.getvalue().strip().endswith(str(t[0])), f'count {t[0]} in {out.getvalue()!r}')
        ctx.op(3)
        ctx.ok(t)

    return Family('infos', gen, run, 'all event log infos over 5 numbers, decoded and printed; numbers of underlying events')


def fam_colors(quick):
    rects = [((0, 0, 0), 0, 1, 'A'), ((255, 1, 16), 1, 2, ''), ((1, 2, 3), 2 ** 32 - 1, 0, 'b c')]

    def gen():
        for log in G.logs(3, 3, 4 if quick else 6, canonical=False):
            yield (log,)
        for n in (130, 1100):
            yield ([[(i * i) % 3 for i in range(n)], []] + [[i % 3] * (i % 3) for i in range(n)],)

    def run(ctx, log):
        ctx.state(log)
        m = pb.GrpcColorsEventLog(traces=[pb.GrpcColorsTrace(event_colors=[pb.GrpcColoredRectangle(
            color=up.GrpcColor(red=rects[i][0][0], green=rects[i][0][1], blue=rects[i][0][2]), start_index=rects[i][1], length=rects[i][2],
            name=rects[i][3]) for i in t]) for t in log])
        got = cv.from_grpc_colors_log(wire(m))
        check_eq([[((r.color.red, r.color.green, r.color.blue), r.start_pos, r.length, r.name) for r in t] for t in got],
                 [[rects[i] for i in t] for t in log], 'decoded colours log')
        ctx.op()
        ctx.ok(log)

    return Family('colors_logs', gen, run, f'all colours logs of <=3 traces and <={4 if quick else 6} rectangles')


def fam_datasets(quick):
    vals = [0.0, 0.5, -3.25]

    def gen():
        for rows in range(0, 4):
            for cols in range(1, 3):
                if rows * cols > (4 if quick else 6):
                    continue
                for cells in itertools.product(range(3), repeat=rows * cols):
                    yield (rows, cols, list(cells))
        for rows, cols in ((300, 1), (1, 60), (70, 40)):
            yield (rows, cols, [(i * i + i // 5) % 3 for i in range(rows * cols)])

    def run(ctx, rows, cols, cells):
        ctx.state((rows, cols, cells))
        matrix = [[vals[cells[r * cols + c]] for c in range(cols)] for r in range(rows)]
        cnames = (['c', 'a', 'b'] + [f'col{i}' for i in range(cols, 3, -1)])[:cols]
        for rnames in ((['Trace_1', 'Trace_0', 'Trace_2'] + [f'Trace_{i}' for i in range(rows, 3, -1)])[:rows], ['same'] * rows):
            m = pm.GrpcDataset(matrix=pm.GrpcMatrix(rows=[pm.GrpcMatixRow(values=r) for r in matrix]), columnsNames=cnames, rowNames=rnames)
            df = cv.from_grpc_ficus_dataset(wire(m))
            check_eq((list(df.columns), list(df.index), df.values.tolist()), (cnames, rnames, matrix), 'decoded dataset')
            for labels in ([0] * rows, list(range(rows)), list(range(rows, 0, -1))):
                lm = pm.GrpcLabeledDataset(dataset=m, labels=labels)
                df = cv.from_grpc_labeled_dataset(wire(lm))
                check_eq((list(df.index), df[cnames].values.tolist(), list(df['cluster_labels']), sorted(df.columns)),
                         (rnames, matrix, labels, sorted(cnames + ['cluster_labels'])), 'decoded labeled dataset')
                ctx.op()
            ctx.ok((rows, cols, cells))

    return Family('datasets', gen, run, 'all matrices of <=3 rows and <=2 columns over 3 values, with row names, columns and labels')


def families(tier):
    q = tier == 'quick'
    return [fam_export(q), fam_nets(q), fam_net_order(q), fam_frequencies(q), fam_graphs(q), fam_labels(q), fam_graphviz(q), fam_logs(q),
            fam_infos(q), fam_colors(q), fam_datasets(q)]
