"""C24: graphs of activities and of event classes. All small hierarchies (built directly, by the tree builder, by the class tree builder and
by discovery) are turned into graphs by the parts; the graphs are read back from their DOT text and compared with the hierarchy."""
import contextlib
import itertools
import os
import shutil

import graphviz

from vlib import gen as G
from vlib.capture import displayed
from vlib.core import Family, check, check_eq
from vlib.dot import by_graphviz, parse
from vlib.fakegrpc import printed
from vlib.fic import forest, mk_log

from ficus.legacy.analysis.common.common_models import GraphNode
from ficus.legacy.analysis.patterns.patterns_graphs import build_graph, draw_activity_graph, draw_event_class_tree
from ficus.legacy.pipelines.analysis.patterns.patterns_graph_parts import (BuildActivityGraph, BuildEventClassGraph, BuildEventClassTree,
                                                                           DrawActivitiesGraphByEventClassLevels, DrawEventClassTree,
                                                                           DrawGraph, SerializeGraph)
from ficus.legacy.pipelines.analysis.patterns.patterns_parts import DrawActivitiesGraph
from ficus.legacy.pipelines.contexts.accessors import graph as graph_of, serialized_graph
from ficus.legacy.pipelines.contexts.part_results import PipelinePartResult
from ficus.legacy.pipelines.pipelines import Pipeline

PROPERTY = 'C24'
ASSUMPTIONS = ['names are not of the form <...>, which graphviz takes for markup, and contain no backslashes',
               'nodes with the same displayed name are one node of the graph, as the graph is made of names',
               'graphviz draws what the DOT text says']


# ------------------------------------------------------------------------------------------------ the model
def hierarchy(roots, name, add_root):
    """(names, {(child, parent)}) of the hierarchy under the roots"""
    names, edges, stack, seen = set(), set(), list(roots), set()
    for r in roots:
        if add_root:
            names.add('root')
            edges.add((name(r), 'root'))
    while stack:
        n = stack.pop()
        if id(n) in seen:
            continue
        seen.add(id(n))
        names.add(name(n))
        for c in n.child_nodes:
            edges.add((name(c), name(n)))
            stack.append(c)
    return names, edges


def check_graph(ctx, source, roots, name, add_root, what):
    d = parse(source)
    names, edges = hierarchy(roots, name, add_root)
    check_eq(sorted(d.nodes), sorted(names), f'{what}: nodes of the graph')
    for k, a in d.nodes.items():
        check(a.get('label', k) in (k, '\\N'), f'{what}: the node {k!r} is labelled {a.get("label")!r}')
    check(not any(p for *_, p in d.edges), f'{what}: an edge leads to a port of a node')
    check_eq(sorted({(a, b) for a, b, *_ in d.edges}), sorted(edges), f'{what}: edges of the graph')
    ctx.ok((sorted(names), sorted(edges)))
    return d


def picture(roots):
    """the hierarchy itself, to see that it is not changed"""
    order, stack = {}, list(roots)
    while stack:
        n = stack.pop()
        if id(n) not in order:
            order[id(n)] = (n.name, [id(c) for c in n.child_nodes])
            stack.extend(n.child_nodes)
    return order


# ------------------------------------------------------------------------------------------------ all small hierarchies
NAMES = ['A', 'A::B', 'x y', '"q"', 'a\nb', 'A:B:n', 'graph', '1', '']
NAMING = [('distinct', [0, 1, 2, 3, 4]), ('special', [5, 6, 7, 4, 8]), ('equal', [0, 0, 0, 0, 0]), ('pairs', [1, 0, 1, 0, 5])]


def fam_dags(quick):
    bound = 4 if quick else 5

    def gen():
        for n in range(bound + 1):
            slots = [(i, j) for i in range(n) for j in range(i + 1, n)]
            for mask in range(1 << len(slots)):
                yield (n, [s for k, s in enumerate(slots) if mask >> k & 1])

    def run(ctx, n, edges):
        for label, pool in NAMING:
            nodes = [GraphNode(NAMES[pool[i]]) for i in range(n)]
            for i, j in edges:
                nodes[i].child_nodes.append(nodes[j])
            tops = [nodes[i] for i in range(n) if all(j != i for _, j in edges)]
            ctx.state((n, edges, label))
            for roots in ([tops, list(reversed(tops)), nodes] if len(tops) > 1 or quick else [tops, nodes]):
                before = picture(roots)
                for add_root in (True, False):
                    for creator in (None, lambda x: 'n' + str(len(x.name)) + x.name[:1]):
                        kw = {} if creator is None else {'node_name_creator': creator}
                        attrs = []
                        g = build_graph(roots, 'some graph', add_root, set_attributes_to_func=lambda gr: attrs.append(gr), **kw)
                        ctx.op()
                        check_graph(ctx, g.source, roots, creator or (lambda x: x.name), add_root, f'hierarchy of {n} nodes, edges {edges}, {label} names')
                        check(len(attrs) == 1 and attrs[0] is g, 'the attributes setter has to get the graph')
                check_eq(picture(roots), before, 'the hierarchy after building the graph')

    return Family('hierarchies', gen, run, f'all directed acyclic hierarchies of <={bound} nodes (several parents, several roots), distinct, special and equal names, '
                                           'with and without a root node, two ways of naming')


def fam_wide():
    def gen():
        for n in (30, 130, 300):
            for form in range(5):
                yield (n, form)

    def run(ctx, n, form):
        ctx.state((n, form))
        ns = [GraphNode(f'node {i}' if form % 2 else f'{i}') for i in range(n)]
        if form == 0:  # a star
            ns[0].child_nodes.extend(ns[1:])
            roots = ns[:1]
        elif form == 1:  # many roots
            roots = ns
        elif form == 2:  # a chain
            for a, b in zip(ns, ns[1:]):
                a.child_nodes.append(b)
            roots = ns[:1]
        elif form == 3:  # two layers, every child has several parents
            roots = ns[:n // 2]
            for i, a in enumerate(roots):
                a.child_nodes.extend(ns[n // 2 + (i * k) % (n - n // 2)] for k in range(1, 6))
        else:  # a ternary tree
            for i in range(1, n):
                ns[(i - 1) // 3].child_nodes.append(ns[i])
            roots = ns[:1]
        before = picture(roots)
        for add_root in (True, False):
            check_graph(ctx, build_graph(roots, 'some graph', add_root).source, roots, lambda x: x.name, add_root, f'hierarchy {form} of {n} nodes')
            ctx.op()
        check_eq(picture(roots), before, 'the hierarchy after building the graph')

    return Family('wide', gen, run, 'stars, chains, layers and trees of up to 300 nodes')


# ------------------------------------------------------------------------------------------------ activities
def fam_activities(quick):
    letters = 'ABC' if quick else 'ABCD'
    sets = [c for r in range(1, len(letters) + 1) for c in itertools.combinations(letters, r)]

    def gen():
        for k in range(0, 4 if quick else 4):
            for combo in itertools.combinations(range(len(sets)), k):
                for levels in itertools.product((0, 1), repeat=1 if k < 2 else 2):
                    yield (list(combo), list(levels))
        if quick:
            for combo in itertools.combinations(range(len(sets)), 5):
                yield (list(combo), [0])

    def run(ctx, combo, levels):
        ctx.state((combo, levels))
        per_level = {}
        for i, c in enumerate(combo):
            per_level.setdefault(levels[i % len(levels)], []).append(sets[c])
        all_roots, roots_by_level = [], {}
        for level, cs in per_level.items():
            roots_by_level[level] = forest(cs, level)[0]
            all_roots.extend(roots_by_level[level])
        before = picture(all_roots)
        plain = lambda x: x.name
        for level, roots in roots_by_level.items():
            for add_root in (True, False):
                result = PipelinePartResult().with_activities(all_roots)
                out = Pipeline(BuildActivityGraph(level, 'g', add_root_node=add_root), SerializeGraph())(result)
                ctx.op()
                d = check_graph(ctx, graph_of(out).source, roots, plain, add_root, f'activities {per_level}, level {level}')
                text = serialized_graph(out)
                body = '\n'.join(line for line in text.split('\n') if line.strip() != '}')
                check_graph(ctx, 'digraph g {\n' + body + '\n}', roots, plain, add_root, f'serialized graph of {per_level}, level {level}')
                check_eq(text, '\n'.join(sorted(text.split('\n'))), 'the lines of a serialized graph are sorted')
        # drawing of all levels at once, by names and by hashes
        for hashes in (False, True):
            with rendered() as drawn, displayed(), printed():
                Pipeline(DrawActivitiesGraph(use_hashes_as_name=hashes))(PipelinePartResult().with_activities(all_roots))
            ctx.op()
            check_eq(len(drawn), 1, 'graphs drawn')
            check_graph(ctx, drawn[0][0], all_roots, (lambda x: str(hash(x))) if hashes else (lambda x: '\n'.join(x.name.split('::'))), True,
                        f'drawn activities {per_level}')
        with rendered() as drawn, displayed(), printed():
            Pipeline(DrawActivitiesGraphByEventClassLevels())(PipelinePartResult().with_activities(all_roots))
            draw_activity_graph(all_roots, use_hashes_as_name=False, add_root_node=False)
        ctx.op(2)
        check_eq(len(drawn), len(roots_by_level) + 1, 'graphs drawn for the levels')
        for (source, _), level in zip(drawn, sorted(roots_by_level)):
            check_graph(ctx, source, roots_by_level[level], plain, True, f'drawn activities of level {level} of {per_level}')
        check_graph(ctx, drawn[-1][0], all_roots, lambda x: '\n'.join(x.name.split('::')), False, 'drawn activities')
        check_eq(picture(all_roots), before, 'the activities after building and drawing graphs')

    return Family('activities', gen, run, f'activity hierarchies of all sets of <={5 if quick else 3} activities over {len(letters)} classes on 1 or 2 levels: built, serialized, '
                                          'drawn (per level and as a whole, by names and hashes)')


@contextlib.contextmanager
def rendered():
    """(DOT source, file name) of every graph which would be rendered"""
    out = []
    image = (b'\x89PNG\r\n\x1a\n\x00\x00\x00\rIHDR\x00\x00\x00\x01\x00\x00\x00\x01\x08\x06\x00\x00\x00\x1f\x15\xc4\x89')
    saved = graphviz.Digraph.render, graphviz.Digraph.pipe

    def render(self, filename=None, *a, outfile=None, **kw):
        out.append((self.source, None if filename is None and outfile is None else str(outfile or filename)))
        with open('rendered.png', 'wb') as f:
            f.write(image)
        return 'rendered.png'

    def pipe(self, *a, **kw):
        out.append((self.source, None))
        return image

    graphviz.Digraph.render, graphviz.Digraph.pipe = render, pipe
    try:
        yield out
    finally:
        graphviz.Digraph.render, graphviz.Digraph.pipe = saved


# ------------------------------------------------------------------------------------------------ event classes
EXTRACTORS = {'same': lambda n: n, 'two': lambda n: n[:2], 'one': lambda n: n[:1], 'all': lambda n: 'everything', 'none': lambda n: '',
              'colon': lambda n: n.split(':')[0]}
EVENT_NAMES = ['Aa1', 'Aa2', 'Ab', 'A', 'B:x', 'B:y:z']


def fam_classes(quick):
    def gen():
        for r in range(0, 4 if quick else 7):
            for sub in itertools.combinations(range(len(EVENT_NAMES)), r):
                for k in range(0, 4):
                    for exts in itertools.product(EXTRACTORS, repeat=k):
                        yield (list(sub), list(exts))

    def run(ctx, sub, exts):
        ctx.state((sub, exts))
        names = [EVENT_NAMES[i] for i in sub]
        log = mk_log([[0] * len(names)])
        for e, n in zip(log[0], names):
            e['concept:name'] = n
        # reference: the chain of classes of every event name
        want_nodes, want_edges, tops = set(), set(), set()
        for n in names:
            chain = [n]
            for x in exts:
                chain.append(EXTRACTORS[x](chain[-1]))
            want_nodes.update(chain)
            want_edges.update(zip(chain, chain[1:]))
            tops.add(chain[-1])
        for add_root in (True, False):
            out = Pipeline(BuildEventClassTree([EXTRACTORS[x] for x in exts]),
                           BuildEventClassGraph('classes', add_root_node=add_root))(PipelinePartResult().with_log(log))
            ctx.op()
            sources = [graph_of(out).source]
            with rendered() as drawn, displayed(), printed():
                Pipeline(DrawEventClassTree(add_root_node=add_root))(out)
                draw_event_class_tree(out.__event_class_tree__() if hasattr(out, '__event_class_tree__') else [], add_root_node=add_root)
            sources += [s for s, _ in drawn]
            check_eq(len(sources), 3, 'graphs drawn')
            edges = want_edges | ({(t, 'root') for t in tops} if add_root else set())
            nodes = want_nodes | ({'root'} if add_root and tops else set())
            for s in sources:
                d = parse(s)
                check_eq(sorted(d.nodes), sorted(nodes), f'classes of {names} by {exts}: nodes')
                check_eq(sorted({(a, b) for a, b, *_ in d.edges}), sorted(edges), f'classes of {names} by {exts}: edges')
                check(not any(p for *_, p in d.edges), 'an edge leads to a port of a node')
                ctx.ok((sorted(nodes), sorted(edges)))

    return Family('event_classes', gen, run, f'event class trees and graphs of all sets of <={3 if quick else 6} of 6 names by all chains of <=3 of 6 class extractors')


# ------------------------------------------------------------------------------------------------ rendering
def fam_rendered(quick):
    def gen():
        for combo in ([['A', 'B'], ['A']], [['A', 'B', 'C'], ['A', 'B'], ['B', 'C'], ['B']], [['A'], ['B']]):
            for levels in ([0], [0, 1]):
                for path in ('g', 'sub/h'):
                    yield (combo, levels, path)

    def run(ctx, combo, levels, path):
        ctx.state((combo, levels, path))
        root = ctx.path('render')
        shutil.rmtree(root, ignore_errors=True)
        os.makedirs(root)
        old = os.getcwd()
        os.chdir(root)
        try:
            per_level = {l: forest([c for i, c in enumerate(combo) if levels[i % len(levels)] == l], l)[0] for l in levels}
            context = PipelinePartResult().with_activities([r for rs in per_level.values() for r in rs])
            with displayed() as objs, printed():
                Pipeline(DrawActivitiesGraphByEventClassLevels(save_path=path))(context)
                check_eq(len(objs), 0, 'drawings displayed although they are saved')
                Pipeline(DrawActivitiesGraphByEventClassLevels())(context)
            ctx.op(2)
            check_eq(len(objs), len(levels), 'drawings displayed')
            for o in objs:
                check((getattr(o, 'data', b'') or b'')[:4] == b'\x89PNG', 'a PNG image has to be displayed')
            for level in levels:
                file = f'{path}_{level}.png'
                check(os.path.exists(file), f'{file} was not written; there are {sorted(os.listdir(os.path.dirname(file) or "."))}')
                with open(file, 'rb') as f:
                    check(f.read(4) == b'\x89PNG', f'{file} is not a PNG image')
                g = build_graph(per_level[level], 'Activities Graph')
                nodes, edges = by_graphviz(g.source)
                names, want = hierarchy(per_level[level], lambda x: x.name, True)
                check_eq((set(nodes), {(a, b) for a, b, _ in edges}), (names, want), 'graph read by graphviz')
                ctx.ok((combo, level))
        finally:
            os.chdir(old)
            shutil.rmtree(root, ignore_errors=True)

    return Family('rendered', gen, run, 'graphs rendered by graphviz itself: an image per level, read back as JSON')


# ------------------------------------------------------------------------------------------------ names, levels, histories
CONFUSABLE = [('a', 'A'), (' a', 'a'), ('a ', 'a'), ('a:: b', 'a::b'), ('ab', 'ba'), ('x1', 'x01'), ('n' * 60 + '1', 'n' * 60 + '2'), ('\u00e9', 'e\u0301'), ('a::b', 'b::a'), ('aa', 'a')]


def fam_names():
    def gen():
        for i in range(len(CONFUSABLE)):
            for form in range(3):
                yield ('names', i, form)
        for a in (0, 1, 9, 10, 12, 100):
            for b in (0, 2, 10, 11, 19):
                if a != b:
                    yield ('levels', a, b)

    def run(ctx, kind, a, b):
        ctx.state((kind, a, b))
        if kind == 'names':
            x, y = CONFUSABLE[a]
            nx, ny, nc = [forest([['A', 'B']], 0)[0][0] for _ in range(3)]
            nx.name, ny.name, nc.name = x, y, 'child'
            if b == 1:
                ny.child_nodes.append(nx)
            elif b == 2:
                nx.child_nodes.append(nc)
                ny.child_nodes.append(nc)
            roots = [ny] if b == 1 else [nx, ny]
            for hashes in (False, True):
                with rendered() as drawn, displayed(), printed():
                    Pipeline(DrawActivitiesGraph(use_hashes_as_name=hashes))(PipelinePartResult().with_activities(roots))
                ctx.op()
                what = f'activities {x!r} and {y!r}, {"hashes" if hashes else "names"}'
                d = check_graph(ctx, drawn[0][0], roots, (lambda n: str(hash(n))) if hashes else (lambda n: '\n'.join(n.name.split('::'))), True, what)
                check_eq(len(d.nodes), 3 + (b == 2), f'{what}: number of nodes')
            return
        per_level = {a: forest([['A', 'B'], ['A']], a)[0], b: forest([['B', 'C'], ['B'], ['C']], b)[0]}
        for twin in forest([['X', 'Y']], a)[0] + forest([['Y', 'X', 'Z']], a)[0]:
            twin.name = 'twin'
            per_level[a][0].child_nodes.append(twin)
        acts = [r for rs in per_level.values() for r in rs]
        # graphs built one after the other in one context
        context = PipelinePartResult().with_activities(acts).with_log(mk_log([[0]]))
        context.values['log'][0][0]['concept:name'] = 'Q'
        for level in (a, b, a):
            for add_root in (True, False):
                context = Pipeline(BuildActivityGraph(level, 'g', add_root_node=add_root), SerializeGraph())(context)
                ctx.op()
                what = f'levels {a} and {b}: graph of {level}'
                check_graph(ctx, graph_of(context).source, per_level[level], lambda n: n.name, add_root, what)
                check_lines(context, what)
            context = Pipeline(BuildEventClassTree([EXTRACTORS['same']]), BuildEventClassGraph('classes'), SerializeGraph())(context)
            check_eq(sorted(parse(graph_of(context).source).nodes), ['Q', 'root'], f'levels {a} and {b}: graph of classes')
            check_lines(context, f'levels {a} and {b}: graph of classes')
        with rendered() as drawn, displayed(), printed():
            for path in ('dir.d/g', 'g.png', None):
                Pipeline(DrawActivitiesGraphByEventClassLevels(save_path=path))(context)
        ctx.op(3)
        lo, hi = sorted((a, b))
        check_eq([p for _, p in drawn], [f'dir.d/g_{lo}', f'dir.d/g_{hi}', f'g_{lo}.png', f'g_{hi}.png', None, None], f'levels {a} and {b}: files')
        for (s, _), level in zip(drawn, [lo, hi] * 3):
            check_graph(ctx, s, per_level[level], lambda n: n.name, True, f'levels {a} and {b}: drawn graph of {level}')

    return Family('names', gen, run, 'names which differ in case, spaces, an accent, one character; all pairs of levels up to 100; graphs built one after the other in one context')


def check_lines(context, what):
    """nothing of the graph is lost in the serialized one"""
    want = sorted(x for x in graph_of(context).source.split('\n')[1:] if x.strip() not in ('', '}'))
    got = sorted(x for x in serialized_graph(context).split('\n') if x.strip() not in ('', '}'))
    check_eq(got, want, f'{what}: lines of the serialized graph')


def families(tier):
    q = tier == 'quick'
    return [fam_rendered(q), fam_dags(q), fam_wide(), fam_names(), fam_activities(q), fam_classes(q)]
