"""C22: diagrams of traces. All small logs, layouts of activities and patterns, histories of diagrams in one pipeline and outcomes of the
random choice of colours are drawn by the real matplotlib and ipycanvas code; the figures are read back and compared cell by cell."""
import contextlib
import itertools
import os
import random
import shutil

from vlib import gen as G
from vlib.capture import displayed
from vlib.core import Family, check, check_eq
from vlib.fakegrpc import Backend, callback_parts, m_result, m_success, played_by
from vlib.fic import flat, inst, mk_log, snap
from vlib.figure import BLACK, Painting, close, covered_twice, figures, hexa, painted, r6, recorded_canvases, rows

import numpy as np
from matplotlib import pyplot as plt
from sklearn.decomposition import PCA
from sklearn.manifold import MDS, TSNE, Isomap

from ficus.grpc_pipelines.activities_parts import (ClusterizeActivitiesFromTracesDbscan, ClusterizeActivitiesFromTracesKMeans,
                                                   ClusterizeActivitiesFromTracesKMeansGridSearch, ClusterizeLogTracesDbscan, VisualizeTracesActivities2)
from ficus.grpc_pipelines.constants import const_labeled_log_traces_dataset, const_labeled_traces_activities_dataset, const_traces_activities_dataset
from ficus.grpc_pipelines.context_values import NamesLogContextValue
from ficus.grpc_pipelines.drawing_parts import (DrawFullActivitiesDiagram2, DrawFullActivitiesDiagram2Canvas, DrawPlacementOfEventsByRegex2,
                                                DrawPlacementOfEventsByRegex2Canvas, DrawPlacementsOfEventByName2,
                                                DrawPlacementsOfEventByName2Canvas, DrawShortActivitiesDiagram2,
                                                DrawShortActivitiesDiagram2Canvas, TracesDiversityDiagram2, TracesDiversityDiagram2Canvas)
from ficus.grpc_pipelines.grpc_pipelines import Pipeline2
from ficus.grpc_pipelines.models.pipelines_and_context_pb2 import GrpcContextValue
from ficus.legacy.analysis.common.common_models import SubArrayInEventLog
from ficus.legacy.analysis.event_log_analysis import DatasetVisualizationMethod, NComponents, plot_logs_traces_histograms, plot_logs_traces_histograms_for_paths
from ficus.legacy.analysis.event_log_analysis_entropy import calculate_default_entropies, calculate_position_entropies_fast
from ficus.legacy.analysis.patterns.constants import undefined_activity
from ficus.legacy.filtering.event_log_filters import (TillEndFilteringMetricKind, filter_events_pos_entropy_direct_till_end,
                                                       filter_events_pos_entropy_indirect_till_end)
from ficus.legacy.pipelines.analysis.analysis_parts import (DrawDefaultEntropyHistogram, DrawPlacementOfEvents, DrawPosEntropyHistogram,
                                                            EventsPlacement, TracesDiversityDiagram, TracesHistogram)
from ficus.legacy.pipelines.analysis.patterns.patterns_parts import (DrawActivitiesDiagram, DrawFullActivitiesDiagram, DrawPatterns,
                                                                     DrawShortActivitiesDiagram, DrawSingleActivityPlacement)
from ficus.legacy.pipelines.contexts.accessors import log as log_of
from ficus.legacy.pipelines.contexts.part_results import PipelinePartResult
from ficus.legacy.pipelines.filtering.filter_parts import DrawPosEntropyDirectTillEndFilteringDiagram, DrawPosEntropyIndirectTillEndFilteringDiagram
from ficus.legacy.pipelines.pipelines import ParallelPipeline, Pipeline, WithInputCopy

PROPERTY = 'C22'
ASSUMPTIONS = ['coloured logs of the backend tile their traces, with equal colours exactly for equal names; names in legends of backend diagrams differ in the first 50 characters',
               'activities with the same name have the same event classes',
               'matplotlib and the browser paint what their figures and commands say']
# matplotlib leaves names which start with '_' out of legends and renders text between '$'
NAMES = ['A', '_b', 'x $y$ z', 'Ü', '0', 'FF0000']
UNDEF = undefined_activity


# ------------------------------------------------------------------------------------------------ reading of one diagram
class Colors:
    """the colours names have been seen with, in the diagrams of a pipeline"""

    def __init__(self):
        self.by_name = {UNDEF: BLACK}

    def learn(self, name, color, what):
        seen = self.by_name.setdefault(name, color)
        check_eq(color, seen, f'{what}: the colour of {name!r}')

    def distinct(self, what):
        inverse = {}
        for n, c in self.by_name.items():
            check(inverse.setdefault(c, n) == n, f'{what}: {n!r} and {inverse[c]!r} both have the colour {c}')


def one(shown, what):
    check_eq(len(shown), 1, f'{what}: number of drawn figures')
    return shown[0]


def check_diagram(ctx, figure, expected, colors, what, legend, title=None, hs=1, ws=1, overlapping=False, size=True):
    """expected: a row of (start, end, name) for every trace; colors: name -> colour"""
    rects = figure.rects()
    got = rows(rects, hs, what, check)
    check(all(0 <= r < len(expected) for r in got), f'{what}: rows {sorted(got)} for {len(expected)} traces')
    for r, row in enumerate(expected):
        want = painted([(a * ws, b * ws, n) for a, b, n in row])
        have = got.get(r, [])
        if not overlapping:
            check(not covered_twice([(x0, x1) for x0, y0, x1, y1, _ in rects if int(y0 // hs) == r]), f'{what}: cells overlap in trace {r}')
        check_eq([(a, b) for a, b, _ in have], [(a, b) for a, b, _ in want], f'{what}: stretches of trace {r}, {have} for {want}')
        for (_, _, c), (_, _, n) in zip(have, want):
            colors.learn(n, c, what)
    colors.distinct(what)
    lg = figure.legend()
    shown_names = {n for row in expected for a, b, n in row if a < b}
    if legend == 'any':
        pass
    elif legend:
        check(lg is not None, f'{what}: no legend')
        check_eq(sorted(n for n, _ in lg), sorted(shown_names), f'{what}: names in the legend')
        for n, c in lg:
            check_eq(c, colors.by_name[n], f'{what}: the colour of {n!r} in the legend')
    else:
        check(lg is None, f'{what}: has a legend')
    if title is not None:
        check_eq(figure.ax.get_xlabel(), title, f'{what}: title')
    if size:
        check_eq([t[-1][1] for t in figure.size()][1], str(len(expected)), f'{what}: number of traces on the axis')
    ctx.ok((expected, hs, ws, legend))


def draw(part, res, what, ctx):
    log = res.values['log'] if 'log' in res.values else None
    before = snap(log) if log is not None else None
    with figures() as shown:
        part(res)
    ctx.op()
    if log is not None:
        check_eq(snap(log), before, f'{what}: drawing has changed the log')
    return shown


def cells(names):
    return [[(i, i + 1, n) for i, n in enumerate(t)] for t in names]


def of_log(log):
    return [[NAMES[i] for i in t] for t in log]


OPTIONS = [dict(plot_legend=True), dict(plot_legend=False, title='some title', height_scale=2, width_scale=3), dict(plot_legend=True, height_scale=3)]


# ------------------------------------------------------------------------------------------------ events
def fam_events(quick):
    bounds = [(2, 3, 4), (3, 2, 3)] if quick else [(3, 3, 5), (4, 3, 4)]

    def gen():
        for k, traces, n in bounds:
            for log in G.logs(k, traces, n):
                yield (log,)
        yield ([[0, 1, 2, 3, 4, 5] * 2, [5], []],)

    def run(ctx, log):
        ctx.state(log)
        nm = of_log(log)
        for o in OPTIONS:
            what = f'traces diversity of {nm}, {o}'
            shown = draw(Pipeline(TracesDiversityDiagram(**o)), PipelinePartResult().with_log(mk_log(nm)), what, ctx)
            check_diagram(ctx, one(shown, what), cells(nm), Colors(), what, o['plot_legend'], o.get('title'), o.get('height_scale', 1), o.get('width_scale', 1))
        o = OPTIONS[2 if sum(map(len, log)) % 2 else 0]
        used = sorted({x for t in nm for x in t})
        for chosen in G.subsets(used):
            want = [[(a, b, n if n in chosen else UNDEF) for a, b, n in t] for t in cells(nm)]
            for label, part in (('names', EventsPlacement(set(chosen) | {'other'}, **o)), ('predicate', DrawPlacementOfEvents(lambda x: x in chosen, **o))):
                what = f'placement of {list(chosen)} by {label} in {nm}'
                fig = one(draw(Pipeline(part), PipelinePartResult().with_log(mk_log(nm)), what, ctx), what)
                check_placement(ctx, fig, want, nm, what, o.get('height_scale', 1))
        close()

    return Family('events', gen, run, f'all logs (names, traces, events) up to {bounds}, also with special names, 3 sets of options, all sets of selected events')


def check_placement(ctx, figure, expected, nm, what, hs):
    """like a diagram; the legend names all events, those not selected with the colour of undefined ones"""
    colors = Colors()
    got = rows(figure.rects(), hs, what, check)
    for r, row in enumerate(expected):
        want = painted(row)
        have = got.get(r, [])
        check_eq([(a, b) for a, b, _ in have], [(a, b) for a, b, _ in want], f'{what}: stretches of trace {r}, {have} for {want}')
        for (_, _, c), (_, _, n) in zip(have, want):
            colors.learn(n, c, what)
    colors.distinct(what)
    by_name = {x: (colors.by_name[UNDEF] if (i, i + 1, UNDEF) in expected[r] else colors.by_name[x]) for r, t in enumerate(nm) for i, x in enumerate(t)}
    check_eq(sorted(figure.legend()), sorted(by_name.items()), f'{what}: legend')
    ctx.ok((expected, hs))


# ------------------------------------------------------------------------------------------------ activities and patterns
def with_gaps(length, stretches, short=False):
    """the row of a trace: the given (start, length, name), the rest undefined; in a short diagram every stretch takes one cell"""
    out, at = [], 0
    for s, ln, n in stretches:
        if at < s:
            out.append((at, s, UNDEF))
        out.append((s, s + ln, n))
        at = max(at, s + ln)
    if at < length or not stretches:
        out.append((at, length, UNDEF))
    return [(i, i + 1, n) for i, (_, _, n) in enumerate(out)] if short else out


def layouts(n, kinds):
    """all sequences of disjoint stretches of a trace of n events, each of one of the kinds"""
    for iv in G.intervals(n, 3):
        for ks in itertools.product(range(kinds), repeat=len(iv)):
            yield [(a, a + ln, k) for (a, ln), k in zip(iv, ks)]


ACT = ['one', '_two', '$three$']


def fam_activities(quick):
    n, two = (4, 2) if quick else (5, 3)

    def gen():
        for ln in range(n + 1):
            for lay in layouts(ln, 2 if ln > 3 else 3):
                yield ([ln], [lay])
        for l1 in range(two + 1):
            for l2 in range(two + 1):
                for a in layouts(l1, 2):
                    for b in layouts(l2, 2):
                        yield ([l1, l2, 1], [a, b, []])

    def run(ctx, lengths, lay):
        ctx.state((lengths, lay))
        acts = flat([['a', 'b'], ['c'], ['b', 'c']], names=ACT)
        stretches = [[(a, b - a, ACT[k]) for a, b, k in t] for t in lay]
        nm = [['abc'[i % 3] for i in range(ln)] for ln in lengths]
        for short in (False, True):
            o = OPTIONS[(sum(map(len, lay)) + short) % 3]
            what = f'{"short" if short else "full"} activities diagram, traces of {lengths} events, activities {stretches}, {o}'
            res = PipelinePartResult().with_log(mk_log(nm)).with_trace_activities([[inst(acts[k], a, b - a) for a, b, k in t] for t in lay])
            fig = one(draw(Pipeline((DrawShortActivitiesDiagram if short else DrawFullActivitiesDiagram)(**o)), res, what, ctx), what)
            want = [with_gaps(ln, t, short) for ln, t in zip(lengths, stretches)]
            # an undefined trace without events has no visible cells, but it is in the legend of a full diagram
            legend = 'any' if any(a == b for r in want for a, b, _ in r) else o['plot_legend']
            check_diagram(ctx, fig, want, Colors(), what, legend, o.get('title'), o.get('height_scale', 1), o.get('width_scale', 1))
        for node, different in itertools.product((0, 1), (True, False)):
            o = OPTIONS[(sum(map(len, lay)) + node) % 3]
            what = f'placement of {ACT[node]} ({"different colours" if different else "one colour"}), traces of {lengths} events, activities {stretches}'
            res = PipelinePartResult().with_log(mk_log(nm)).with_activities(acts).with_trace_activities([[inst(acts[k], a, b - a) for a, b, k in t] for t in lay])
            got = []
            fig = one(draw(Pipeline(DrawSingleActivityPlacement(lambda x: got.append(x) or x[node], use_different_colors=different, **o)), res, what, ctx), what)
            check(len(got) == 1 and [id(x) for x in got[0]] == [id(x) for x in acts], f'{what}: the selector has to get the activities')
            check_single(ctx, fig, lengths, [[(a, b - a) for a, b, k in t if k == node] for t in lay], ACT[node], what, o, different)
        close()

    return Family('activities', gen, run, f'all layouts of <=3 activities in one trace of <={n} events and in two traces of <={two} events, full and short, with and without legend, all scales; '
                                          'placements of a single activity')


def check_single(ctx, fig, lengths, stretches, name, what, o, different):
    hs = o.get('height_scale', 1)
    rects = fig.rects()
    shown = set()
    for r, (ln, st) in enumerate(zip(lengths, stretches)):
        own = sorted((x0, x1, c) for x0, y0, x1, y1, c in rects if y0 == r * hs and y1 == (r + 1) * hs and x0 < x1)
        check(not covered_twice(own), f'{what}: cells overlap in trace {r}: {own}')
        black = painted([x for x in own if x[2] == BLACK])
        colored = [x for x in own if x[2] != BLACK]
        at, gaps = 0, []
        for s, length in st:
            gaps += [(at, s)] if at < s else []
            at = s + length
        gaps += [(at, ln)] if at < ln else []
        check_eq([(a, b) for a, b, _ in black], gaps, f'{what}: stretches without the activity in trace {r}')
        check_eq([(a, b) for a, b, _ in colored], [(s, s + l) for s, l in st], f'{what}: stretches of the activity in trace {r}')
        cs = {c for _, _, c in colored}
        check_eq(len(cs), (len(st) if different else min(1, len(st))), f'{what}: colours of the {len(st)} stretches in trace {r}')
        shown |= ({name} if st else set()) | ({'undefined'} if gaps else set())
    check(all(y0 // hs < len(lengths) for _, y0, *_ in rects), f'{what}: more rows than traces')
    lg = fig.legend()
    if not o['plot_legend']:
        check(lg is None, f'{what}: has a legend')
    else:
        check_eq(sorted('undefined' if c == BLACK else n for n, c in lg), sorted(shown), f'{what}: legend')
    ctx.ok((lengths, stretches, different))


def fam_patterns(quick):
    n, count = (4, 3) if quick else (5, 3)

    def gen():
        for w in G.words(2, n):
            ivs = [(a, b) for a in range(len(w)) for b in range(a + 1, len(w) + 1)]
            for c in range(0, count + 1):
                if c == 3 and len(w) > (3 if quick else 4):
                    continue
                for chosen in itertools.combinations(ivs, c):
                    yield (list(w), [list(x) for x in chosen])

    def run(ctx, w, chosen):
        ctx.state((w, chosen))
        nm = [[NAMES[i] for i in w], [NAMES[0], NAMES[1], NAMES[0]]]
        subs = [[SubArrayInEventLog(a, b - a) for a, b in chosen], [SubArrayInEventLog(1, 2)]]
        for flip in ((False, True) if len(chosen) > 1 else (False,)):
            for short in (False, True):
                o = OPTIONS[(len(chosen) + short) % 3]
                what = f'{"short" if short else "full"} patterns diagram of {nm}, patterns {chosen}{" (reversed)" if flip else ""}, {o}'
                res = PipelinePartResult().with_log(mk_log(nm)).with_patterns([list(reversed(s)) if flip else list(s) for s in subs])
                fig = one(draw(Pipeline(DrawPatterns(short_diagram=short, **o)), res, what, ctx), what)
                hs, ws = o.get('height_scale', 1), o.get('width_scale', 1)
                overlap = covered_twice(chosen)
                if short and overlap:
                    continue
                rects = fig.rects()
                got = rows(rects, hs, what, check)
                colors = {(): BLACK}
                kinds = set()
                for r, t in enumerate(nm):
                    st = sorted((s.first_pos, s.length, tuple(t[s.first_pos:s.first_pos + s.length])) for s in subs[r])
                    kinds |= {x[2] for x in st}
                    row = [(a, b, () if n == UNDEF else n) for a, b, n in with_gaps(len(t), st, short) if a < b]
                    kinds |= {x[2] for x in row}
                    if overlap:
                        # which of two patterns at the same position is seen is not specified
                        for a, b, k in row:
                            cs = {c for x0, y0, x1, y1, c in rects if (x0, y0, x1, y1) == (a * ws, r * hs, b * ws, (r + 1) * hs)}
                            check(cs, f'{what}: nothing is drawn from {a} to {b} of trace {r}')
                            if len({x[2] for x in row if x[:2] == (a, b)}) == 1:
                                check(len(cs) == 1, f'{what}: {k} has several colours')
                                check_eq(colors.setdefault(k, next(iter(cs))), next(iter(cs)), f'{what}: colour of {k}')
                        check_eq([(a, b) for a, b, _ in painted([(a, b, 1) for a, b, _ in got.get(r, [])])], [(0, len(t) * ws)] if t else [], f'{what}: extent of trace {r}')
                        continue
                    want = painted([(a * ws, b * ws, k) for a, b, k in row])
                    check_eq([(a, b) for a, b, _ in got.get(r, [])], [(a, b) for a, b, _ in want], f'{what}: stretches of trace {r}')
                    for (_, _, c), (_, _, k) in zip(got.get(r, []), want):
                        check_eq(colors.setdefault(k, c), c, f'{what}: colour of {k}')
                check_eq(len(set(colors.values())), len(colors), f'{what}: colours {colors}')
                lg = fig.legend()
                if o['plot_legend'] and all(nm):
                    check_eq(sorted({c for _, c in lg}), sorted({colors[k] for k in kinds}), f'{what}: colours in the legend')
                    check_eq(len(lg), len(kinds), f'{what}: length of the legend')
                    check(all(n == UNDEF for n, c in lg if c == BLACK), f'{what}: legend {lg}')
                ctx.ok((w, chosen, short))
        close()

    return Family('patterns', gen, run, f'all traces of <={n} events over 2 names with all sets of <={count} patterns, also overlapping ones, in both orders, full and short')


# ------------------------------------------------------------------------------------------------ histories and random choices
class Scripted:
    """the outcomes of the random choices of colours: first the given colours, then always new ones"""

    def __init__(self, script):
        self.flow = [x for c in script for x in c]
        self.n = 0

    def randint(self, a, b):
        if self.flow:
            return self.flow.pop(0)
        if self.n % 3 == 0:
            self.value = (7 + self.n // 3 % 200, 99 + self.n // 600 % 100, 131)
        v = self.value[self.n % 3]
        self.n += 1
        return v


@contextlib.contextmanager
def scripted(script):
    saved = random.randint
    random.randint = Scripted(script).randint
    try:
        yield
    finally:
        random.randint = saved


PALETTE = [(0, 0, 0), (255, 0, 0), (0, 0, 255)]
KINDS = ['diversity', 'placement', 'predicate', 'full', 'short', 'single', 'single one colour', 'nested', 'parallel']


def history_part(kind, acts):
    if kind == 'diversity':
        return TracesDiversityDiagram(plot_legend=True)
    if kind == 'placement':
        return EventsPlacement({'B'}, plot_legend=True)
    if kind == 'predicate':
        return DrawPlacementOfEvents(lambda n: n != 'B', plot_legend=True)
    if kind in ('full', 'short'):
        return DrawActivitiesDiagram(short_diagram=kind == 'short', plot_legend=True)
    if kind.startswith('single'):
        return DrawSingleActivityPlacement(lambda x: x[0], use_different_colors=kind == 'single', plot_legend=True)
    if kind == 'nested':
        return WithInputCopy(Pipeline(EventsPlacement({'C'}, plot_legend=True)))
    return ParallelPipeline(Pipeline(EventsPlacement({'A'}, plot_legend=True)), Pipeline(TracesDiversityDiagram(plot_legend=True)))


HLOG = [['A', 'B', 'C'], ['C', 'A']]
HACT = [[(0, 1, 0), (1, 3, 1)], [(1, 2, 0)]]


def fam_histories(quick):
    words, length = (2, 2) if quick else (4, 2)

    def gen():
        for n in range(1, length + 1):
            for h in itertools.product(KINDS, repeat=n):
                yield (list(h), words)
        for h in itertools.product(['diversity', 'placement', 'full', 'nested'] if quick else KINDS, repeat=3):
            yield (list(h), 1 if quick else 2)

    def run(ctx, history, words):
        for script in itertools.product(PALETTE, repeat=words):
            ctx.state((history, script))
            acts = flat([['a', 'b'], ['c']], names=['A', 'other'])
            res = PipelinePartResult().with_log(mk_log(HLOG)).with_activities(acts).with_trace_activities(
                [[inst(acts[k], a, b - a) for a, b, k in t] for t in HACT])
            what = f'diagrams {history}, random colours {script}'
            with scripted(script), figures() as shown:
                Pipeline(*[history_part(k, acts) for k in history])(res)
            ctx.op()
            check_history(ctx, shown, history, what)
            close()

    return Family('histories', gen, run, f'all sequences of <={length} (and all of 3{" of the main kinds" if quick else ""}) diagrams of 9 kinds, also in nested and parallel pipelines, '
                                         f'by all outcomes of the first {words} random choices of colours among black and two others')


def check_history(ctx, shown, history, what):
    colors = Colors()
    at = 0

    def placement(sel, shared=True):
        nonlocal at
        want = [[(a, b, n if n in sel else UNDEF) for a, b, n in t] for t in cells(HLOG)]
        check_cells(shown[at], want, colors if shared else Colors(), f'{what}: diagram {at} (placement of {sel})')
        at += 1

    def diversity(shared=True):
        nonlocal at
        check_cells(shown[at], cells(HLOG), colors if shared else Colors(), f'{what}: diagram {at} (events)')
        at += 1

    check_eq(len(shown), len(history) + history.count('parallel'), f'{what}: number of figures')
    had = False
    for kind in history:
        if kind == 'diversity':
            diversity()
        elif kind == 'placement':
            placement(['B'])
        elif kind == 'predicate':
            placement(['A', 'C'])
        elif kind in ('full', 'short'):
            st = [[(a, b - a, ['A', 'other'][k]) for a, b, k in t] for t in HACT]
            check_cells(shown[at], [with_gaps(len(t), s, kind == 'short') for t, s in zip(HLOG, st)], colors, f'{what}: diagram {at} ({kind})')
            at += 1
        elif kind.startswith('single'):
            check_single(ctx, shown[at], [3, 2], [[(0, 1)], [(1, 1)]], 'A', f'{what}: diagram {at} ({kind})', dict(plot_legend=True), kind == 'single')
            at += 1
        elif kind == 'nested':
            # colours chosen inside, before any outside, are not known outside
            placement(['C'], had)
        else:
            placement(['A'], had)
            diversity(had)
        had = had or kind in ('diversity', 'placement', 'predicate', 'full', 'short')
    ctx.ok(sorted(colors.by_name.items()))


def check_cells(figure, expected, colors, what):
    got = rows(figure.rects(), 1, what, check)
    for r, row in enumerate(expected):
        want = painted(row)
        check_eq([(a, b) for a, b, _ in got.get(r, [])], [(a, b) for a, b, _ in want], f'{what}: stretches of trace {r}, {got.get(r)} for {want}')
        for (_, _, c), (_, _, n) in zip(got.get(r, []), want):
            colors.learn(n, c, what)
    colors.distinct(what)
    for n, c in figure.legend():
        if n in colors.by_name and any(x == n for row in expected for _, _, x in row):
            check_eq(c, colors.by_name[n], f'{what}: colour of {n!r} in the legend')


# ------------------------------------------------------------------------------------------------ diagrams of the backend
REMOTE = {'events': (TracesDiversityDiagram2, ()), 'by name': (DrawPlacementsOfEventByName2, ('A',)), 'by regex': (DrawPlacementOfEventsByRegex2, ('A.*',)),
          'full': (DrawFullActivitiesDiagram2, ()), 'short': (DrawShortActivitiesDiagram2, ())}
CANVAS = {'events': (TracesDiversityDiagram2Canvas, ()), 'by name': (DrawPlacementsOfEventByName2Canvas, ('A',)), 'by regex': (DrawPlacementOfEventsByRegex2Canvas, ('A.*',)),
          'full': (DrawFullActivitiesDiagram2Canvas, ()), 'short': (DrawShortActivitiesDiagram2Canvas, ())}
TINTS = {'A': (255, 0, 0), '_b': (0, 0, 255), 'x $y$ z': (1, 2, 3), 'n' * 49 + 'AB': (0, 0, 0)}
TNAMES = list(TINTS)


def tint(n):
    return '#%02X%02X%02X' % TINTS[n]


def colors_log(rows_):
    v = GrpcContextValue()
    v.colors_log.SetInParent()
    for row in rows_:
        t = v.colors_log.traces.add()
        for a, b, n in row:
            e = t.event_colors.add()
            e.name, e.start_index, e.length = n, a, b - a
            e.color.red, e.color.green, e.color.blue = TINTS[n]
    return v


def remote(part, key, value):
    def script(request):
        parts = callback_parts(request.pipeline)
        return [m_result(u, [(key, value)]) for u, _ in parts] + [m_success('guid')]

    backend = Backend(script)
    with played_by(backend):
        Pipeline2(part).execute({'names_event_log': NamesLogContextValue([['A']])})
    return backend


def fam_backend(quick):
    n = 3 if quick else 4

    def rows_of(total):
        for parts in lengths(total):
            for ks in itertools.product(range(3), repeat=len(parts)):
                at, row = 0, []
                for ln, k in zip(parts, ks):
                    row.append((at, at + ln, k))
                    at += ln
                yield row

    def lengths(total):
        if total == 0:
            yield ()
        for first in range(1, total + 1):
            for rest in lengths(total - first):
                yield (first,) + rest

    def gen():
        yield ([],)
        for t in range(n + 2):
            for row in rows_of(t):
                yield ([row],)
        two = [row for t in range(n) for row in rows_of(t)]
        for a in two:
            for b in two:
                yield ([a, b, [(0, 2, 3)]],)

    def run(ctx, log):
        log = [[(a, b, TNAMES[k]) for a, b, k in t] for t in log]
        ctx.state(log)
        kinds = list(REMOTE)
        value = colors_log(log)
        kind = kinds[sum(map(len, log)) % 5]
        for o in OPTIONS:
            what = f'{kind} of the coloured log {log}, {o}'
            cls, args = REMOTE[kind]
            with figures() as shown:
                remote(cls(*args, **o), 'colors_event_log', value)
            ctx.op()
            colors = Colors()
            colors.by_name = {x[:50]: tint(x) for x in TINTS}
            cut = [[(a, b, x[:50]) for a, b, x in t] for t in log]
            check_diagram(ctx, one(shown, what), cut, colors, what, o['plot_legend'], o.get('title'), o.get('height_scale', 1), o.get('width_scale', 1))
            close()
        for o in (dict(plot_legend=True, height_scale=10, width_scale=10), dict(title='some title', height_scale=7.5, width_scale=2.5), dict(plot_legend=False)):
            what = f'{kind} (canvas) of the coloured log {log}, {o}'
            cls, args = CANVAS[kind]
            with recorded_canvases() as rec, displayed() as objs:
                remote(cls(*args, **o), 'colors_event_log', value)
            ctx.op()
            check_eq(len(objs), 1, f'{what}: number of displayed objects')
            check_canvas(ctx, objs[0], Painting(rec.of(objs[0])), log, o, what)

    return Family('backend', gen, run, f'all coloured logs of one trace of <={n + 1} and two of <={n - 1} events with rectangles of all lengths, every kind of diagram of the remote client, '
                                       'matplotlib and canvas, all sets of options')


def check_canvas(ctx, canvas, p, log, o, what):
    ws, hs = o.get('width_scale', 1), o.get('height_scale', 1)
    pal = {tint(n): n for n in TINTS}
    ys = [y0 for x0, y0, x1, y1, c in p.rects if c in pal and r6(y1 - y0) == r6(hs)]
    # the first cell belongs to the first trace which has events
    top = min(ys) - hs * next(i for i, t in enumerate(log) if t) if ys else 0
    extent = [[(x0, x1, c) for x0, y0, x1, y1, c in p.rects if c in pal and abs(x1 - x0) > 0 and y1 - y0 == hs and (r6((y0 - top) / hs) == r)] for r in range(len(log))]
    left = min([x0 for r in extent for x0, _, _ in r], default=0)
    total = sum(map(len, log))
    for r, row in enumerate(log):
        want = [(r6(left + a * ws), r6(left + b * ws), tint(n)) for a, b, n in row]
        y = top + (r + 0.5) * hs
        for a, b, c in want:
            for x in (a + (b - a) * 0.02, (a + b) / 2, b - (b - a) * 0.02):
                check_eq(p.color_at(x, y), c, f'{what}: colour at ({x}, {y}), trace {r}, cells {extent[r]} for {want}')
        end = left + (row[-1][1] if row else 0) * ws
        check(p.color_at(end + ws * 0.02, y) not in pal, f'{what}: trace {r} is longer than {end}')
    check(r6(left + max([t[-1][1] for t in log if t], default=0) * ws) <= canvas.width, f'{what}: the canvas is too narrow')
    check(top + len(log) * hs <= canvas.height, f'{what}: the canvas is not high enough')
    texts = [t for t, *_ in p.texts]
    shown = sorted({n for row in log for _, _, n in row})
    if o.get('plot_legend'):
        for n in shown:
            at = [(x, y) for t, x, y, _ in p.texts if t == n]
            check_eq(len(at), 1, f'{what}: occurrences of {n!r} in the legend')
            x, y = at[0]
            check_eq(p.color_left_of(x - 1, y - 4), tint(n), f'{what}: colour of {n!r} in the legend')
            check(y <= canvas.height, f'{what}: the legend is outside of the canvas')
            check(y - 8 >= top + len(log) * hs, f'{what}: the legend covers the traces')
    else:
        check(not any(t in TINTS for t in texts), f'{what}: has a legend')
    check(str(len(log)) in texts, f'{what}: no number of traces in {texts}')
    check(str(max([t[-1][1] for t in log if t], default=0)) in texts, f'{what}: no maximal length in {texts}')
    if o.get('title'):
        check_eq(texts.count(o['title']), 1, f'{what}: title')
    ctx.ok((log, o, total))


# ------------------------------------------------------------------------------------------------ files
def fam_files(quick):
    def parts(path):
        yield 'traces diversity', TracesDiversityDiagram(plot_legend=True, save_path=path)
        yield 'placement', EventsPlacement({'A'}, plot_legend=True, save_path=path)
        yield 'predicate', DrawPlacementOfEvents(lambda n: n == 'A', plot_legend=True, save_path=path)
        yield 'full', DrawFullActivitiesDiagram(plot_legend=True, save_path=path)
        yield 'short', DrawShortActivitiesDiagram(save_path=path)
        yield 'patterns', DrawPatterns(short_diagram=False, save_path=path)
        yield 'single', DrawSingleActivityPlacement(lambda x: x[0], save_path=path)

    def gen():
        for kind in range(7):
            for where in ('x.png', 'new/dir/x.png', 'x.svg', 'creator'):
                yield (kind, where)
        for kind in REMOTE:
            for where in ('x.png', 'new/dir/x.png'):
                yield (kind, where)
        for kind in CANVAS:
            yield ('canvas ' + kind, 'x.png')
        for kind in ('histogram', 'entropies', 'histograms'):
            yield (kind, 'x.png')

    def run(ctx, kind, where):
        ctx.state((kind, where))
        d = ctx.path('files')
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        old = os.getcwd()
        os.chdir(d)
        try:
            rel = 'x.png' if where == 'creator' else where
            what = f'export of {kind} to {where}'
            acts = flat([['A']])
            nm = [['A', 'B'], ['B']]
            res = PipelinePartResult().with_log(mk_log(nm)).with_activities(acts).with_trace_activities([[inst(acts[0], 0, 1)], []]).with_patterns([[SubArrayInEventLog(0, 2)], []])
            before = snap(res.values['log'])
            with figures() as shown, displayed() as objs, recorded_canvases() as rec:
                if isinstance(kind, int):
                    label, part = list(parts(rel if where != 'creator' else lambda r: f'x.{len(r.values["log"])}.png'))[kind]
                    if where == 'creator':
                        rel = 'x.2.png'
                        if label == 'placement':
                            return
                    Pipeline(part)(res)
                elif kind in REMOTE:
                    remote(REMOTE[kind][0](*REMOTE[kind][1], save_path=rel), 'colors_event_log', colors_log([[(0, 2, 'A')]]))
                elif kind.startswith('canvas'):
                    cls, args = CANVAS[kind[7:]]
                    remote(cls(*args, save_path=rel), 'colors_event_log', colors_log([[(0, 2, 'A')]]))
                    check_eq(os.listdir(d), [], f'{what}: files before the browser sent the picture')
                    check_eq(len(rec.keep), 1, f'{what}: canvases')
                    check(rec.keep[0].sync_image_data, f'{what}: the browser does not send the picture')
                    rec.keep[0].set_state({'image_data': memoryview(b'picture')})
                    check_eq(open(rel, 'rb').read(), b'picture', f'{what}: contents of the file')
                elif kind == 'histogram':
                    Pipeline(TracesHistogram(save_path=rel))(res)
                elif kind == 'entropies':
                    Pipeline(DrawDefaultEntropyHistogram(save_path=rel))(res)
                else:
                    plot_logs_traces_histograms([res.values['log']], ['a'], save_path=rel)
            ctx.op()
            check_eq(len(shown) + len(objs), 0, f'{what}: is displayed too')
            found = sorted(os.path.relpath(os.path.join(r, f), d) for r, _, fs in os.walk(d) for f in fs)
            check_eq(found, [rel], f'{what}: written files')
            if not kind_is_canvas(kind):
                head = open(rel, 'rb').read(8)
                check(head.startswith(b'\x89PNG') if rel.endswith('png') else b'<?xml' in head, f'{what}: the file starts with {head}')
            check_eq(snap(res.values['log']), before, f'{what}: the log')
            ctx.ok((kind, where))
        finally:
            os.chdir(old)
            shutil.rmtree(d, ignore_errors=True)
            close()

    return Family('files', gen, run, 'every kind of diagram exported to a bare name, to a new folder, in another format and by a function which creates names')


def kind_is_canvas(kind):
    return isinstance(kind, str) and kind.startswith('canvas')


# ------------------------------------------------------------------------------------------------ histograms
def variants(nm):
    """sizes of the groups of equal traces"""
    out = {}
    for t in nm:
        out[tuple(t)] = out.get(tuple(t), 0) + 1
    return out


def steps(patch):
    """{left edge: height} of a step polygon"""
    xy = [tuple(map(r6, p)) for p in patch.get_xy()]
    out = {}
    for (x0, y0), (x1, y1) in zip(xy, xy[1:]):
        if x1 == x0 + 1 and y0 == y1 and y0 > 0:
            out[x0] = y0
    return out


def bars(ax):
    out = {}
    for p in ax.patches:
        if hasattr(p, 'get_height') and p.get_height():
            out[r6(p.get_x())] = r6(p.get_height())
        elif hasattr(p, 'get_xy') and hasattr(p.get_xy(), 'shape') and len(p.get_xy()) > 2:
            out.update(steps(p))
    return out


def fam_histograms(quick):
    traces, n = (3, 4) if quick else (4, 5)

    def gen():
        for log in G.logs(2, traces, n):
            yield (log,)

    def run(ctx, log):
        ctx.state(log)
        nm = of_log(log)
        mk = lambda: PipelinePartResult().with_log(mk_log(nm))
        what = f'histogram of variants of {nm}'
        fig = one(draw(Pipeline(TracesHistogram(title='t')), mk(), what, ctx), what)
        want = sorted(variants(nm).values())
        got = bars(fig.ax)
        check_eq(sorted(got.values()), want, f'{what}: heights')
        check_eq(sorted(got), list(range(1, len(want) + 1)), f'{what}: positions')
        close()
        for m in (1, 2, 5) if len(log) <= 2 else (1, 3):
            logs = [mk_log(nm)] + [mk_log([['A']] * (i + 1)) for i in range(m - 1)]
            with figures() as shown:
                plot_logs_traces_histograms(logs, [f'/some/dir/log{i}.xes' for i in range(m)], title='all')
            ctx.op()
            axes = one(shown, what).axes
            titled = {a.get_title(): bars(a) for a in axes if a.get_title()}
            check_eq(sorted(titled), sorted(f'log{i}' for i in range(m)), f'histograms of {m} logs: titles')
            check_eq(titled['log0'], got, f'histograms of {m} logs: the first one')
            for i in range(1, m):
                check_eq(titled[f'log{i}'], {1: i}, f'histograms of {m} logs: number {i}')
            close()
        if sum(map(len, nm)) == 0:
            return
        what = f'entropies of events of {nm}'
        ent = calculate_default_entropies(mk_log(nm))
        fig = one(draw(Pipeline(DrawDefaultEntropyHistogram(title='t')), mk(), what, ctx), what)
        cols = {c: (x0, y1 - y0 if y0 == 0 else y0) for x0, y0, x1, y1, c in fig.rects()}
        lg = fig.legend()
        check_eq(sorted(n for n, _ in lg), sorted(f'{n} {e}' for n, e in ent.items()), f'{what}: legend')
        order = [float(n.rsplit(' ', 1)[1]) for n, _ in lg]
        check(order == sorted(order, reverse=True), f'{what}: the legend is not ordered by entropy: {lg}')
        check_eq(len({c for _, c in lg}), len(lg), f'{what}: colours')
        check_eq(len({x for x, _ in cols.values()}), len(ent), f'{what}: positions of the bars')
        for n, c in lg:
            check(c in cols, f'{what}: there is no bar of the colour of {n!r}')
            check_eq(cols[c][1], r6(float(n.rsplit(' ', 1)[1])), f'{what}: height of the bar of {n!r}')
        close()
        what = f'positional entropies of {nm}'
        vals = list(calculate_position_entropies_fast(mk_log(nm)).values())
        with figures() as shown:
            Pipeline(TracesDiversityDiagram(plot_legend=True), DrawPosEntropyHistogram())(mk())
        ctx.op()
        check_eq(len(shown), 2, f'{what}: number of figures, together with a diagram of traces')
        check_cells(shown[0], cells(nm), Colors(), f'{what}: the diagram of traces')
        counts = [(p.get_x(), p.get_x() + p.get_width(), p.get_height()) for p in shown[1].ax.patches if p.get_height()]
        check_eq(sum(h for *_, h in counts), len(vals), f'{what}: number of values')
        for a, b, h in counts:
            check(sum(1 for v in vals if a - 1e-9 <= v <= b + 1e-9) >= h, f'{what}: {h} values between {a} and {b}, values {vals}')
        close()
        ctx.ok((want, sorted(ent.items())))

    return Family('histograms', gen, run, f'all logs of <={traces} traces and <={n} events over 2 names: histograms of variants (one and several logs), of entropies and positional entropies')


# ------------------------------------------------------------------------------------------------ clusters
def dataset(matrix, labels, tints):
    v = GrpcContextValue()
    d = v.labeled_dataset
    for i, r in enumerate(matrix):
        d.dataset.matrix.rows.add().values.extend(r)
        d.dataset.rowNames.append(f'row {i}')
    d.dataset.columnsNames.extend(f'column {i}' for i in range(len(matrix[0])))
    d.labels.extend(labels)
    for l in labels:
        c = d.labelsColors.add()
        c.red, c.green, c.blue = tints[l]
    return v


POINTS = [(0., 0., 1.), (1., 0., 0.), (0., 3., 0.), (5., 1., 2.), (1., 1., 1.)]


def fam_clusters(quick):
    n = 4 if quick else 5

    def gen():
        for m in range(3, n + 1):
            for labels in G.rgs(m, 3, m):
                for comp in (1, 2, 3):
                    yield (list(labels), comp)

    def run(ctx, labels, comp):
        ctx.state((labels, comp))
        tints = {0: (255, 0, 0), 1: (0, 0, 255), 2: (1, 2, 3)}
        pts = POINTS[:len(labels)]
        key = const_labeled_traces_activities_dataset
        what = f'clusters {labels}, {comp} components'
        part = (ClusterizeActivitiesFromTracesKMeans if comp % 2 else ClusterizeActivitiesFromTracesDbscan)(n_components=NComponents(comp))
        with figures() as shown:
            remote(part, key, dataset(pts, labels, tints))
        ctx.op()
        fig = one(shown, what)
        want = PCA(n_components=comp).fit_transform(np.array(pts))
        by_color = {}
        for c in fig.ax.collections:
            off = c._offsets3d if comp == 3 else [c.get_offsets()[:, i] for i in range(2)]
            by_color.setdefault(hexa(c.get_facecolors()[0]), []).extend(tuple(round(float(abs(o[i])), 5) for o in off) for i in range(len(off[0])))
        for l in set(labels):
            mine = [tuple(round(float(abs(x)), 5) for x in (list(want[i]) + [0.] * (1 if comp == 1 else 0))) for i in range(len(labels)) if labels[i] == l]
            check_eq(sorted(by_color.get('#%02X%02X%02X' % tints[l], [])), sorted(mine), f'{what}: points of cluster {l}')
        check_eq(sorted(t.get_text() for t in fig.ax.get_legend().get_texts()), sorted(f'CLUSTER_{l}' for l in set(labels)), f'{what}: legend')
        close()
        with figures() as shown:
            remote(type(part)(show_visualization=False), key, dataset(pts, labels, tints))
        check_eq(len(shown), 0, f'{what}: drawn although the visualization is off')
        ctx.ok((labels, comp))
        close()

    return Family('clusters', gen, run, f'all partitions of 3..{n} points into <=3 clusters, 1 to 3 components')

def points_of(m):
    return [(float(i), float(i * i % 7), float((3 * i + i * i * i) % 11), float(i % 4)) for i in range(m)]


REDUCERS = {'Pca': (PCA, 6), 'Isomap': (Isomap, 8), 'MDS': (MDS, 6), 'TSNE': (TSNE, 33)}


def fam_methods():
    """every visualization method, with and without labels, against the same reducer with the same random numbers"""
    def gen():
        for method in REDUCERS:
            for comp in (1, 2, 3):
                for kind in ('activities', 'grid', 'traces', 'plain'):
                    yield (method, comp, kind)

    def run(ctx, method, comp, kind):
        ctx.state((method, comp, kind))
        cls, m = REDUCERS[method]
        pts = points_of(m)
        labels = [(i // 2) % 3 for i in range(m)] if kind != 'plain' else [None] * m
        tints = {0: (255, 0, 0), 1: (0, 0, 255), 2: (1, 2, 3)}
        what = f'{method}, {comp} components, {kind}'
        opts = dict(n_components=NComponents(comp), visualization_method=DatasetVisualizationMethod[method])
        if kind == 'plain':
            v = GrpcContextValue()
            for i, r in enumerate(pts):
                v.dataset.matrix.rows.add().values.extend(r)
                v.dataset.rowNames.append(f'row {i}')
            v.dataset.columnsNames.extend(f'column {i}' for i in range(len(pts[0])))
            part, key = VisualizeTracesActivities2(**opts), const_traces_activities_dataset
        else:
            v = dataset(pts, labels, tints)
            if kind == 'traces':
                part, key = ClusterizeLogTracesDbscan(Pipeline2(), **opts), const_labeled_log_traces_dataset
            else:
                part = ClusterizeActivitiesFromTracesKMeansGridSearch(**opts) if kind == 'grid' else ClusterizeActivitiesFromTracesDbscan(**opts)
                key = const_labeled_traces_activities_dataset
        np.random.seed(7)
        with figures() as shown:
            remote(part, key, v)
        ctx.op()
        fig = one(shown, what)
        np.random.seed(7)
        want = cls(n_components=comp).fit_transform(np.array(pts))
        cmp = (lambda x: round(abs(float(x)), 3)) if method == 'Pca' else lambda x: round(float(x), 3)
        got = {}
        for c in fig.ax.collections:
            off = c._offsets3d if comp == 3 else [c.get_offsets()[:, i] for i in range(2)]
            got.setdefault(hexa(c.get_facecolors()[0]) if kind != 'plain' else None, []).extend(tuple(cmp(o[i]) for o in off) for i in range(len(off[0])))
        for l in set(labels):
            mine = [tuple(cmp(x) for x in (list(want[i]) + [0.] * (1 if comp == 1 else 0))) for i in range(m) if labels[i] == l]
            check_eq(sorted(got.get('#%02X%02X%02X' % tints[l] if l is not None else None, [])), sorted(mine), f'{what}: points of cluster {l}')
        check_eq(len(got), len(set(labels)), f'{what}: number of colours')
        if kind != 'plain':
            check_eq(sorted(t.get_text() for t in fig.ax.get_legend().get_texts()), sorted(f'CLUSTER_{l}' for l in set(labels)), f'{what}: legend')
        close()
        ctx.ok((method, comp, kind))

    return Family('methods', gen, run, 'every visualization method (PCA, Isomap, MDS, t-SNE) x 1 to 3 components x every part which draws a dataset')


def fam_filtering(quick):
    """the diagrams of filtering show the metric of every iteration, in order"""
    n = 4 if quick else 5

    def gen():
        for t in G.logs(3, 2, n, min_traces=1):
            if all(t):
                for kind in TillEndFilteringMetricKind:
                    for direct in (True, False):
                        yield (t, kind.name, direct)

    def run(ctx, traces, kind, direct):
        ctx.state((traces, kind, direct))
        kind = TillEndFilteringMetricKind[kind]
        log = mk_log(traces)
        before = snap(log)
        f = filter_events_pos_entropy_direct_till_end if direct else filter_events_pos_entropy_indirect_till_end
        want = [float(x[1]) for x in f(mk_log(traces), metric_kind=kind, untouchable_event_func=lambda e: False)]
        part = (DrawPosEntropyDirectTillEndFilteringDiagram if direct else DrawPosEntropyIndirectTillEndFilteringDiagram)(kind)
        close()
        r = part(PipelinePartResult().with_log(log))
        ctx.op(2)
        what = f'{traces}: diagram of filtering, {kind}, direct {direct}'
        lines = [l for i in plt.get_fignums() for a in plt.figure(i).axes for l in a.lines]
        check_eq(len(lines), 1, f'{what}: lines')
        check_eq([round(float(y), 9) for y in lines[0].get_ydata()], [round(y, 9) for y in want], f'{what}: metric values')
        check_eq([float(x) for x in lines[0].get_xdata()], [float(i) for i in range(len(want))], f'{what}: iterations')
        check(log_of(r) is log and snap(log) == before, f'{what}: the log was changed')
        close()
        ctx.ok(want)

    return Family('filtering', gen, run, f'all logs of <=3 non-empty traces/<={n} events/2 names x metrics x direct and indirect filtering')


# ------------------------------------------------------------------------------------------------ scale
def confusable(kind, i):
    """names which differ only in one place"""
    return {'number': f'{i}', 'tail': 'n' * 60 + f'{i}', 'head': f'{i}' + 'n' * 60, 'space': 'a' + ' ' * i, 'case': ''.join('aA'[i >> b & 1] for b in range(9))}[kind]


def fam_many(quick):
    """several diagrams of logs with many names, activities and patterns, in one pipeline"""
    counts = (30, 70, 140) if quick else (30, 70, 140, 300)

    def gen():
        for kind in ('number', 'tail', 'head', 'space', 'case'):
            for n in counts:
                for chunk in (1, n // 3 + 1):
                    yield (kind, n, chunk)

    def run(ctx, kind, n, chunk):
        ctx.state((kind, n, chunk))
        names = [confusable(kind, i) for i in range(n)]
        order = names + names[::-1] + names[::3]
        nm = [order[i:i + chunk * 5] for i in range(0, len(order), chunk * 5)]
        chosen = names[::2]
        acts = flat([[x] for x in names], names=[f'act {x}' for x in names])
        act = dict(zip(names, acts))
        st = [[(i, 1, f'act {x}') for i, x in enumerate(t) if i % 4 != 3] for t in nm]
        res = PipelinePartResult().with_log(mk_log(nm)).with_activities(acts).with_trace_activities([[inst(act[x], i, 1) for i, x in enumerate(t) if i % 4 != 3] for t in nm])
        what = f'{n} names ({kind}), traces of {chunk * 5} events'
        with figures() as shown:
            Pipeline(TracesDiversityDiagram(plot_legend=True), EventsPlacement(set(chosen), plot_legend=True), DrawFullActivitiesDiagram(plot_legend=True),
                     TracesDiversityDiagram(plot_legend=True), DrawPlacementOfEvents(lambda x: x not in chosen, plot_legend=True),
                     DrawShortActivitiesDiagram(plot_legend=True))(res)
        ctx.op(6)
        check_eq(len(shown), 6, f'{what}: number of figures')
        colors = Colors()
        check_diagram(ctx, shown[0], cells(nm), colors, f'{what}: events', True)
        check_cells(shown[1], [[(a, b, x if x in chosen else UNDEF) for a, b, x in t] for t in cells(nm)], colors, f'{what}: placement')
        check_diagram(ctx, shown[2], [with_gaps(len(t), s) for t, s in zip(nm, st)], colors, f'{what}: full', True)
        check_diagram(ctx, shown[3], cells(nm), colors, f'{what}: events again', True)
        check_cells(shown[4], [[(a, b, x if x not in chosen else UNDEF) for a, b, x in t] for t in cells(nm)], colors, f'{what}: placement of the others')
        check_diagram(ctx, shown[5], [with_gaps(len(t), s, True) for t, s in zip(nm, st)], colors, f'{what}: short', True)
        ctx.ok((kind, n, chunk))
        close()

    return Family('many', gen, run, f'{counts} names which differ in one place x 6 diagrams in one pipeline, one or several traces')


def fam_many_patterns(quick):
    def gen():
        for width in (1, 2, 7, 12):
            for n in (5, 40, 90):
                for short in (False, True):
                    for place in sorted({0, width // 2, width - 1}):
                        yield (width, n, short, place)

    def run(ctx, width, n, short, place):
        ctx.state((width, n, short, place))
        words = [[f'e{i}' if j == place else f'common {j}' for j in range(width)] for i in range(n)]
        nm = [sum((words[i] + ['gap'] for i in range(r, n, 4)), []) for r in range(4)] + [sum(words, [])]
        subs = [[SubArrayInEventLog(k * (width + 1), width) for k in range(len(range(r, n, 4)))] for r in range(4)] + [[SubArrayInEventLog(k * width, width) for k in range(n)]]
        what = f'{"short" if short else "full"} diagram of {n} patterns of {width} events which differ in event {place}'
        res = PipelinePartResult().with_log(mk_log(nm)).with_patterns(subs)
        fig = one(draw(Pipeline(DrawPatterns(short_diagram=short, plot_legend=True)), res, what, ctx), what)
        rows_ = [[(s.first_pos, s.length, tuple(t[s.first_pos:s.first_pos + s.length])) for s in sub] for t, sub in zip(nm, subs)]
        colors = Colors()
        check_diagram(ctx, fig, [with_gaps(len(t), r, short) for t, r in zip(nm, rows_)], colors, what, 'any')
        check_eq(sorted(c for _, c in fig.legend()), sorted(colors.by_name.values()), f'{what}: colours in the legend')
        ctx.ok((width, n, short, place))
        close()

    return Family('many patterns', gen, run, 'up to 90 patterns of 1, 2, 7 and 12 events which differ in one event, full and short')


def fam_many_histograms(quick):
    def gen():
        for n in (90, 130, 300, 1100):
            yield ('traces', n)
            yield ('variants', n)
        for m in (9, 10, 16, 17, 26):
            yield ('logs', m)
        for name in ('a.b.xes', 'a.xes.gz', 'noext', 'x y.xes', '/d.e/f', '.hidden', 'a..xes', 'Z.XES'):
            yield ('file', name)
        yield ('paths', 3)

    def run(ctx, kind, n):
        ctx.state((kind, n))
        what = f'histogram, {kind} {n}'
        if kind in ('traces', 'variants'):
            nm = [['A']] * n + [['A', 'B']] + [['B']] * (n // 2) if kind == 'traces' else [[f'v{i}', 'x'] for i in range(n)] + [['v0', 'x']] * 3
            fig = one(draw(Pipeline(TracesHistogram()), PipelinePartResult().with_log(mk_log(nm)), what, ctx), what)
            want = variants(nm)
            got = bars(fig.ax)
            check_eq(sorted(got.values()), sorted(want.values()), f'{what}: heights')
            check_eq(sorted(got), list(range(1, len(want) + 1)), f'{what}: positions')
        elif kind == 'paths':
            from ficus.legacy.log.functions import save_event_log_to_xes
            paths = [os.path.join(ctx.path('paths'), f'log{i}.xes') for i in range(n)]
            os.makedirs(os.path.dirname(paths[0]), exist_ok=True)
            for i, x in enumerate(paths):
                save_event_log_to_xes(mk_log([['A', 'B']] * (i + 1) + [['C']]), x)
            with figures() as shown:
                plot_logs_traces_histograms_for_paths(paths)
            ctx.op()
            titled = {a.get_title(): bars(a) for a in one(shown, what).axes if a.get_title()}
            check_eq({k: sorted(v.values()) for k, v in titled.items()}, {f'log{i}': sorted([i + 1, 1]) for i in range(n)}, what)
            shutil.rmtree(os.path.dirname(paths[0]), ignore_errors=True)
        else:
            names = [f'/some.dir/log{i}.xes' for i in range(n)] if kind == 'logs' else [n]
            with figures() as shown:
                plot_logs_traces_histograms([mk_log([['A']] * (i + 1)) for i in range(len(names))], names)
            ctx.op()
            axes = [a for a in one(shown, what).axes if a.get_title() or a.patches]
            want = [(os.path.splitext(os.path.basename(x))[0], {1: i + 1}) for i, x in enumerate(names)]
            check_eq(sorted((a.get_title(), bars(a)[1]) for a in axes), sorted((t, b[1]) for t, b in want), what)
        ctx.ok((kind, n))
        close()

    return Family('many histograms', gen, run, 'histograms of up to 1100 equal or different traces, of up to 26 logs, of files with several dots in their names, of files')


def fam_names(quick):
    """which occurrences are those of the selected activity; which names are the same in a legend"""
    def gen():
        for which in ('same object', 'same name', 'same name other events', 'same events', 'both'):
            for different in (True, False):
                yield ('node', which, different)
        for pair in ((' A', 'A'), ('A ', 'A'), ('a', 'A'), ('A', 'A\u0301'), ('x1', 'x01'), ('\tA', 'A')):
            for kind in REMOTE:
                yield ('legend', pair, kind)
        for kind in range(6):
            yield ('creator', kind, None)

    def run(ctx, what_, a, b):
        ctx.state((what_, a, b))
        if what_ == 'node':
            nm = [['a', 'b', 'a'], ['b']]
            sel = flat([['a', 'b']], names=['sel'])[0]
            other = {'same object': sel, 'same name': flat([['a', 'b']], names=['sel'])[0], 'same name other events': flat([['c', 'd']], names=['sel'])[0],
                     'same events': flat([['a', 'b']], names=['another'])[0], 'both': flat([['a', 'b']], names=['sel'])[0]}[a]
            rest = flat([['a', 'b']], names=['rest'])[0]
            counts = other.name == 'sel'
            tr = [[inst(other, 0, 1), inst(rest if a == 'both' else sel, 1, 1)], [inst(other, 0, 1)]]
            want = [[(i.start_pos, i.length) for i in t if i.node.name == 'sel'] for t in tr]
            what = f'placement of an activity, occurrences of {a}'
            o = dict(plot_legend=True)
            res = PipelinePartResult().with_log(mk_log(nm)).with_activities([sel, other, rest]).with_trace_activities(tr)
            fig = one(draw(Pipeline(DrawSingleActivityPlacement(lambda x: x[0], use_different_colors=b, **o)), res, what, ctx), what)
            check_single(ctx, fig, [3, 1], want, 'sel', what, o, b)
        elif what_ == 'legend':
            tints = {a[0]: (255, 0, 0), a[1]: (0, 0, 255)}
            v = GrpcContextValue()
            for i, (at, n) in enumerate([(0, a[0]), (1, a[1]), (2, a[0])]):
                t = v.colors_log.traces[0] if i else v.colors_log.traces.add()
                e = t.event_colors.add()
                e.name, e.start_index, e.length = n, at, 1
                e.color.red, e.color.green, e.color.blue = tints[n]
            what = f'{b} of a coloured log with names {a}'
            with figures() as shown:
                remote(REMOTE[b][0](*REMOTE[b][1], plot_legend=True), 'colors_event_log', v)
            check_eq(sorted(one(shown, what).legend()), sorted((n, '#%02X%02X%02X' % c) for n, c in tints.items()), f'{what}: legend')
            close()
            with recorded_canvases() as rec, displayed() as objs:
                remote(CANVAS[b][0](*CANVAS[b][1], plot_legend=True), 'colors_event_log', v)
            p = Painting(rec.of(objs[0]))
            for n, c in tints.items():
                at = [(x, y) for t, x, y, _ in p.texts if t == n]
                check_eq(len(at), 1, f'{what} (canvas): occurrences of {n!r} in the legend')
                check_eq(p.color_left_of(at[0][0] - 1, at[0][1] - 4), '#%02X%02X%02X' % c, f'{what} (canvas): colour of {n!r} in the legend')
            ctx.op(2)
        else:
            d = ctx.path('creator')
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            path = lambda r: os.path.join(d, f'x{len(log_of(r))}.png')
            part = [TracesDiversityDiagram(plot_legend=True, save_path=path), DrawPlacementOfEvents(lambda n: n == 'A', save_path=path), DrawFullActivitiesDiagram(save_path=path),
                    DrawShortActivitiesDiagram(save_path=path), DrawPatterns(short_diagram=False, save_path=path), DrawSingleActivityPlacement(lambda x: x[0], save_path=path)][a]
            pipeline = Pipeline(part)
            acts = flat([['A']])
            for n in (2, 1, 3):
                pipeline(PipelinePartResult().with_log(mk_log([['A', 'B']] * n)).with_activities(acts).with_trace_activities([[inst(acts[0], 0, 1)]] * n)
                         .with_patterns([[SubArrayInEventLog(0, 2)]] * n))
                ctx.op()
            check_eq(sorted(os.listdir(d)), ['x1.png', 'x2.png', 'x3.png'], f'one part ({type(part).__name__}) executed on logs of 2, 1 and 3 traces: files')
            shutil.rmtree(d, ignore_errors=True)
        ctx.ok((what_, str(a), str(b)))
        close()

    return Family('names', gen, run, 'occurrences of activities with equal names or equal events; names which differ in a space, in case, in an accent; names of files created at every execution')


def setup_worker():
    import warnings
    warnings.simplefilter('ignore')


def families(tier):
    quick = tier == 'quick'
    return [fam_events(quick), fam_activities(quick), fam_patterns(quick), fam_histories(quick), fam_backend(quick), fam_files(quick), fam_histograms(quick),
            fam_clusters(quick), fam_methods(), fam_filtering(quick), fam_many(quick), fam_many_patterns(quick), fam_many_histograms(quick), fam_names(quick)]
