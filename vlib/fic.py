"""Shared helpers around the public API of the code under test."""
import copy

from ficus.legacy.log.event_log import MyEvent, MyEventLog, MyTrace
from ficus.legacy.util import concept_name

from vlib.gen import LETTERS


def ev(name, **kw):
    d = {concept_name: name}
    d.update(kw)
    return MyEvent(d)


def mk_log(traces, names=LETTERS, ids=True, attrs=False):
    log = _mk_log(traces, names, ids, attrs)
    return log if _reuse is None else _reuse.take(log)


def _mk_log(traces, names=LETTERS, ids=True, attrs=False):
    """a log of the given traces (letters -> names); every event gets a unique 'id' attribute so that it can be tracked"""
    log = MyEventLog()
    n = 0
    for ti, t in enumerate(traces):
        tr = MyTrace(attributes={'case': ti} if attrs else None)
        for c in t:
            nm = names[c] if isinstance(c, int) else c
            tr.append(ev(nm, id=n) if ids else ev(nm))
            n += 1
        log.append(tr)
    return log


# ---- logs with a past: the same objects are used again with other content --------------------------------------------
_reuse = None
MODES = ('rename', 'events', 'traces')


class Reuse:
    """Inside, mk_log hands out the logs of the first run (in the order of the calls) again in the second run, changed in place
    to the content asked for: by writing the attributes of their events, by putting other events into their traces or by
    putting other traces into the log. Nothing a function remembers about an object from the first run may then show up."""

    def __init__(self, mode):
        self.mode, self.logs, self.next = mode, [], None

    def __enter__(self):
        global _reuse
        _reuse = self
        return self

    def __exit__(self, *exc):
        global _reuse
        _reuse = None

    def second(self):
        self.next = 0

    def take(self, log):
        if self.next is None:
            self.logs.append(log)
            return log
        if self.next >= len(self.logs):
            return log
        old = self.logs[self.next]
        self.next += 1
        become(old, log, self.mode)
        return old


def become(old, new, mode):
    if mode == 'traces' or len(old) != len(new):
        while len(old):
            del old[len(old) - 1]
        for t in new:
            old.append(t)
    else:
        for t, u in zip(old, new):
            if mode == 'events' or len(t) != len(u):
                for i in range(min(len(t), len(u))):
                    t[i] = u[i]
                while len(t) > len(u):
                    del t[len(t) - 1]
                for i in range(len(t), len(u)):
                    t.append(u[i])
            else:
                for e, f in zip(t, u):
                    for k in list(e):
                        if k not in f:
                            del e[k]
                    for k in f:
                        e[k] = f[k]
            t.attributes.clear()
            t.attributes.update(u.attributes)
    for f in ('attributes', 'extensions', 'classifiers', 'properties', 'global_values'):
        getattr(old, f).clear()
        getattr(old, f).update(getattr(new, f))


def history_family(run, wide=True, args=lambda traces: [traces], name='reused_logs', min_len=0):
    """every case of two logs: run is executed for the first log and then for the second one built out of the same objects"""
    from vlib import gen
    from vlib.core import Family, Violation

    def cases():
        shapes = [((3,), 3), ((2, 1), 2), ((4,), 2), ((2, 2), 2)] if wide else [((3,), 2), ((2, 1), 2)]
        for shape, k in shapes:
            logs = []
            for w in gen.words(k, sum(shape), sum(shape)):
                it = iter(w)
                logs.append([[next(it) for _ in range(n)] for n in shape])
            for a in logs:
                for b in logs:
                    if a != b:
                        for m in MODES:
                            yield [a, b, m]
        small = [t for t in gen.logs(2, 2, 3 if wide else 2) if all(len(x) >= min_len for x in t)]
        for a in small:
            for b in small:
                if list(map(len, a)) != list(map(len, b)):
                    yield [a, b, 'events']

    def run_history(ctx, a, b, mode):
        with Reuse(mode) as r:
            run(ctx, *args(a))
            r.second()
            try:
                run(ctx, *args(b))
            except Violation as e:
                raise Violation(f'a log which was {a} before ({mode} replaced): {e}', e.finding) from e
        ctx.ok()

    return Family(name, cases, run_history, f'all pairs of logs of equal {"small shapes" if wide else "small shape"} over 2-3 names and all pairs of smaller logs: the second content in the objects '
                                            'of the first, by renaming events, replacing events and replacing traces')


def snap_value(v):
    if isinstance(v, MyEvent):
        return ('E', snap_event(v))
    if isinstance(v, (list, tuple)):
        return ('L', tuple(snap_value(x) for x in v))
    if isinstance(v, dict):
        return ('D', tuple(sorted((repr(k), snap_value(x)) for k, x in v.items())))
    return (type(v).__name__, repr(v))


def snap_event(e):
    return tuple(sorted((str(k), snap_value(v)) for k, v in e.payload.items()))


def snap_trace(t):
    return tuple(snap_event(e) for e in t)


def snap(log):
    """deep immutable picture of traces, events and all attributes"""
    return (tuple((snap_trace(t), snap_value(getattr(t, 'attributes', {}))) for t in log),
            snap_value(log.attributes), snap_value(log.extensions), snap_value(log.classifiers),
            snap_value(log.properties), snap_value(log.global_values))


def names(log):
    return [[e[concept_name] for e in t] for t in log]


def ids(log):
    return [[e['id'] for e in t] for t in log]


# ---- activities, built only through the public tree builder -------------------------------------------------------
from ficus.legacy.analysis.patterns.event_log_patterns import build_repeat_set_tree
from ficus.legacy.analysis.patterns.patterns_models import ActivityInTraceInfo, SubArrayWithTraceIndex
from ficus.legacy.analysis.patterns.util import default_class_extractor


def forest(class_sets, level=0, names=None, extractor=default_class_extractor):
    """activity hierarchy of the given collections of event names (one activity each); returns (roots, nodes in the
    order of class_sets)"""
    log = MyEventLog()
    t = MyTrace()
    log.append(t)
    rs = []
    for s in class_sets:
        rs.append(SubArrayWithTraceIndex(first_pos=len(t), length=len(s), trace_index=0))
        for c in s:
            t.append(ev(c))
    nm = {r.first_pos: (names[i] if names else '::'.join(sorted({extractor(ev(c)) for c in class_sets[i]}))) for i, r in enumerate(rs)}
    roots = build_repeat_set_tree(log, rs, lambda r: nm[r.first_pos], level, extractor)
    by_pos = {}
    stack = list(roots)
    while stack:
        a = stack.pop()
        by_pos[a.repeat_set.first_pos] = a
        stack.extend(a.child_nodes)
    return roots, [by_pos[r.first_pos] for r in rs]


def flat(class_sets, level=0, names=None, extractor=default_class_extractor):
    """the activities of the given class collections, unrelated to each other"""
    return [forest([s], level, [names[i]] if names else None, extractor)[1][0] for i, s in enumerate(class_sets)]


def inst(node, start, length):
    return ActivityInTraceInfo(node=node, start_pos=start, length=length)


_codes = {}


def code_of(cls):
    """internal code of a class name, learned through the public API"""
    if cls not in _codes:
        _codes[cls] = next(iter(flat([[cls]])[0].set_of_events))
    return _codes[cls]


def classes(node, universe):
    """class names (out of universe) of an activity"""
    by = {code_of(c): c for c in universe}
    return frozenset(by[x] for x in node.set_of_events)


def as_ref(roots, universe):
    """reference copies (vlib.ref.Act) of a hierarchy; each keeps its node as .node"""
    from vlib.ref import Act
    out = []
    for r in roots:
        a = Act(r.name, classes(r, universe))
        a.node = r
        a.children = as_ref(r.child_nodes, universe)
        out.append(a)
    return out


def snap_nodes(roots):
    return tuple((n.name, n.activity_level, tuple(sorted(n.set_of_events)), n.length,
                  (n.repeat_set.trace_index, n.repeat_set.first_pos, n.repeat_set.length), snap_nodes(n.child_nodes)) for n in roots)


def snap_inst(traces_activities):
    return tuple(tuple((id(i.node), i.node.name, i.start_pos, i.length) for i in t) for t in traces_activities)
