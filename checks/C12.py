"""C12: entropy filters."""
import itertools

from vlib.core import Family, check, check_eq
from vlib import gen
from vlib.fic import history_family, mk_log, snap

from checks.C10 import reference as dfg_reference
from checks.C11 import reference as pos_reference

from ficus.legacy.filtering.event_log_filters import (TillEndFilteringMetricKind, filter_events_default_entropy_direct, filter_events_default_entropy_indirect,
                                                      filter_events_pos_entropy_direct, filter_events_pos_entropy_direct_till_end,
                                                      filter_events_pos_entropy_indirect, filter_events_pos_entropy_indirect_till_end,
                                                      next_event_remove_pos_entropy_direct, next_event_remove_pos_entropy_indirect,
                                                      next_event_to_remove_default_entropy_direct, next_removal_default_entropy_indirect)
from ficus.legacy.pipelines.contexts.accessors import log as log_of
from ficus.legacy.pipelines.contexts.part_results import PipelinePartResult
from ficus.legacy.pipelines.filtering.filter_parts import (DfgEntropyDirectFilter, DfgEntropyIndirectFilter, PosEntropyDirectFilter, PosEntropyIndirectFilter)
from ficus.legacy.util import concept_name

PROPERTY = 'C12'
ASSUMPTIONS = ['choices between values closer than 1e-9 are left open, except that an entropy of exactly zero never exceeds the threshold zero',
               'no event carries the reserved names of the artificial start and end']
EPS = 1e-9


def kept(tr, removed):
    out = [[x for x in t if x not in removed] for t in tr]
    return [t for t in out if t]


class Model:
    """one filter on one log: values of each reachable state, memoised"""

    def __init__(self, tr, metric, direct, untouch, top=None):
        self.tr, self.metric, self.direct, self.untouch, self.top = tr, metric, direct, set(untouch), top
        self.memo = {}

    def vals(self, removed):
        if removed not in self.memo:
            self.memo[removed] = self.metric(kept(self.tr, removed))
        return self.memo[removed]

    def total(self, removed):
        v = self.vals(removed)
        s = sum(v.values())
        if self.top is not None:
            return s / len(v) if v else 0.0
        return s

    def decision(self, removed):
        """(value compared with the threshold or None, set of possible removals (None = possibly nothing))"""
        v = self.vals(removed)
        free = [x for x in v if x not in self.untouch]
        if self.direct:
            if not free:
                return None, {None}
            m = max(v[x] for x in free)
            return m, {x for x in free if v[x] >= m - EPS}
        if not v:
            return None, {None}
        if self.top is None:
            return self.total(removed), self.best(removed, free) if free else {None}
        k = max(1, int(len(v) * self.top))
        order = sorted(v.values(), reverse=True)
        b = order[k - 1]
        sure = [x for x in v if v[x] > b + EPS]
        opt = [x for x in v if abs(v[x] - b) <= EPS]
        out = set()
        for c in itertools.combinations(opt, k - len(sure)):
            f = [x for x in sure + list(c) if x not in self.untouch]
            out |= self.best(removed, f) if f else {None}
        return self.total(removed), out

    def best(self, removed, cand):
        rest = {x: self.total(removed | {x}) for x in cand}
        m = min(rest.values())
        return {x for x in cand if rest[x] <= m + EPS}

    def finals(self, thr, limit):
        """all sets of names that may have been removed at the end"""
        out, seen = set(), set()
        stack = [frozenset()]
        while stack:
            r = stack.pop()
            if r in seen:
                continue
            seen.add(r)
            if len(r) >= limit:
                out.add(r)
                continue
            val, rem = self.decision(r)
            if val is None:
                out.add(r)
                continue
            if val <= thr + EPS:
                if not (val == 0 and thr == 0) and val > thr - EPS:
                    pass  # too close to call: both
                else:
                    out.add(r)
                    continue
                out.add(r)
            for x in rem:
                if x is None:
                    out.add(r)
                else:
                    stack.append(r | {x})
        return out

    def thresholds(self):
        vals, seen, stack = set(), set(), [frozenset()]
        while stack:
            r = stack.pop()
            if r in seen:
                continue
            seen.add(r)
            val, rem = self.decision(r)
            if val is not None:
                vals.add(round(val, 6))
            stack += [r | {x} for x in rem if x is not None]
        vs = sorted(vals)
        mids = [(a + b) / 2 for a, b in zip(vs, vs[1:]) if b - a > 1e-5]
        return [-1, 0] + mids + [(vs[-1] if vs else 0) + 1]


def check_result(ctx, log, tr, res, finals, what):
    left = {e[concept_name] for t in res for e in t}
    removed = frozenset({x for t in tr for x in t} - left)
    check_eq([[e['id'] for e in t] for t in res if len(t)],
             [x for x in ([e['id'] for e in t if e[concept_name] not in removed] for t in log) if x], f'{what}: remaining events')
    check(removed in finals, f'{what}: removed {sorted(removed)}, allowed: {sorted(map(sorted, finals))}')
    ctx.ok(sorted(removed))


POS = pos_reference
DFG = {False: lambda t: dfg_reference(t, False), True: lambda t: dfg_reference(t, True)}


def variants():
    yield 'pos_direct', dict(metric=POS, direct=True)
    yield 'pos_indirect', dict(metric=POS, direct=False)
    for lap in (False, True):
        yield ('dfg_direct', lap), dict(metric=DFG[lap], direct=True)
        for top in (0.05, 0.5, 1.0):
            yield ('dfg_indirect', lap, top), dict(metric=DFG[lap], direct=False, top=top)


def call(name, log, thr, limit, untouch, use_default):
    f = lambda n: n in untouch
    kw = {} if use_default else dict(max_events_to_remove=limit)
    if untouch or not use_default:
        kw['untouchable_event_func'] = f
    if name == 'pos_direct':
        return filter_events_pos_entropy_direct(log, thr, **kw)
    if name == 'pos_indirect':
        return filter_events_pos_entropy_indirect(log, thr, **kw)
    if name[0] == 'dfg_direct':
        return filter_events_default_entropy_direct(log, name[1], thr, **kw)
    return filter_events_default_entropy_indirect(log, name[1], thr, name[2], **kw)


def part(name, thr, limit, untouch):
    kw = dict(max_events_to_remove=limit)
    if name in ('pos_direct', 'pos_indirect'):
        return (PosEntropyDirectFilter if name == 'pos_direct' else PosEntropyIndirectFilter)(thr, untouchable_event_func=lambda n: n in untouch, **kw)
    if untouch:
        return None
    if name[0] == 'dfg_direct':
        return DfgEntropyDirectFilter(thr, name[1], **kw)
    return DfgEntropyIndirectFilter(thr, name[1], top_percent=name[2], **kw)


INF = int(1e9)


def check_filters(ctx, traces, deep):
    log = mk_log(traces)
    tr = [[gen.LETTERS[c] if isinstance(c, int) else c for c in t] for t in traces]
    b = snap(log)
    nm = sorted({x for t in tr for x in t})
    for name, m in variants():
        for un in (gen.subsets(nm) if deep or name in ('pos_direct', 'pos_indirect') else [[], nm[:1], nm[1:]]):
            model = Model(tr, untouch=un, **m)
            ths = model.thresholds()
            for ti, thr in enumerate(ths):
                lims = [INF] + ([0, 1, 2] if thr in (-1, 0) or (deep and len(ths) > 3 and ti == len(ths) // 2) else [])
                for lim in lims:
                    fin = model.finals(thr, lim)
                    what = (traces, name, un, thr, lim)
                    res = call(name, log, thr, lim, set(un), lim == INF)
                    ctx.op()
                    check_result(ctx, log, tr, res, fin, what)
                    if ti == 1 or lim == 1:
                        p = part(name, thr, lim, set(un))
                        if p is not None:
                            check_result(ctx, log, tr, log_of(p(PipelinePartResult().with_log(log))), fin, (what, 'part'))
                            ctx.op()
            ctx.state([traces, name, un])
    check_eq(snap(log), b, 'the log was modified')


def gen_small(tier):
    q = tier == 'quick'
    for t in gen.logs(3, 3, 5 if q else 6):
        if sum(map(len, t)) <= 4 or len(t) > 1:
            yield [t, 1]


def gen_wide(tier):
    # logs with more classes
    q = tier == 'quick'
    for w in gen.rgs(5 if q else 6, 5, 4):
        if max(w) >= 3:
            for lens in gen.compositions(len(w), 2):
                if min(lens):
                    yield [[w[:lens[0]], w[lens[0]:]], 0]
    for base in ([0, 1, 2, 3, 4, 5], [0, 1, 0, 2, 3, 4]):
        for sw in itertools.combinations(range(6), 2):
            t = list(base)
            t[sw[0]], t[sw[1]] = t[sw[1]], t[sw[0]]
            yield [[base, t, base[::-1]], 0]


def run_filters(ctx, traces, deep):
    check_filters(ctx, traces, deep)


# ------------------------------------------------------------------------------------------------ single steps, till end
def gen_steps(tier):
    yield from ([t] for t in gen.logs(3, 3, 5 if tier == 'quick' else 6))


def near(a, b):
    return abs(a - b) <= EPS


def run_steps(ctx, traces):
    log = mk_log(traces)
    tr = [[gen.LETTERS[c] for c in t] for t in traces]
    b = snap(log)
    nm = sorted({x for t in tr for x in t})
    for un in gen.subsets(nm):
        f = lambda n: n in un
        # one step
        md = Model(tr, POS, True, un)
        mi = Model(tr, POS, False, un)
        val, rem = md.decision(frozenset())
        if not un and nm:
            got, v = next_event_remove_pos_entropy_direct(log)
            check(got in rem and near(v, val), f'{traces}: next direct removal {got, v}, expected one of {rem} with {val}')
        val, rem = mi.decision(frozenset())
        got, v = next_event_remove_pos_entropy_indirect(log, untouchable_event_func=f)
        ctx.op(2)
        check(got in rem, f'{traces} {un}: next indirect removal {got}, expected one of {rem}')
        if got is not None:
            check(near(v, mi.total(frozenset({got}))), f'{traces} {un}: remaining entropy {v}')
        for lap in (False, True):
            m = Model(tr, DFG[lap], True, un)
            val, rem = m.decision(frozenset())
            got, v = next_event_to_remove_default_entropy_direct(log, lap, f)
            check(got in rem and (got is None or near(v, val)), f'{traces} {un} {lap}: next direct removal {got, v}, expected one of {rem} with {val}')
            for top in (0.05, 0.67, 1.0):
                m = Model(tr, DFG[lap], False, un, top)
                val, rem = m.decision(frozenset())
                got, v = next_removal_default_entropy_indirect(log, lap, top, f)
                check(got in rem, f'{traces} {un} {lap} {top}: next indirect removal {got}, expected one of {rem}')
                if got is not None:
                    check(near(v, m.total(frozenset({got}))), f'{traces} {un} {lap} {top}: remaining entropy {v}')
                ctx.op(2)
        # until the end
        for kind in TillEndFilteringMetricKind:
            for direct in (True, False):
                seq = (filter_events_pos_entropy_direct_till_end if direct else filter_events_pos_entropy_indirect_till_end)(log, kind, untouchable_event_func=f)
                ctx.op()
                m = md if direct else mi
                removed = frozenset()
                measure = (lambda r: sum(v for x, v in m.vals(r).items() if x not in un)) if direct else m.total
                for name, v in seq:
                    val, rem = m.decision(removed)
                    check(name in rem, f'{traces} {un} {kind.name} direct={direct}: removes {name}, expected one of {rem}')
                    nxt = removed | {name}
                    want = measure(removed) if kind == TillEndFilteringMetricKind.BeforeOnly else measure(removed) - measure(nxt)
                    check(near(v, want), f'{traces} {un} {kind.name} direct={direct}: metric {v} at {name}, expected {want}')
                    removed = nxt
                check(None in m.decision(removed)[1], f'{traces} {un} {kind.name} direct={direct}: stops although {m.decision(removed)[1]} can be removed')
                ctx.ok([s[0] for s in seq])
        ctx.state([traces, un])
    check_eq(snap(log), b, 'the log was modified')


def families(tier):
    q = tier == 'quick'
    return [
        Family('small', lambda: gen_small(tier), run_filters, f'all canonical logs of <=3 traces/<={5 if q else 6} events/3 classes x 10 filters x all untouchable subsets x thresholds between all reachable values, 0, -1 x limits 0,1,2,none x candidate fractions'),
        Family('wide', lambda: gen_wide(tier), run_filters, 'two- and three-trace logs with 4-6 classes'),
        history_family(run_filters, wide=False, args=lambda t: [t, False]),
        Family('steps', lambda: gen_steps(tier), run_steps, 'single removal steps and filtering until the end, all untouchable subsets'),
    ]
