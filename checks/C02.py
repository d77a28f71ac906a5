"""C02: containers behave as maps / lists, copies are faithful and independent, equality is by content."""
import copy
import itertools

from vlib.core import Family, check, check_eq, Violation
from vlib.fic import snap_value

from ficus.legacy.log.event_log import MyEvent, MyEventLog, MyTrace

PROPERTY = 'C02'
ASSUMPTIONS = ['attribute values in equality checks are strings, ints, floats, booleans and None; a value equals another '
               'when type and value agree']


# ------------------------------------------------------------------------------------------------- reference model
class MEvent:
    def __init__(self, d=None):
        self.d = d if d is not None else {}

    def shallow(self):
        return MEvent(dict(self.d))


class MTrace:
    def __init__(self):
        self.ev, self.attrs = [], {}

    def shallow(self):
        m = MTrace()
        m.ev, m.attrs = list(self.ev), dict(self.attrs)
        return m


META = ['attributes', 'extensions', 'classifiers', 'properties', 'global_values']


class MLog:
    def __init__(self):
        self.tr = []
        for a in META:
            setattr(self, a, {})

    def shallow(self):
        m = MLog()
        m.tr = list(self.tr)
        for a in META:
            setattr(m, a, dict(getattr(self, a)))
        return m


def mpic(m):
    if isinstance(m, MEvent):
        return ('E', tuple((k, snap_value(v)) for k, v in m.d.items()))
    if isinstance(m, MTrace):
        return ('T', tuple(mpic(e) for e in m.ev), snap_value(m.attrs))
    return ('G', tuple(mpic(t) for t in m.tr)) + tuple(snap_value(getattr(m, a)) for a in META)


def rpic(r):
    """picture of a real object through its public API"""
    if isinstance(r, MyEvent):
        items = r.payload_items()
        check_eq(list(r), [k for k, _ in items], 'iterating an event')
        check_eq(len(r), len(items), 'len(event)')
        for k, v in items:
            check(k in r and (r[k] is v), 'event item access', k)
        check('no such key' not in r, 'membership of a missing key')
        check_eq(list(r.payload.items()), items, 'payload')
        return ('E', tuple((k, snap_value(v)) for k, v in items))
    if isinstance(r, MyTrace):
        evs = list(r)
        check_eq(len(r), len(evs), 'len(trace)')
        for i, e in enumerate(evs):
            check(r[i] is e and r[i - len(evs)] is e, 'trace item access')
        check(all(a is b for a, b in zip(r[0:len(evs)], evs)) and len(r[1:]) == max(0, len(evs) - 1), 'trace slice')
        check([id(x) for x in reversed(r)] == [id(x) for x in reversed(evs)], 'reversed(trace)')
        return ('T', tuple(rpic(e) for e in evs), snap_value(r.attributes))
    trs = list(r)
    check_eq(len(r), len(trs), 'len(log)')
    for i, t in enumerate(trs):
        check(r[i] is t and r[i - len(trs)] is t, 'log item access')
    return ('G', tuple(rpic(t) for t in trs)) + tuple(snap_value(getattr(r, a)) for a in META)


# --------------------------------------------------------------------------------------------- single object histories
EV_OPS = [['set', 'a', 1], ['set', 'a', 'x'], ['set', 'b', 1], ['set', 'b', None], ['set', '', 'y'], ['del', 'a'], ['del', 'b'], ['get', 'a'], ['get', 'b'], ['del', '']]
POS = [0, 1, 2, -1, 5]
TR_OPS = [['append', 'p'], ['append', 'q']] + [['insert', i, 'r'] for i in POS] + [['set', i, 's'] for i in POS] + \
         [['del', i] for i in POS] + [['get', i] for i in (1, -2)] + [['slice', 0, 1], ['slice', 1, 5]] + [['attr', 'k', 1], ['attr', 'k', 2]]
LG_OPS = [['append', 'p'], ['append', 'q']] + [['set', i, 's'] for i in POS] + [['del', i] for i in POS] + [['get', i] for i in (1, -2)] + \
         [['meta', m] for m in META]


def outcome(f):
    try:
        return ('ok', f())
    except (KeyError, IndexError) as e:
        return ('error', type(e).__name__)


def gen_hist(ops, depth):
    for n in range(0, depth + 1):
        for h in itertools.product(range(len(ops)), repeat=n):
            yield [list(h)]


def run_event_hist(ctx, h):
    r, m = MyEvent(), {}
    r2 = MyEvent({'a': 0})
    for i in h:
        op = EV_OPS[i]
        if op[0] == 'set':
            r[op[1]] = op[2]
            m[op[1]] = op[2]
        elif op[0] == 'del':
            a = outcome(lambda: r.__delitem__(op[1]))
            b = outcome(lambda: m.__delitem__(op[1]))
            check_eq(a, b, f'{op} on event')
        else:
            check_eq(outcome(lambda: r[op[1]]), outcome(lambda: m[op[1]]), f'{op} on event')
        ctx.op()
        check_eq(rpic(r), mpic(MEvent(m)), f'event after {[EV_OPS[j] for j in h]}')
        ctx.ok()
    ctx.state(['event', list(m.items())])
    check_eq(rpic(r2), mpic(MEvent({'a': 0})), 'an unrelated event changed')
    check_eq(rpic(MyEvent()), mpic(MEvent()), 'a fresh event is empty')
    ctx.ok(rpic(r))


def run_list_hist(ctx, h, kind):
    real = MyTrace() if kind == 'trace' else MyEventLog()
    model = []
    attrs = {}
    meta = {a: {} for a in META}
    ops = TR_OPS if kind == 'trace' else LG_OPS

    def item(tag):
        return MyEvent({'concept:name': tag}) if kind == 'trace' else MyTrace([MyEvent({'concept:name': tag})])
    for i in h:
        op = ops[i]
        if op[0] == 'append':
            x = item(op[1])
            real.append(x)
            model.append(x)
        elif op[0] == 'insert':
            x = item(op[2])
            real.insert(x, op[1])
            model.insert(op[1], x)
        elif op[0] == 'set':
            x = item(op[2])
            a = outcome(lambda: real.__setitem__(op[1], x))
            b = outcome(lambda: model.__setitem__(op[1], x))
            check_eq(a, b, f'{op} on {kind}')
        elif op[0] == 'del':
            check_eq(outcome(lambda: real.__delitem__(op[1])), outcome(lambda: model.__delitem__(op[1])), f'{op} on {kind}')
        elif op[0] == 'get':
            a, b = outcome(lambda: real[op[1]]), outcome(lambda: model[op[1]])
            check(a[0] == b[0] and (a[1] is b[1] or a == b), f'{op} on {kind}', a, b)
        elif op[0] == 'slice':
            check([id(x) for x in real[op[1]:op[2]]] == [id(x) for x in model[op[1]:op[2]]], f'{op}')
        elif op[0] == 'attr':
            real.attributes[op[1]] = op[2]
            attrs[op[1]] = op[2]
        elif op[0] == 'meta':
            getattr(real, op[1])['k'] = {'v': 1}
            meta[op[1]]['k'] = {'v': 1}
        ctx.op()
        check([id(x) for x in real] == [id(x) for x in model] and len(real) == len(model), f'{kind} after {[ops[j] for j in h]}')
        rpic(real)
        if kind == 'trace':
            check_eq(real.attributes, attrs, 'trace attributes')
        else:
            for a in META:
                check_eq(getattr(real, a), meta[a], 'log ' + a)
        ctx.ok()
    ctx.state([kind, [rpic(x) for x in model], attrs, meta])
    fresh = MyTrace() if kind == 'trace' else MyEventLog()
    check(len(fresh) == 0 and not fresh.attributes, f'a fresh {kind} is empty')
    if kind == 'log':
        check(not any(getattr(fresh, a) for a in META), 'a fresh log has no metadata')
    ctx.ok(rpic(real))


# ------------------------------------------------------------------------------------------------- histories with copies
def start(kind):
    """a real object and its model, two levels filled; twins hold equal but distinct elements"""
    if kind.endswith('twins'):
        if kind == 'tracetwins':
            t, mt = MyTrace([start('event')[0] for _ in range(2)], {'ta': [0]}), MTrace()
            mt.ev, mt.attrs = [start('event')[1] for _ in range(2)], {'ta': [0]}
            return t, mt
        inner = [start('tracetwins') for _ in range(3)]
        g, mg = MyEventLog(traces=[t for t, _ in inner]), MLog()
        mg.tr = [mt for _, mt in inner]
        for a in META:
            getattr(g, a).update({'x': {'y': 1}, 'z': {'y': 1}})
            getattr(mg, a).update({'x': {'y': 1}, 'z': {'y': 1}})
        return g, mg
    new = lambda: {'n': 'a', 'l': [1], 'z': None, 'd': {'k': [(0, [2])]}, '': ''}
    e, me = MyEvent(new()), MEvent(new())
    if kind == 'event':
        return e, me
    t, mt = MyTrace([e], {'ta': [[0]], 'no': None}), MTrace()
    mt.ev, mt.attrs = [me], {'ta': [[0]], 'no': None}
    if kind == 'trace':
        return t, mt
    g, mg = MyEventLog(traces=[t]), MLog()
    mg.tr = [mt]
    for a in META:
        getattr(g, a).update({'x': {'y': [1]}, 'no': None})
        getattr(mg, a).update({'x': {'y': [1]}, 'no': None})
    return g, mg


def first(r, m, want):
    """descend to the first event / trace of handle (real, model), None when there is none"""
    while True:
        k = 'event' if isinstance(r, MyEvent) else 'trace' if isinstance(r, MyTrace) else 'log'
        if k == want:
            return r, m
        inner = m.ev if k == 'trace' else m.tr if k == 'log' else None
        if not inner or (want == 'log'):
            return None
        r, m = r[0], inner[0]


def mut_ops(kind):
    ops = [['ev_set'], ['ev_new'], ['ev_del'], ['ev_inner'], ['ev_deep']]
    if kind in ('trace', 'log'):
        ops += [['tr_append'], ['tr_insert'], ['tr_set'], ['tr_del'], ['ta_set'], ['ta_inner']]
    if kind == 'log':
        ops += [['lg_append'], ['lg_set'], ['lg_del']] + [['meta_set', a] for a in META] + [['meta_inner', a] for a in META]
    return ops


def apply(handles, op, tick):
    h = handles[op[1]]
    r, m = h
    name = op[0]
    if name == 'copy':
        handles.append((copy.copy(r), m.shallow()))
        return True
    if name == 'deepcopy':
        handles.append((copy.deepcopy(r), copy.deepcopy(m)))
        return True
    if name.startswith('ev_'):
        x = first(r, m, 'event')
        if x is None:
            return False
        re_, me = x
        if name == 'ev_set':
            re_['n'] = f'v{tick}'
            me.d['n'] = f'v{tick}'
        elif name == 'ev_new':
            re_[f'k{tick}'] = tick
            me.d[f'k{tick}'] = tick
        elif name == 'ev_del':
            if 'n' not in me.d:
                return False
            del re_['n']
            del me.d['n']
        elif name == 'ev_deep':
            if 'd' not in me.d:
                return False
            re_['d']['k'][0][1].append(tick)
            me.d['d']['k'][0][1].append(tick)
        else:
            if 'l' not in me.d:
                return False
            re_['l'].append(tick)
            me.d['l'].append(tick)
        return True
    if name.startswith('tr_') or name.startswith('ta_'):
        x = first(r, m, 'trace')
        if x is None:
            return False
        rt, mt = x
        new, mnew = MyEvent({'n': tick}), MEvent({'n': tick})
        if name == 'tr_append':
            rt.append(new)
            mt.ev.append(mnew)
        elif name == 'tr_insert':
            rt.insert(new, 0)
            mt.ev.insert(0, mnew)
        elif name == 'tr_set':
            if not mt.ev:
                return False
            rt[0] = new
            mt.ev[0] = mnew
        elif name == 'tr_del':
            if not mt.ev:
                return False
            del rt[0]
            del mt.ev[0]
        elif name == 'ta_set':
            rt.attributes[f'k{tick}'] = tick
            mt.attrs[f'k{tick}'] = tick
        else:
            if 'ta' not in mt.attrs:
                return False
            rt.attributes['ta'][-1].append(tick) if tick % 2 and isinstance(mt.attrs['ta'][-1], list) else rt.attributes['ta'].append(tick)
            mt.attrs['ta'][-1].append(tick) if tick % 2 and isinstance(mt.attrs['ta'][-1], list) else mt.attrs['ta'].append(tick)
        return True
    if name == 'lg_append':
        t, mt = MyTrace([MyEvent({'n': tick})]), MTrace()
        mt.ev = [MEvent({'n': tick})]
        r.append(t)
        m.tr.append(mt)
    elif name == 'lg_set':
        if not m.tr:
            return False
        r[0], m.tr[0] = MyTrace(), MTrace()
    elif name == 'lg_del':
        if not m.tr:
            return False
        del r[0]
        del m.tr[0]
    elif name == 'meta_set':
        getattr(r, op[2])[f'k{tick}'] = tick
        getattr(m, op[2])[f'k{tick}'] = tick
    elif name == 'meta_inner':
        for x in (getattr(r, op[2])['x'], getattr(m, op[2])['x']):
            x[f'k{tick}'] = tick
            if isinstance(x['y'], list):
                x['y'].append(tick)
    return True


def canon_sharing(handles):
    """model state with its sharing structure (object identities numbered by first visit)"""
    num = {}

    def idn(o):
        return num.setdefault(id(o), len(num))

    def val(v):
        if isinstance(v, dict):
            return (idn(v), tuple((k, val(x)) for k, x in v.items()))
        if isinstance(v, list):
            return (idn(v), tuple(val(x) for x in v))
        return repr(v)

    def obj(m):
        if isinstance(m, MEvent):
            return ('E', idn(m), val(m.d))
        if isinstance(m, MTrace):
            return ('T', idn(m), tuple(obj(e) for e in m.ev), val(m.attrs))
        return ('G', idn(m), tuple(obj(t) for t in m.tr)) + tuple(val(getattr(m, a)) for a in META)
    return tuple(obj(m) for _, m in handles)


def gen_copies(tier):
    """histories: first a copy, then every sequence of operations on any handle (at most 3 handles)"""
    for kind in ('event', 'trace', 'log', 'tracetwins', 'logtwins'):
        depth = {'event': 4, 'trace': 4, 'log': 3, 'tracetwins': 3, 'logtwins': 3}[kind] + (1 if tier != 'quick' else 0)
        muts = mut_ops(kind.replace('twins', ''))

        def extend(hist, nh, left):
            yield [kind, hist]
            if not left:
                return
            for h in range(nh):
                for op in muts:
                    yield from extend(hist + [[op[0], h] + op[1:]], nh, left - 1)
                if nh < 3:
                    for c in ('copy', 'deepcopy'):
                        yield from extend(hist + [[c, h]], nh + 1, left - 1)
        for c in ('copy', 'deepcopy'):
            yield from extend([[c, 0]], 2, depth - 1)
            for m in muts:
                yield from extend([[m[0], 0] + m[1:], [c, 0]], 2, depth - 2)


def run_copies(ctx, kind, hist):
    handles = [start(kind)]
    for tick, op in enumerate(hist):
        applied = apply(handles, op, tick)
        ctx.op()
        if not applied:
            return  # operation not enabled in this state
    for i, (r, m) in enumerate(handles):
        check(type(r) is type(handles[0][0]), f'handle {i} has another type', type(r))
        check_eq(rpic(r), mpic(m), f'handle {i} after {hist}')
    if hist and hist[-1][0] in ('copy', 'deepcopy'):
        check(handles[-1][0] == handles[hist[-1][1]][0], 'a copy equals its original')
        check_eq(hash(handles[-1][0]), hash(handles[hist[-1][1]][0]), 'a copy hashes like its original')
    ctx.state([kind, canon_sharing(handles)])
    ctx.ok([rpic(r) for r, _ in handles], len(handles))


# ------------------------------------------------------------------------------------------------------------- equality
EQ_KEYS = ['a', 'ab', 'b', '']
EQ_VALS = ['', 'b', 'bc', 'c', 'a', '1', 1, 1.0, True, None, 'None', 'True', 0, False, 'aA', 'BB', 'é']


def eq_payloads():
    yield {}
    for k in EQ_KEYS:
        for v in EQ_VALS:
            yield {k: v}
    for k1, k2 in itertools.permutations(EQ_KEYS[:3], 2):
        for v1, v2 in itertools.product(EQ_VALS[:5] + [1, True], repeat=2):
            yield {k1: v1, k2: v2}


EQ_EVENTS = list(eq_payloads())


def skey(d):
    return tuple(sorted((k, type(v).__name__, repr(v)) for k, v in d.items()))


def gen_eq_events():
    for i in range(len(EQ_EVENTS)):
        yield [i]


def assert_eq_pair(a, b, same, what):
    check_eq(a == b, same, f'{what}: equality')
    check_eq(b == a, same, f'{what}: equality, other way round')
    check_eq(a != b, not same, f'{what}: inequality')
    if same:
        check_eq(hash(a), hash(b), f'{what}: hashes of equal objects')


FOREIGN = [None, 0, '', 'x', [], {}, (), object()]


def run_eq_events(ctx, i):
    a = MyEvent(dict(EQ_EVENTS[i]))
    for x in FOREIGN + [hash(a), EQ_EVENTS[i], MyTrace([a]), MyEventLog()]:
        check_eq(a == x, False, f'event {EQ_EVENTS[i]} against foreign {x!r}')
    for j, d in enumerate(EQ_EVENTS):
        assert_eq_pair(a, MyEvent(dict(d)), skey(EQ_EVENTS[i]) == skey(d), f'events {EQ_EVENTS[i]} and {d}')
        ctx.op(4)
        ctx.ok()
    ctx.state(['eqe', i])
    ctx.ok([skey(EQ_EVENTS[i])])


T_EVENTS = [{}, {'n': 'a'}, {'n': 'b'}, {'n': 'aA'}, {'n': 'BB'}, {'na': ''}, {'n': 'a', 'x': 1}]
EQ_TRACES = [list(t) for n in range(0, 4) for t in itertools.product(range(len(T_EVENTS) if n < 3 else 4), repeat=n)]


def mk_trace(t, attrs=None):
    return MyTrace([MyEvent(dict(T_EVENTS[i])) for i in t], attrs)


def gen_eq_traces():
    for i in range(len(EQ_TRACES)):
        yield [i]


def run_eq_traces(ctx, i):
    a = mk_trace(EQ_TRACES[i])
    for x in FOREIGN + [hash(a), list(a), MyEvent(), MyEventLog([a])]:
        check_eq(a == x, False, f'trace {EQ_TRACES[i]} against foreign {x!r}')
    for t in EQ_TRACES:
        assert_eq_pair(a, mk_trace(t), t == EQ_TRACES[i], f'traces {EQ_TRACES[i]} and {t}')
        ctx.op(4)
        ctx.ok()
    # membership, index and count follow equality
    for j, d in enumerate(T_EVENTS):
        e = MyEvent(dict(d))
        check_eq(e in a, j in EQ_TRACES[i], 'membership')
        check_eq(a.count(e), EQ_TRACES[i].count(j), 'count')
        if j in EQ_TRACES[i]:
            check_eq(a.index(e), EQ_TRACES[i].index(j), 'index')
    ctx.state(['eqt', i])
    ctx.ok([EQ_TRACES[i]])


L_TRACES = [[], [1], [2], [3], [1, 2], [1, 1], [4]]
L_META = [{}, {'x': 'a'}, {'x': 'b'}, {'xa': ''}, {'y': 'a'}, {'x': 'a', 'y': 'a'}, {'x': 1}, {'x': True}]
EQ_LOGS = [[list(g), None, 0] for n in range(0, 4) for g in itertools.product(range(len(L_TRACES) if n < 3 else 4), repeat=n)] + \
          [[g, m, v] for g in ([], [1], [1, 4]) for m in META[:4] for v in range(1, len(L_META))]


def mk_log(spec):
    g, m, v = spec
    log = MyEventLog([mk_trace(L_TRACES[i]) for i in g])
    if m:
        getattr(log, m).update(L_META[v])
    return log


def gen_eq_logs():
    for i in range(len(EQ_LOGS)):
        yield [i]


def run_eq_logs(ctx, i):
    a = mk_log(EQ_LOGS[i])
    for x in FOREIGN + [hash(a), list(a), MyEvent(), MyTrace()]:
        check_eq(a == x, False, f'log {EQ_LOGS[i]} against foreign {x!r}')
    for g in EQ_LOGS:
        same = g == EQ_LOGS[i]
        assert_eq_pair(a, mk_log(g), same, f'logs {EQ_LOGS[i]} and {g}')
        ctx.op(4)
        ctx.ok()
    ctx.state(['eql', i])
    ctx.ok([EQ_LOGS[i]])


def gen_order():
    for n in range(1, 5):
        for perm in itertools.permutations(range(n)):
            for vals in itertools.product(['a', 1], repeat=n):
                yield [list(perm), list(vals)]


def run_order(ctx, perm, vals):
    """insertion order of attributes does not matter for equality and hash"""
    a = MyEvent({f'k{i}': vals[i] for i in range(len(vals))})
    b = MyEvent({f'k{i}': vals[i] for i in perm})
    assert_eq_pair(a, b, True, f'events with attributes in orders {perm}')
    assert_eq_pair(MyTrace([a, b]), MyTrace([b, a]), True, 'traces of them')
    assert_eq_pair(MyEventLog([MyTrace([a])], attributes={f'k{i}': vals[i] for i in perm}), MyEventLog([MyTrace([b])], attributes={f'k{i}': vals[i] for i in range(len(vals))}), True, 'logs of them')
    for m in META[:4]:
        if len(vals) > 1:
            g, h = MyEventLog(), MyEventLog()
            for i in range(len(vals)):
                getattr(g, m)[f'k{i}'] = vals[i]
            for i in perm:
                getattr(h, m)[f'k{i}'] = vals[i]
            assert_eq_pair(g, h, True, f'logs with {m} in orders {perm}')
    ctx.op(6)
    ctx.state(['order', perm, vals])
    ctx.ok([perm, vals], 3)


def families(tier):
    d = 2 if tier != 'quick' else 1
    return [
        Family('event_histories', lambda: gen_hist(EV_OPS, 4 + d), run_event_hist, f'all sequences of <={4 + d} of {len(EV_OPS)} event operations'),
        Family('trace_histories', lambda: ([h, 'trace'] for [h] in gen_hist(TR_OPS, 3 + d)), run_list_hist, f'all sequences of <={3 + d} of {len(TR_OPS)} trace operations'),
        Family('log_histories', lambda: ([h, 'log'] for [h] in gen_hist(LG_OPS, 3 + d)), run_list_hist, f'all sequences of <={3 + d} of {len(LG_OPS)} log operations'),
        Family('copy_histories', lambda: gen_copies(tier), run_copies, 'a copy or deep copy followed by every operation sequence on up to three handles (events 4, traces 4, logs 3 operations deep, one more when thorough), also from traces and logs with equal but distinct elements'),
        Family('event_equality', gen_eq_events, run_eq_events, f'all pairs of {len(EQ_EVENTS)} events, and foreign objects'),
        Family('trace_equality', gen_eq_traces, run_eq_traces, f'all pairs of {len(EQ_TRACES)} traces'),
        Family('log_equality', gen_eq_logs, run_eq_logs, f'all pairs of {len(EQ_LOGS)} logs'),
        Family('attribute_order', gen_order, run_order, 'all orders of up to 4 attributes'),
    ]
