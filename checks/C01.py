"""C01: XES round trip."""
import itertools
import json
import os
import subprocess
import sys
import xml.etree.ElementTree as ET
from datetime import date, datetime, timedelta, timezone

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import Family, check, check_eq, Violation, REPO, VERIF
from vlib import gen

PROPERTY = 'C01'
ASSUMPTIONS = ['strings consist of characters XML 1.0 can represent',
               'classifier keys are non-empty and contain no blanks; extensions have a prefix and a URI',
               'datetimes have years >= 1000 and offsets of whole minutes',
               'two datetimes at the same instant count as equal when a value is compared with a declared default']

if __name__ != '__main__':
    from ficus.legacy.log.event_log import MyEvent, MyEventLog, MyTrace
    from ficus.legacy.log.functions import (read_log_from_xes, save_event_log_to_xes, serialize_log_to_xes,
                                            serialize_log_to_xes_beautiful)

UTC = timezone.utc
# values are referred to by index so that cases are JSON
STR = ['A', '', ' ', ' a b ', '<>&"\'', 'a\tb', 'a\nb', 'a\r\nb', 'é', '日本', '\U0001F600', '1', 'True', 'false', '2020-01-01',
       '&amp;', '&#10;', ']]>', '<!-- x -->', '{ns}x', 'a=b', 'None', '>\n', '> <', 'x' * 300, 'nan', '\u2028', '\u00a0', '0.0', 'E', 'e\u0301',
       'a\nb\n', '\n', '\ufffd', 'concept:name']
INT = [0, 1, -1, 7, 10 ** 18, -10 ** 30]
FLT = [0.0, 1.0, -1.5, 0.1, 1e300, 1e-300, float('inf'), float('-inf'), float('nan'), 1 / 3, 123456789.123456789]
BOOL = [True, False]
DATES = [datetime(2020, 1, 2), datetime(2020, 2, 1, 3, 4, 5), datetime(1999, 12, 31, 23, 59, 59, 999999),
         datetime(2020, 1, 2, 3, 4, 5, 1, tzinfo=UTC), datetime(2020, 1, 2, tzinfo=timezone(timedelta(hours=-5))),
         datetime(2021, 10, 11, 12, 13, 14, 150000, tzinfo=timezone(timedelta(hours=5, minutes=30))),
         datetime(2001, 2, 3, 0, 0, 0, 1000), datetime(2010, 11, 12, 0, 0, 0, tzinfo=UTC), datetime(2024, 2, 29, 12)]
VALUES = STR + INT + FLT + BOOL + DATES
ODD = [None, [1, 2], {'a': 1}, (1,), date(2020, 1, 1), b'x', {1}]
ALL = VALUES + ODD
BASE = len(ALL)
SMALL = [ALL.index('A'), ALL.index(''), len(STR) + 1, len(STR) + len(INT) + 1,
         len(STR) + len(INT) + len(FLT), len(STR) + len(INT) + len(FLT) + 1, len(STR) + len(INT) + len(FLT) + 2,
         len(STR), len(STR) + len(INT)]  # 'A', '', 1, 1.0, True, False, a date, 0, 0.0
KEYS = ['concept:name', 'k', '', 'a b', 'value', 'key', '<&">', 'é', 'time:timestamp', 'x\ny']


def supported(v):
    return type(v) in (str, int, float, bool, datetime)


def canon(v):
    if type(v) is float:
        return ('float', repr(v))
    if type(v) is datetime:
        off = v.utcoffset()
        return ('date', v.replace(tzinfo=None).isoformat(), None if off is None else off.total_seconds())
    return (type(v).__name__, v)


def cdict(d):
    return {k: canon(v) for k, v in d.items()}


def picture(log):
    return dict(traces=[(cdict(t.attributes), [cdict(e.payload) for e in t]) for t in log],
                attributes=dict(log.attributes), extensions={k: dict(v) for k, v in log.extensions.items()},
                classifiers={k: list(v) for k, v in log.classifiers.items()}, properties=cdict(log.properties),
                globals={k: cdict(v) for k, v in log.global_values.items()})


def expected(log):
    """the model: what must come back"""
    g = {s: {k: v for k, v in d.items() if supported(v)} for s, d in log.global_values.items()}

    def fill(scope, d):
        r = dict(g.get(scope, {}))
        r.update({k: v for k, v in d.items() if supported(v)})
        return r
    return dict(traces=[(cdict(fill('trace', t.attributes)), [cdict(fill('event', e.payload)) for e in t]) for t in log],
                attributes=dict(log.attributes), extensions={k: dict(v) for k, v in log.extensions.items()},
                classifiers={k: list(v) for k, v in log.classifiers.items()},
                properties={k: canon(v) for k, v in log.properties.items() if supported(v)},
                globals={k: cdict(v) for k, v in g.items()})


def build(spec):
    """spec: traces=[[attrs, [event, ...]]], attributes, extensions, classifiers, properties, globals with values as
    indexes into ALL"""
    dv = lambda d: {k: ALL[i] for k, i in d}
    return MyEventLog(traces=[MyTrace([MyEvent(dv(e)) for e in evs], dv(attrs)) for attrs, evs in spec.get('traces', [])],
                      attributes=dict(spec.get('attributes', [])),
                      extensions={n: {'prefix': p, 'uri': u} for n, p, u in spec.get('extensions', [])},
                      classifiers={n: list(k) for n, k in spec.get('classifiers', [])},
                      properties=dv(spec.get('properties', [])),
                      global_values={s: dv(d) for s, d in spec.get('globals', [])})


def roundtrip(log, path):
    save_event_log_to_xes(log, path)
    return read_log_from_xes(path)


def diff(a, b):
    for k in b:
        if a[k] != b[k]:
            return f'{k}:\n    read:    {a[k]!r}\n    expected:{b[k]!r}'


def run_spec(ctx, spec):
    log = build(spec)
    before = picture(log)
    want = expected(log)
    path = ctx.path('x.xes')
    got = picture(roundtrip(log, path))
    ctx.op(2)
    ctx.state(spec)
    if got != want:
        raise Violation('log read back differs: ' + diff(got, want))
    check_eq(picture(log), before, 'saving modified the log')
    # a second round trip is the identity
    again = picture(roundtrip(read_log_from_xes(path), ctx.path('y.xes')))
    ctx.op(3)
    if again != want:
        raise Violation('second round trip differs: ' + diff(again, want))
    # the pretty form parses to the same log
    with open(path, 'w', encoding='utf-8') as f:
        f.write(serialize_log_to_xes_beautiful(log))
    pretty = picture(read_log_from_xes(path))
    ctx.op(2)
    if pretty != want:
        raise Violation('pretty form differs: ' + diff(pretty, want))
    ctx.ok(got, 3)


# ---- families -----------------------------------------------------------------------------------------------------
def gen_values():
    for i in range(BASE):
        for where in ('event', 'trace', 'property', 'global_event', 'global_trace', 'global_other'):
            yield [i, where]


def run_values(ctx, i, where):
    a = ALL.index('A')
    base = [['concept:name', a]]
    spec = {'traces': [[[], [base, base]]]}
    if where == 'event':
        spec['traces'] = [[[], [base + [['k', i]], base]]]
    elif where == 'trace':
        spec['traces'] = [[[['k', i]], [base]], [[], [base]]]
    elif where == 'property':
        spec['properties'] = [['k', i]]
    else:
        spec['globals'] = [[where[7:], [['k', i]]]]
    run_spec(ctx, spec)


def gen_pairs():
    for i in range(BASE):
        for j in range(BASE):
            yield [i, j]


def run_pairs(ctx, i, j):
    # two events, two keys, both orders
    run_spec(ctx, {'traces': [[[['t', j]], [[['k', i], ['l', j]], [['k', j]]]]]})


def gen_keys():
    for k in KEYS:
        for k2 in KEYS:
            if k != k2:
                yield [k, k2]


def run_keys(ctx, k, k2):
    a, b = SMALL[0], SMALL[2]
    run_spec(ctx, {'traces': [[[[k, a]], [[[k, a], [k2, b]], [[k2, a]]]]], 'properties': [[k, b], [k2, a]],
                   'globals': [['event', [[k, b]]], ['trace', [[k2, a]]]]})


def gen_defaults(tier):
    """every default value x every own value, for the events and for the traces, present / absent"""
    vals = SMALL + [len(STR) + len(INT) + 8, len(STR) + 4, ALL.index('True'), ALL.index('1'), ALL.index('0.0'), ALL.index('2020-01-01')]
    own = [None] + vals
    for d in vals:
        for o1 in own:
            for o2 in own:
                yield [d, o1, o2]


def run_defaults(ctx, d, o1, o2):
    e = lambda o: [] if o is None else [['k', o]]
    for scope in ('event', 'trace'):
        if scope == 'event':
            tr = [[[], [e(o1), e(o2)]], [e(o1), [e(o2)]]]
        else:
            tr = [[e(o1), [e(o2)]], [e(o2), []]]
        run_spec(ctx, {'traces': tr, 'globals': [[scope, [['k', d]]]]})
    run_spec(ctx, {'traces': [[e(o1), [e(o2)]]], 'globals': [['event', [['k', d]]], ['trace', [['k', o1 if o1 is not None else d], ['z', d]]]]})


# groups of values which are close to, but different from, one another
CLOSE = [[0.3, 0.1 + 0.2, 0.30000000000000010], [1.0, 1.0 + 2 ** -52, 1.0 - 2 ** -53, 1.0 + 1e-12], [0.0, 5e-324, 1e-300, -5e-324], [1e300, 1e300 * (1 + 2 ** -52), float('inf')],
         [1e16, 1e16 + 2], [0.1, 0.10000000000000002, 0.1 + 1e-10], [123456789.123456789, 123456789.12345680],
         [2 ** 53, 2 ** 53 + 1, 2 ** 53 - 1], [10 ** 30, 10 ** 30 + 1], [2 ** 61 - 1, 0, -(2 ** 61 - 1)], [-1, -2], [2 ** 64, 1, 8],
         ['Abc', 'abc', 'ABC'], ['a', ' a', 'a ', 'a\t', 'a\n', '\u00a0a', '\ufeffa'], ['\u00e9', 'e\u0301', 'e'], ['\ufb01', 'fi'], ['x' * 300, 'x' * 299, 'x' * 299 + 'y'],
         ['1', '01', '1.0', '+1', ' 1'], ['true', 'True', 'TRUE'], ['2020-01-01', '2020-01-01T00:00:00', '2020-1-1'], ['\u0660', '0'], ['\u00df', 'ss', 'SS'], ['a  b', 'a b'],
         [datetime(2020, 1, 2, 3, 4, 5, k) for k in (0, 1, 999, 1000, 999999)], [datetime(2020, 1, 2, 3, 4, 5), datetime(2020, 1, 2, 3, 4, 6), datetime(2020, 1, 2, 3, 4), datetime(2020, 1, 2)],
         [datetime(2020, 1, 2, 3, tzinfo=timezone(timedelta(hours=h))) for h in (0, 1, -1)] + [datetime(2020, 1, 2, 3)],
         [datetime(2020, 1, 2, 3, tzinfo=timezone(timedelta(minutes=m))) for m in (0, 30, -30, 60, 1)]]
ALL += [v for g in CLOSE for v in g]


def gen_close():
    n = BASE
    for g in CLOSE:
        for i, j in itertools.product(range(n, n + len(g)), repeat=2):
            yield [i, j]
        n += len(g)


def run_close(ctx, i, j):
    run_defaults(ctx, i, j, i)
    run_pairs(ctx, i, j)
    run_spec(ctx, {'traces': [[[['k', i]], [[['k', j]], [['k', i]], [['k', j]]]]], 'properties': [['k', i], ['l', j]],
                   'globals': [['event', [['k', i], ['l', j]]], ['trace', [['k', j], ['l', i]]]]})


def gen_shapes(tier):
    """all shapes: up to 3 traces x up to 3 events, every event with one of 4 payloads (1 trace) / 2 payloads"""
    for lens in itertools.chain([[]], *[itertools.product(range(4), repeat=t) for t in (1, 2, 3)]):
        n = sum(lens)
        k = 4 if n <= 3 else (3 if n <= 4 else 2)
        if n > (7 if tier == 'quick' else 9):
            continue
        for pay in itertools.product(range(k), repeat=n):
            yield [list(lens), list(pay)]


PAY = [[], [['concept:name', SMALL[0]]], [['concept:name', SMALL[1]], ['n', SMALL[2]]], [['n', SMALL[3]], ['b', SMALL[5]], ['d', SMALL[6]]]]


def run_shapes(ctx, lens, pay):
    tr, i = [], 0
    for ti, n in enumerate(lens):
        tr.append([[['case', SMALL[ti]]] if ti != 1 else [], [PAY[p] for p in pay[i:i + n]]])
        i += n
    run_spec(ctx, {'traces': tr})


EXT = [['Concept', 'concept', 'http://www.xes-standard.org/concept.xesext'], ['Time', 'time', 'urn:t?a=1&b=2'], ['', '', '']]
CLS = [['Activity', ['concept:name']], ['Both', ['concept:name', 'lifecycle:transition']], ['é <', ['a&b']], ['x', ['a', 'a', 'b']]]
LAT = [['xes.version', '1.0'], ['xes.features', 'nested & <attributes>'], ['a', ''], ['openxes.version', '1.0RC7\n']]
PRP = [['concept:name', SMALL[0]], ['n', SMALL[2]], ['b', SMALL[5]], ['f', SMALL[3]], ['d', SMALL[6]], ['odd', len(VALUES)]]
GLB = [['event', [['concept:name', SMALL[0]], ['b', SMALL[5]]]], ['trace', [['case', SMALL[2]]]], ['log', [['z', SMALL[3]]]], ['event', []]]


def gen_meta():
    for e in gen.subsets(range(len(EXT))):
        for c in gen.subsets(range(len(CLS))):
            for a in gen.subsets(range(len(LAT))):
                yield [e, c, a, [], []]
    for p in gen.subsets(range(len(PRP))):
        for g in gen.subsets(range(len(GLB))):
            for c in ([], [1]):
                yield [[0], c, [0], p, g]


def run_meta(ctx, e, c, a, p, g):
    run_spec(ctx, {'extensions': [EXT[i] for i in e], 'classifiers': [CLS[i] for i in c],
                   'attributes': [LAT[i] for i in a], 'properties': [PRP[i] for i in p], 'globals': [GLB[i] for i in g],
                   'traces': [[[['case', SMALL[0]]], [[['concept:name', SMALL[0]]], []]], [[], [[['b', SMALL[4]]]]]]})


# paths --------------------------------------------------------------------------------------------------------------
PATHS = ['x.xes', './x.xes', 'd/x.xes', 'd/e/f/x.xes', '{abs}/x.xes', '{abs}/n/x.xes', 'spaces in name.xes', 'é/日本.xes', '../{base}/up.xes', 'noext', 'd/../x.xes', 'a.b/c.d']


def gen_paths():
    for p in PATHS:
        for existing in (0, 1):
            yield [p, existing]


def run_paths(ctx, p, existing):
    import shutil
    base = ctx.path('paths')
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    old = os.getcwd()
    os.chdir(base)
    try:
        path = p.format(abs=os.path.join(base, 'abs'), base='paths')
        log = build({'traces': [[[], [[['concept:name', ALL.index('é')]]]]]})
        if existing:  # overwriting an older, longer file
            save_event_log_to_xes(build({'traces': [[[], [[['concept:name', ALL.index('x' * 300)]]] * 5]]}), path)
        got = picture(roundtrip(log, path))
        ctx.op(2)
        check_eq(got, expected(log), 'log saved to ' + path)
        ctx.state(['path', p, existing])
        ctx.ok(path)
        files = sorted(os.path.relpath(os.path.join(r, f), base) for r, _, fs in os.walk(base) for f in fs)
        check_eq(files, [os.path.relpath(os.path.realpath(path), os.path.realpath(base))], 'files written')
        from ficus.legacy.pipelines.pipelines import Pipeline
        from ficus.legacy.pipelines.start.start_parts import ReadLogFromXes, UseExistingLog
        from ficus.legacy.pipelines.serialization.pipeline_parts import SaveEventLogToXes
        from ficus.legacy.pipelines.contexts.accessors import log as get_log
        r = Pipeline(UseExistingLog(), SaveEventLogToXes(lambda _: path))(log)
        check(get_log(r) is log, 'save part must pass the log on')
        check_eq(picture(get_log(Pipeline(ReadLogFromXes())(path))), expected(log), 'pipeline parts round trip')
        ctx.op(2)
        ctx.ok()
        try:
            read_log_from_xes(path + '.missing')
        except FileNotFoundError:
            pass
        else:
            raise Violation('reading a missing file must fail')
    finally:
        os.chdir(old)


# foreign documents --------------------------------------------------------------------------------------------------
def gen_foreign():
    """documents not written by this code: namespaces, layout, order of sections, xs:boolean and ISO date forms"""
    for ns in (0, 1, 2):
        for layout in (0, 1):
            for order in range(6):
                for b in range(6):
                    for d in range(6):
                        yield [ns, layout, order, b, d]


FBOOL = [('true', True), ('false', False), ('True', True), ('False', False), ('TRUE', True), ('FALSE', False)]
FDATE = [('2020-01-02T03:04:05Z', datetime(2020, 1, 2, 3, 4, 5, tzinfo=UTC)), ('2020-01-02T03:04:05.123+01:00', datetime(2020, 1, 2, 3, 4, 5, 123000, tzinfo=timezone(timedelta(hours=1)))),
         ('2020-01-02T03:04:05', datetime(2020, 1, 2, 3, 4, 5)), ('2020-01-02', datetime(2020, 1, 2)),
         ('2020-01-02T03:04:05.000000-05:00', datetime(2020, 1, 2, 3, 4, 5, tzinfo=timezone(timedelta(hours=-5)))), ('2020-01-02 03:04:05+00:00', datetime(2020, 1, 2, 3, 4, 5, tzinfo=UTC))]


def run_foreign(ctx, ns, layout, order, b, d):
    p = 'x:' if ns == 2 else ''
    xm = ['', ' xmlns="http://www.xes-standard.org/"', ' xmlns:x="http://www.xes-standard.org/"'][ns]
    bt, bv = FBOOL[b]
    dt, dv = FDATE[d]
    glob = f'<{p}global scope="event"><{p}boolean key="gb" value="{bt}"/><{p}int key="gi" value="3"/><{p}date key="gd" value="{dt}"/><{p}string key="s" value="def"/></{p}global>' \
           f'<{p}global scope="trace"><{p}string key="c" value="dc"/><{p}float key="f" value="2"/></{p}global><{p}global scope="event"><{p}int key="g2" value="-4"/></{p}global>'
    meta = f'<{p}extension name="Concept" prefix="concept" uri="u"/><{p}classifier name="C" keys="concept:name org"/><{p}boolean key="pb" value="{bt}"/><{p}float key="pf" value="1.50"/>'
    trace = f'<{p}trace><{p}string key="c" value="1"/><{p}event><{p}string key="s" value="a&amp;b"><{p}string key="nested" value="n"/></{p}string><{p}boolean key="b" value="{bt}"/></{p}event><!-- c --><{p}event><{p}date key="gd" value="2001-01-01T00:00:00Z"/><{p}id key="i" value="x"/></{p}event></{p}trace><{p}trace></{p}trace>'
    parts = [[glob, meta, trace], [meta, glob, trace], [trace, glob, meta], [trace, meta, glob], [glob, trace, meta], [meta, trace, glob]][order]
    text = f'<?xml version="1.0" encoding="UTF-8" ?><{p}log xes.version="1.0"{xm}>' + ''.join(parts) + f'</{p}log>'
    if layout:
        text = text.replace('><', '>\n\t<')
    path = ctx.path('f.xes')
    with open(path, 'w', encoding='utf-8') as f:
        f.write(text)
    got = picture(read_log_from_xes(path))
    ctx.op()
    ge = {'gb': bv, 'gi': 3, 'gd': dv, 's': 'def', 'g2': -4}
    e1 = dict(ge, s='a&b', b=bv)
    e2 = dict(ge, gd=datetime(2001, 1, 1, tzinfo=UTC))
    want = dict(traces=[(cdict({'c': '1', 'f': 2.0}), [cdict(e1), cdict(e2)]), (cdict({'c': 'dc', 'f': 2.0}), [])],
                attributes={'xes.version': '1.0'}, extensions={'Concept': {'prefix': 'concept', 'uri': 'u'}},
                classifiers={'C': ['concept:name', 'org']}, properties=cdict({'pb': bv, 'pf': 1.5}),
                globals={'event': cdict(ge), 'trace': cdict({'c': 'dc', 'f': 2.0})})
    if got != want:
        raise Violation('foreign document: ' + diff(got, want))
    ctx.state(['foreign', ns, layout, order, b, d])
    ctx.ok(got)


# locale -------------------------------------------------------------------------------------------------------------
LOCALES = [{'LC_ALL': 'C', 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0'}, {'LC_ALL': 'C.UTF-8'}, {'PYTHONUTF8': '1', 'LC_ALL': 'POSIX'}]


def gen_locale():
    for i in range(len(LOCALES)):
        yield [i]


def run_locale(ctx, i):
    env = dict(os.environ, **LOCALES[i])
    r = subprocess.run([sys.executable, os.path.join(VERIF, 'checks', 'C01.py'), ctx.path('loc.xes')], env=env,
                       capture_output=True, cwd=ctx.scratch, timeout=600)
    if r.returncode != 0:
        raise Violation('round trip under ' + json.dumps(LOCALES[i]) + ' failed: ' + r.stderr.decode('utf-8', 'replace')[-1500:])
    n = int(r.stdout.split()[-1])
    ctx.state(['locale', i])
    ctx.op(2 * n)
    ctx.ok(['locale', i], n)


def gen_scale(tier):
    for n in list(range(0, 70)) + [100, 128, 200, 256, 257, 500, 1000, 1025] + ([5000, 20000] if tier != 'quick' else []):
        for what in ('traces', 'events', 'attributes', 'trace_attributes', 'properties', 'globals', 'classifier_keys', 'extensions', 'string'):
            yield [n, what]


def run_scale(ctx, n, what):
    """sizes: every count from 0 to 69 and some large ones, for every repeated element of a log"""
    many = [['k%d' % i, SMALL[i % len(SMALL)]] for i in range(n)]
    e = [['concept:name', SMALL[0]]]
    spec = {'traces': [[[], [e]], [[], [e, e]]]}
    if what == 'traces':
        spec['traces'] = [[[['i', SMALL[i % len(SMALL)]]], [e + [['k', SMALL[i % 7]]]]] for i in range(n)]
    elif what == 'events':
        spec['traces'] = [[[], [e + [['k', SMALL[i % len(SMALL)]]] for i in range(n)]], [[], [e]]]
    elif what == 'attributes':
        spec['traces'] = [[[], [many, e]]]
    elif what == 'trace_attributes':
        spec['traces'] = [[many, [e]], [many[1:], []]]
    elif what == 'properties':
        spec['properties'] = many
    elif what == 'globals':
        spec['globals'] = [['event', many], ['trace', many[:3]]]
    elif what == 'classifier_keys':
        spec['classifiers'] = [['c', ['k%d' % i for i in range(n + 1)]]] + [['c%d' % i, ['a']] for i in range(n)]
    elif what == 'extensions':
        spec['extensions'] = [['e%d' % i, 'p%d' % i, 'u'] for i in range(n)]
    else:
        for v in ('x' * n, '<' * n, 'é' * n, int('9' * min(n, 4000) or '0'), float(n) / 7):
            log = MyEventLog(traces=[MyTrace([MyEvent({'k': v, v if isinstance(v, str) else 'l': 'A'})], {'k': v})], properties={'k': v})
            check_eq(picture(roundtrip(log, ctx.path('x.xes'))), expected(log), f'value {v!r}')
            ctx.op(2)
        ctx.state(['scale', n])
        ctx.ok(['scale', n], 5)
        return
    run_spec(ctx, spec)


def families(tier):
    return [
        Family('scale', lambda: gen_scale(tier), run_scale, 'every count 0..69 and selected up to 1025 of each repeated element'),
        Family('values', gen_values, run_values, f'each of {BASE} values (strings, ints, floats, booleans, dates, unsupported) at each of 6 places'),
        Family('pairs', gen_pairs, run_pairs, f'all {BASE}^2 ordered pairs of values on two keys and two events'),
        Family('keys', gen_keys, run_keys, 'all ordered pairs of special keys'),
        Family('close_values', gen_close, run_close, f'all ordered pairs within {len(CLOSE)} groups of nearly equal values, as defaults, own values and properties'),
        Family('defaults', lambda: gen_defaults(tier), run_defaults, 'every declared default x every own/absent value of two holders, scopes event/trace/both'),
        Family('shapes', lambda: gen_shapes(tier), run_shapes, 'all logs of <=3 traces x <=3 events over 2-4 payloads'),
        Family('meta', gen_meta, run_meta, 'all subsets of extensions, classifiers, log attributes, properties, default scopes'),
        Family('paths', gen_paths, run_paths, 'path forms x overwriting'),
        Family('foreign', gen_foreign, run_foreign, 'namespaces x layout x section order x boolean and date forms'),
        Family('locale', gen_locale, run_locale, 'three locale settings, all string values'),
    ]


if __name__ == '__main__':

    for _p in (os.path.join(os.environ.get('VERIF_REPO', '/repo'), x) for x in ('src', 'src/python')):
        sys.path.insert(0, _p)
    from ficus.legacy.log.event_log import MyEvent, MyEventLog, MyTrace
    from ficus.legacy.log.functions import read_log_from_xes, save_event_log_to_xes
    count = 0
    for idx in range(len(STR)):
        lg = build({'traces': [[[['k', idx]], [[['k', idx], ['é', idx]]]]], 'properties': [['k', idx]], 'classifiers': [['日', ['é']]],
                    'attributes': [['a', STR[idx]]]})
        assert picture(roundtrip(lg, sys.argv[1])) == expected(lg), STR[idx]
        count += 1
    print(count)
