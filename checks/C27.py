"""C27: the backend reads and writes logs (XES, BXES) without losing or inventing anything."""
import itertools
import math
import os
import re
import xml.etree.ElementTree as ET

from vlib import gen, rbackend, rustlib
from vlib.core import Family, Violation, check, check_eq
from vlib.rbackend import Spy, names_log, run, success
from vlib.rustlib import backend

from ficus.grpc_pipelines.constants import const_names_event_log, const_path
from ficus.grpc_pipelines.context_values import NamesLogContextValue, StringContextValue
from ficus.grpc_pipelines.util_parts import PrintEventLog2, UseNamesEventLog2
from ficus.grpc_pipelines.xes_parts import ReadLogFromBxes2, ReadLogFromXes2, WriteLogToBxes2, WriteLogToXes2

PROPERTY = 'C27'
ASSUMPTIONS = ['the backend is compiled with stand-ins for the crates which are not in the crate cache (see DESIGN.md): quick-xml 0.38 '
               'instead of 0.29, and the bxes library stores its own models with bincode, so only the conversion is examined, not its format',
               'traces without events are not written to XES, attributes of traces and nested attributes are not kept, an event '
               'without a readable name and date is not read (they have no place in the model of a log)',
               'keys of classifiers contain no spaces; dates have a time zone; documents declare globals before traces']
setup = rustlib.setup(PROPERTY)

I64 = 2 ** 63
NAME, TIME = 'concept:name', 'time:timestamp'


# ------------------------------------------------------------------------------------------------------ reference values
def days(y, m, d):
    y -= m <= 2
    era = y // 400
    yoe = y - era * 400
    doy = (153 * (m + (-3 if m > 2 else 9)) + 2) // 5 + d - 1
    return era * 146097 + yoe * 365 + yoe // 4 - yoe // 100 + doy - 719468


def parse_date(text):
    m = re.fullmatch(r'([+-]?\d{4,})-(\d\d)-(\d\d)[Tt](\d\d):(\d\d):(\d\d)(?:\.(\d+))?(?:([Zz])|([+-])(\d\d):(\d\d))', text)
    if not m:
        return None
    y, mo, d, h, mi, s = (int(x) for x in m.groups()[:6])
    if not (1 <= mo <= 12 and 1 <= d <= (31 - (mo in (4, 6, 9, 11)) if mo != 2 else 28 + (y % 4 == 0 and (y % 100 != 0 or y % 400 == 0))) and h < 24 and mi < 60 and s < 60):
        return None
    nanos = int((m[7] or '0').ljust(9, '0')[:9])
    shift = 0 if m[8] else (1 if m[9] == '+' else -1) * (int(m[10]) * 3600 + int(m[11]) * 60)
    if y < -200000 or y > 200000:
        return 'min' if y < 0 else 'max'
    return [days(y, mo, d) * 86400 + h * 3600 + mi * 60 + s - shift, nanos]


def number(text):
    f = float(text)
    return 'nan' if math.isnan(f) else f


def canon(value):
    """a value of the JSON form in a comparable form"""
    kind, x = value
    return (kind, number(x)) if kind in ('f32', 'f64') else (kind, tuple(x)) if isinstance(x, list) else (kind, x)


def as_xes(value):
    """what is left of the type of a value in XES"""
    kind, x = value
    if kind in ('i32', 'u32', 'i64', 'u64'):
        return ['i64' if x < I64 else 'u64', x]
    if kind == 'f32':
        return ['f64', x]
    if kind in ('standard', 'braf'):
        return ['string', x]
    return value


def of_tag(tag, text):
    """the value of an XES attribute, None when it is not readable"""
    try:
        if tag == 'string':
            return ['string', text]
        if tag == 'date':
            d = parse_date(text)
            return d and ['date', d]
        if tag == 'int':
            x = int(text)
            return ['i64' if x < I64 else 'u64', x] if -I64 <= x < 2 * I64 else None
        if tag == 'float':
            return ['f64', text] if number(text) is not None else None
        if tag == 'boolean':
            return ['bool', text == 'true'] if text in ('true', 'false') else None
        if tag == 'id':
            return ['guid', text.lower()] if re.fullmatch(r'[0-9a-fA-F]{8}(-[0-9a-fA-F]{4}){3}-[0-9a-fA-F]{12}', text) else None
    except ValueError:
        pass
    return None


def attribute(el):
    """(key, value) of an element which is an XES attribute"""
    key, text = el.get('key'), el.get('value')
    if key is None or text is None:
        return None
    value = of_tag(el.tag.split('}')[-1], text)
    return value and (key, value)


def payload(pairs):
    return {k: canon(v) for k, v in pairs}


def plain(log):
    """a log of the JSON form as comparable values"""
    return {'extensions': [tuple(e) for e in log['extensions']],
            'classifiers': [(n, tuple(k)) for n, k in log['classifiers']],
            'properties': sorted(((n, canon(v)) for n, v in log['properties']), key=repr),
            'globals': {s: payload(d) for s, d in log['globals']},
            'traces': [[(n, tuple(d), payload(p or [])) for n, d, p in t] for t in log['traces']]}


def usable(key, value):
    return not (key == NAME and value[0] != 'string' or key == TIME and value[0] != 'date')


def interpret(text):
    """a log of the JSON form out of an XES document, written from the XES standard with ElementTree"""
    root = ET.fromstring(text)
    log = dict(extensions=[], classifiers=[], properties=[], globals=[], traces=[])
    defaults = {}
    for el in root:
        tag = el.tag.split('}')[-1]
        if tag == 'trace':
            events = []
            for e in el:
                if e.tag.split('}')[-1] != 'event':
                    continue
                have = {k: v for k, v in defaults.items() if usable(k, v)}
                for a in e:
                    kv = attribute(a)
                    if kv and usable(*kv):
                        have[kv[0]] = kv[1]
                if NAME in have and TIME in have:
                    events.append([have[NAME][1], have[TIME][1], [[k, v] for k, v in have.items() if k not in (NAME, TIME)]])
            log['traces'].append(events)
        elif tag == 'global':
            d = dict(kv for kv in map(attribute, el) if kv)
            if el.get('scope') is None:
                continue
            log['globals'].append([el.get('scope'), [[k, v] for k, v in d.items()]])
            if el.get('scope') == 'event':
                defaults = d
        elif tag == 'extension':
            if None not in (el.get('name'), el.get('prefix'), el.get('uri')):
                log['extensions'].append([el.get('name'), el.get('prefix'), el.get('uri')])
        elif tag == 'classifier':
            if None not in (el.get('name'), el.get('keys')):
                log['classifiers'].append([el.get('name'), el.get('keys').split(' ')])
        else:
            kv = attribute(el)
            if kv:
                log['properties'].append(list(kv))
    return log


def written(log):
    """what a document written for the log has to contain"""
    fix = lambda pairs: [[k, as_xes(v)] for k, v in pairs]  # noqa: E731
    return dict(extensions=log['extensions'], classifiers=log['classifiers'], properties=fix(log['properties']),
                globals=[[s, fix(d)] for s, d in log['globals']],
                traces=[[[n, d, fix(p or [])] for n, d, p in t] for t in log['traces'] if t])


def with_defaults(log):
    """the defaults of events added to the events"""
    defaults = {k: v for s, d in log['globals'] if s == 'event' for k, v in d if k not in (NAME, TIME)}
    return dict(log, traces=[[[n, d, [[k, v] for k, v in {**defaults, **dict(map(tuple, p or []))}.items()]] for n, d, p in t] for t in log['traces']])


def differ(got, want, what):
    got, want = plain(got), plain(want)
    for k in want:
        check_eq(got[k], want[k], f'{what}: {k}')


# ----------------------------------------------------------------------------------------------------------------- logs
TEXTS = ['', ' ', 'a\tb\nc\r',  'a b', 'é', '<&>"\'', '&amp;', '&lt;b&gt;', ']]>', '\U0001f600', 'a;b#1', "it's", '0', 'true', '<!--x-->', '--']
DATES = [[0, 0], [1577836800, 123456789], [-1, 999000000], [253402300799, 1], [-62135596800, 0], 'min', 'max', [253402300800, 0], [-62198755200, 5]]
VALUES = [['string', t] for t in TEXTS] + [['date', d] for d in DATES] + [['bool', True], ['bool', False]] + \
         [['i32', x] for x in (0, -1, 2 ** 31 - 1, -2 ** 31)] + [['i64', x] for x in (5, I64 - 1, -I64)] + [['u32', 0], ['u32', 2 ** 32 - 1]] + \
         [['u64', x] for x in (0, 7, I64 - 1, I64, 2 * I64 - 1)] + [['f32', x] for x in ('0.1', '-2.5', '1e10', 'NaN')] + \
         [['f64', x] for x in ('0.1', '1e300', '-0.0', '5e-324', 'inf', '-inf', 'NaN', '3')] + \
         [['guid', '12345678-9abc-def0-1234-56789abcdef0'], ['guid', '00000000-0000-0000-0000-000000000000'],
          ['standard', 'complete'], ['standard', 'ate_abort'], ['braf', 'Open.Running.InProgress'], ['braf', 'Unspecified']]


def log_of(traces=(), extensions=(), classifiers=(), properties=(), globals=()):
    return dict(extensions=list(extensions), classifiers=list(classifiers), properties=list(properties), globals=list(globals), traces=list(traces))


def event(name='A', date=(0, 0), payload=()):
    return [name, list(date) if isinstance(date, tuple) else date, payload if payload is None else list(payload)]


def logs(tier):
    q = tier == 'quick'
    for t in TEXTS:
        yield log_of([[event(t)]])
        yield log_of([[event('A', payload=[[t, ['i64', 1]]])]])
        yield log_of(properties=[[t, ['string', t]]])
        yield log_of(extensions=[[t, 'p' + t, t + 'u']])
        yield log_of(classifiers=[[t, [t.replace(' ', '_'), 'k']]])
        yield log_of(globals=[['event', [[t, ['string', t]]]], ['trace', [[t, ['bool', True]]]]])
    for d in DATES:
        yield log_of([[event('A', d), event('B', [0, 0])], [event('A', d)]])
    for v in VALUES:
        yield log_of([[event('A', payload=[['k', v]])]])
        yield log_of(properties=[['k', v]])
        yield log_of(globals=[['event', [['k', v]]]])
        yield log_of([[event('A'), event('B', payload=[['k', v]]), event('C', payload=[['k', ['i64', 99]]])]], globals=[['event', [['k', v]]]])
    some = [['string', 'x'], ['string', '<&>'], ['i64', 3], ['date', [0, 0]], ['u64', I64]]
    for scope, v, w in itertools.product(('event', 'trace', 'log'), some, some):
        yield log_of([[event('A', payload=[['k', v], ['l', w]]), event('B', payload=[['k', w]]), event('C', payload=None)], [event('D')]],
                     globals=[[scope, [['k', v]]], ['trace' if scope == 'event' else 'event', [['l', w]]]])
    for g in ([], [['event', []]], [['trace', []]], [['event', []], ['log', []]], [['event', [[NAME, ['string', 'N']], [TIME, ['date', [5, 0]]]]]]):
        for t in gen.logs(2, 3, 3, min_traces=0):
            yield log_of([[event('AB'[x], (n, 0), None) for n, x in enumerate(tr)] for tr in t], globals=g)
    for t in gen.logs(3, 3, 4 if q else 6, min_traces=0):
        yield log_of([[event('AB<'[x], (100 * i + n, n), [['i', ['i64', n]]] * (x > 0)) for n, x in enumerate(tr)] for i, tr in enumerate(t)],
                     [['Concept', 'concept', 'http://c']], [['c', ['concept:name', 'k']]], [['b', ['i64', 1]], ['a', ['bool', True]], ['b', ['i64', 2]]])
    values = VALUES if not q else VALUES[::3]
    for v, w in itertools.product(values, repeat=2):
        yield log_of([[event('A', payload=[['k', v], ['l', w]])]], properties=[['l', v], ['k', w]], globals=[['event', [['l', w]]]])


def run_write(ctx, log):
    what = f'{log}'
    r = backend()('serialize', log=log)
    check('text' in r, f'the log was not written: {r}', what)
    text = r['text']
    try:
        seen = interpret_written(text)
    except ET.ParseError as e:
        raise Violation(f'the document is not well-formed ({e}): {text!r} for {what}')
    want = written(log)
    differ(seen, want, f'document for {what}')
    path = ctx.path('log.xes')
    check_eq(backend()('write_xes', log=log, path=path), {}, f'writing {what}')
    with open(path, encoding='utf-8', newline='') as f:
        check_eq(f.read(), text, f'the file differs from the serialized text for {what}')
    r = backend()('read_xes', path=path)
    check('log' in r, f'the written file is not read: {r}', what)
    differ(r['log'], with_defaults(want), f'read back {what}')
    ctx.op(3)
    r = backend()('clone_log', log=log)
    differ(r['log'], log, f'copy of {what}')
    ctx.ok(log)
    ctx.state(log)


def interpret_written(text):
    """as interpret, without adding the defaults to events"""
    log = interpret(re.sub(r'scope="event"', 'scope="event "', text))
    for g in log['globals']:
        g[0] = g[0].strip() if g[0] == 'event ' else g[0]
    return log


# ----------------------------------------------------------------------------------------------------------------- bxes
def representable(log):
    dates = [d for t in log['traces'] for _, d, _ in t]
    values = [v for t in log['traces'] for _, _, p in t for _, v in p or []] + [v for _, v in log['properties']]
    values += [v for _, d in log['globals'] for _, v in d]
    dates += [v[1] for v in values if v[0] == 'date']
    return all(d not in ('min', 'max') and -I64 <= d[0] * 10 ** 9 + d[1] < I64 for d in dates)


def run_bxes(ctx, log):
    path = ctx.path('log.bxes')
    if os.path.exists(path):
        os.unlink(path)
    what = f'{log}'
    r = backend()('write_bxes', log=log, path=path)
    ctx.op(1)
    if not representable(log):
        check('error' in r, f'dates which bxes can not represent were written: {r}', what)
        check(not os.path.exists(path), 'a refused log left a file behind', what)
        ctx.ok('refused')
        return
    check_eq(r, {}, f'writing {what}')
    r = backend()('read_bxes', path=path)
    check('log' in r, f'the written file is not read: {r}', what)
    differ(r['log'], with_defaults(log), f'read back {what}')
    m = backend()('bxes_model', path=path)['model']
    check_eq([v['traces_count'] for v in m['variants']], [1] * len(log['traces']), f'number of traces of variants of {what}')
    ctx.ok(log)
    ctx.state(log)


def bs(x):
    return {'String': x}


BXES_VALUES = [({'Int32': -3}, ['i32', -3]), ({'Int64': 2 ** 40}, ['i64', 2 ** 40]), ({'Uint32': 7}, ['u32', 7]), ({'Uint64': 2 ** 64 - 1}, ['u64', 2 ** 64 - 1]),
               ({'Float32': 0.5}, ['f32', '0.5']), ({'Float64': -1.25}, ['f64', '-1.25']), (bs('x<&'), ['string', 'x<&']), ({'Bool': True}, ['bool', True]),
               ({'Timestamp': -1}, ['date', [-1, 999999999]]), ({'Timestamp': 1500000000}, ['date', [1, 500000000]]),
               ({'Timestamp': I64 - 1}, ['date', [(I64 - 1) // 10 ** 9, (I64 - 1) % 10 ** 9]]),
               ({'BrafLifecycle': 'OpenRunning'}, ['braf', 'Open.Running']), ({'StandardLifecycle': 'ReAssign'}, ['standard', 'reassign']),
               ({'Guid': '12345678-9abc-def0-1234-56789abcdef0'}, ['guid', '12345678-9abc-def0-1234-56789abcdef0']),
               ({'Artifact': {}}, None), ({'Drivers': {}}, None), ({'SoftwareEventType': 'Unspecified'}, None)]


def gen_model(tier):
    for counts in itertools.product(range(4), repeat=2):
        yield ['counts', list(counts)]
    for n in range(len(BXES_VALUES)):
        for place in ('attribute', 'property', 'global', 'key', 'name', 'property key', 'global key', 'classifier', 'classifier key', 'extension', 'overridden'):
            yield [place, n]
    for hidden in range(8):
        yield ['absent', hidden]


def run_model(ctx, kind, n):
    model = dict(version=1, metadata=dict(extensions=None, classifiers=None, properties=None, globals=None), variants=[])
    ev = lambda name, stamp, attrs: dict(name=bs(name), timestamp=stamp, attributes=attrs)  # noqa: E731
    want, refused = log_of(), False
    if kind == 'counts':
        for i, c in enumerate(n):
            model['variants'].append(dict(traces_count=c, metadata=[], events=[ev('AB'[i], i, None)] * i + [ev('C', 9, [])]))
            want['traces'] += [[event('AB'[i], (0, i))] * i + [event('C', (0, 9))]] * c
    elif kind == 'absent':
        meta = model['metadata']
        if n & 1:
            meta['extensions'], meta['properties'] = [], []
        if n & 2:
            meta['classifiers'] = []
        if n & 4:
            meta['globals'] = [dict(entity_kind='Event', globals=[])]
            want['globals'] = [['event', []]]
        model['variants'].append(dict(traces_count=1, metadata=[], events=[]))
        want['traces'].append([])
    else:
        raw, value = BXES_VALUES[n]
        text = value is not None and value[0] == 'string'
        attrs, name, defaults, meta = [], bs('A'), None, model['metadata']
        wp, wname = [], 'A'
        refused = value is None if kind in ('attribute', 'property', 'global', 'overridden') else not text
        if kind == 'attribute':
            attrs, wp = [[bs('k'), raw], [bs('l'), bs('m')]], [['k', value], ['l', ['string', 'm']]]
        elif kind == 'overridden':
            meta['globals'] = [dict(entity_kind='Event', globals=[[bs('k'), bs('default')], [bs('d'), {'Int32': 1}]])]
            want['globals'] = [['event', [['k', ['string', 'default']], ['d', ['i32', 1]]]]]
            attrs, wp = [[bs('k'), raw]], [['k', value], ['d', ['i32', 1]]]
        elif kind == 'property':
            meta['properties'] = [[bs('k'), raw], [bs('k'), bs('again')]]
            want['properties'] = [['k', value], ['k', ['string', 'again']]]
        elif kind == 'global':
            meta['globals'] = [dict(entity_kind=s, globals=[[bs('k'), raw]]) for s in ('Event', 'Trace', 'Log')]
            want['globals'] = [[s, [['k', value]]] for s in ('event', 'trace', 'log')]
            wp = [['k', value]]
        elif kind == 'key':
            attrs, wp = [[raw, bs('v')]], [[text and value[1], ['string', 'v']]]
        elif kind == 'name':
            name, wname = raw, text and value[1]
        elif kind == 'property key':
            meta['properties'] = [[raw, bs('v')]]
            want['properties'] = [[text and value[1], ['string', 'v']]]
        elif kind == 'global key':
            meta['globals'] = [dict(entity_kind='Trace', globals=[[raw, bs('v')]])]
            want['globals'] = [['trace', [[text and value[1], ['string', 'v']]]]]
        elif kind == 'classifier':
            meta['classifiers'] = [dict(name=raw, keys=[bs('a'), bs('b')]), dict(name=bs('c'), keys=[])]
            want['classifiers'] = [[text and value[1], ['a', 'b']], ['c', []]]
        elif kind == 'classifier key':
            meta['classifiers'] = [dict(name=bs('c'), keys=[bs('a'), raw])]
            want['classifiers'] = [['c', ['a', text and value[1]]]]
        elif kind == 'extension':
            meta['extensions'] = [dict(name=raw, prefix=bs('p'), uri=bs('u')), dict(name=bs('n'), prefix=raw, uri=bs('u'))]
            want['extensions'] = [[text and value[1], 'p', 'u'], ['n', text and value[1], 'u']]
        events = [dict(name=name, timestamp=10 ** 9, attributes=a) for a in ([attrs, None] if kind == 'global' else [attrs])]
        model['variants'].append(dict(traces_count=1, metadata=[], events=events))
        want['traces'].append([event(wname, (1, 0), wp)] * len(events))
    path = ctx.path('model.bxes')
    backend()('put_bxes_model', model=model, path=path)
    r = backend()('read_bxes', path=path)
    ctx.op(1)
    if refused:
        check('error' in r, f'a value which the log can not hold was accepted: {r}', model)
    else:
        check('log' in r, f'the file is not read: {r}', model)
        differ(r['log'], want, f'log of the bxes model {model}')
    ctx.ok([kind, n])
    ctx.state([kind, n])


# ------------------------------------------------------------------------------------------------------------ documents
N1, N2 = '<string key="concept:name" value="A"/>', '<string key="concept:name" value="B"></string>'
T1, T2 = '<date key="time:timestamp" value="2020-01-02T03:04:05.678+02:00"/>', '<date key="time:timestamp" value="1969-12-31T23:59:59.5Z"></date>'
ATTRS = ['<int key="k" value="-7"/>', '<int key="k" value="18446744073709551615"/>', '<int key="k" value="x"/>', '<float key="k" value="1e-3"/>',
         '<boolean key="k" value="true"/>', '<boolean key="l" value="false"></boolean>', '<id key="k" value="12345678-9ABC-def0-1234-56789abcdef0"/>',
         '<string key="k&amp;&quot;" value="&lt;v&gt; &#233;&#x20AC;"/>', "<string value='single \"' key='l'/>", '<string key="k"/>', '<string value="v"/>',
         '<list key="k"><values><string key="l" value="in list"/><int key="m" value="1"/></values></list>',
         '<string key="k" value="outer"><int key="l" value="5"/><string key="m" value="deep"><int key="k" value="6"/></string></string>',
         '<container key="m"><string key="concept:name" value="nested"/><date key="time:timestamp" value="2000-01-01T00:00:00Z"/></container>',
         '<string key="k" value="first"></string>', '<!-- <string key="k" value="comment"/> -->', '<![CDATA[<string key="k" value="cdata"/>]]>', 'text',
         '<?pi <string key="k" value="pi"/>?>', '<unknown key="k" value="u"/>', '<unknown a="b"><other/></unknown>', '<date key="k" value="2020-02-30T00:00:00Z"/>',
         '<date key="k" value="2020-02-29T23:59:59-11:30"/>', '<string key="lifecycle:transition" value="complete"/>', N2, T2,
         '<int key="concept:name" value="5"/>', '<string key="time:timestamp" value="2020-01-01T00:00:00Z"/>', '<float key="k" value="INF"/>',
         '<string extra="e" key="k" other="o" value="v"/>', '<string  key = "k"\n value\t= "spaces" />']
HEAD = ['<extension name="Concept" prefix="concept" uri="http://c"/>', '<extension name="&lt;n&gt;" prefix="p&amp;q" uri="u?a=1&amp;b=2"></extension>',
        '<extension name="N" prefix="p"/>', '<classifier name="c&apos;s" keys="concept:name k&amp;l"/>', '<classifier name="d" keys="one"></classifier>',
        '<classifier name="e"/>', '<global scope="event"><string key="concept:name" value="G"/><int key="g" value="1"/></global>',
        '<global scope="event"><date key="time:timestamp" value="2021-01-01T00:00:00Z"/><string key="k" value="default"><int key="inner" value="3"/></string></global>',
        '<global scope="event"></global>', '<global scope="trace"><string key="k" value="t&lt;"></string></global>',
        '<global scope="s&amp;t"><string key="k" value="odd"/></global>', '<string key="k" value="property"/>', '<int key="k" value="4"></int>',
        '<string key="p" value="outer"><string key="q" value="inner"/></string>', '<list key="l"><values><int key="m" value="2"/></values></list>',
        '<unknown/>', '<unknown x="y"></unknown>', '<!-- <trace><event/></trace> -->', '<string key="no value"/>']
TRACES = ['<trace></trace>', '<trace><string key="concept:name" value="trace name"/><event>' + N1 + T1 + '</event></trace>',
          '<trace><event>' + T2 + N2 + '</event>\n<!-- c --><event>' + N1 + '</event><event>' + N1 + T1 + '<int key="g" value="2"/></event></trace>',
          '<trace><string key="k" value="v"><string key="l" value="nested"/></string><event></event><event>' + T1 + '</event></trace>']
OPEN = ['<log>', '<?xml version="1.0" encoding="UTF-8" ?>\n<log xes.version="1.0" xmlns="http://www.xes-standard.org/">', '\ufeff<log xes.features="nested-attributes">',
        '<?xml version="1.0"?><!DOCTYPE log>\r\n<log\r\n>', '<!-- before --><log a="b" >']


def gen_docs(tier):
    q = tier == 'quick'
    ev = '<trace><event>' + N1 + T1 + '<int key="z" value="0"/></event></trace>'
    for o in range(len(OPEN)):
        for h in HEAD:
            for t in TRACES:
                yield ['doc', OPEN[o] + h + t + '</log>']
    for h in itertools.product(HEAD, repeat=2):
        scopes = [re.findall('scope="([^"]*)"', x) for x in h]
        if not (scopes[0] and scopes[0] == scopes[1]):
            yield ['doc', OPEN[0] + h[0] + '\n' + h[1] + TRACES[2] + TRACES[1] + '</log>']
    for n in (1, 2):
        for a in itertools.product(ATTRS, repeat=n):
            for before, after in (((N1 + T1), ''), ('', T1 + N1), (N1, T1)) if n == 1 or not q else (((N1 + T1), ''), (N1, T1)):
                yield ['doc', '<log>' + HEAD[7] + '<trace><event>' + before + ''.join(a) + after + '</event><event>' + N2 + T2 + '</event></trace>' + ev + '</log>']
    for a in ATTRS:
        yield ['doc', '<log>' + a + TRACES[1] + '</log>']
        yield ['doc', '<log><trace>' + a + '<event>' + N1 + T1 + '</event></trace></log>']
        yield ['doc', '<log><global scope="event">' + a + '<int key="g" value="1"/></global>' + TRACES[2] + '</log>']
        yield ['doc', '<log><global scope="event">' + N1 + T1 + a + '</global><trace><event></event><event>' + N2 + '</event></trace></log>']
    if not q:
        for a in itertools.product(ATTRS[::2], repeat=3):
            yield ['doc', '<log><trace><event>' + N1 + ''.join(a) + T1 + '</event></trace></log>']
        for t in itertools.product(TRACES, repeat=3):
            for h in HEAD:
                yield ['doc', '<log>' + h + ''.join(t) + '</log>']


def run_doc(ctx, kind, text):
    path = ctx.path('doc.xes')
    with open(path, 'w', encoding='utf-8', newline='') as f:
        f.write(text)
    r = backend()('read_xes', path=path)
    ctx.op(1)
    check('log' in r, f'the document is not read: {r}', text)
    want = interpret(text.lstrip('\ufeff'))
    differ(r['log'], want, f'log of {text!r}')
    # a second trip through the writer changes nothing but traces without events
    back = backend()('serialize', log=r['log'])
    check('text' in back, f'the log was not written: {back}', text)
    differ(interpret_written(back['text']), written(r['log']), f'document written for the log of {text!r}')
    ctx.ok(text)
    ctx.state(text)


DOCS = ['<log><extension name="C" prefix="c" uri="u"/><classifier name="x" keys="a b"></classifier><global scope="event"><string key="k" value="d&amp;"/>'
        '<int key="n" value="1"></int></global><string key="p" value="q"><int key="r" value="2"/></string><trace><string key="t" value="u"/><event>' + N1 + T1 +
        '<string key="a" value="&lt;"><int key="b" value="3"/></string></event><event>' + N2 + T2 + '</event></trace><trace><event>' + T1 + N2 + '</event></trace></log>',
        '<?xml version="1.0" encoding="UTF-8"?>\n<!-- c -->\n<log>\n  <trace>\n    <event>\n      ' + N1 + '\n      ' + T1 + '\n      <list key="l"><values>'
        '<string key="m" value="1"/></values></list><![CDATA[x]]>\n    </event>\n  </trace>\n  <trace></trace>\n</log>\n']


def tokens(text):
    return re.findall(r'<[^>]*>|[^<]+', text)


def gen_torn(tier):
    for d in range(len(DOCS)):
        n = len(DOCS[d].encode())
        for cut in range(n + 1):
            yield ['cut', d, cut]
        k = len(tokens(DOCS[d]))
        for i in range(k):
            yield ['drop', d, i]
            yield ['twice', d, i]
            for j in range(i + 1, k if tier != 'quick' else min(k, i + 3)):
                yield ['swap', d, [i, j]]
        for i in range(n):
            for c in ('<', '>', '&', '"', '/', '\x00', '\xff') if tier != 'quick' else ('<', '"', '\xff', '&'):
                yield ['byte', d, [i, ord(c)]]


def run_torn(ctx, kind, d, at):
    data = DOCS[d].encode()
    toks = tokens(DOCS[d])
    if kind == 'cut':
        data = data[:at]
    elif kind == 'drop':
        data = ''.join(toks[:at] + toks[at + 1:]).encode()
    elif kind == 'twice':
        data = ''.join(toks[:at + 1] + toks[at:]).encode()
    elif kind == 'swap':
        i, j = at
        toks[i], toks[j] = toks[j], toks[i]
        data = ''.join(toks).encode()
    else:
        data = data[:at[0]] + bytes([at[1]]) + data[at[0] + 1:]
    path = ctx.path('torn.xes')
    with open(path, 'wb') as f:
        f.write(data)
    r = backend()('read_xes', path=path)
    ctx.op(1)
    if kind == 'cut':
        got, want = plain(r['log']) if 'log' in r else plain(log_of()), plain(interpret(DOCS[d]))
        what = f'document {d} cut at {at}: {data!r}'
        for k in ('extensions', 'classifiers'):
            check(got[k] == want[k][:len(got[k])], f'{what}: {k} are not a prefix', got[k])
        check(all(p in want['properties'] for p in got['properties']), f'{what}: invented properties', got['properties'])
        for n, (a, b) in enumerate(zip(got['traces'], want['traces'])):
            check(a == b[:len(a)], f'{what}: the events of trace {n} are not a prefix', a)
        check(len(got['traces']) <= len(want['traces']), f'{what}: invented traces', got['traces'])
        done = sum(data.count(x) for x in (b'</trace>',))
        check([len(t) for t in got['traces'][:done]] == [len(t) for t in want['traces'][:done]], f'{what}: complete traces are lost', got['traces'])
        opened = data.rsplit(b'<trace>', 1)[-1].count(b'</event>') if data.count(b'<trace>') > done else 0
        if opened:
            check(len(got['traces']) > done and len(got['traces'][done]) == opened, f'{what}: complete events of the last trace are lost', got['traces'])
    else:
        check('log' in r or 'error' in r, f'no answer for {data!r}', r)
        if kind != 'byte':
            try:
                whole = interpret(data.decode())
            except ET.ParseError:
                whole = None
            if whole is not None and len({s for s, _ in whole['globals']}) == len(whole['globals']) and b'<log>' in data[:60] and not re.search(rb'<trace>.*<global', data, re.S):
                check('log' in r, 'a well-formed document is not read', data)
                if 'swap' != kind:
                    differ(r['log'], whole, f'log of {data!r}')
    ctx.ok(data.decode('latin-1'))
    ctx.state([kind, d, at])


# ------------------------------------------------------------------------------------------------------------ pipelines
def gen_pipes(tier):
    for log in gen.logs(3, 3, 4 if tier == 'quick' else 5, min_traces=0):
        for first, second in itertools.product((0, 1), repeat=2):
            yield [log, first, second]
    for kind in range(6):
        yield [[[0]], 9, kind]


def run_pipes(ctx, log, first, second):
    """a names log is written by a pipeline, read by another one which copies it in the second format, and the copy is read"""
    names = [['AB<'[x] for x in t] for t in log]
    given = {const_names_event_log: NamesLogContextValue(names)}
    if first == 9:
        path = ctx.path('missing/x.xes')
        part = [WriteLogToXes2(path), WriteLogToBxes2(path), ReadLogFromXes2(), ReadLogFromBxes2(), ReadLogFromXes2(), ReadLogFromBxes2()][second]
        if second < 4:
            given[const_path] = StringContextValue(path)
        last, _, _ = run([UseNamesEventLog2(), part], given, what=f'missing file {second}')
        check_eq(last.finalResult.WhichOneof('executionResult'), 'error', f'execution with a missing file or path ({second})')
        check(last.finalResult.error, 'an error without a message', second)
        ctx.ok(second)
        return
    path, copy = ctx.path('pipe.log'), ctx.path('copy.log')
    for p in (path, copy):
        if os.path.exists(p):
            os.unlink(p)
    what = f'{names} written as {"xes bxes".split()[first]}, copied as {"xes bxes".split()[second]}'
    last, _, _ = run([UseNamesEventLog2(), (WriteLogToXes2, WriteLogToBxes2)[first](path)], given, what=what)
    if first == 0:
        success(last, what)
    elif any(names):
        # the events of names logs carry dates which bxes can not represent: refused, never half-written
        check_eq(last.finalResult.WhichOneof('executionResult'), 'error', f'bxes of {what}')
        check(not os.path.exists(path), f'a refused log left a file behind: {what}')
        backend()('write_bxes', log=log_of([[event(n, (7, i)) for i, n in enumerate(t)] for t in names]), path=path)
    seen = []
    copied = first == 1 or second == 0 or not any(names)
    parts = [(ReadLogFromXes2, ReadLogFromBxes2)[first](), Spy(PrintEventLog2(), seen, 'read')]
    parts += [(WriteLogToXes2, WriteLogToBxes2)[second](copy), Spy(PrintEventLog2(), seen, 'still there')] if copied else []
    last, _, _ = run(parts, {const_path: StringContextValue(path)}, what=what)
    success(last, what)
    if copied:
        last, _, _ = run([(ReadLogFromXes2, ReadLogFromBxes2)[second](), Spy(PrintEventLog2(), seen, 'copy')], {const_path: StringContextValue(copy)}, what=what)
        success(last, what)
    wanted = [names if first else [t for t in names if t]]
    wanted += [wanted[0], wanted[0] if second else [t for t in names if t]] if copied else []
    check_eq([names_log(v[const_names_event_log]) for _, v in seen], wanted, f'logs of {what}')
    ctx.op(3)
    ctx.ok(what)
    ctx.state([log, first, second])


# ----------------------------------------------------------------------------------------------------------- lifecycles
STANDARD = ['unspecified', 'assign', 'ate_abort', 'autoskip', 'complete', 'manualskip', 'pi_abort', 'reassign', 'resume', 'schedule', 'start', 'suspend',
            'unknown', 'withdraw']
BRAF = ['Unspecified', 'Closed', 'Closed.Cancelled', 'Closed.Cancelled.Aborted', 'Closed.Cancelled.Error', 'Closed.Cancelled.Exited',
        'Closed.Cancelled.Obsolete', 'Closed.Cancelled.Terminated', 'Completed', 'Completed.Failed', 'Completed.Success', 'Open', 'Open.NotRunning',
        'Open.NotRunning.Assigned', 'Open.NotRunning.Reserved', 'Open.NotRunning.Suspended.Assigned', 'Open.NotRunning.Suspended.Reserved',
        'Open.Running', 'Open.Running.InProgress', 'Open.Running.Suspended']


def camel(text):
    return ''.join(x[0].upper() + x[1:] for x in re.split('[._]', text))


MODEL_STANDARD = {'manualskip': 'ManualSkip', 'reassign': 'ReAssign'}


def gen_lifecycles(tier):
    for t in STANDARD + BRAF:
        for v in (t, t.upper(), t.lower(), t + ' ', t[:-1], t + '.'):
            yield [v]
    yield ['']


def run_lifecycles(ctx, text):
    r = backend()('lifecycle', text=text)
    check_eq(r['standard'], [text, STANDARD.index(text)] if text in STANDARD else None, f'standard lifecycle {text!r}')
    check_eq(r['braf'], [text, BRAF.index(text)] if text in BRAF else None, f'braf lifecycle {text!r}')
    path = ctx.path('life.bxes')
    for kind, known in (('standard', STANDARD), ('braf', BRAF)):
        if text not in known:
            continue
        log = log_of([[event('A', payload=[['k', [kind, text]]])]], properties=[['l', [kind, text]]])
        check_eq(backend()('write_bxes', log=log, path=path), {}, f'writing {log}')
        m = backend()('bxes_model', path=path)['model']
        tag, name = ('StandardLifecycle', MODEL_STANDARD.get(text, camel(text))) if kind == 'standard' else ('BrafLifecycle', camel(text))
        check_eq(m['variants'][0]['events'][0]['attributes'], [[{'String': 'k'}, {tag: name}]], f'bxes value of {text}')
        differ(backend()('read_bxes', path=path)['log'], log, f'read back {log}')
        ctx.ok(text)
    ctx.op(1)
    ctx.state(text)


def families(tier):
    q = tier == 'quick'
    return [
        Family('write and read', lambda: ([x] for x in logs(tier)), run_write, f'{len(TEXTS)} texts in every place; {len(VALUES)} values in events, properties and defaults, and all pairs of {"every third" if q else "them"}; defaults x overriding; all logs of <= 3 traces and {4 if q else 6} events'),
        Family('documents', lambda: gen_docs(tier), run_doc, f'{len(OPEN)} openings x {len(HEAD)} declarations x {len(TRACES)} traces; all pairs of declarations; all sequences of <= 2 of {len(ATTRS)} fragments inside an event, in traces, logs and defaults'),
        Family('damaged files', lambda: gen_torn(tier), run_torn, 'two documents: every byte prefix; every token dropped, doubled or swapped; every byte replaced by one of 4 (7)'),
        Family('bxes', lambda: ([x] for x in logs(tier)), run_bxes, 'the same logs as "write and read"'),
        Family('bxes models', lambda: gen_model(tier), run_model, f'counts of two variants in 0..3; {len(BXES_VALUES)} values (three without a counterpart) in 11 places; every combination of absent metadata'),
        Family('pipelines', lambda: gen_pipes(tier), run_pipes, f'all logs of <= 3 traces and {4 if q else 5} events x first format x second format; missing files and paths'),
        Family('lifecycles', lambda: gen_lifecycles(tier), run_lifecycles, 'every state of both models and six misspellings of each'),
    ]
