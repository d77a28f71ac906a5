"""C23: reports. Every part which prints or saves something about a log or its activities is run on all small logs, layouts of activity
instances and hierarchies; what was printed or written is parsed back and compared with the data."""
import copy
import itertools
import os
import re
import subprocess
import sys
import tempfile

from vlib import gen as G
from vlib.core import REPO, Family, check, check_eq
from vlib.fakegrpc import Backend, callback_parts, m_result, m_success, played_by, printed
from vlib.fic import ev, flat, inst, mk_log, snap, snap_event

from ficus.grpc_pipelines.activities_parts import PrintNumberOfUnderlyingEvents2
from ficus.grpc_pipelines.context_values import NamesLogContextValue
from ficus.grpc_pipelines.grpc_pipelines import Pipeline2
from ficus.grpc_pipelines.models.pipelines_and_context_pb2 import GrpcContextValue
from ficus.grpc_pipelines.util_parts import PrintEventLog2
from ficus.legacy.analysis.patterns.constants import underlying_events_key
from ficus.legacy.log.event_log import MyEvent
from ficus.legacy.pipelines.analysis.analysis_parts import PrintDFG, PrintEventLogInfo, PrintEventLogInfoBeforeAndAfter, SaveAllEventNames
from ficus.legacy.pipelines.analysis.patterns.patterns_parts import (AddActivityNameToAllEvents, CalculatePercentageOfUnattachedEvents,
                                                                     CreateLogFromActivities, DiscoverActivities, DiscoverActivitiesInTraces,
                                                                     DiscoverRepeats, DiscoverRepeatsSets, PrintActivities,
                                                                     PrintActivitiesNamesToHashes, PrintFoundActivitiesCount,
                                                                     PrintNumberOfUnderlyingEvents, PrintUnattachedEvents,
                                                                     RepeatActivitiesSource, SaveAllActivitiesInstancesNames,
                                                                     SaveAllActivitiesNames, WriteActivitiesInstancesIndices)
from ficus.legacy.pipelines.contexts.accessors import activities as activities_of, log as log_of, traces_activities as instances_of
from ficus.legacy.pipelines.contexts.part_results import PipelinePartResult
from ficus.legacy.pipelines.pipelines import Pipeline
from ficus.legacy.util import concept_name, fake_end_name, fake_start_name

PROPERTY = 'C23'
ASSUMPTIONS = ['names in reports which list one name per line contain no line breaks',
               'activities of one hierarchy are of the same level', 'the order of names in reports about a whole log is not specified']
NAMES = ['A', 'B b', 'Ü: ж', '1', "it's", '']


def picture(res):
    """the whole context, to see that reports leave it as it is"""
    v = res.values
    out = [sorted(map(str, v))]
    if 'log' in v:
        out.append(snap(v['log']))
    for k in ('traces_activities',):
        if k in v:
            out.append([[(id(a.node), a.start_pos, a.length) for a in t] for t in v[k]])
    if 'activities' in v:
        stack, seen = list(v['activities']), []
        while stack and len(seen) < 1000:
            n = stack.pop()
            seen.append((id(n), n.name, n.activity_level, [id(c) for c in n.child_nodes]))
            stack.extend(n.child_nodes)
        out.append(seen)
    return out


def report(ctx, res, part, what, same=True):
    """what the part prints; the context has to stay the same"""
    before = picture(res)
    with printed() as out:
        after = Pipeline(part)(res)
    ctx.op()
    if same:
        check_eq(picture(after), before, f'{what}: the context after the report')
        check_eq(picture(res), before, f'{what}: the given context after the report')
    return out.getvalue()


def saved(ctx, res, make, what):
    """the text of the file the part writes"""
    d = tempfile.mkdtemp(dir=ctx.scratch)
    p = os.path.join(d, 'report.txt')
    out = report(ctx, res, make(p), what)
    check_eq(out, '', f'{what}: printed text')
    check_eq(os.listdir(d), ['report.txt'], f'{what}: written files')
    with open(p, encoding='utf-8', newline='') as f:
        text = f.read()
    os.remove(p)
    os.rmdir(d)
    return text


# ------------------------------------------------------------------------------------------------ logs
def parse_info(text, what):
    m = re.fullmatch(r'=+\nNumber of traces in log: (\d+)\nNumber of events in log: (\d+)\nNumber of low-level event classes in log: (\d+)\n=+\n', text)
    check(m, f'{what}: unexpected text {text!r}')
    return tuple(map(int, m.groups()))


def info_of(nm):
    return len(nm), sum(map(len, nm)), len({x for t in nm for x in t})


def fam_logs(quick):
    k, traces, n = (3, 3, 5) if quick else (4, 3, 6)

    def gen():
        for log in G.logs(k, traces, n):
            yield (log,)
        yield ([list(range(6)), [5, 4, 3, 3], []],)
        for m in (130, 1100):
            yield ([[(i * i + i // 7) % 6 for i in range(m)], []] + [[i % 6] * (i % 3) for i in range(m)],)

    def run(ctx, log):
        nm = [[NAMES[x] for x in t] for t in log]
        ctx.state(nm)
        res = PipelinePartResult().with_log(mk_log(nm))
        used = sorted({x for t in nm for x in t})
        text = saved(ctx, res, SaveAllEventNames, f'names of events of {nm}')
        check_eq(sorted(text.split('\n\n')) if used else text, used if used else '', f'names of events of {nm}')
        check_eq(parse_info(report(ctx, res, PrintEventLogInfo(), f'info of {nm}'), f'info of {nm}'), info_of(nm), f'info of {nm}')
        # the directly-follows listing
        pairs = {}
        for t in nm:
            for a, b in zip([fake_start_name] + t, t + [fake_end_name]) if t else []:
                pairs.setdefault(a, {}).setdefault(b, 0)
                pairs[a][b] += 1
        for chosen in [None] + [list(s) for s in G.subsets(used + [fake_start_name])][:8 if quick else 40]:
            text = report(ctx, res, PrintDFG(lambda x: chosen is None or x in chosen), f'followers in {nm}')
            blocks = text.split('\n\n')
            check_eq(blocks[-1], '', f'followers in {nm}: the end of the text')
            got = {}
            for b in blocks[:-1]:
                lines = b.split('\n')
                m = re.fullmatch(r'Followers of (.*):', lines[0])
                check(m and m.group(1) not in got, f'followers in {nm}: unexpected line {lines[0]!r}')
                fs = [x.rsplit(': ', 1) for x in lines[1:]]
                got[m.group(1)] = {f: int(c) for f, c in fs}
                check_eq(len(got[m.group(1)]), len(fs), f'followers of {m.group(1)!r} in {nm}: repeated lines')
            check_eq(got, {a: f for a, f in pairs.items() if chosen is None or a in chosen}, f'followers of {chosen} in {nm}')
        ctx.ok((info_of(nm), sorted(pairs)))

    return Family('logs', gen, run, f'all logs of <={traces} traces and <={n} events over {k} names: names, information, followers of all (small) sets of events')


def fam_before_after(quick):
    def gen():
        for log in G.logs(2, 2, 3):
            yield (log,)

    def run(ctx, log):
        from ficus.legacy.pipelines.pipelines import InternalPipelinePart

        class DropLast(InternalPipelinePart):
            def execute(self, current_input):
                print('in between')
                return PipelinePartResult().with_log(mk_log(nm[:-1]))

        nm = [[NAMES[x] for x in t] for t in log]
        ctx.state(nm)
        res = PipelinePartResult().with_log(mk_log(nm))
        what = f'information of {nm} before and after'
        for inner, after in ((Pipeline(DropLast()), nm[:-1]), (Pipeline(), nm)):
            got = []
            with printed() as out:
                r = Pipeline(PrintEventLogInfoBeforeAndAfter('some op', inner))(res)
            ctx.op()
            m = re.fullmatch(r'Operation some op started\n(=.*?=\n)(in between\n|)(=.*?=\n)Operation some op finished\n\n', out.getvalue(), re.S)
            check(m, f'{what}: unexpected text {out.getvalue()!r}')
            check_eq([parse_info(m.group(1), what), parse_info(m.group(3), what)], [info_of(nm), info_of(after)], what)
            check_eq(bool(m.group(2)), bool(inner.parts), f'{what}: the operation')
            check_eq([[e[concept_name] for e in t] for t in log_of(r)], after, f'{what}: the resulting log')
        ctx.ok((info_of(nm)))

    return Family('before and after', gen, run, 'all logs of <=2 traces and <=3 events, an operation which changes the log and an empty one')


# ------------------------------------------------------------------------------------------------ instances
def layouts(n, kinds):
    for iv in G.intervals(n, 3):
        for ks in itertools.product(range(kinds), repeat=len(iv)):
            yield [(a, ln, k) for (a, ln), k in zip(iv, ks)]


ACT = ['one (x)', 'zwölf=', 'one (x)']


def fam_instances(quick):
    n, two = (4, 2) if quick else (5, 3)

    def gen():
        yield ([], [])
        for ln in range(n + 1):
            for lay in layouts(ln, 3 if ln < n else 2):
                yield ([ln], [lay])
        for l1 in range(two + 1):
            for l2 in range(two + 1):
                for a in layouts(l1, 3):
                    for b in layouts(l2, 2):
                        yield ([l1, l2, 1], [a, b, []])

    def run(ctx, lengths, lay):
        ctx.state((lengths, lay))
        # two different activities with the same name
        acts = flat([['a', 'b'], ['c'], ['b', 'c']], names=ACT)
        nm = [[NAMES[(i + r) % 5] for i in range(ln)] for r, ln in enumerate(lengths)]
        mk = lambda: PipelinePartResult().with_log(mk_log(nm)).with_activities(acts).with_trace_activities([[inst(acts[k], a, ln) for a, ln, k in t] for t in lay])
        res = mk()
        what = f'traces of {lengths} events, instances {lay}'
        covered = [[next((k for a, ln, k in t if a <= i < a + ln), None) for i in range(n_)] for n_, t in zip(lengths, lay)]
        free = [(r, i) for r, c in enumerate(covered) for i, k in enumerate(c) if k is None]
        # names of events outside of activities
        text = report(ctx, res, PrintUnattachedEvents(), what)
        got = eval(text, {'__builtins__': {}})
        check(isinstance(got, list), f'unattached events of {what}: printed {text!r}')
        check_eq(sorted(got), sorted({nm[r][i] for r, i in free}), f'unattached events of {what}')
        text = report(ctx, res, CalculatePercentageOfUnattachedEvents(), what)
        if sum(lengths) == 0:
            check('empty' in text, f'percentage of {what}: printed {text!r}')
        else:
            m = re.fullmatch(r'Percentage of unattached events: (\S+)\n', text)
            check(m and abs(float(m.group(1)) - len(free) / sum(lengths)) < 1e-9, f'percentage of {what}: printed {text!r} for {len(free)} of {sum(lengths)} events')
        # instances
        used = []
        for t in lay:
            for _, _, k in t:
                if k not in used:
                    used.append(k)
        for creator in (False, True):
            text = saved(ctx, res, lambda p: SaveAllActivitiesInstancesNames((lambda: p) if creator else p), what)
            lines = text.split('\n')
            check_eq(lines.pop(), '', f'names of instances of {what}: the end of the file')
            check_eq(sorted(lines), sorted(f'{acts[k].unique_name()}={ACT[k]}' for k in used), f'names of instances of {what}')
        check_eq(len({acts[k].unique_name() for k in range(3)}), 3, 'unique names of activities')
        text = saved(ctx, res, WriteActivitiesInstancesIndices, what)
        blocks = text.split('\n\n')
        check_eq(blocks.pop(), '', f'indices of {what}: the end of the file')
        check_eq(blocks, [f'Trace {i}' + ''.join(f'\n({acts[k].unique_name()}, {a}, {ln})' for a, ln, k in t) for i, t in enumerate(lay)], f'indices of {what}')
        # annotations
        ann = mk()
        before = [[snap_event(e) for e in t] for t in log_of(ann)]
        r = Pipeline(AddActivityNameToAllEvents())(ann)
        ctx.op()
        for ti, t in enumerate(log_of(r)):
            check_eq(len(t), lengths[ti], f'annotations of {what}: events of trace {ti}')
            for i, e in enumerate(t):
                k = covered[ti][i]
                if k is not None:
                    check_eq(e['activity'], acts[k].unique_name(), f'annotations of {what}: event {i} of trace {ti}')
                    check_eq(snap_event(MyEvent({x: y for x, y in e.payload.items() if x != 'activity'})), before[ti][i], f'annotations of {what}: other attributes')
                else:
                    check_eq(snap_event(e), before[ti][i], f'annotations of {what}: event {i} of trace {ti}, which no activity covers')
        ctx.ok((lengths, lay))

    return Family('instances', gen, run, f'all layouts of <=3 instances of 3 activities (two of them with the same name) in one trace of <={n} events and in two traces of <={two} events')


# ------------------------------------------------------------------------------------------------ activities
POOL = ['A', 'B b', 'Ü::ж', 'd (1)']


def fam_hierarchies(quick):
    bound = 4 if quick else 5

    def gen():
        for n in range(bound + 1):
            slots = [(i, j) for i in range(n) for j in range(i + 1, n)]
            for mask in range(1 << len(slots)):
                es = [s for k, s in enumerate(slots) if mask >> k & 1]
                for naming in (G.rgs(n, 4, n) if n <= 3 else ([0, 1, 2, 3, 0][:n], [0, 1, 1, 2, 3][:n], [0, 1, 0, 1, 2][:n])) if n else ([],):
                    yield (n, es, list(naming))

    def run(ctx, n, edges, naming):
        ctx.state((n, edges, naming))
        nodes = flat([['a', 'b', chr(97 + i)] for i in range(n)], names=[POOL[k] for k in naming]) if n else []
        for i, j in edges:
            nodes[i].child_nodes.append(nodes[j])
        comp = list(range(n))
        for i, j in edges:
            a, b = comp[i], comp[j]
            comp = [min(a, b) if c in (a, b) else c for c in comp]
        for levels in ({c: 0 for c in comp}, {c: i for i, c in enumerate(sorted(set(comp)))}, {c: 10 - i for i, c in enumerate(sorted(set(comp)))}):
            for i, x in enumerate(nodes):
                x.activity_level = levels[comp[i]]
            tops = [i for i in range(n) if all(j != i for _, j in edges)]
            for order in (tops, tops[::-1]):
                res = PipelinePartResult().with_log(mk_log([['A']])).with_activities([nodes[i] for i in order])
                what = f'{n} activities, children {edges}, names {[POOL[k] for k in naming]}, levels {[x.activity_level for x in nodes]}, top level {order}'
                text = saved(ctx, res, SaveAllActivitiesNames, what)
                got, rest = [], text
                while rest:
                    m = re.match(r'ACTIVITIES LEVEL (\d+)\n\n(=+)\n((?:.*\n)*?)\2\n\n', rest)
                    check(m, f'names of {what}: unexpected text {rest!r}')
                    got.append((int(m.group(1)), sorted(m.group(3).split('\n')[:-1])))
                    rest = rest[m.end():]
                want = [(lv, sorted({x.name for x in nodes if x.activity_level == lv})) for lv in sorted({x.activity_level for x in nodes})]
                check_eq(got, want, f'names of {what}')
                text = report(ctx, res, PrintActivities(), what)
                check_eq(text, 'Found activities:\n' + ''.join(nodes[i].name + '\n\n' for i in order), f'activities printed for {what}')
                check_eq(report(ctx, res, PrintActivities(False), what), '', f'activities printed for {what}, printing is off')
                check_eq(report(ctx, res, PrintFoundActivitiesCount(), what), f'Discovered {len(order)} activities\n', f'number of activities of {what}')
                lines = report(ctx, res, PrintActivitiesNamesToHashes(), what).split('\n')
                check_eq(lines.pop(), '', f'hashes of {what}: end of the text')
                check_eq(set(lines), {f'{hash(x)} = {x.name}' for x in nodes}, f'hashes of {what}')
        ctx.ok((n, edges, naming))

    return Family('hierarchies', gen, run, f'all acyclic hierarchies of <={bound} activities, with several parents and equal names, at one or several levels, in both orders')


# ------------------------------------------------------------------------------------------------ discovered activities, nested events
def fam_discovered(quick):
    n = 5 if quick else 6

    def gen():
        for log in G.logs(3 if not quick else 2, 2, n, min_traces=1):
            yield (log,)

    def run(ctx, log):
        nm = [[NAMES[x] for x in t] for t in log]
        ctx.state(nm)
        res = Pipeline(DiscoverRepeats(RepeatActivitiesSource.MaximalRepeats), DiscoverRepeatsSets(), DiscoverActivities(activity_level=0))(
            PipelinePartResult().with_log(mk_log(nm)))
        with printed() as out:
            found = Pipeline(DiscoverActivitiesInTraces())(res)
        ctx.op(2)
        check_eq(out.getvalue(), f'Discovered {sum(map(len, instances_of(found)))} activities instances\n', f'number of instances in {nm}')
        # the listing of instances explains the unique names in a log of activities
        lines = dict(l.split('=', 1) for l in saved(ctx, found, SaveAllActivitiesInstancesNames, f'{nm}').split('\n') if l)
        text = saved(ctx, found, WriteActivitiesInstancesIndices, f'{nm}')
        for hashes in (True, False):
            high = log_of(Pipeline(CreateLogFromActivities(use_hashes_as_names=hashes))(copy.copy(found)))
            ctx.op()
            for t, acts, orig in zip(high, instances_of(found), nm):
                starts = {a.start_pos: a for a in acts}
                i = 0
                for e in t:
                    if i in starts:
                        a = starts[i]
                        if hashes:
                            check_eq(lines.get(str(e[concept_name])), a.node.name, f'{nm}: the name of the activity {e[concept_name]}')
                        i += a.length
                    else:
                        i += 1
            under = report(ctx, PipelinePartResult().with_log(high), PrintNumberOfUnderlyingEvents(), f'{nm}')
            check_eq(under, f'Underlying events count: {sum(map(len, nm))}\n', f'number of underlying events of the log of activities of {nm}')
        ctx.ok((nm, text))

    return Family('discovered', gen, run, f'all logs of <=2 traces and <={n} events with the activities discovered in them: counts, hashes, underlying events')


def trees(depth, width):
    """shapes of nested events: a number of underlying events each of which is a shape; None is a plain event"""
    yield None
    if depth:
        subs = list(trees(depth - 1, width))
        for w in range(width + 1):
            yield from (list(c) for c in itertools.product(subs, repeat=w))


def fam_nested(quick):
    depth, width = (2, 2) if quick else (2, 3)

    def gen():
        for s in trees(depth, width):
            yield (s,)

    def build(shape):
        e = ev('x')
        if shape is not None:
            e[underlying_events_key] = [build(s) for s in shape]
        return e

    def count(shape):
        return 1 if shape is None else sum(map(count, shape))

    def run(ctx, shape):
        ctx.state(shape)
        for extra in (0, 2):
            log = mk_log([['A']] * extra)
            t = mk_log([['A']])[0]
            t.append(build(shape))
            log.append(t)
            got = report(ctx, PipelinePartResult().with_log(log), PrintNumberOfUnderlyingEvents(), f'{shape}')
            check_eq(got, f'Underlying events count: {count(shape) + 1 + extra}\n', f'number of underlying events of {shape}, {extra} more traces')
        ctx.ok(shape)

    return Family('nested', gen, run, f'all nestings of underlying events of depth <={depth} and width <={width}')


# ------------------------------------------------------------------------------------------------ the remote client, other locales
def remote(part, key, value):
    def script(request):
        return [m_result(u, [(key, value)]) for u, _ in callback_parts(request.pipeline)] + [m_success('guid')]

    with played_by(Backend(script)), printed() as out:
        Pipeline2(part).execute({'names_event_log': NamesLogContextValue([['A']])})
    return out.getvalue()


def fam_remote(quick):
    def gen():
        for log in G.logs(3, 3, 4 if quick else 5):
            yield (log,)

    def run(ctx, log):
        nm = [[NAMES[x] for x in t] for t in log]
        ctx.state(nm)
        v = GrpcContextValue()
        v.names_log.log.SetInParent()
        for t in nm:
            v.names_log.log.traces.add().events.extend(t)
        text = remote(PrintEventLog2(), 'names_event_log', v)
        ctx.op()
        check_eq([eval(x, {'__builtins__': {}}) for x in text.split('\n') if x.startswith('[')], nm, f'printed log {nm}')
        k = sum(map(len, nm)) ** 9
        text = remote(PrintNumberOfUnderlyingEvents2(), 'underlying_events_count', GrpcContextValue(uint32=k))
        check_eq([x for x in text.split('\n') if 'nderlying' in x and ':' in x], [f'Underlying events count: {k}'], 'printed number of underlying events')
        ctx.ok(nm)

    return Family('remote', gen, run, 'all logs of <=3 traces sent by the backend, counts of underlying events')


LOCALE_PROGRAM = '''
import sys, os
sys.path.insert(0, sys.argv[1]); sys.path.insert(0, sys.argv[2])
from vlib.fic import mk_log, flat, inst
from ficus.legacy.pipelines.analysis.analysis_parts import SaveAllEventNames
from ficus.legacy.pipelines.analysis.patterns.patterns_parts import SaveAllActivitiesNames, SaveAllActivitiesInstancesNames, WriteActivitiesInstancesIndices
from ficus.legacy.pipelines.contexts.part_results import PipelinePartResult
from ficus.legacy.pipelines.pipelines import Pipeline
name = '\\u00dc \\u0436'
a = flat([['a']], names=[name])
res = PipelinePartResult().with_log(mk_log([[name]])).with_activities(a).with_trace_activities([[inst(a[0], 0, 1)]])
Pipeline(SaveAllEventNames('events'), SaveAllActivitiesNames('activities'), SaveAllActivitiesInstancesNames('instances'), WriteActivitiesInstancesIndices('indices'))(res)
'''


def fam_locales(quick):
    def gen():
        for env in ({'LC_ALL': 'C', 'PYTHONCOERCECLOCALE': '0', 'PYTHONUTF8': '0'}, {'LC_ALL': 'C.UTF-8'}):
            yield (env,)

    def run(ctx, env):
        ctx.state(sorted(env.items()))
        d = tempfile.mkdtemp(dir=ctx.scratch)
        verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        e = dict(os.environ, **env)
        e.pop('PYTHONPATH', None)
        p = subprocess.run([sys.executable, '-c', LOCALE_PROGRAM, verif, os.path.join(REPO, 'src', 'python')], cwd=d, env=e, capture_output=True, timeout=120)
        ctx.op()
        check(p.returncode == 0, f'saving names in the locale {env}: {p.stderr.decode(errors="replace")[-600:]}')
        for f in ('events', 'activities', 'instances'):
            with open(os.path.join(d, f), 'rb') as fin:
                check('\u00dc \u0436'.encode() in fin.read(), f'{f} saved in the locale {env}: the name is missing')
        ctx.ok(sorted(env.items()))

    return Family('locales', gen, run, 'two locales: ASCII and UTF-8')


# ------------------------------------------------------------------------------------------------ scale, reused paths
def fam_large(quick):
    def gen():
        for n in (40, 150) if quick else (40, 150, 400):
            for form in range(4):
                yield ('hierarchy', n, form)
        for n in (30, 130, 1300):
            yield ('instances', n, 0)
        for n in (30, 260):
            yield ('names', n, 0)
        for form in range(3):
            yield ('again', 0, form)

    def run(ctx, kind, n, form):
        ctx.state((kind, n, form))
        if kind == 'hierarchy':
            nodes = flat([['a']] * n, names=[f'activity {"x" * 50}{i}' for i in range(n)])
            if form == 0:
                nodes[0].child_nodes.extend(nodes[1:])
            elif form == 1:
                for a, b in zip(nodes, nodes[1:]):
                    a.child_nodes.append(b)
            elif form == 2:
                for i in range(1, n):
                    nodes[(i - 1) // 3].child_nodes.append(nodes[i])
            tops = nodes if form == 3 else nodes[:1]
            res = PipelinePartResult().with_log(mk_log([['A']])).with_activities(list(tops))
            what = f'{n} activities, hierarchy {form}'
            text = saved(ctx, res, SaveAllActivitiesNames, what)
            check_eq(sorted(x for x in text.split('\n') if x.startswith('activity')), sorted(x.name for x in nodes), f'names of {what}')
            check_eq(report(ctx, res, PrintActivities(), what), 'Found activities:\n' + ''.join(x.name + '\n\n' for x in tops), f'activities printed for {what}')
            check_eq(report(ctx, res, PrintFoundActivitiesCount(), what), f'Discovered {len(tops)} activities\n', f'number of activities of {what}')
            lines = report(ctx, res, PrintActivitiesNamesToHashes(), what).split('\n')[:-1]
            check_eq(sorted(lines), sorted(f'{hash(x)} = {x.name}' for x in nodes), f'hashes of {what}')
            ctx.ok((kind, n, form))
        elif kind == 'instances':
            nodes = flat([['a', 'b']] * n, names=[f'activity {i % (n // 2)}' for i in range(n)])
            nm = [[f'e {i}' for i in range(3 * n)], ['a', 'b', 'free one'] * 3]
            res = PipelinePartResult().with_log(mk_log(nm)).with_activities(nodes).with_trace_activities(
                [[inst(x, 3 * i, 2) for i, x in enumerate(nodes)], [inst(nodes[0], 0, 2), inst(nodes[-1], 3, 2), inst(nodes[0], 6, 2)]])
            what = f'{n} activities with an instance each'
            check_eq(len({x.unique_name() for x in nodes}), n, f'{what}: unique names')
            text = saved(ctx, res, SaveAllActivitiesInstancesNames, what)
            check_eq(sorted(text.split('\n')[:-1]), sorted(f'{x.unique_name()}={x.name}' for x in nodes), f'names of instances, {what}')
            text = saved(ctx, res, WriteActivitiesInstancesIndices, what)
            check_eq([b.split('\n') for b in text.split('\n\n')[:-1]],
                     [['Trace 0'] + [f'({x.unique_name()}, {3 * i}, 2)' for i, x in enumerate(nodes)],
                      ['Trace 1'] + [f'({nodes[j].unique_name()}, {at}, 2)' for j, at in ((0, 0), (-1, 3), (0, 6))]], f'indices, {what}')
            check_eq(sorted(eval(report(ctx, res, PrintUnattachedEvents(), what), {'__builtins__': {}})), sorted({f'e {3 * i + 2}' for i in range(n)} | {'free one'}), f'unattached events, {what}')
            text = report(ctx, res, CalculatePercentageOfUnattachedEvents(), what)
            check(abs(float(text.rsplit(' ', 1)[1]) - 1 / 3) < 1e-9, f'percentage, {what}: {text!r}')
            r = Pipeline(AddActivityNameToAllEvents())(res)
            ctx.op()
            check_eq([e.payload.get('activity') for e in log_of(r)[0]], [nodes[i // 3].unique_name() if i % 3 < 2 else None for i in range(3 * n)], f'annotations, {what}')
            ctx.ok((kind, n))
        elif kind == 'names':
            nm = [[f'{"x" * 40} {i}' for i in range(n)] for _ in range(2)]
            text = saved(ctx, PipelinePartResult().with_log(mk_log(nm)), SaveAllEventNames, f'{n} names')
            check_eq(sorted(text.split('\n\n')), sorted(nm[0]), f'names of {n} events')
            text = report(ctx, PipelinePartResult().with_log(mk_log(nm)), PrintDFG(lambda x: True), f'{n} names')
            check_eq(len(text.split('\n\n')) - 1, n + 1, f'followers of {n} names')
            ctx.ok((kind, n))
        else:
            # the same parts executed on one context after the other: files and annotations are those of the last one
            d = tempfile.mkdtemp(dir=ctx.scratch)
            parts = [c(os.path.join(d, c.__name__)) for c in (SaveAllEventNames, SaveAllActivitiesNames, SaveAllActivitiesInstancesNames, WriteActivitiesInstancesIndices)]
            log = mk_log([['A', 'B b', '1', 'A']])
            for k, names in enumerate([['first', 'second'], ['x'], ['third one', 'fourth', 'fifth']]):
                acts = flat([['a']] * len(names), names=names)
                res = PipelinePartResult().with_log(log if form else mk_log([['A', 'B b', '1', 'A'][:4 - k]])).with_activities(acts).with_trace_activities(
                    [[inst(acts[0], 0, 1)] + ([inst(acts[-1], 1, 1)] if len(acts) > 1 else [])])
                with printed():
                    (Pipeline(*parts) if form < 2 else Pipeline(*reversed(parts)))(res)
                    r = Pipeline(AddActivityNameToAllEvents())(res)
                ctx.op(2)
                what = f'reports number {k} to the same files ({form})'
                text = {f: open(os.path.join(d, f), encoding='utf-8').read() for f in os.listdir(d)}
                check_eq(sorted(text), sorted(type(x).__name__ for x in parts), f'{what}: files')
                check_eq(sorted(text['SaveAllEventNames'].split('\n\n')), sorted({e[concept_name] for e in log_of(res)[0]}), f'{what}: names of events')
                check_eq(sorted(text['SaveAllActivitiesNames'].split('\n')[3:-3]), sorted(names), f'{what}: names of activities')
                used = [acts[0]] + acts[1:][-1:]
                check_eq(sorted(text['SaveAllActivitiesInstancesNames'].split('\n')[:-1]), sorted(f'{a.unique_name()}={a.name}' for a in used), f'{what}: names of instances')
                check_eq(text['WriteActivitiesInstancesIndices'], 'Trace 0\n' + ''.join(f'({a.unique_name()}, {i}, 1)\n' for i, a in enumerate(used)) + '\n', f'{what}: indices')
                check_eq([e.payload.get('activity') for e in log_of(r)[0]][:len(used)], [a.unique_name() for a in used], f'{what}: annotations of an annotated log')
                ctx.ok((k, form))
            for f in os.listdir(d):
                os.remove(os.path.join(d, f))
            os.rmdir(d)

    return Family('large', gen, run, 'hierarchies of up to 150 activities, up to 1300 activities with instances, 260 names; reports written several times to the same files')


def families(tier):
    quick = tier == 'quick'
    return [fam_logs(quick), fam_before_after(quick), fam_instances(quick), fam_hierarchies(quick), fam_discovered(quick), fam_nested(quick),
            fam_remote(quick), fam_locales(quick), fam_large(quick)]
