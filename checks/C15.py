"""C15: the pipeline engine against a reference interpreter of pipeline trees."""
import copy
import itertools

from vlib.core import Family, Violation, check, check_eq
from vlib import gen
from vlib.fic import mk_log, snap, flat, inst, snap_nodes

from ficus.legacy.log.event_log import MyEventLog
from ficus.legacy.pipelines.analysis.analysis_parts import PrintEventLogInfoBeforeAndAfter
from ficus.legacy.pipelines.analysis.high_level import DiscoverActivitiesInstancesFromRepeats, ExecuteWithEachActivityLog
from ficus.legacy.pipelines.analysis.patterns.models import TandemArrayKind
from ficus.legacy.pipelines.analysis.patterns.patterns_parts import (ActivitiesDiscoveryStrategy, ClearActivities, CreateLogFromActivities, CreateLogsForActivities,
                                                                     DiscoverActivitiesFromPatterns, DiscoverActivitiesInTraces, DiscoverRepeats, DiscoverTandemArrays)
from ficus.legacy.pipelines.contexts import accessors, keys as context_keys
from ficus.legacy.pipelines.contexts.part_results import PipelinePartResult, RepeatActivitiesSource
from ficus.legacy.pipelines.filtering.filter_parts import FilterTracesByCount, FilterTracesByVariants
from ficus.legacy.pipelines.mutations.mutations_parts import SubstituteUnderlyingEvents
from ficus.legacy.pipelines.pipelines import (FirstPipelinePart, IfPipeline, InternalPipelinePart, ParallelPipeline, Pipeline, PipelinePart, WithInputCopy,
                                              WithTempInput)
from ficus.legacy.pipelines.start.start_parts import EmptyStartPart, ReadLogFromXes, UseExistingLog

PROPERTY = 'C15'
ASSUMPTIONS = ['isolation concerns the values of a context; mutable objects stored in it (logs, lists) are shared with shallow copies by design']

# A program is a list of nodes.  Leaves: 'n' (None), 'a'/'b' (set a/b), 'c' (copy the context, set a), 'r' (remove a).
# Combinators: ['par', p...], ['temp', transformer, merger, p], ['copy', p], ['if', condition, p], ['each', p], ['info', p]


class World:
    """shared by the probes of one execution: the event trace"""

    def __init__(self):
        self.trace = []


def seen(ctx):
    return tuple(sorted((k, v if isinstance(v, (str, int)) else '?') for k, v in ctx.items()))


# ------------------------------------------------------------------------------------------------- implementation side
class Probe(InternalPipelinePart):
    def __init__(self, world, op, label):
        self.world, self.op, self.label = world, op, label

    def execute(self, current_input):
        self.world.trace.append((self.label, seen(current_input.values)))
        if self.op == 'c':
            current_input = copy.copy(current_input)
        if self.op in 'ac':
            return current_input.with_custom_data('a', self.label)
        if self.op == 'b':
            return current_input.with_custom_data('b', self.label)
        if current_input.has_value('a'):
            current_input.remove('a')
        return current_input


COND = {'t': lambda v: True, 'f': lambda v: False, 'a': lambda v: 'a' in v, 'b': lambda v: 'b' in v}
TRANS = ['fresh', 'copy', 'keepb']
MERGE = ['initial', 'temp', 'take', 'set']


def i_trans(kind, world):
    def f(c):
        world.trace.append(('trans', seen(c.values)))
        if kind == 'fresh':
            return PipelinePartResult()
        if kind == 'copy':
            return copy.copy(c)
        r = PipelinePartResult()
        if c.has_value('b'):
            r.with_custom_data('b', c.get_value_or_throw('b'))
        return r
    return f


def i_merge(kind, world):
    def f(c, t):
        world.trace.append(('merge', seen(c.values), seen(t.values)))
        if kind == 'initial':
            return c
        if kind == 'temp':
            return t
        if kind == 'take':
            return copy.copy(c).with_custom_data('a', t.get_value_or_throw('a') if t.has_value('a') else 'none')
        return c.with_custom_data('b', 'merged')
    return f


def i_cond(kind, world):
    def f(c):
        world.trace.append(('cond', seen(c.values)))
        return COND[kind](c.values)
    return f


ACT_LOGS = None


def build(prog, world, label='p'):
    parts = []
    for i, n in enumerate(prog):
        lb = f'{label}{i}'
        if n == 'n':
            parts.append(None)
        elif isinstance(n, str):
            parts.append(Probe(world, n, lb))
        elif n[0] == 'par':
            parts.append(ParallelPipeline(*[build(p, world, f'{lb}.{j}.') for j, p in enumerate(n[1:])]))
        elif n[0] == 'temp':
            parts.append(WithTempInput(i_trans(n[1], world), i_merge(n[2], world), build(n[3], world, lb + '.')))
        elif n[0] == 'copy':
            parts.append(WithInputCopy(build(n[1], world, lb + '.')))
        elif n[0] == 'if':
            parts.append(IfPipeline(i_cond(n[1], world), build(n[2], world, lb + '.')))
        elif n[0] == 'each':
            parts.append(ExecuteWithEachActivityLog(build(n[1], world, lb + '.')))
        elif n[0] == 'info':
            parts.append(PrintEventLogInfoBeforeAndAfter('x', build(n[1], world, lb + '.')))
    return Pipeline(*parts)


class Missing(Exception):
    """a part asks for a value its context does not have"""


# ------------------------------------------------------------------------------------------------------- reference side
def ref_run(prog, ctx, trace, label='p'):
    """ctx: dict, modified in place like the implementation's context object; returns the resulting context"""
    for i, n in enumerate(prog):
        lb = f'{label}{i}'
        if n == 'n':
            continue
        if isinstance(n, str):
            trace.append((lb, seen(ctx)))
            if n == 'c':
                ctx = dict(ctx)
            if n in 'ac':
                ctx['a'] = lb
            elif n == 'b':
                ctx['b'] = lb
            else:
                ctx.pop('a', None)
        elif n[0] == 'par':
            out = None
            for j, p in enumerate(n[1:]):
                out = ref_run(p, dict(ctx), trace, f'{lb}.{j}.')
            ctx = out
        elif n[0] == 'temp':
            trace.append(('trans', seen(ctx)))
            t = {} if n[1] == 'fresh' else dict(ctx) if n[1] == 'copy' else {k: v for k, v in ctx.items() if k == 'b'}
            t = ref_run(n[3], t, trace, lb + '.')
            trace.append(('merge', seen(ctx), seen(t)))
            if n[2] == 'temp':
                ctx = t
            elif n[2] == 'take':
                ctx = dict(ctx)
                ctx['a'] = t.get('a', 'none')
            elif n[2] == 'set':
                ctx['b'] = 'merged'
        elif n[0] == 'copy':
            ref_run(n[1], dict(ctx), trace, lb + '.')
        elif n[0] == 'if':
            trace.append(('cond', seen(ctx)))
            if COND[n[1]](ctx):
                ctx = ref_run(n[2], ctx, trace, lb + '.')
        elif n[0] == 'each':
            if 'activities_logs' not in ctx:
                raise Missing()
            for name, lg in ctx['activities_logs'].items():
                ref_run(n[1], {'log': lg, 'activity_name_key': name}, trace, lb + '.')
        elif n[0] == 'info':
            if 'log' not in ctx:
                raise Missing()
            ctx = ref_run(n[1], ctx, trace, lb + '.')
            if 'log' not in ctx:
                raise Missing()
    return ctx


STANDARD = [v for n, v in vars(context_keys).items() if n.endswith('_key') and n not in ('log_key', 'activities_to_logs_key')]


def start(k):
    vals = {}
    if k & 1:
        vals['a'] = 'init a'
    if k & 2:
        vals['b'] = 'init b'
    if k & 8:
        vals.update({key: 'initial ' + key for key in STANDARD})
        vals['cached_colors'] = {'A': '#010203'}
    if k & 4:
        vals['log'] = mk_log([[0, 1]])
        vals['activities_logs'] = {'X': mk_log([[0]]), 'Y': mk_log([[1], [2]]), '': mk_log([]), 'Z': mk_log([[0]]), '0': mk_log([])}
    return vals


def has(prog, kind):
    return any(isinstance(n, list) and (n[0] == kind or any(has(p, kind) for p in n[1:] if isinstance(p, list))) for n in prog)


def check_prog(ctx, prog, starts):
    need_log = has(prog, 'each') or has(prog, 'info')
    for k in starts:
        world = World()
        pipe = build(prog, world)
        for rnd in range(2):
            vals = start(k | (4 if need_log else 0))
            rvals = dict(vals)
            inp = PipelinePartResult()
            inp.values.update(vals)
            world.trace.clear()
            rtrace = []
            try:
                rres = ref_run(prog, rvals, rtrace)
            except Missing:
                rres = None
            try:
                res = pipe(inp) if rnd == 0 else pipe.execute(inp)
            except ValueError:
                check(rres is None, f'{prog} start {k} run {rnd}: a value of the context was lost')
                check_eq(world.trace, rtrace, f'{prog} start {k} run {rnd}: executed parts and what they saw')
                continue
            ctx.op(1 + len(world.trace))
            check(rres is not None, f'{prog} start {k} run {rnd}: a part found a value that must not be visible')
            check_eq(world.trace, rtrace, f'{prog} start {k} run {rnd}: executed parts and what they saw')
            check_eq({a: b for a, b in res.values.items()}, rres, f'{prog} start {k} run {rnd}: result')
            check_eq(dict(inp.values), rvals, f'{prog} start {k} run {rnd}: the caller\'s context afterwards')
            ctx.ok(rtrace)
        ctx.state([prog, k])


LEAF = ['n', 'a', 'b', 'c', 'r']


def flat_pipes(n):
    for k in range(n + 1):
        for p in itertools.product(LEAF, repeat=k):
            yield list(p)


SMALL = [[], ['a'], ['b'], ['c'], ['r'], ['a', 'b'], ['c', 'b'], ['r', 'a'], ['n', 'b', 'n']]


def combs(pipes, wide=True):
    for p in pipes:
        yield ['copy', p]
        for c in COND:
            yield ['if', c, p]
        for t in TRANS:
            for m in MERGE:
                yield ['temp', t, m, p]
        yield ['par', p]
        yield ['each', p]
        yield ['info', p]
    if wide:
        for p, q in itertools.product(pipes, repeat=2):
            yield ['par', p, q]


def gen_flat(tier):
    for p in flat_pipes(4 if tier == 'quick' else 5):
        yield [p]


def gen_big():
    for n in (17, 65, 300):
        yield [[LEAF[(i * i) % len(LEAF)] for i in range(n)]]
        yield [['a', ['par'] + [[LEAF[(i + j) % len(LEAF)] for j in range(i % 3)] for i in range(n)], 'b']]
    for n in (10, 40):
        for k in range(6):
            p = ['a', 'b']
            for i in range(n):
                c = (['copy', p], ['if', list(COND)[i % len(COND)], p], ['temp', list(TRANS)[i % len(TRANS)], list(MERGE)[i % len(MERGE)], p],
                     ['par', p], ['info', p], ['par', ['b'], p])[(k if k < 5 else i) % 6]
                p = ['b', c] if i % 2 else [c, 'a']
            yield [p]


def gen_one(tier):
    for c in combs([p for p in flat_pipes(2)]):
        for pre in ([], ['b']):
            yield [pre + [c, 'r']]
    for p, q, r in itertools.product(SMALL[:7], repeat=3):
        yield [['a', ['par', p, q, r], 'b']]


def gen_two(tier):
    """all pairs of combinators in sequence, and nested"""
    cs = list(combs(SMALL[1:5], False)) + [['par', ['a'], ['b']], ['par', ['c'], ['r']]]
    for x, y in itertools.product(cs, repeat=2):
        yield [[x, y]]
    inner = [[c] for c in combs([['a'], ['c', 'b'], ['r']], False)] + [[['par', ['a'], ['b']]], [['par', ['b'], ['c', 'a']]]]
    inner += [['b', c[0]] for c in inner[:30]] + [[c[0], 'a'] for c in inner[:30]]
    for c in combs(inner, tier != 'quick'):
        yield [[c, 'b']]
    if tier != 'quick':
        deep = [[c] for c in combs([[x] for x in cs[::2]], False)]
        for c in combs(deep, False):
            yield [['a', c, 'r']]


def run_prog(ctx, prog):
    check_prog(ctx, prog, (0, 1, 2, 3, 11) if sum(isinstance(n, list) for n in prog) < 2 else (0, 11))


# ------------------------------------------------------------------------------------------------------- building, editing
def gen_edit(tier):
    d = 4 if tier == 'quick' else 5
    acts = [['app']] + [['ins', i] for i in (0, 1, 2, -1)] + [['rem', i] for i in (0, 1, 2, -1)] + [['run'], ['same', 0], ['same', 1]]
    for s in itertools.product(range(len(acts)), repeat=d):
        yield [[acts[i] for i in s]]


def run_edit(ctx, seq):
    world = World()
    mk = lambda n: Probe(world, 'b', f'e{n}')
    first = mk('x')
    pipe = Pipeline(first, None, mk('y'))
    model = ['ex', 'ey']
    for n, a in enumerate(seq):
        if a[0] == 'app':
            pipe.append(mk(n))
            model.append(f'e{n}')
        elif a[0] == 'ins':
            pipe.insert(a[1], mk(n))
            model.insert(a[1], f'e{n}')
        elif a[0] == 'same':  # a part which is in the pipeline already
            pipe.insert(a[1] * len(model), first)
            model.insert(a[1] * len(model), 'ex')
        elif a[0] == 'rem':
            if not model or not -len(model) <= a[1] < len(model):
                try:
                    pipe.remove(a[1])
                    check(False, f'{seq}: removing at {a[1]} of {len(model)} parts must fail')
                except IndexError:
                    pass
            else:
                pipe.remove(a[1])
                del model[a[1]]
        ctx.op()
        if a[0] == 'run' or n == len(seq) - 1:
            world.trace.clear()
            pipe(PipelinePartResult())
            check_eq([t[0] for t in world.trace], model, f'{seq[:n + 1]}: parts run after editing')
            ctx.ok(model)
    ctx.state(seq)


# ------------------------------------------------------------------------------------------------- what the parts pass on
VALUES = [None, 0, '', (), False, 'x', PipelinePartResult()]


class Give(InternalPipelinePart):
    def __init__(self, rec, out):
        self.rec, self.out = rec, out

    def execute(self, current_input):
        self.rec.append(current_input)
        return self.out


def gen_values():
    for n in range(1, 4):
        for s in itertools.product(range(len(VALUES)), repeat=n + 1):
            yield [list(s)]


def run_values(ctx, s):
    rec = []
    vals = [VALUES[i] for i in s]
    parts = [Give(rec, v) for v in vals[1:]]
    for pipe in (Pipeline(*parts), Pipeline(parts[0], None, *parts[1:])):
        rec.clear()
        res = pipe(vals[0])
        ctx.op()
        check(len(rec) == len(vals) - 1 and all(a is b for a, b in zip(rec, vals)), f'{s}: what the parts received', rec)
        check(res is vals[-1], f'{s}: result', res)
    ctx.ok(s)
    ctx.state(s)


BAD = [1, 'part', (), [], {}, Pipeline, Pipeline(), PipelinePart, lambda x: x, PipelinePartResult(), 0, False, '', 1.5]


def gen_reject():
    for i in range(len(BAD)):
        for pos in range(3):
            yield [i, pos]


def run_reject(ctx, i, pos):
    parts = [EmptyStartPart(), None]
    parts.insert(pos, BAD[i])
    try:
        Pipeline(*parts)
    except TypeError:
        ctx.ok()
        ctx.op()
        ctx.state([i, pos])
        return
    raise Violation(f'{BAD[i]!r} was accepted as a pipeline part')


def run_starts(ctx, k):
    log = mk_log([[0]])
    check(accessors.log(Pipeline(UseExistingLog())(log)) is log, 'UseExistingLog must pass on the log itself')
    for bad in (None, 'x', [], PipelinePartResult()):
        try:
            Pipeline(UseExistingLog())(bad)
        except ValueError:
            continue
        raise Violation(f'UseExistingLog accepted {bad!r}')
    for bad in (None, 1, log, PipelinePartResult()):
        try:
            Pipeline(ReadLogFromXes())(bad)
        except TypeError:
            continue
        raise Violation(f'ReadLogFromXes accepted {bad!r}')
    for x in (None, 'x', log):
        check_eq(Pipeline(EmptyStartPart())(x).values, {}, 'EmptyStartPart')
    check_eq(Pipeline(EmptyStartPart())().values, {}, 'EmptyStartPart without input')
    check(Pipeline()(log) is log and Pipeline().execute(5) == 5 and Pipeline(None)('x') == 'x', 'an empty pipeline passes its input on')
    for cls in (PipelinePart, FirstPipelinePart, InternalPipelinePart):
        try:
            cls().execute(PipelinePartResult())
        except NotImplementedError:
            continue
        raise Violation('abstract part ran')
    ctx.op(12)
    ctx.ok()
    ctx.state('starts')


# ------------------------------------------------------------------------------------------------------------- contexts
SETTERS = [('with_log', accessors.log), ('with_activities', accessors.activities), ('with_repeat_sets', accessors.repeat_sets),
           ('with_trace_activities', accessors.traces_activities), ('with_patterns', accessors.patterns), ('with_petri_net', accessors.petri_net),
           ('with_event_class_tree', accessors.event_class_tree), ('with_activities_logs', accessors.activities_to_logs),
           ('with_serialized_graph', accessors.serialized_graph), ('with_graph', accessors.graph), ('with_activity_name', accessors.activity_name),
           ('with_cached_colors', accessors.cached_colors)]


def gen_ctx(tier):
    acts = [[w, s] for w in (0, 1) for s in range(len(SETTERS))] + [['copy', 0], ['copy', 1], ['custom', 0], ['custom', 1], ['none', 0], ['none', 1], ['color', 0], ['color', 1]]
    for s in itertools.product(range(len(acts)), repeat=3 if tier == 'quick' else 4):
        yield [[acts[i] for i in s]]


def run_ctx(ctx, seq):
    """two contexts, the second one initially a copy of the first"""
    impl = [PipelinePartResult(), None]
    impl[1] = copy.copy(impl[0])
    model = [{}, {}]
    for n, (w, s) in enumerate(seq):
        if w == 'copy':
            impl[1 - s] = copy.copy(impl[s])
            model[1 - s] = dict(model[s])
        elif w == 'custom':
            impl[s].with_custom_data('k', n)
            model[s]['k'] = n
        elif w == 'none':
            impl[s].with_custom_data('empty', None)
            model[s]['empty'] = None
        elif w == 'color':
            cc = accessors.cached_colors(impl[s])
            if len(SETTERS) - 1 in model[s]:
                check(cc is model[s][len(SETTERS) - 1], f'{seq}: cached colors of context {s}')
            else:
                check_eq(cc, {}, f'{seq}: cached colors of a context without colors')
                model[s][len(SETTERS) - 1] = cc
            if isinstance(cc, dict):
                cc[f'name {n}'] = '#010203'
        else:
            v = object()
            r = getattr(impl[w], SETTERS[s][0])(v)
            check(r is impl[w], 'setters return the context')
            model[w][s] = v
        ctx.op()
        for i in (0, 1):
            for j, (nm, acc) in enumerate(SETTERS[:-1]):
                try:
                    got = acc(impl[i])
                    check(j in model[i] and got is model[i][j], f'{seq}: value of {nm} in context {i}')
                except ValueError:
                    check(j not in model[i], f'{seq}: {nm} lost in context {i}')
            if len(SETTERS) - 1 in model[i]:
                check(SETTERS[-1][1](impl[i]) is model[i][len(SETTERS) - 1], f'{seq}: cached colors')
            for key in ('k', 'empty'):
                check_eq(impl[i].has_value(key), key in model[i], f'{seq}: custom value in context {i}')
                if key in model[i]:
                    check_eq(impl[i].get_value_or_throw(key), model[i][key], f'{seq}: custom value in context {i}')
    ctx.ok()
    ctx.state(seq)


# ------------------------------------------------------------------------------------------ real parts inside combinators
def gen_real(tier):
    for t in gen.logs(3, 2, 5 if tier == 'quick' else 6, min_traces=1):
        yield [t]


def picture(c):
    v = c.values
    out = {}
    for k, x in v.items():
        if k == 'log':
            out[k] = snap_names(x)
        elif k == 'activities':
            out[k] = snap_nodes(x)
        elif k == 'traces_activities':
            out[k] = [[(i.node.name, i.start_pos, i.length) for i in t] for t in x]
        elif k in ('patterns', 'repeat_sets'):
            out[k] = repr(x)
        elif k == 'activities_logs':
            out[k] = {n: snap_names(lg) for n, lg in x.items()}
        else:
            out[k] = repr(x)
    return out


def snap_names(log):
    return [[(e['concept:name'], e.payload.get('id')) for e in t] for t in log]


def cls(e):
    return e['concept:name']


class Look(InternalPipelinePart):
    def __init__(self, out):
        self.out = out

    def execute(self, current_input):
        self.out.append(picture(current_input))
        return current_input


def run_real(ctx, traces):
    log = mk_log(traces)
    before = snap(log)
    disc = lambda: DiscoverActivitiesInstancesFromRepeats(RepeatActivitiesSource.MaximalRepeats)
    outs = []
    for rnd in range(2):
        rec = []
        res = Pipeline(
            UseExistingLog(), Look(rec),
            ParallelPipeline(Pipeline(disc(), CreateLogFromActivities(use_hashes_as_names=False), Look(rec)),
                             Pipeline(Look(rec), FilterTracesByCount(1), DiscoverTandemArrays(TandemArrayKind.MaximalArray), Look(rec)),
                             Pipeline(Look(rec), disc(), Look(rec))),
            WithInputCopy(Pipeline(CreateLogFromActivities(use_hashes_as_names=False), SubstituteUnderlyingEvents(), FilterTracesByVariants(), ClearActivities(), Look(rec))),
            Look(rec),
            CreateLogsForActivities(0, cls),
            ExecuteWithEachActivityLog(Pipeline(Look(rec), disc(), Look(rec))),
            Look(rec))(log)
        ctx.op(12)
        names = [[(gen.LETTERS[c], None) for c in t] for t in traces]
        base = {'log': snap_names(log)}
        check_eq(rec[0], base, f'{traces}: start')
        check_eq(rec[2], base, f'{traces}: the second branch sees values of the first')
        check_eq(rec[4], base, f'{traces}: the third branch sees values of the others')
        check_eq(rec[7], rec[5], f'{traces}: the side pipeline on a copy changed the context')
        logs = res.values['activities_logs']
        per = rec[8:-1]
        check_eq(len(per), 2 * len(logs), f'{traces}: one run per activity')
        for j, (nm, lg) in enumerate(logs.items()):
            check_eq(per[2 * j], {'log': snap_names(lg), 'activity_name_key': repr(nm)}, f'{traces}: what the pipeline of activity {nm} sees')
        end = dict(rec[-1])
        end.pop('activities_logs')
        check_eq(end, rec[5], f'{traces}: per-activity pipelines changed the context')
        outs.append(rec)
        # discovery on temporary input leaves the rest of the context alone
        c0 = PipelinePartResult().with_log(log).with_repeat_sets('keep').with_custom_data('z', 1)
        pic = dict(c0.values)
        for strat in (ActivitiesDiscoveryStrategy.DiscoverFromAllTraces, ActivitiesDiscoveryStrategy.DiscoverFromSingleMergedTrace):
            r = DiscoverActivitiesFromPatterns(DiscoverRepeats(RepeatActivitiesSource.MaximalRepeats), strat)(c0)
            check_eq(c0.values, pic, f'{traces}: the given context was changed')
            check(r.values['log'] is log and r.values['repeat_sets'] == 'keep' and r.values['z'] == 1, f'{traces}: values of the temporary input leaked')
            check_eq(set(r.values), {'log', 'repeat_sets', 'z', 'activities', 'patterns'}, f'{traces}: values of the temporary input leaked')
    check_eq(outs[0], outs[1], f'{traces}: the second execution differs')
    check_eq(snap(log), before, 'the log was modified')
    ctx.ok(len(outs[0]))
    ctx.state(traces)


def families(tier):
    return [
        Family('flat', lambda: gen_flat(tier), run_prog, 'all pipelines of <=4 (5) probe parts incl. empty ones x 5 inputs, executed twice'),
        Family('big', gen_big, run_prog, 'pipelines of up to 300 parts or branches, nested up to 40 deep'),
        Family('one_combinator', lambda: gen_one(tier), run_prog, 'every combinator over all pipelines of <=2 probes (pairs of branches) x 4 inputs; 3 branches'),
        Family('two_combinators', lambda: gen_two(tier), run_prog, 'all pairs of combinators in sequence and nested (thorough: 3 deep)'),
        Family('edits', lambda: gen_edit(tier), run_edit, 'all sequences of 4 (5) edits'),
        Family('passed_values', gen_values, run_values, 'all sequences of <=3 parts passing on any of 7 values, empty ones included'),
        Family('rejects', gen_reject, run_reject, 'non-parts at every position'),
        Family('starts', lambda: [[0]], run_starts, 'start parts and abstract parts'),
        Family('contexts', lambda: gen_ctx(tier), run_ctx, 'all sequences of 3 (4) context operations on two contexts'),
        Family('real_parts', lambda: gen_real(tier), run_real, 'discovery parts inside combinators on all small logs, executed twice'),
    ]
