"""C05: tandem arrays are exactly the immediate repetitions."""
import itertools

from vlib.core import Family, check, check_eq
from vlib import gen, ref
from vlib.fic import history_family, mk_log, snap

from ficus.legacy.analysis.patterns.event_log_patterns import find_maximal_tandem_arrays, find_primitive_tandem_arrays
from ficus.legacy.pipelines.analysis.patterns.models import TandemArrayKind
from ficus.legacy.pipelines.analysis.patterns.patterns_parts import DiscoverTandemArrays
from ficus.legacy.pipelines.contexts.accessors import patterns
from ficus.legacy.pipelines.pipelines import Pipeline
from ficus.legacy.pipelines.start.start_parts import UseExistingLog

PROPERTY = 'C05'
ASSUMPTIONS = ['results are compared as multisets, the order of reported arrays is not promised']


def tup(arrays):
    return [sorted((a.first_pos, a.length, a.repeat_count) for a in t) for t in arrays]


def want(traces, limit, primitive):
    f = ref.primitive_tandems if primitive else ref.tandems
    return [sorted(f(t, limit)) for t in traces]


def compare(ctx, log, traces, limit, what, extractor=None, pipeline=False):
    for primitive, fn, kind in ((False, find_maximal_tandem_arrays, TandemArrayKind.MaximalArray),
                                (True, find_primitive_tandem_arrays, TandemArrayKind.PrimitiveArray)):
        if pipeline:
            kw = {} if limit is None else {'max_loop_length': limit}
            got = patterns(Pipeline(UseExistingLog(), DiscoverTandemArrays(kind, class_extractor=extractor, **kw))(log))
            lim = 20 if limit is None else limit
        else:
            kw = {} if limit is None else {'max_tandem_array_length': limit}
            if extractor is not None:
                kw['event_class_extractor'] = extractor
            got = fn(log, **kw)
            lim = 10 if limit is None else limit
        ctx.op()
        check_eq(tup(got), want(traces, lim, primitive),
                 f'{"primitive" if primitive else "maximal"} tandem arrays of {what}, limit {limit}')
        ctx.ok(tup(got))


def run_word(ctx, w, limits):
    log = mk_log([w])
    ctx.op(len(w) + 1)
    before = snap(log)
    for lim in limits:
        compare(ctx, log, [w], lim, w)
    compare(ctx, log, [w], None, w, pipeline=True)
    check_eq(snap(log), before, 'the log was modified')
    ctx.state(w)


def gen_words(tier):
    q = tier == 'quick'
    for w in gen.rgs(7, 4):
        yield [w, [None] + list(range(0, len(w) + 2))]
    for k, lo, hi in ((2, 8, 14 if q else 17), (3, 8, 10 if q else 12), (4, 8, 9 if q else 11)):
        for w in gen.rgs(hi, k, lo):
            if len(set(w)) == k or (k == 2 and len(set(w)) == 1):
                yield [w, [None, 3, 30]]


def gen_logs(tier):
    for t in gen.logs(3, 3, 8 if tier == 'quick' else 9, min_traces=0):
        if len(t) != 1:
            yield [t]


def run_log(ctx, traces):
    log = mk_log(traces)
    compare(ctx, log, traces, None, traces)
    compare(ctx, log, traces, 3, traces, pipeline=True)
    ctx.state(traces)


def gen_names():
    c = gen.CONFUSABLE
    for i, j in itertools.permutations(range(len(c)), 2):
        yield [i, j]


def run_names(ctx, i, j):
    x, y = gen.CONFUSABLE[i], gen.CONFUSABLE[j]
    for w in ([x, y, x, y], [x, y, y, x, y, x], [x, x, y, y, x, x, y, y], [x, y, x, x, y], [y, x, x, x, x], [x, y, x, y, x, y, y, x, y, x]):
        log = mk_log([w])
        compare(ctx, log, [w], None, w)
        ctx.state(w)


SEQ = ['ab', 'c', 'ac', 'b', 'a', 'abc', 'bc', '']


def gen_seqs():
    for q in itertools.product(range(len(SEQ)), repeat=4):
        yield list(q)


def run_seqs(ctx, *q):
    a, b, c, d = (SEQ[i] for i in q)
    w = [a, b, a, b, 'Z', c, d, c, d]
    compare(ctx, mk_log([w]), [w], None, w)
    ctx.state(w)


EXTR = [lambda e: e['concept:name'][0], lambda e: e['concept:name'][1:], lambda e: 'x', lambda e: e['concept:name'] + 'y', lambda e: str(e['id'] % 2)]


def gen_extr(tier):
    for w in gen.rgs(6 if tier == 'quick' else 7, 4):
        for k in range(len(EXTR)):
            yield [w, k]


def run_extr(ctx, w, k):
    names = ['Aa', 'Ab', 'Ba', 'Bb']
    log = mk_log([w, w], names)
    for pipeline in (False, True):
        compare(ctx, log, [[EXTR[k](e) for e in t] for t in log], None, (w, 'extractor', k), extractor=EXTR[k], pipeline=pipeline)
    ctx.state(['x', w, k])


def gen_runs():
    for n in (31, 32, 33, 64, 127, 128, 255, 256, 257, 300, 512, 1000, 1025):
        for L in (1, 2, 3):
            yield [n, L]


def run_runs(ctx, n, L):
    """blocks of 1-3 events repeated up to about 1000 times"""
    w = [7] + list(range(L)) * (n // L + 1) + [8] + list(range(L)) * 2
    log = mk_log([[f'n{i}' for i in w]])
    for lim in (3, 4, 5):
        compare(ctx, log, [w], lim, (n, L))
    compare(ctx, log, [w], 4, (n, L), pipeline=True)
    ctx.state(['runs', n, L])


def gen_long():
    """periodic traces with a block of every length 2..25, repeated 2..4 times, every offset 0..2, broken at every place"""
    for L in range(2, 26):
        for r in (2, 3, 4):
            for pre in (0, 1, 2):
                yield [L, r, pre]


def run_long(ctx, L, r, pre):
    block = list(range(L))
    w = [100 + i for i in range(pre)] + block * r + block[:L // 2] + [200]
    names = {i: f'n{i}' for i in w}
    log = mk_log([[names[i] for i in w]])
    for lim in (None, L, L + 1, 2 * L + 1, 100):
        compare(ctx, log, [w], lim, w)
        compare(ctx, log, [w], lim, w, pipeline=True)
    for brk in range(pre, len(w)):
        if L > 6 and (brk - pre) % L not in (0, 1, L - 1):
            continue
        v = list(w)
        v[brk] = 300
        compare(ctx, mk_log([[f'n{i}' for i in v]]), [v], L + 1, v)
    # the array touches the end of the trace, or all but a few events of it; the block may start with a repeated event
    for blk in (block, [0] + block[:-1], block[:-1] + [block[-2]]):
        for tail in (0, 1, 2, L - 1, L):
            v = [100 + i for i in range(pre)] + blk * r + (blk[:tail] if tail > 2 else [200 + i for i in range(tail)])
            lg = mk_log([[f'n{i}' for i in v]])
            for lim in (None, L + 1, 100) if L <= 8 else (None, L + 1):
                compare(ctx, lg, [v], lim, v)
    ctx.state(['long', L, r, pre])


def families(tier):
    q = tier == 'quick'
    return [
        Family('words', lambda: gen_words(tier), run_word, f'all traces up to renaming: <=7 events/4 classes with every limit, {14 if q else 17}/2, {10 if q else 12}/3, {9 if q else 11}/4'),
        Family('logs', lambda: gen_logs(tier), run_log, f'all logs of <=3 traces, <={8 if q else 9} events, 3 classes'),
        Family('names', gen_names, run_names, f'all ordered pairs of {len(gen.CONFUSABLE)} confusable names in 6 layouts'),
        Family('name_sequences', gen_seqs, run_seqs, 'all pairs of two-name blocks over 8 names whose concatenations coincide'),
        Family('extractors', lambda: gen_extr(tier), run_extr, 'all traces up to 6 events x 5 class extractors'),
        history_family(run_log),
        Family('long_runs', gen_runs, run_runs, 'blocks of 1-3 events in runs of up to 1025 events'),
        Family('long_blocks', gen_long, run_long, 'block lengths 2..25 x repeats x offsets x broken positions (every one for blocks <=6, block edges otherwise) x 5 tails x 3 block shapes'),
    ]
