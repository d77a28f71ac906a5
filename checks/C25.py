"""C25: the backend's tandem arrays, repeats, repeat sets and hierarchies are exact."""
import itertools

from vlib import gen, ref, rustlib
from vlib.core import Family, check, check_eq, known_findings
from vlib.rustlib import backend

PROPERTY = 'C25'
ASSUMPTIONS = ['the backend is compiled with stand-ins for the crates which are not in the crate cache (see DESIGN.md)',
               'the order of reported patterns inside a trace is not promised']
setup = rustlib.setup(PROPERTY)

KINDS = ['maximal', 'super', 'near']
L = gen.LETTERS


def names(traces, letters=L):
    return [[letters[i] for i in t] for t in traces]


# -------------------------------------------------------------------------------------------------------- tandem arrays
def gen_tandem(tier):
    q = tier == 'quick'
    for k, hi in ((2, 11 if q else 14), (3, 9 if q else 11), (4, 7 if q else 9)):
        for w in gen.rgs(hi, k):
            if len(set(w)) == k or k == 2:
                yield [[w], None]
    for t in gen.logs(2, 3, 7 if q else 8, min_traces=0):
        yield [t, None]
    for w in gen.rgs(8, 2, 6):
        for limit in range(0, 7):
            yield [[w], limit]


def check_tandems(ctx, log, limit, maximal, primitive, what):
    check_eq([len(maximal), len(primitive)], [len(log)] * 2, f'{what}: number of analysed traces')
    for w, m, p in zip(log, maximal, primitive):
        check_eq(sorted(map(tuple, m)), sorted(ref.tandems(w, limit)), f'{what}: maximal tandem arrays of {w} limit {limit}')
        check_eq(sorted(map(tuple, p)), sorted(ref.primitive_tandems(w, limit)), f'{what}: primitive tandem arrays of {w} limit {limit}')
        ctx.ok(m)


def run_tandem(ctx, log, limit):
    limit = 20 if limit is None else limit
    m, p = backend()('tandem', log=log, limit=limit)
    ctx.op(2)
    check_tandems(ctx, log, limit, m, p, 'numbers')
    m, sets = backend()('patterns', log=names(log), kind='tandem', limit=limit)
    p, _ = backend()('patterns', log=names(log), kind='primitive', limit=limit)
    ctx.op(2)
    for w, tm, tp in zip(log, m, p):
        check_eq(sorted(map(tuple, tm)), sorted(x[:2] for x in ref.tandems(w, limit)), f'tandem arrays of events {w} limit {limit}')
        check_eq(sorted(map(tuple, tp)), sorted(x[:2] for x in ref.primitive_tandems(w, limit)), f'primitive tandem arrays of events {w}')
    ctx.state([log, limit])


# ------------------------------------------------------------------------------------------------------------- repeats
def contents(w, infos, what):
    out = []
    for s, ln in infos:
        check(ln >= 1 and s >= 0 and s + ln <= len(w), f'{what}: repeat outside the trace', (s, ln))
        out.append(tuple(w[s:s + ln]))
    check(len(out) == len(set(out)), f'{what}: a repeat is reported twice', out)
    return set(out)


EQUAL_LEFT, TRACE_START = 'C25-equal-left-contexts', 'C25-near-at-trace-start'


def described(traces, kind):
    """What the two listed findings (both pinned by existing tests of the backend) leave of the repeats: a maximal repeat
    is lost when every event (or end) that follows it has the same preceding events, two or more and no trace start among
    them; a near-super-maximal one when only occurrences at the beginning of a trace witness it. Returns (repeats, ids)"""
    flat = []
    for i, t in enumerate(traces):
        flat += [('e', x) for x in t] + [('end', i)]
    exact = ref.repeats(traces[0] if len(traces) == 1 else ref.merged(traces), kind)
    kept, why = set(), set()
    for s in exact:
        tagged = tuple(('e', x) for x in s)
        groups = {}
        for i in range(len(flat) - len(s)):
            if tuple(flat[i:i + len(s)]) == tagged:
                left = flat[i - 1] if i and flat[i - 1][0] == 'e' else ('start', i)
                groups.setdefault(flat[i + len(s)], []).append(left)
        lefts = [x for g in groups.values() for x in g]
        sets = {frozenset(g) for g in groups.values()}
        if kind == 0 and len(sets) == 1:
            why.add(EQUAL_LEFT)
        elif kind == 2 and not any(len(g) == 1 and g[0][0] == 'e' and lefts.count(g[0]) == 1 for g in groups.values()):
            why.add(TRACE_START)
        else:
            kept.add(s)
    return kept, why


def check_contents(ctx, found, traces, kind, what):
    want = ref.repeats(traces[0] if len(traces) == 1 else ref.merged(traces), kind) if traces else set()
    if set(found) != want and traces:
        kept, why = described(traces, kind)
        if set(found) == kept and why <= set(known_findings()):
            for f in why:
                ctx.findings[f] = ctx.findings.get(f, 0) + 1
            return
    check_eq(sorted(map(repr, found)), sorted(map(repr, want)), what)


def check_repeats(ctx, log, classes, what, **kw):
    """all kinds, traces analysed one by one and merged"""
    for k, kind in enumerate(KINDS):
        got, sets = backend()('patterns', log=log, kind=kind, **kw)
        ctx.op()
        check_eq(len(got), len(log), f'{what}: number of analysed traces')
        for w, infos in zip(classes, got):
            c = contents(w, infos, (what, kind))
            check_contents(ctx, c, [w], k, f'{kind} repeats of {w} in {what}')
            ctx.ok(sorted(map(repr, c)))
        check_sets(ctx, classes, got, sets, (what, kind))
        got, sets = backend()('patterns', log=log, kind=kind, merged=True, **kw)
        ctx.op()
        check_eq(len(got), len(log), f'{what}, merged: number of traces')
        found = []
        for w, infos in zip(classes, got):
            found += contents(w, infos, (what, kind, 'merged'))
        check(len(found) == len(set(found)), f'{what}, {kind}, merged: a repeat is reported twice', found)
        check_contents(ctx, found, classes, k, f'{kind} repeats of all traces {what}')
        check_sets(ctx, classes, got, sets, (what, kind, 'merged'))


def check_sets(ctx, classes, patterns, sets, what):
    key = lambda ti, s, ln: frozenset(classes[ti][s:s + ln])
    want = {key(ti, s, ln) for ti, t in enumerate(patterns) for s, ln in t}
    have = []
    for s, ln, ti in sets:
        check([s, ln] in patterns[ti], f'{what}: a repeat set that is not one of the patterns', (s, ln, ti))
        have.append(key(ti, s, ln))
    check(len(have) == len(set(have)), f'{what}: the same class set twice', have)
    check(set(have) == want, f'{what}: class sets', have, want)
    ctx.ok(sorted(map(sorted, want)))


def gen_words(tier):
    q = tier == 'quick'
    for w in gen.rgs(6, 4):
        yield [[w]]
    for k, hi in ((2, 10 if q else 13), (3, 8 if q else 10), (4, 7 if q else 9)):
        for w in gen.rgs(hi, k, 7):
            if len(set(w)) == k or (k == 2 and len(set(w)) == 1):
                yield [[w]]
    for t in gen.logs(3, 3, 6 if q else 7):
        yield [t]


def run_words(ctx, log):
    check_repeats(ctx, names(log), log, log)
    ctx.state(log)


# --------------------------------------------------------------------------------------------------- names and regexes
def gen_names():
    c = gen.CONFUSABLE
    for i, j in itertools.permutations(range(len(c)), 2):
        yield [i, j]


def run_names(ctx, i, j):
    x, y = gen.CONFUSABLE[i], gen.CONFUSABLE[j]
    for w in ([x, x, y], [x, 'Q', y, 'Q', x], [y, 'P', x, 'P', y, x], [x, y, y, x, y, x, y]):
        check_repeats(ctx, [w, [x, y]], [w, [x, y]], w)
        m, _ = backend()('patterns', log=[w], kind='tandem', limit=5)
        check_eq(sorted(map(tuple, m[0])), sorted(t[:2] for t in ref.tandems(w, 5)), f'tandem arrays of {w}')
        ctx.state(w)


REGEXES = ['^A', '^[AB]', '[a]', '^..', 'A|B', '^(Aa|B)', 'x']
RNAMES = ['Aa', 'Ab', 'Ba', 'Bb']


def regex_class(k, n):
    """the part matched at the beginning of the name, else the whole name"""
    import re
    m = re.search(REGEXES[k], n)
    return n[:m.end()] if m and m.start() == 0 else n


def gen_regex(tier):
    for w in gen.rgs(5 if tier == 'quick' else 6, 4):
        for k in range(len(REGEXES)):
            yield [w, k]


def run_regex(ctx, w, k):
    log = [[RNAMES[i] for i in w], [RNAMES[i] for i in w[::-1]]]
    classes = [[regex_class(k, n) for n in t] for t in log]
    check_repeats(ctx, log, classes, (w, REGEXES[k]), regex=REGEXES[k])
    m, _ = backend()('patterns', log=log, kind='tandem', limit=5, regex=REGEXES[k])
    for t, x in zip(classes, m):
        check_eq(sorted(map(tuple, x)), sorted(t3[:2] for t3 in ref.tandems(t, 5)), f'tandem arrays of {log} under {REGEXES[k]}')
    check_tree(ctx, log, classes, dict(kind='maximal', regex=REGEXES[k]), (log, REGEXES[k]))
    ctx.state(['r', w, k])


# --------------------------------------------------------------------------------------------------------- hierarchies
def check_tree(ctx, log, classes, kw, what):
    _, sets = backend()('patterns', log=log, **kw)
    for level in (0, 3):
        roots = backend()('tree', log=log, level=level, **kw)
        ctx.op()
        parents, nodes, stack = {}, {}, [(None, r) for r in roots]
        while stack:
            p, n = stack.pop()
            c = tuple(n['classes'])
            s, ln, ti = n['set']
            check_eq(sorted(set(classes[ti][s:s + ln])), list(c), f'{what}: classes of an activity')
            check_eq(n['name'], '|'.join(log[ti][s:s + ln]), f'{what}: name of an activity')
            check_eq(n['level'], level, f'{what}: level of an activity')
            check(nodes.setdefault(c, n['set']) == n['set'], f'{what}: two activities have the same classes', c)
            parents.setdefault(c, set()).add(p)
            if p is not None:
                check(set(c) < set(p), f'{what}: a child is not contained in its parent', c, p)
            check(len({tuple(x['classes']) for x in n['children']}) == len(n['children']), f'{what}: a child is listed twice', n)
            stack.extend((c, x) for x in n['children'])
        want = {tuple(sorted(set(classes[ti][s:s + ln]))): [s, ln, ti] for s, ln, ti in sets}
        check_eq(sorted(nodes), sorted(want), f'{what}: activities')
        check_eq(nodes, want, f'{what}: repeat sets of activities')
        check(len(roots) == len({tuple(r['classes']) for r in roots}), f'{what}: a top-level activity is listed twice')
        for c, ps in parents.items():
            above = [o for o in want if set(c) < set(o)]
            if not above:
                check_eq(ps, {None}, f'{what}: {c} must be top-level')
            else:
                check(None not in ps, f'{what}: a contained activity is top-level', c)
                low = min(map(len, above))
                check(any(p in ps for p in above if len(p) == low), f'{what}: no parent of {c} is a smallest activity containing it', ps, above)
        ctx.ok(sorted(nodes))


def gen_tree(tier):
    q = tier == 'quick'
    for t in gen.logs(4, 3, 6 if q else 7, min_traces=1):
        yield [t, 'maximal']
    for w in gen.rgs(9 if q else 10, 3, 7):
        yield [[w], 'near']
        yield [[w], 'tandem']


SETS = [c for n in range(1, 5) for c in itertools.combinations('ABCD', n)]


def gen_families(tier):
    """hierarchies of every family of up to 4 (5) class sets over 4 classes"""
    for n in range(1, 5 if tier == 'quick' else 7):
        for fam in itertools.combinations(range(len(SETS)), n):
            yield [fam]
    chain = ['A', 'AB', 'ABC', 'ABCD', 'ABCDE', 'ABCDEF', 'G', 'GH', 'AG', 'ABG', 'CDEFGH']
    for sub in gen.subsets(range(len(chain))):
        if len(sub) > 4:
            yield [['c'] + sub]


def run_families(ctx, fam):
    chain = ['A', 'AB', 'ABC', 'ABCD', 'ABCDE', 'ABCDEF', 'G', 'GH', 'AG', 'ABG', 'CDEFGH']
    sets = [chain[i] for i in fam[1:]] if fam and fam[0] == 'c' else [SETS[i] for i in fam]
    # a block repeated twice with fresh separators is a super-maximal repeat of its own trace
    log = [list(s) + ['#%d' % i] + list(s) for i, s in enumerate(sets)]
    check_tree(ctx, log, log, dict(kind='super'), log)
    check_tree(ctx, log[::-1], log[::-1], dict(kind='super'), log[::-1])
    ctx.state(['f', fam])


def run_tree(ctx, log, kind):
    kw = dict(kind=kind, limit=9)
    ns = names(log)
    check_tree(ctx, ns, ns, kw, (log, kind))
    if kind == 'maximal':
        check_tree(ctx, ns, ns, dict(kw, merged=True), (log, kind, 'merged'))
    ctx.state(['t', log, kind])


# -------------------------------------------------------------------------------------------------------- suffix trees
def gen_suffix(tier):
    q = tier == 'quick'
    for t in gen.logs(3, 3, 7 if q else 8, min_traces=1):
        yield [t]
    for w in gen.rgs(9 if q else 11, 2, 8):
        yield [[w]]


def run_suffix(ctx, log):
    patterns = sorted({tuple(w[i:j]) for w in log for i in range(len(w)) for j in range(i + 1, len(w) + 1)} | set(itertools.product(range(3), repeat=2)) | {(0,), (7,)})
    got = backend()('suffix', log=log, patterns=patterns)
    ctx.op(len(patterns))
    flat = []
    for w in log:
        flat += list(w) + [None]
    for p, g in zip(patterns, got):
        want = [[i, i + len(p)] for i in range(len(flat)) if tuple(flat[i:i + len(p)]) == p]
        check_eq(g or [], want, f'occurrences of {p} in {log}')
        ctx.ok(want)
    ctx.state(['s', log])


# ---------------------------------------------------------------------------------------------------------- long traces
def gen_long():
    for n in range(1, 31):
        for form in range(6):
            yield [n, form]


def run_long(ctx, n, form):
    u = [f'e{i}' for i in range(n)]
    w = [['a'] * n, ['a', 'b'] * min(n, 15), u + ['X'] + u, u + ['X'] + u + ['Y'] + u[:n // 2], (u * 3)[:40], u + ['X'] + u * 2][form]
    check_repeats(ctx, [w, u], [w, u], w)
    for limit in (5, 100):
        m, _ = backend()('patterns', log=[w], kind='tandem', limit=limit)
        check_eq(sorted(map(tuple, m[0])), sorted(t[:2] for t in ref.tandems(w, limit)), f'tandem arrays of {w}')
    ctx.state(w)


def families(tier):
    q = tier == 'quick'
    return [
        Family('tandem arrays', lambda: gen_tandem(tier), run_tandem, f'all traces up to renaming <= {11 if q else 14}/2, {9 if q else 11}/3, {7 if q else 9}/4 classes, all logs of <= 3 traces, all limits 0..6'),
        Family('repeats', lambda: gen_words(tier), run_words, f'all traces up to renaming <= {10 if q else 13}/2, {8 if q else 10}/3, {7 if q else 9}/4 classes; all logs of <= 3 traces; 3 kinds, separate and merged'),
        Family('names', gen_names, run_names, 'all ordered pairs of confusable names in 4 layouts'),
        Family('regexes', lambda: gen_regex(tier), run_regex, 'all traces of <= 5 (6) events x 7 class regexes'),
        Family('hierarchies', lambda: gen_tree(tier), run_tree, 'all logs of <= 3 traces and 6 (7) events over 4 classes; traces of 7..9 (10) events'),
        Family('set families', lambda: gen_families(tier), run_families, 'every family of <= 4 (6) of the 15 class sets over 4 classes, chains over 8 classes'),
        Family('suffix trees', lambda: gen_suffix(tier), run_suffix, 'all sub-sequences of all logs of <= 3 traces and 7 (8) events'),
        Family('long', gen_long, run_long, 'six parametrised families of traces, n = 1..30'),
    ]
