#!/usr/bin/env python3
"""mutate.py OUT.jsonl [--per-function N] [--seed S] [--workers W] FILE...: systematic small mutations of source files (paths under
src/python/ficus); every mutant that passes the stable tests is judged by the quick checks of the properties anchored in its file.
A development aid which shows where the checks are blind; never run by a check."""
import argparse, ast, json, os, random, shutil, subprocess, sys, threading, time, queue
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
SRC = 'src/python/ficus/'
G = 'tests/grpc_pipelines'
IGN = [f'--ignore={G}/test_{m}.py' for m in 'alpha_discovery alpha_plus_discovery alpha_plus_plus_discovery alpha_plus_plus_nfc_discovery clustering dfg_discovery filtering_pipelines grpc_pipelines heuristic_discovery patterns_pipelines'.split()]
COST = {}
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '+', ast.Div: '*', ast.FloorDiv: '*', ast.Mod: '+'}


def mutants(text):
    tree = ast.parse(text)
    lines = text.split('\n')
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()) + 1)
    data = text.encode()

    def span(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def src(n):
        a, b = span(n)
        return data[a:b].decode()

    out = []

    def add(fn, n, new, kind):
        a, b = span(n)
        out.append((fn, n.lineno, kind, data[a:b].decode(), (data[:a] + new.encode() + data[b:]).decode(), new))

    def visit(n, fn):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            fn = fn + '.' + n.name
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            add(fn, n, f'{src(n.left)} {CMP[type(n.ops[0])]} {src(n.comparators[0])}', 'cmp')
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            add(fn, n, f'({src(n.left)} {BIN[type(n.op)]} {src(n.right)})', 'bin')
        elif isinstance(n, ast.BoolOp):
            add(fn, n, '(' + (' or ' if isinstance(n.op, ast.And) else ' and ').join(f'({src(v)})' for v in n.values) + ')', 'bool')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(fn, n, f'({src(n.operand)})', 'not')
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            add(fn, n, str(n.value + 1), 'const')
            if n.value:
                add(fn, n, str(n.value - 1), 'const')
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            add(fn, n, str(not n.value), 'flag')
        elif isinstance(n, ast.IfExp):
            add(fn, n, f'({src(n.body)})', 'ifexp'); add(fn, n, f'({src(n.orelse)})', 'ifexp')
        elif isinstance(n, (ast.If, ast.While)) and fn:
            add(fn, n.test, f'True', 'test')if isinstance(n, ast.If) else None
            add(fn, n.test, f'False', 'test')
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and fn:
            if 'super().__init__' not in src(n):
                add(fn, n, 'pass', 'stmt')
        elif isinstance(n, ast.AugAssign):
            add(fn, n, 'pass', 'stmt')
        elif isinstance(n, ast.Assign) and fn and isinstance(n.targets[0], (ast.Subscript, ast.Attribute)) and not fn.endswith('__init__'):
            add(fn, n, 'pass', 'stmt')
        elif isinstance(n, (ast.Break, ast.Continue)):
            add(fn, n, 'pass' , 'jump')
            if isinstance(n, ast.Continue): add(fn, n, 'break', 'jump')
        elif isinstance(n, ast.Call) and len(n.args) >= 1 and isinstance(n.func, (ast.Name, ast.Attribute)):
            name = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id
            if name in ('copy', 'deepcopy', 'sorted', 'list', 'set', 'reversed', 'int', 'round') and isinstance(n.args[0], ast.AST):
                add(fn, n, f'{src(n.args[0])}', 'call')
            if name in ('min', 'max'):
                add(fn, n, src(n).replace(name, 'max' if name == 'min' else 'min', 1), 'call')
            if len(n.args) == 2 and name not in ('isinstance', 'getattr', 'setattr'):
                add(fn, n, f'{src(n.func)}({src(n.args[1])}, {src(n.args[0])})' if not n.keywords else src(n), 'swap')
        elif isinstance(n, ast.Return) and n.value is not None and isinstance(n.value, ast.Name) and False:
            pass
        for c in ast.iter_child_nodes(n):
            if isinstance(n, (ast.FunctionDef, ast.arg)) and c is getattr(n, 'annotation', None):
                continue
            visit(c, fn)
    visit(tree, '')
    good, seen = [], set()
    for m in out:
        if m[4] == text or m[4] in seen:
            continue
        seen.add(m[4])
        try:
            compile(m[4], 'm', 'exec')
        except SyntaxError:
            continue
        good.append(m)
    return good


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('out'); ap.add_argument('files', nargs='*')
    ap.add_argument('--per-function', type=int, default=6); ap.add_argument('--seed', type=int, default=1); ap.add_argument('--workers', type=int, default=4)
    ap.add_argument('--jobs', default='3'); ap.add_argument('--budget', type=float, default=1e9)
    a = ap.parse_args()
    rnd = random.Random(a.seed)
    props = [json.loads(l) for l in open(VERIF + '/properties.jsonl')]
    claimed = {c['property'] for c in json.load(open(VERIF + '/MANIFEST.json'))['checks']}
    base = json.load(open('/opt/vp/BASELINE.json'))
    jobs, todo = queue.Queue(), []
    done = {(r['file'], r['fn'], r['line'], r['old'], r['new']) for r in map(json.loads, open(a.out))} if os.path.exists(a.out) else set()
    for f in a.files:
        text = open('/repo/' + SRC + f).read()
        ps = [p['id'] for p in props if p['id'] in claimed and any(x == SRC + f for x in p['anchors']['files'])]
        by = {}
        for m in mutants(text):
            by.setdefault(m[0], []).append(m)
        for fn, ms in by.items():
            rnd.shuffle(ms)
            for m in ms[:a.per_function]:
                if (f, m[0], m[1], m[3][:200], m[5][:200]) not in done:
                    todo.append((f, ps, text, m))
    rnd.shuffle(todo)
    for j in todo:
        jobs.put(j)
    print(jobs.qsize(), 'mutants', flush=True)
    end = time.time() + a.budget
    lock = threading.Lock()
    outf = open(a.out, 'a')

    def work(k):
        wt = f'/tmp/mutwt{k}'
        shutil.rmtree(wt, ignore_errors=True)
        shutil.copytree('/repo', wt, symlinks=True)
        while time.time() < end:
            try:
                f, ps, text, m = jobs.get_nowait()
            except queue.Empty:
                break
            p = os.path.join(wt, SRC, f)
            open(p, 'w').write(m[4])
            env = dict(os.environ, PYTHONPATH=wt + '/src/python', PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg')
            try:
                r = subprocess.run([PY, '-m', 'pytest', '-q', '--continue-on-collection-errors', '-p', 'no:cacheprovider', '--rootdir=' + wt + '/src/python', '--timeout=60', *IGN, 'tests'],
                                   cwd=wt + '/src/python', env=env, capture_output=True, text=True, timeout=200)
                t = r.stdout.strip().splitlines()[-1]
            except subprocess.TimeoutExpired:
                t = 'timeout failed'
            res = {'file': f, 'fn': m[0], 'line': m[1], 'kind': m[2], 'old': m[3][:200], 'new': m[5][:200], 'tests': t}
            if '125 passed' not in t:
                res['verdict'] = 'tests'
            else:
                res['verdict'] = 'MISSED'
                res['props'] = {}
                for pr in sorted(ps, key=lambda x: COST.get(x, 20)):
                    t0 = time.time()
                    try:
                        r = subprocess.run([PY, 'run.py', pr, 'quick'], cwd=VERIF, env=dict(os.environ, VERIF_REPO=wt, VERIF_JOBS=a.jobs, VERIF_OUT=wt + '/.out'), capture_output=True, text=True, timeout=900)
                        rc = r.returncode
                    except subprocess.TimeoutExpired:
                        rc = 'timeout'
                    if rc == 0:
                        with lock: COST[pr] = time.time() - t0
                    res['props'][pr] = rc
                    if rc == 1:
                        res['verdict'] = 'caught ' + pr
                        break
                    if rc != 0:
                        res['err'] = (r.stdout + r.stderr)[-300:] if rc != 'timeout' else 'timeout'
            open(p, 'w').write(text)
            with lock:
                outf.write(json.dumps(res) + '\n'); outf.flush()
        shutil.rmtree(wt, ignore_errors=True)
    ts = [threading.Thread(target=work, args=(k,)) for k in range(a.workers)]
    [t.start() for t in ts]; [t.join() for t in ts]


main()
