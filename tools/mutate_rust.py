#!/usr/bin/env python3
"""mutate_rust.py OUT.jsonl PROP [--n N] [--seed S] [--workers W] [--jobs J] [FILE...]: small textual mutations of the Rust files a
property is anchored in, judged by the quick check of the property.  A development aid; never run by a check."""
import argparse, json, os, queue, random, re, shutil, subprocess, sys, threading, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RULES = [(r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '), (r' && ', ' || '), (r' \|\| ', ' && '),
         (r' \+ 1\b', ''), (r' - 1\b', ''), (r' \+ ', ' - '), (r' \+= ', ' = '), (r' / ', ' * '), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\b0\b', '1'), (r'\b1\b', '0'), (r'\b1\b', '2'),
         (r'if !', 'if '), (r'\bif (?!let)', 'if !'), (r'^(\s*)continue;', r'\1'), (r'^(\s*)break;', r'\1'), (r'^(\s*)[\w.]+(\(\))?\.(push|insert|remove|clear|sort\w*|extend|push_str|reverse|set_\w+)\(.*\);$', r'\1'),
         (r'\.max\(', '.min('), (r'\.min\(', '.max('), (r'\.first\(\)', '.last()'), (r'\.last\(\)', '.first()'), (r'\.any\(', '.all('), (r'\.all\(', '.any('), (r'\.rev\(\)', ''), (r'\.skip\(1\)', ''),
         (r'\.is_some\(\)', '.is_none()'), (r'\.is_none\(\)', '.is_some()'), (r'\.filter\((\|[^|]*\|) ', r'.filter(\1 !'), (r'0\.\.', '1..'), (r'\.\.=', '..'), (r'Some\(([a-z_]+)\)(?=[,;)])', 'None')]


def mutants(text):
    lines = text.split('\n')
    for i, line in enumerate(lines):
        if '#[cfg(test)]' in line:
            break
        if line.strip().startswith(('//', 'use ', '#', 'pub fn', 'fn ', 'impl', 'pub struct', 'pub const', 'where', 'T')) or 'fn ' in line:
            continue
        for rx, new in RULES:
            for m in re.finditer(rx, line):
                changed = line[:m.start()] + m.expand(new) + line[m.end():]
                if changed != line:
                    yield i, line, changed


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('out'); ap.add_argument('prop'); ap.add_argument('files', nargs='*')
    ap.add_argument('--n', type=int, default=40); ap.add_argument('--seed', type=int, default=1); ap.add_argument('--workers', type=int, default=3); ap.add_argument('--jobs', default='2')
    a = ap.parse_args()
    files = a.files or [f for l in open(VERIF + '/properties.jsonl') for p in [json.loads(l)] if p['id'] == a.prop for f in re.findall(r'src/rust/[\w/.]+\.rs', json.dumps(p))]
    files = sorted(set(files))
    todo = []
    for f in files:
        text = open('/repo/' + f).read()
        todo += [(f, i, o, c) for i, o, c in mutants(text)]
    random.Random(a.seed).shuffle(todo)
    print(len(todo), 'mutants in', len(files), 'files', flush=True)
    todo = todo[:a.n]
    q = queue.Queue()
    for t in todo:
        q.put(t)
    lock = threading.Lock()
    out = open(a.out, 'a')

    def work(k):
        d = f'/tmp/mr/{a.prop}_{k}'
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree('/repo', d + '/repo', symlinks=True, ignore=shutil.ignore_patterns('.git'))
        code = ('import sys, os, shutil; sys.path.insert(0, %r)\nfrom vlib import rustlib, core\nold = rustlib.build\n'
                'def build(d, prop):\n    shutil.rmtree(%r + "/b/crate", ignore_errors=True); os.makedirs(%r + "/b", exist_ok=True); return old(%r + "/b", prop)\n'
                'rustlib.build = build\ncode = core.main([%r, "quick"])\nsys.stdout.flush(); os._exit(code)\n') % (VERIF, d, d, d, a.prop)
        open(d + '/go.py', 'w').write(code)
        while True:
            try:
                f, i, o, c = q.get_nowait()
            except queue.Empty:
                break
            p = d + '/repo/' + f
            text = open(p).read()
            lines = text.split('\n')
            assert lines[i] == o
            lines[i] = c
            open(p, 'w').write('\n'.join(lines))
            env = dict(os.environ, VERIF_REPO=d + '/repo', VERIF_JOBS=a.jobs, VERIF_CHILD='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1')
            t = time.time()
            r = subprocess.run(['/opt/venv/bin/python', d + '/go.py'], env=env, capture_output=True, text=True)
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            res = 'killed' if v else 'survived' if r.returncode == 0 else 'nocompile' if 'does not compile' in r.stdout + r.stderr else 'other'
            open(p, 'w').write(text)
            with lock:
                out.write(json.dumps(dict(prop=a.prop, res=res, file=f, line=i + 1, old=o.strip(), new=c.strip(), t=round(time.time() - t), err='' if res != 'other' else (r.stdout + r.stderr)[-300:])) + '\n')
                out.flush()
        shutil.rmtree(d, ignore_errors=True)
    ts = [threading.Thread(target=work, args=(k,)) for k in range(a.workers)]
    [t.start() for t in ts]
    [t.join() for t in ts]


main()
