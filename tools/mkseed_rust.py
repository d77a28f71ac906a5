#!/usr/bin/env python3
"""mkseed_rust.py SPEC.py [ID...]: plants the bugs of SPEC.py (a list SEEDS of dicts id, property, needs, breaks, edits=[(file, old, new)],
demo) in a scratch copy of /repo, confirms that the stable tests pass and that the demo tells the trees apart, and writes seeded/<id>/."""
import json, os, re, runpy, shutil, subprocess, sys, xml.etree.ElementTree as ET
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = '/tmp/seedwtr'
PY = '/opt/venv/bin/python'
base = json.load(open('/opt/vp/BASELINE.json'))
stable = set(base if isinstance(base, list) else base.get('passed') or base.get('stable') or base.get('tests'))
G = 'tests/grpc_pipelines'
IGN = [f'--ignore={G}/test_{m}.py' for m in 'alpha_discovery alpha_plus_discovery alpha_plus_plus_discovery alpha_plus_plus_nfc_discovery clustering dfg_discovery filtering_pipelines grpc_pipelines heuristic_discovery patterns_pipelines'.split()]

def tests(tree):
    env = dict(os.environ, PYTHONPATH=tree + '/src/python', PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg')
    r = subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--rootdir=' + tree + '/src/python', '--timeout=300', '--continue-on-collection-errors', *IGN, 'tests'],
                       cwd=tree + '/src/python', env=env, capture_output=True, text=True)
    return r.stdout.strip().splitlines()[-1]

def demo(d, tree):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1'); env.pop('PYTHONPATH', None)
    r = subprocess.run(['bash', d + '/demo.sh'], cwd=tree, env=env, capture_output=True, text=True, timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-400:]

specs = runpy.run_path(sys.argv[1])['SEEDS']
want = set(sys.argv[2:])
for s in specs:
    if want and s['id'] not in want:
        continue
    shutil.rmtree(WT, ignore_errors=True)
    shutil.copytree('/repo', WT, symlinks=True)
    subprocess.run(['git', 'checkout', '-q', '--', '.'], cwd=WT)
    for f, old, new in s['edits']:
        p = os.path.join(WT, 'src/rust/ficus_backend/src', f)
        t = open(p).read()
        assert t.count(old) == 1, (s['id'], f, t.count(old))
        open(p, 'w').write(t.replace(old, new))
        at = t[:t.index(old)].count('\n') + 1
        import difflib
        ol, nl = old.split('\n'), new.split('\n')
        base = subprocess.check_output(['git', 'rev-list', '--max-parents=0', 'HEAD'], cwd='/repo').decode().strip()
        for tag, i1, i2, j1, j2 in difflib.SequenceMatcher(None, ol, nl).get_opcodes():
            if tag != 'equal' and i2 > i1:
                b = subprocess.check_output(['git', 'blame', '-s', '-l', '-L', f'{at+i1},{at+i2-1}', '--', p.replace(WT + '/', '')], cwd='/repo').decode()
                if any(not l.lstrip('^').startswith(base[:30]) for l in b.splitlines()):
                    print('  NOTE: touches lines of own commits:', b)
    diff = subprocess.check_output(['git', 'diff'], cwd=WT).decode()
    tmp = '/tmp/sdr/' + s['id']
    shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
    open(tmp + '/patch.diff', 'w').write(diff)
    body = '\n'.join('    ' + l if l else l for l in s['demo'].strip('\n').split('\n'))
    open(tmp + '/demo.py', 'w').write('from backend import demonstrate\n\n\ndef demo(call):\n' + body + f'\n\n\ndemonstrate({s["driver"]!r}, demo)\n')
    shutil.copytree(VERIF + '/rust', tmp + '/rust')
    used, more = set(), {s['driver'].lower()}
    while more:
        n = more.pop()
        used.add(n)
        t = open(f'{VERIF}/rust/driver/{n}.rs').read()
        more |= {m for m in re.findall(r'^mod (\w+);', t, re.M) + re.findall(r'crate::(\w+)::', t) if os.path.exists(f'{VERIF}/rust/driver/{m}.rs')} - used
    for f in os.listdir(tmp + '/rust/driver'):
        if f[:-3] not in used:
            os.remove(tmp + '/rust/driver/' + f)
    lib = open(VERIF + '/vlib/rustlib.py').read()
    lib = lib.replace('from vlib.core import NoAnswer, Violation\n', 'import sys\nimport tempfile\n\n\nclass NoAnswer(Exception):\n    pass\n\n\nclass Violation(Exception):\n    pass\n')
    lib = lib.replace('of VERIF_REPO together with /verif/rust/driver', 'of the current directory together with rust/driver')
    lib = lib.replace("ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))", "ROOT = os.path.dirname(os.path.abspath(__file__))").replace("os.environ.get('VERIF_REPO', '/repo')", 'os.getcwd()')
    assert 'VERIF' not in lib and '/verif' not in lib, [l for l in lib.splitlines() if 'VERIF' in l]
    lib += '''

def demonstrate(driver, demo):
    """builds the backend of the current directory with the driver and calls demo(call)"""
    scratch = tempfile.mkdtemp(prefix='demo_')
    try:
        demo(Backend(build(scratch, driver)))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    print('as it should be')
'''
    open(tmp + '/backend.py', 'w').write(lib)
    open(tmp + '/demo.sh', 'w').write('#!/bin/bash\n# run in the root of the repository; builds its Rust backend with a small driver (beside this file) in a scratch directory\n'
        'here=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONDONTWRITEBYTECODE=1\nexec timeout 290 /opt/venv/bin/python "$here/demo.py"\n')
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(tmp + '/meta.json', 'w'), indent=1)
    d0, d1, t = demo(tmp, '/repo'), demo(tmp, WT), tests(WT)
    ok = d0[0] == 0 and d1[0] != 0 and '125 passed' in t
    print(s['id'], s['property'], 'OK' if ok else 'BAD', '| unchanged', d0[0], '| patched', d1[0], d1[1].strip().splitlines()[-1:] , '|', t, flush=True)
    if not ok:
        print(d0[1])
        continue
    dst = os.path.join(VERIF, 'seeded', s['id'])
    shutil.rmtree(dst, ignore_errors=True); shutil.copytree(tmp, dst)
shutil.rmtree(WT, ignore_errors=True)
