#!/usr/bin/env python3
"""try_seeds.py [--all] [ID...]: runs the quick check of the seed's property (with --all every check) against a scratch copy with the seed applied."""
import json, os, shutil, subprocess, sys, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith('--')]
every = '--all' in sys.argv
WT = '/tmp/trywt'
DET = VERIF + '/tools/detection.json'
det = json.load(open(DET)) if os.path.exists(DET) else {}
claimed = [c['property'] for c in json.load(open(VERIF + '/MANIFEST.json'))['checks']]
for s in sorted(os.listdir(VERIF + '/seeded')):
    if args and s not in args:
        continue
    shutil.rmtree(WT, ignore_errors=True)
    shutil.copytree('/repo', WT, symlinks=True)
    subprocess.run(['git', 'checkout', '-q', '--', '.'], cwd=WT)
    r = subprocess.run(['git', 'apply', f'{VERIF}/seeded/{s}/patch.diff'], cwd=WT)
    if r.returncode:
        print(s, 'DOES NOT APPLY'); continue
    prop = json.load(open(f'{VERIF}/seeded/{s}/meta.json'))['property']
    for p in (claimed if every else [prop]):
        t = time.time()
        r = subprocess.run(['python3', 'run.py', p, 'quick'], cwd=VERIF, env=dict(os.environ, VERIF_REPO=WT), capture_output=True, text=True)
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        if r.returncode == 1 and v:
            det[s] = sorted(set(det.get(s, [])) | {p})
        else:
            det[s] = sorted(set(det.get(s, [])) - {p})
        json.dump({k: det[k] for k in sorted(det) if os.path.isdir(f'{VERIF}/seeded/{k}')}, open(DET, 'w'), indent=1)
        if every and r.returncode == 0:
            continue
        print(f'{s:32} {p} rc={r.returncode} {"caught" if r.returncode == 1 and v else "MISSED"} {time.time()-t:.0f}s', (r.stdout.strip().splitlines() or [''])[0][:150], flush=True)
shutil.rmtree(WT, ignore_errors=True)
