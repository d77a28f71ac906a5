"""Bounded exhaustive exploration driver.

A check module defines PROPERTY, LEVEL_NOTE-like metadata and `families(tier)`, a list of Family objects.  A family is
a named finite space of cases: `gen()` enumerates every case of the space exactly once (JSON-able arguments, simplest
first) and `run(ctx, *args)` executes one case against the real code in /repo and compares with an oracle.  The driver
enumerates *all* cases of all families (split over worker processes), never a sample.
"""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')  # development only: the registered commands always use /repo
CASE_CPU_SECONDS = 30
MEM_LIMIT = 6 << 30


class Violation(Exception):
    def __init__(self, message, finding=None):
        super().__init__(message)
        self.finding = finding


class NoAnswer(Exception):
    """the machinery could not be built, so nothing was decided"""


class CaseTimeout(BaseException):
    pass


def check(cond, message, *details):
    if not cond:
        raise Violation(message + ''.join(f'\n    {d!r}' for d in details))


def check_eq(actual, expected, message):
    if actual != expected:
        raise Violation(f'{message}\n    actual:   {actual!r}\n    expected: {expected!r}')


class Family:
    def __init__(self, name, gen, run, bounds=''):
        self.name, self.gen, self.run, self.bounds = name, gen, run, bounds


def h64(obj):
    return int.from_bytes(hashlib.blake2b(repr(obj).encode('utf-8', 'surrogatepass'), digest_size=8).digest(), 'big')


class Ctx:
    """Counters of one worker."""

    def __init__(self, scratch):
        self.states = set()
        self.transitions = 0
        self.validated = 0
        self.outcomes = set()
        self.cases = 0
        self.samples = []
        self.findings = {}
        self.scratch = scratch
        self.per_family = {}

    def state(self, canonical):
        """register a distinct canonical state / input explored"""
        self.states.add(h64(canonical))

    def op(self, n=1):
        """n operations of the real code executed"""
        self.transitions += n

    def ok(self, outcome=None, n=1):
        """n comparisons of an implementation result against the oracle"""
        self.validated += n
        if outcome is not None and len(self.outcomes) < 2_000_000:
            self.outcomes.add(h64(outcome))

    def path(self, name):
        return os.path.join(self.scratch, name)


def _on_prof(signum, frame):
    raise CaseTimeout()


def setup_import_path():
    for p in (os.path.join(REPO, 'src'), os.path.join(REPO, 'src', 'python')):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)


def load_check(prop):
    setup_import_path()
    return importlib.import_module('checks.' + prop)


def known_findings():
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return {}
    with open(path) as f:
        return {e['id']: e for e in json.load(f).get('known', [])}


def run_case(family, args, ctx, known):
    """returns None, or a dict describing an unlisted violation"""
    random.seed(0)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_SECONDS)
    try:
        family.run(ctx, *args)
        return None
    except Violation as e:
        signal.setitimer(signal.ITIMER_PROF, 0)
        if e.finding is not None and e.finding in known:
            ctx.findings[e.finding] = ctx.findings.get(e.finding, 0) + 1
            return None
        return {'message': str(e), 'trace': traceback.format_exc(limit=-4)}
    except CaseTimeout:
        return {'message': f'no result after {CASE_CPU_SECONDS}s of CPU time (does not terminate)',
                'trace': traceback.format_exc(limit=-6)}
    except RecursionError as e:
        return {'message': f'unexpected RecursionError: {e}', 'trace': traceback.format_exc(limit=-6)}
    except BaseException as e:  # the code under test raised on a valid input
        if isinstance(e, KeyboardInterrupt):
            raise
        return {'message': f'unexpected {type(e).__name__}: {e}', 'trace': traceback.format_exc(limit=-8)}
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


BLOCK = 8


def my_cases(families, k, n):
    """cases of worker k of n: (family index, case index, args)"""
    for fi, fam in enumerate(families):
        for ci, args in enumerate(fam.gen()):
            if (ci // BLOCK + fi) % n == k:
                yield fi, ci, args


def _prepare_worker(scratch):
    os.chdir(scratch)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    sys.stdout = open(os.devnull, 'w')
    resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    signal.signal(signal.SIGPROF, _on_prof)


def _worker(mod, tier, k, n, scratch, progress, q, stop_at):
    try:
        _prepare_worker(scratch)
        if hasattr(mod, 'setup_worker'):
            mod.setup_worker()
        ctx = Ctx(scratch)
        known = known_findings()
        families = mod.families(tier)
        violation = None
        last = None
        for fi, ci, args in my_cases(families, k, n):
            fam = families[fi]
            if last is not fam:
                last = fam
                t0 = time.time()
            progress[2 * k], progress[2 * k + 1] = fi, ci
            bad = run_case(fam, args, ctx, known)
            ctx.cases += 1
            st = ctx.per_family.setdefault(fam.name, [0, args, 0.0])
            st[0] += 1
            st[2] += time.time() - t0
            t0 = time.time()
            if bad is not None:
                violation = dict(bad, family=fam.name, args=args, worker=k, workers=n, case_index=ci)
                break
            if stop_at and (fi, ci) >= stop_at:
                break
        q.put(dict(k=k, states=ctx.states, transitions=ctx.transitions, validated=ctx.validated,
                   outcomes=ctx.outcomes, cases=ctx.cases, per_family=ctx.per_family, findings=ctx.findings,
                   violation=violation))
    except BaseException as e:
        q.put(dict(k=k, crash=f'{type(e).__name__}: {e}', trace=traceback.format_exc(),
                   at=(progress[2 * k], progress[2 * k + 1])))
    finally:
        q.close()
        q.join_thread()
        os._exit(0)


def _minimal(violations):
    return min(violations, key=lambda v: (len(json.dumps(v.get('args'), default=str)), v['worker']))


def explore(mod, prop, tier, seed):
    t0 = time.time()
    n = int(os.environ.get('VERIF_JOBS', '8'))
    scratch = tempfile.mkdtemp(prefix=f'verif_{prop}_')
    results, procs = {}, []
    try:
        if hasattr(mod, 'setup'):
            mod.setup(scratch)
        mpc = mp.get_context('fork')
        q = mpc.Queue()
        progress = mpc.Array('q', 2 * n, lock=False)
        for k in range(n):
            d = os.path.join(scratch, f'w{k}')
            os.makedirs(d)
            p = mpc.Process(target=_worker, args=(mod, tier, k, n, d, progress, q, None))
            p.start()
            procs.append(p)
        deadline = None
        dead_since = {}
        while len(results) < n:
            try:
                r = q.get(timeout=0.5)
                results[r['k']] = r
            except Exception:
                pass
            if deadline is None and any(r.get('violation') or r.get('crash') for r in results.values()):
                deadline = time.time() + 5
            if deadline is not None and time.time() > deadline:
                break
            for k, p in enumerate(procs):
                if k not in results and not p.is_alive():
                    dead_since.setdefault(k, time.time())
                    if time.time() - dead_since[k] > 3:
                        results[k] = dict(k=k, crash=f'worker process died with exit code {p.exitcode}', trace='',
                                          at=(progress[2 * k], progress[2 * k + 1]))
        families = mod.families(tier)
        states, outcomes, findings = set(), set(), {}
        transitions = validated = cases = 0
        per_family, violations = {}, []
        for r in results.values():
            if 'crash' in r:
                fi, ci = r['at']
                args = next((a for i, a in enumerate(families[fi].gen()) if i == ci), None)
                violations.append(dict(message='the code under test ended the process: ' + r['crash'], trace=r['trace'],
                                       family=families[fi].name, args=args, worker=r['k'], workers=n, case_index=ci))
                continue
            states |= r['states']
            outcomes |= r['outcomes']
            transitions += r['transitions']
            validated += r['validated']
            cases += r['cases']
            for name, (c, sample, secs) in r['per_family'].items():
                e = per_family.setdefault(name, [0, sample, 0.0])
                e[0] += c
                e[2] += secs
            for fid, c in r['findings'].items():
                findings[fid] = findings.get(fid, 0) + c
            if r['violation']:
                violations.append(r['violation'])
    finally:
        for p in procs:
            if p.is_alive():
                p.kill()
        for p in procs:
            p.join()
        shutil.rmtree(scratch, ignore_errors=True)

    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': len(states), 'transitions': transitions, 'traces_validated_against_impl': validated,
            'evaluations': cases, 'distinct_nontrivial': len(outcomes),
            'rule': 'every case of every listed family is executed exactly once on the real code; states = distinct '
                    'canonical inputs/object states reached, transitions = operations of the real code executed, '
                    'traces_validated_against_impl = comparisons of an implementation result with the reference '
                    'model, distinct_nontrivial = distinct results observed',
            'exhaustive': not violations,
            'families': [dict(name=f.name, bounds=f.bounds, cases=per_family.get(f.name, [0])[0],
                              cpu_s=round(per_family.get(f.name, [0, 0, 0.0])[2], 1)) for f in families],
            'samples': [dict(family=nm, args=s[1]) for nm, s in list(per_family.items())[:12]],
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(violations),
    }
    return evidence, violations, findings


def write_evidence(evidence):
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    path = os.path.join(VERIF, 'evidence', evidence['property'] + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(evidence, f, indent=1, default=repr)
    os.replace(path + '.tmp', path)


def write_replay(prop, tier, v):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, prop + '.json')
    with open(path, 'w') as f:
        json.dump(dict(property=prop, tier=tier, **v), f, indent=1, default=repr)
    return path


def replay(path):
    with open(path) as f:
        r = json.load(f)
    mod = load_check(r['property'])
    if r.get('family') is None:
        print(r['message'])
        return 1
    scratch = tempfile.mkdtemp(prefix='verif_replay_')
    try:
        os.chdir(scratch)
        signal.signal(signal.SIGPROF, _on_prof)
        if hasattr(mod, 'setup'):
            mod.setup(scratch)
        if hasattr(mod, 'setup_worker'):
            mod.setup_worker()
        ctx = Ctx(scratch)
        families = mod.families(r['tier'])
        fam = next(f for f in families if f.name == r['family'])
        bad = run_case(fam, r['args'], ctx, known_findings())
        if bad is None and 'case_index' in r:
            print('not reproduced by the single case; replaying the worker\'s history up to it')
            fi = families.index(fam)
            for i, c, args in my_cases(families, r['worker'], r['workers']):
                bad = run_case(families[i], args, ctx, known_findings())
                if bad or (i, c) >= (fi, r['case_index']):
                    break
        if bad:
            print(f"case {r['family']} {json.dumps(r['args'], default=repr)}")
            print(bad['message'])
            print(bad['trace'])
            return 1
        print('case passes')
        return 0
    finally:
        os.chdir('/')
        shutil.rmtree(scratch, ignore_errors=True)


def main(argv):
    if argv and argv[0] == '--replay':
        return replay(argv[1])
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    try:
        mod = load_check(prop)
    except Exception as e:
        v = dict(message=f'the code under test cannot be loaded: {type(e).__name__}: {e}',
                 trace=traceback.format_exc(), family=None, args=None)
        path = write_replay(prop, tier, v)
        write_evidence({'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
                        'coverage': {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': []},
                        'wall_s': round(time.time() - t0, 2), 'violations': 1})
        print(v['trace'])
        print(f'VIOLATION property={prop} replay={path}')
        return 1
    try:
        evidence, violations, findings = explore(mod, prop, tier, seed)
    except NoAnswer as e:
        print(f'{prop}: no answer: {e}')
        return 2
    write_evidence(evidence)
    c = evidence['coverage']
    print(f"{prop} {tier}: cases={c['evaluations']} states={c['states']} transitions={c['transitions']} "
          f"validated={c['traces_validated_against_impl']} outcomes={c['distinct_nontrivial']} wall={evidence['wall_s']}s")
    for f in c['families']:
        print(f"  {f['name']}: {f['cases']} cases, {f['cpu_s']}s CPU  [{f['bounds']}]")
    known = known_findings()
    for fid in sorted(findings):
        print(f"KNOWN-FINDING: property={prop} {fid} {known[fid]['what']} ({findings[fid]} cases)")
    if violations:
        v = _minimal(violations)
        path = write_replay(prop, tier, v)
        print(f"violated in family {v['family']} by {json.dumps(v['args'], default=repr)}")
        print(v['message'])
        print(v['trace'])
        print(f'VIOLATION property={prop} replay={path}')
        return 1
    return 0
