"""Exploration engine shared by every check.

A check module defines
    PROPERTY, TITLE, ASSUMPTIONS (list of str)
    def spaces(tier, seed): -> list of Space
A Space is a finite list of cases plus a function that explores one case on the
real code and compares every observation with the reference model.  The engine
runs every case of every space exactly once (8 worker processes), counts what
was covered, and turns the first disagreement into a replayable violation.
"""
import concurrent.futures as cf
import hashlib
import json
import math
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'


class CaseTimeout(BaseException):
    pass


class Violation(Exception):
    def __init__(self, msg, key=None, detail=None):
        super().__init__(msg)
        self.key = key
        self.detail = detail


class Space:
    def __init__(self, name, cases, check, chunk=None, limit=60.0, note='', init=None):
        self.name = name
        self.cases = cases          # list of JSON-able cases
        self.check = check          # check(case, rec)
        self.chunk = chunk
        self.limit = limit          # CPU seconds one case may take
        self.note = note            # bound, in words
        self.init = init            # run once in the parent before forking


class Rec:
    """What one worker saw."""

    def __init__(self, space):
        self.space = space
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.found = []

    def state(self, k=1):
        self.states += k

    def step(self, k=1):
        self.transitions += k

    def trace(self, k=1):
        self.traces += k

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(s)

    def known(self, msg, key):
        """a disagreement that does not end the exploration of this case."""
        self.found.append((key, msg, None))

    def expect(self, cond, msg, key=None, detail=None):
        if not cond:
            raise Violation(msg() if callable(msg) else msg, key, detail)

    def same(self, got, want, what, key=None):
        if got != want:
            raise Violation(f'{what}: got {got!r}, expected {want!r}', key)


def close(a, b, rtol=1e-8, atol=1e-9):
    import numpy as np
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    both_nan = np.isnan(a) & np.isnan(b)
    same = (a == b) | both_nan
    with np.errstate(all='ignore'):
        ok = np.abs(a - b) <= atol + rtol * np.maximum(np.abs(a), np.abs(b))
    return bool(np.all(same | ok))


def raises(fn, *excs):
    """run fn; return the exception of an allowed type, or None if it returned."""
    try:
        fn()
    except (excs or (Exception,)) as e:
        return e
    return None


_SPACES = None


def _on_timer(signum, frame):
    raise CaseTimeout()


def _worker_init():
    # the code under test may print; keep the check's stdout for the verdict
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    os.dup2(dn, 2)
    signal.signal(signal.SIGVTALRM, _on_timer)
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def explore_case(space, case, rec):
    """returns None or (key, message, detail)."""
    signal.setitimer(signal.ITIMER_VIRTUAL, space.limit)
    try:
        space.check(case, rec)
    except Violation as v:
        return (v.key, str(v), v.detail)
    except CaseTimeout:
        return (None, f'no result within {space.limit:g} s of CPU time (the call does not terminate)',
                traceback.format_exc(limit=-6))
    except MemoryError:
        raise
    except RecursionError as e:
        return (None, 'unexpected RecursionError', None)
    except Exception as e:
        return (None, f'unexpected {type(e).__name__}: {e}', traceback.format_exc(limit=-8))
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    return None


def _run_chunk(args):
    si, lo, hi = args
    sp = _SPACES[si]
    rec = Rec(sp.name)
    viol = []
    done = 0
    for k in range(lo, hi):
        case = sp.cases[k]
        r = explore_case(sp, case, rec)
        done += 1
        if r is not None:
            key, msg, detail = r
            viol.append(dict(space=sp.name, case=case, key=key, message=msg, detail=detail))
            if key is None:
                break
        for key, msg, detail in rec.found:
            viol.append(dict(space=sp.name, case=case, key=key, message=msg, detail=detail))
        rec.found = []
    return si, done, rec.states, rec.transitions, rec.traces, rec.samples, viol


def load_known(prop):
    path = os.path.join(ROOT, 'known_findings.jsonl')
    out = {}
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line:
                continue
            d = json.loads(line)
            if d.get('status') == 'known' and d['property'] == prop:
                out[d['key']] = d
    return out


def jsonable(x):
    try:
        json.dumps(x)
        return x
    except TypeError:
        return repr(x)


def main(mod, argv=None):
    global _SPACES
    argv = sys.argv[1:] if argv is None else argv
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    prop = mod.PROPERTY
    t0 = time.time()

    if '--replay' in argv:
        return replay(mod, argv[argv.index('--replay') + 1], seed)

    try:
        spaces = mod.spaces(tier, seed)
        for sp in spaces:
            if sp.init:
                sp.init()
    except Exception as e:
        # the tree cannot even be loaded or set up the way its users load it
        path = write_replay(prop, dict(property=prop, space='setup', case=None, key=None,
                                       message=f'{type(e).__name__}: {e}', detail=traceback.format_exc()), tier, seed)
        sys.stdout.write(traceback.format_exc())
        print(f'VIOLATION property={prop} replay={path}')
        write_evidence(mod, tier, seed, [], {}, time.time() - t0, 1, False)
        return 1

    only = None
    if '--space' in argv:
        only = argv[argv.index('--space') + 1]
        spaces = [s for s in spaces if s.name == only]
    _SPACES = spaces
    workers = int(os.environ.get('VERIF_JOBS', '8'))
    deadline = t0 + float(os.environ.get('VERIF_DEADLINE', '780' if tier == 'quick' else '10800'))

    jobs = []
    for si, sp in enumerate(spaces):
        n = len(sp.cases)
        c = sp.chunk or max(1, min(200, math.ceil(n / (workers * 6))))
        for lo in range(0, n, c):
            jobs.append((si, lo, min(n, lo + c)))

    stats = {sp.name: dict(cases=len(sp.cases), explored=0, states=0, transitions=0, traces=0, note=sp.note)
             for sp in spaces}
    samples = []
    known = load_known(prop)
    known_hit = {}
    viol = []
    exhaustive = True
    sys.stdout.flush()
    sys.stderr.flush()
    ctx = mp.get_context('fork')
    ex = cf.ProcessPoolExecutor(workers, mp_context=ctx, initializer=_worker_init)
    broken = None
    try:
        it = iter(jobs)
        pend = set()

        def feed():
            while len(pend) < workers * 3:
                j = next(it, None)
                if j is None:
                    return
                pend.add(ex.submit(_run_chunk, j))

        feed()
        stop = False
        while pend and not stop:
            done, pend = cf.wait(pend, timeout=5, return_when=cf.FIRST_COMPLETED)
            for f in done:
                si, k, st, tr, tc, smp, vs = f.result()
                s = stats[spaces[si].name]
                s['explored'] += k
                s['states'] += st
                s['transitions'] += tr
                s['traces'] += tc
                if len([x for x in samples if x['space'] == spaces[si].name]) < 2:
                    samples += [dict(space=spaces[si].name, sample=jsonable(x)) for x in smp[:1]]
                for v in vs:
                    if v['key'] is not None and v['key'] in known:
                        known_hit.setdefault(v['key'], v)
                    else:
                        viol.append(v)
            if viol:
                stop = True
            if time.time() > deadline:
                stop = True
                exhaustive = False
            if not stop:
                feed()
    except cf.process.BrokenProcessPool as e:
        broken = e
    finally:
        procs = list((getattr(ex, '_processes', None) or {}).values())
        ex.shutdown(wait=False, cancel_futures=True)
        for p in procs:
            try:
                p.kill()
            except Exception:
                pass
    if broken is not None and not viol:
        # the interpreter itself was brought down by a call of the library
        viol.append(dict(space=spaces[0].name, case=None, key=None, detail=None,
                         message=f'a process exploring the library died: {broken}'))
    wall = time.time() - t0
    for k, v in known_hit.items():
        print(f'KNOWN-FINDING: property={prop} {known[k]["what"]}')
    order = {sp.name: i for i, sp in enumerate(spaces)}
    rc = 0
    if viol:
        viol.sort(key=lambda v: (order[v['space']], len(json.dumps(jsonable(v['case'])))))
        exhaustive = False
        for v in viol[:3]:
            path = write_replay(prop, v | dict(property=prop), tier, seed)
            print(f'{prop} [{v["space"]}] case={json.dumps(jsonable(v["case"]))[:600]}')
            print(f'    {v["message"][:1500]}')
            if v.get('detail'):
                print('    ' + str(v['detail'])[-1500:].replace('\n', '\n    '))
            print(f'VIOLATION property={prop} replay={path}')
        rc = 1
    write_evidence(mod, tier, seed, samples, stats, wall, len(viol), exhaustive, sorted(known_hit))
    tot = {k: sum(s[k] for s in stats.values()) for k in ('explored', 'states', 'transitions', 'traces')}
    print(f'{prop} {tier} seed={seed}: {tot["explored"]} cases, {tot["states"]} states, {tot["transitions"]} transitions, '
          f'{tot["traces"]} traces compared with the model, exhaustive={exhaustive}, {wall:.1f} s, rc={rc}')
    if os.environ.get('VERIF_VERBOSE'):
        for n, s in stats.items():
            print('   ', n, s)
    sys.stdout.flush()
    return rc


def write_replay(prop, v, tier, seed):
    d = os.path.join(ROOT, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    v = dict(v)
    v['case'] = jsonable(v.get('case'))
    v['tier'] = tier
    v['seed'] = seed
    v['how'] = f'bash run.sh {prop} --replay <this file>   (in /verif, against the same /repo tree)'
    h = hashlib.sha1(json.dumps([v.get('space'), v.get('case')]).encode()).hexdigest()[:10]
    path = os.path.join(d, f'{prop}-{h}.json')
    with open(path, 'w') as f:
        json.dump(v, f, indent=1, default=repr)
    return path


def write_evidence(mod, tier, seed, samples, stats, wall, nviol, exhaustive, known=()):
    cov = dict(
        states=sum(s['states'] for s in stats.values()) if stats else 0,
        transitions=sum(s['transitions'] for s in stats.values()) if stats else 0,
        traces_validated_against_impl=sum(s['traces'] for s in stats.values()) if stats else 0,
        samples=samples[:12] or ['(nothing explored)'],
        exhaustive=bool(exhaustive and stats and all(s['explored'] == s['cases'] for s in stats.values())),
        spaces=stats,
        explanation='states: distinct model states / inputs enumerated; transitions: operations executed on the real '
                    'code; traces: executions of the real code whose whole observable outcome was compared with the '
                    'reference model.',
    )
    ev = dict(property=mod.PROPERTY, tier=tier, seed=seed, level='model_checking', coverage=cov,
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])), wall_s=round(wall, 2), violations=nviol,
              known_findings=list(known))
    d = os.path.join(ROOT, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, mod.PROPERTY + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=repr)


def replay(mod, path, seed):
    v = json.load(open(path))
    spaces = mod.spaces(v.get('tier', 'quick'), v.get('seed', seed))
    sp = next((s for s in spaces if s.name == v['space']), None)
    if sp is None:
        print('this violation happened while loading the tree; loading now succeeds')
        return 0
    if sp.init:
        sp.init()
    signal.signal(signal.SIGVTALRM, _on_timer)
    rec = Rec(sp.name)
    case = v['case']
    r = explore_case(sp, case, rec)
    if r is None and not rec.found:
        print('replay: the property holds on this case')
        return 0
    for key, msg, detail in ([r] if r else []) + rec.found:
        print(f'replay: {msg}')
        if detail:
            print(detail)
    print(f'VIOLATION property={mod.PROPERTY} replay={os.path.abspath(path)}')
    return 1
