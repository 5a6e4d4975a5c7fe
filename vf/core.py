"""Monitoring harness: runs the real code of /repo under generated workloads, watches it with monitors, reports.

A check module (vf/checks/cNN.py) defines

    ID, RULE, ASSUMPTIONS (optional), LEVEL (optional)
    WORKLOADS = [Workload(name, function, quick=n, thorough=n), ...]
    EXPECT    = {'event name': minimum number of observations}      (else the run is inconclusive)
    prepare(scratch) (optional)   built once in the parent, e.g. compiled programs; returns a dict given to the cases

A workload function gets a Case: it draws everything from case.rng, exercises the code, and calls case.check(...),
case.event(...), case.sig(...) and case.sample(...).  Everything random derives from (VERIF_SEED, workload, index).

Verdicts: 0 held on what was observed, 1 violated (VIOLATION line and replay file), 2 inconclusive or harness error.
"""
import contextlib
import hashlib
import io
import json
import multiprocessing as mp
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import warnings
from multiprocessing import connection

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
EVIDENCE = os.environ.get('VF_EVIDENCE', os.path.join(VERIF, 'evidence'))
MEMORY = 3 << 30
KNOWN = os.path.join(VERIF, 'known_findings.jsonl')


class Violation(Exception):
    def __init__(self, message, details=None):
        super().__init__(message)
        self.message = message
        self.details = details or {}


class Inconclusive(Exception):
    """The monitor could not decide this case (watchdog, missing observation)."""


class Stuck(Inconclusive):
    """The watchdog ended it."""


class Workload:
    def __init__(self, name, fn, quick, thorough, timeout=240, chunk=None):
        self.name, self.fn, self.quick, self.thorough, self.timeout, self.chunk = name, fn, quick, thorough, timeout, chunk


def jsonable(o, depth=0):
    import numpy as np
    if isinstance(o, (str, int, bool)) or o is None:
        return o
    if isinstance(o, float):
        return o if o == o and abs(o) != float('inf') else repr(o)
    if isinstance(o, np.generic):
        return jsonable(o.item(), depth)
    if isinstance(o, np.ndarray):
        if o.size > 400:
            return {'shape': list(o.shape), 'head': jsonable(o.ravel()[:40].tolist()), 'sha': hashlib.sha1(np.ascontiguousarray(o).tobytes()).hexdigest()[:12]}
        return jsonable(o.tolist(), depth + 1)
    if isinstance(o, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(o.items())[:60]}
    if isinstance(o, (list, tuple, set, frozenset)):
        return [jsonable(v, depth + 1) for v in list(o)[:400]]
    if isinstance(o, bytes):
        return o[:2000].decode('latin-1')
    return repr(o)[:2000]


class Case:
    def __init__(self, prop, workload, index, seed, tier, scratch, shared):
        import numpy as np
        h = hashlib.sha256(f'{seed}/{prop}/{workload}/{index}'.encode()).digest()
        self.rng = np.random.default_rng([int.from_bytes(h[i:i + 4], 'little') for i in range(0, 32, 4)])
        self.prop, self.workload, self.index, self.seed, self.tier = prop, workload, index, seed, tier
        self._scratch_root, self._dir = scratch, None
        self.shared = shared
        self.events, self.sigs, self.samples, self.inputs, self.known = {}, set(), [], {}, []

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def seed_global(self):
        """Seed the generators the code under test draws from."""
        import random
        import numpy as np
        s = int(self.rng.integers(0, 2 ** 31 - 1))
        np.random.seed(s)
        random.seed(s)
        return s

    @property
    def dir(self):
        if self._dir is None:
            self._dir = tempfile.mkdtemp(prefix='case', dir=self._scratch_root)
        return self._dir

    def path(self, name):
        return os.path.join(self.dir, name)

    def close(self):
        if self._dir:
            shutil.rmtree(self._dir, ignore_errors=True)
            self._dir = None

    # ---- monitors -----------------------------------------------------------------------------------------------
    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + int(n)

    def input(self, **kw):
        self.inputs.update(kw)

    def sig(self, *parts):
        self.sigs.add(hashlib.sha1(repr(parts).encode()).hexdigest()[:16])

    def sample(self, **kw):
        if len(self.samples) < 2:
            self.samples.append(jsonable(kw))

    def check(self, cond, message, **details):
        self.events['assertions'] = self.events.get('assertions', 0) + 1
        if not cond:
            raise Violation(message, details)

    def close_to(self, got, want, message, rtol=1e-9, atol=0.0, **details):
        import numpy as np
        got = np.asarray(got, dtype=float)
        want = np.asarray(want, dtype=float)
        self.check(got.shape == want.shape, message + ' (shape)', got=list(got.shape), want=list(want.shape), **details)
        bad = ~(np.isclose(got, want, rtol=rtol, atol=atol, equal_nan=True))
        if bad.any():
            i = tuple(int(k) for k in np.argwhere(bad)[0])
            self.check(False, message, first_bad_index=list(i), got=got[i], want=want[i], bad=int(bad.sum()), of=int(bad.size), **details)
        self.check(True, message)

    def equal(self, got, want, message, **details):
        import numpy as np
        got, want = np.asarray(got), np.asarray(want)
        same = got.shape == want.shape
        if same and got.size:
            try:
                same = bool(np.array_equal(got, want, equal_nan=True))
            except TypeError:
                same = bool(np.array_equal(got, want))
        self.check(same, message, got=got, want=want, **details)

    def raises(self, fn, message, allowed=(Exception,)):
        """fn must refuse its input with an exception."""
        try:
            with quiet():
                r = fn()
        except allowed:
            self.event('refused')
            return
        self.check(False, message, returned=jsonable(r))


@contextlib.contextmanager
def quiet(capture=None):
    """Silence Python level stdout of the code under test (optionally captured) and its warnings."""
    buf = capture if capture is not None else io.StringIO()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with contextlib.redirect_stdout(buf):
            yield buf


def child_env(scratch, **extra):
    env = {k: v for k, v in os.environ.items() if not k.startswith(('OMPI_', 'PMIX_', 'PMI_', 'PRTE_'))}
    env.update(PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX=os.path.join(scratch, 'pyc'),
               MPLBACKEND='Agg', MPLCONFIGDIR=os.path.join(scratch, 'mpl'), OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1',
               PYTHONHASHSEED='0', HOME=env.get('HOME', '/root'), TMPDIR=scratch, LC_ALL='C.UTF-8')
    env.update({k: str(v) for k, v in extra.items()})
    return env


def run_cmd(cmd, cwd, env, stdin=None, timeout=240):
    """A child process in its own group under a watchdog; one that uses half of that time on the processor does not come to an end."""
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         text=True, errors='replace', start_new_session=True)
    with contextlib.suppress(ProcessLookupError, PermissionError):
        resource.prlimit(p.pid, resource.RLIMIT_CPU, (timeout // 2, timeout))
    try:
        out, err = p.communicate(stdin, timeout=timeout)
        if p.returncode == -signal.SIGXCPU:
            raise Violation(f'no end: {cmd[:4]} used {timeout // 2} s of processor time', {})
    except subprocess.TimeoutExpired:
        with contextlib.suppress(ProcessLookupError):
            os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        raise Stuck(f'watchdog: {cmd[:4]} ran over {timeout} s')
    return p.returncode, out, err


class _Alarm(BaseException):
    pass


class _Busy(BaseException):
    pass


def _on_alarm(*_):
    raise _Alarm()


_LIMIT = [0.0]          # processor time at which the case in hand is ended


def _on_prof(*_):
    """Every second of processor time."""
    used = time.process_time()
    if used > _LIMIT[0]:
        _LIMIT[0] = used + 20           # once more if the code catches it
        raise _Busy('processor time')
    if resource.getrusage(resource.RUSAGE_SELF).ru_maxrss * 1024 > MEMORY:
        raise _Busy('memory')


def load_known(prop):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get('status') == 'known' and d['property'] == prop:
                    out.append(d)
    return out


def run_case(mod, wl, index, seed, tier, scratch, shared):
    case = Case(mod.ID, wl.name, index, seed, tier, scratch, shared)
    res = {'workload': wl.name, 'index': index, 'violation': None, 'inconclusive': None, 'stuck': False}
    cwd, t0 = os.getcwd(), time.time()
    old = signal.signal(signal.SIGALRM, _on_alarm), signal.signal(signal.SIGPROF, _on_prof)
    signal.alarm(wl.timeout)
    _LIMIT[0] = time.process_time() + wl.timeout / 2        # not real time: a loaded machine does not matter
    signal.setitimer(signal.ITIMER_PROF, 1, 1)
    try:
        try:
            wl.fn(case)
        finally:
            signal.alarm(0)
            signal.setitimer(signal.ITIMER_PROF, 0)
    except _Busy as e:
        res['violation'] = {'message': f'no end: the case took too much {e} (limit: {wl.timeout / 2:.0f} s, {MEMORY >> 30} GB)', 'details': {'traceback': traceback.format_exc()[-2000:]}}
    except Stuck as e:
        res['inconclusive'], res['stuck'] = str(e), True
    except Violation as v:
        res['violation'] = {'message': v.message, 'details': jsonable(v.details)}
    except Inconclusive as e:
        res['inconclusive'] = str(e)
    except _Alarm:
        res['inconclusive'], res['stuck'] = f'watchdog: case ran over {wl.timeout} s', True
    except MemoryError:
        res['inconclusive'] = 'out of memory'
    except (Exception, SystemExit) as e:
        if isinstance(e, OSError) and e.errno in (28, 11, 12, 24):   # ENOSPC EAGAIN ENOMEM EMFILE: not the code's fault
            res['inconclusive'] = repr(e)
        else:
            tb = traceback.extract_tb(e.__traceback__)
            in_repo = [f for f in tb if os.path.realpath(f.filename).startswith(os.path.realpath(REPO) + os.sep)]
            what = 'the code raised' if in_repo else 'the result could not be used'
            res['violation'] = {'message': f'{what} on a valid input: {type(e).__name__}: {str(e)[:600]}',
                                'details': {'traceback': traceback.format_exc()[-3000:]}}
    finally:
        signal.signal(signal.SIGALRM, old[0])
        signal.signal(signal.SIGPROF, old[1])
        os.chdir(cwd)
        case.close()
    res.update(events=case.events, sigs=sorted(case.sigs), samples=case.samples, known=case.known, took=time.time() - t0)
    if res['violation']:
        res['violation']['inputs'] = jsonable(case.inputs)
    return res


_MOD = None


def _pool_task(args):
    wl_name, indices, seed, tier, scratch, shared = args
    wl = next(w for w in _MOD.WORKLOADS if w.name == wl_name)
    out = []
    for i in indices:
        out.append(run_case(_MOD, wl, i, seed, tier, scratch, shared))
        if out[-1]['stuck'] or (out[-1]['violation'] and out[-1]['violation']['message'].startswith('no end')):
            break       # the others would take as long
    return out


def _pool_init(scratch):
    # anything the code under test prints must not reach our stdout, where VIOLATION lines are read
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 1)
    if not os.environ.get('VF_DEBUG'):
        os.dup2(devnull, 2)
    d = os.path.join(scratch, f'w{os.getpid()}')
    os.makedirs(d, exist_ok=True)
    os.chdir(d)
    warnings.simplefilter('ignore')


def _worker(conn, others, scratch):
    for c in others:        # so that the end of this process's parent is seen
        c.close()
    _pool_init(scratch)
    while True:
        try:
            task = conn.recv()
        except EOFError:
            return
        conn.send(_pool_task(task))


def run_tasks(order, jobs, scratch, deadline):
    """The results of the tasks as they come, from worker processes that are killed at the deadline or when the caller stops.
    (multiprocessing.Pool is not used: its terminate() can wait forever for a lock that a killed worker holds.)"""
    ctx = mp.get_context('fork')
    order, workers = list(order), {}

    def start():
        here, there = ctx.Pipe()
        p = ctx.Process(target=_worker, args=(there, [here, *workers], scratch), daemon=True)
        p.start()
        there.close()
        workers[here] = [p, None]
        return here

    def give(conn):
        task = order.pop(0)
        workers[conn][1] = task
        try:
            conn.send(task)
        except OSError:     # it is gone, which is seen when its result is read
            pass
    try:
        for _ in range(min(jobs, len(order))):
            give(start())
        while workers:
            ready = connection.wait(list(workers), timeout=max(0.0, deadline - time.time()))
            if not ready:
                return
            for conn in ready:
                p, task = workers[conn]
                try:
                    res = conn.recv()
                except (EOFError, OSError):
                    p.join(10)
                    what = f'the process ended (exit status {p.exitcode}) in one of the cases {task[1][0]} to {task[1][-1]}'
                    killed = p.exitcode in (None, -signal.SIGKILL, -signal.SIGTERM)     # from outside, as when memory runs out
                    res = [{'workload': task[0], 'index': i, 'violation': None, 'inconclusive': what, 'events': {}, 'sigs': [], 'samples': [], 'known': []} for i in task[1]]
                    if not killed:
                        res[0]['violation'] = {'message': what, 'details': {}, 'inputs': {}}
                    conn.close()
                    del workers[conn]
                    conn = None
                yield res
                if order:
                    give(conn or start())
                elif conn:
                    p.kill()
                    conn.close()
                    del workers[conn]
                    p.join(10)
    finally:
        for p, _ in workers.values():
            p.kill()
        for p, _ in workers.values():
            p.join(10)


def stuck(results):
    """Cases that the watchdog ended although it left them five times what any other of their workload takes: they wait forever."""
    if (os.getloadavg()[0] / (os.cpu_count() or 1)) > 4:
        return
    for r in results:
        if r.get('stuck') and not r['violation']:
            others = [x['took'] for x in results if x['workload'] == r['workload'] and not x.get('stuck') and 'took' in x]
            if max(others, default=0.0) < r['took'] / 5:
                r['violation'] = {'message': f'no end: {r["inconclusive"]}, the other {len(others)} cases took at most {max(others, default=0.0):.1f} s each', 'details': {}, 'inputs': {}}
                r['inconclusive'] = None


def setup_env(scratch):
    os.environ.update(child_env(scratch))
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(scratch, 'pyc')
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    for k in [k for k in os.environ if k.startswith(('OMPI_', 'PMIX_', 'PMI_', 'PRTE_'))]:
        del os.environ[k]
    tempfile.tempdir = scratch


def repo_state():
    """Digest of the repository's tracked state, to notice a check that would change it."""
    try:
        return subprocess.run(['git', '-C', REPO, 'status', '--porcelain'], capture_output=True, text=True, timeout=60).stdout
    except Exception:
        return ''


def main(mod, argv):
    global _MOD
    _MOD = mod
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--only', help='only this workload')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    a = ap.parse_args(argv)
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix=f'vf_{mod.ID}_')
    try:
        setup_env(scratch)
        shared = {}
        prep_violation = None
        if hasattr(mod, 'prepare'):
            try:
                shared = mod.prepare(scratch) or {}
            except Violation as v:
                prep_violation = {'message': v.message, 'details': jsonable(v.details), 'inputs': {}}
        if a.replay:
            r = json.load(open(a.replay))
            wl = next(w for w in mod.WORKLOADS if w.name == r['workload'])
            res = run_case(mod, wl, r['index'], r['seed'], r['tier'], scratch, shared)
            print(json.dumps(res, indent=1))
            return 1 if res['violation'] else (2 if res['inconclusive'] else 0)
        results = []
        if prep_violation:
            results.append({'workload': 'prepare', 'index': 0, 'violation': prep_violation, 'inconclusive': None,
                            'events': {}, 'sigs': [], 'samples': [], 'known': []})
        else:
            tasks = []
            per_wl = {}
            for wl in mod.WORKLOADS:
                if a.only and wl.name != a.only:
                    continue
                n = wl.thorough if a.tier == 'thorough' else wl.quick
                n = max(1, int(n * a.scale)) if n else 0
                per_wl[wl.name] = n
                chunk = wl.chunk or max(1, min(50, n // (a.jobs * 4) or 1))
                tasks.append([(wl.name, list(range(i, min(n, i + chunk))), a.seed, a.tier, scratch, shared)
                              for i in range(0, n, chunk)])
            order = []          # round robin over workloads, so that a deadline cuts all of them alike
            while any(tasks):
                for t in tasks:
                    if t:
                        order.append(t.pop(0))
            budget = float(os.environ.get('VF_BUDGET', '600' if a.tier == 'quick' else '7200'))
            with contextlib.closing(run_tasks(order, a.jobs, scratch, t0 + budget)) as done:
                for res in done:
                    results.extend(res)
                    if sum(1 for r in results if r['violation']) >= 5 or sum(1 for r in results if r.get('stuck')) >= 8:
                        break
            stuck(results)
        return report(mod, a, results, time.time() - t0, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def report(mod, a, results, wall, t0):
    events, sigs, samples, inconclusive, violations, known_seen = {}, set(), {}, [], [], {}
    per_wl = {}
    for r in sorted(results, key=lambda r: (r['workload'], r['index'])):
        per_wl[r['workload']] = per_wl.get(r['workload'], 0) + 1
        for k, v in r['events'].items():
            events[k] = events.get(k, 0) + v
        sigs.update((r['workload'], s) for s in r['sigs'])
        if r['samples'] and len(samples.get(r['workload'], [])) < 1:
            samples.setdefault(r['workload'], []).extend(r['samples'][:1])
        if r['inconclusive']:
            inconclusive.append(f"{r['workload']}/{r['index']}: {r['inconclusive']}")
        for k in r.get('known', []):
            known_seen.setdefault(k['id'], k['what'])
        if r['violation']:
            violations.append(r)
    known = {k['id']: k for k in load_known(mod.ID)}
    for kid, what in list(known_seen.items()):
        if kid in known:
            print(f"KNOWN-FINDING: property={mod.ID} {known[kid]['what']}")
        else:
            violations.append({'workload': 'known', 'index': 0, 'violation': {'message': what, 'details': {}, 'inputs': {}},
                               'inconclusive': None})
    missing = []
    if not a.only and not violations and a.scale >= 1:
        for ev, n in mod.EXPECT.items():
            if events.get(ev, 0) < n:
                missing.append(f'{ev}: observed {events.get(ev, 0)}, expected at least {n}')
    os.makedirs(EVIDENCE, exist_ok=True)
    for i, r in enumerate(violations):
        rp = os.path.join(EVIDENCE, 'replays', f"{mod.ID}_{r['workload']}_{r['index']}.json")
        os.makedirs(os.path.dirname(rp), exist_ok=True)
        with open(rp, 'w') as f:
            json.dump({'property': mod.ID, 'workload': r['workload'], 'index': r['index'], 'seed': a.seed, 'tier': a.tier,
                       'violation': r['violation'],
                       'how': f"bash run.sh {mod.ID} --replay {rp}"}, f, indent=1)
        if i < 5:
            print(f"VIOLATION property={mod.ID} replay={rp}")
            print(f"  {r['workload']}/{r['index']}: {r['violation']['message']}")
            print('  ' + json.dumps(r['violation']['details'])[:1500])
    ev = {'property': mod.ID, 'tier': a.tier, 'seed': a.seed, 'level': getattr(mod, 'LEVEL', 'exploration'),
          'coverage': {'evaluations': len(results), 'distinct_nontrivial': len(sigs), 'rule': mod.RULE,
                       'samples': [dict(workload=k, **v) for k, vs in samples.items() for v in vs] or [{'none': True}],
                       'observed_events': dict(sorted(events.items())), 'cases_per_workload': per_wl,
                       'longest_case_s': round(max((r['took'] for r in results if 'took' in r), default=0.0), 2),
                       'inconclusive': inconclusive[:20], 'known_findings_seen': known_seen},
          'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
          'wall_s': round(wall, 2), 'violations': len(violations)}
    tmp = os.path.join(EVIDENCE, f'.{mod.ID}.{os.getpid()}')
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(EVIDENCE, f'{mod.ID}.json'))
    print(f"{mod.ID} {a.tier} seed={a.seed}: {len(results)} cases, {len(sigs)} distinct, {events.get('assertions', 0)} assertions, "
          f"{len(violations)} violations, {len(inconclusive)} inconclusive, {wall:.1f} s")
    if violations:
        return 1
    if missing:
        print('INCONCLUSIVE: monitors not reached: ' + '; '.join(missing))
        return 2
    if inconclusive and len(inconclusive) > max(2, len(results) // 20):
        print('INCONCLUSIVE: ' + '; '.join(inconclusive[:5]))
        return 2
    return 0
