"""C21: perturbed files written by several processes."""
import importlib
import os
import shutil
import subprocess
import sys

import numpy as np

from ..core import Workload, quiet, child_env, run_cmd, Inconclusive, VERIF
from .. import e2e
from .c20 import frames

ID = 'C21'
RULE = ('the writing of sampled files with 1-9 ranks (fewer, as many and more than samples, samples missing in some reactions): every rank in random order in one process, '
        'and the command line as real processes, with random delays per rank, through a stand-in for MPI that exchanges messages by files and through the installed MPI; '
        'every file opened for writing is logged with its rank; non-trivial = more than one rank; distinct by content, ranks and order')
EXPECT = {'rank_runs': 120, 'multi_rank': 40, 'idle_ranks': 10, 'files': 100, 'write_events': 150, 'process_runs': 6, 'delays': 4, 'dropped_samples': 8}
SHIM = os.path.join(VERIF, 'vf', 'shim')
_log = []
_state = {'on': None, 'dir': None}


def _hook(event, args):
    if _state['on'] is not None and event == 'open' and isinstance(args[0], str):
        mode, flags = args[1], args[2]
        if (isinstance(mode, str) and any(c in mode for c in 'wax+')) or (mode is None and flags & (os.O_WRONLY | os.O_RDWR)):
            p = os.path.abspath(args[0])
            if p.startswith(_state['dir']):
                _log.append((_state['on'], os.path.basename(p)))


_hooked = []


def load_as(rank, size):
    """ASAPy.XsecSampler as one rank sees it."""
    os.environ.update(VF_RANK=str(rank), VF_SIZE=str(size))
    if SHIM not in sys.path:
        sys.path.insert(0, SHIM)
    for m in [m for m in sys.modules if m == 'mpi4py' or m.startswith('mpi4py.') or m == 'ASAPy.XsecSampler']:
        del sys.modules[m]
    import ASAPy
    if hasattr(ASAPy, 'XsecSampler'):
        del ASAPy.XsecSampler
    mod = importlib.import_module('ASAPy.XsecSampler')
    assert sys.modules['mpi4py'].__file__.startswith(SHIM)
    return mod


def exactly_once(case, log, want, what):
    seen = {}
    for r, p in log:
        seen.setdefault(p, []).append(r)
    case.check(set(seen) == want, f'{what}: not exactly the files of the samples and tables were written', got=sorted(seen), want=sorted(want))
    for p, rs in seen.items():
        case.check(len(rs) == 1, f'{what}: {p} was written more than once', ranks=rs)
    case.event('write_events', len(log))


def ranks(case):
    import pandas as pd
    if not _hooked:
        sys.addaudithook(_hook)
        _hooked.append(1)
    rng = case.rng
    c = e2e.Case(rng, case.path('base.ace'), fissile=bool(rng.random() < 0.5), max_mts=2)
    c.store(rng, case.path('cov.h5'))
    ns = int(rng.integers(1, 8))
    size = int(rng.choice([1, 2, 3, 4, 5, 7, 9]))
    drop = bool(rng.random() < 0.4)
    keep = frames(rng, c, ns, drop)
    out = case.path('out')
    os.makedirs(out)
    fmt = out + '/' + str(rng.choice(['U235_{0}', 'f{0}.ace']))
    common = [k for k in range(ns) if all(k in df.columns for df in keep)]
    want = {os.path.basename(fmt.format(k)) for k in common} | {os.path.basename(fmt.format(m)) + '_samples.csv' for m in c.mts}
    order = [int(v) for v in rng.permutation(size)]
    case.input(mts=c.mts, samples=ns, size=size, order=order, kept=common, bounds={str(k): v for k, v in c.bounds.items()})
    del _log[:]
    _state['dir'] = os.path.abspath(out) + os.sep
    for r in order:
        dfs = [df.copy() for df in keep]
        with quiet(), pd.HDFStore(case.path('cov.h5'), 'r') as h:
            xs = load_as(r, size)
            _state['on'] = r
            try:
                xs.write_sampled_data(h, c.path, c.zaid, c.mts, dfs, output_formatter=fmt)
            finally:
                _state['on'] = None
        case.event('rank_runs')
    log = list(_log)
    exactly_once(case, log, want, f'{size} ranks')
    case.check(set(os.listdir(out)) == want, 'the files of all ranks together are not the ones of one', got=sorted(os.listdir(out)), want=sorted(want))
    for k in common:
        e2e.verify(case, c, fmt.format(k), {m: df[k].values for m, df in zip(c.mts, keep)}, f'sample {k} of {size} ranks')
        case.event('files')
    for m, df in zip(c.mts, keep):
        t = pd.read_csv(fmt.format(m) + '_samples.csv', index_col=0)
        case.check(list(t.columns)[4:] == [str(k) for k in df.columns], 'samples in the table', got=list(t.columns))
        for k in df.columns:
            case.close_to(t[str(k)].values, df[k].values, f'MT {m}: sample {k} in the table of samples', rtol=1e-12)
    busy = {r for r, _ in log}
    case.event('multi_rank', int(size > 1))
    case.event('idle_ranks', int(len(busy) < size))
    case.event('dropped_samples', int(len(common) < ns))
    case.sig(c.text, size, tuple(order), tuple(common))
    case.sample(size=size, order=order, samples=ns, log=[list(v) for v in log])


def processes(case):
    """The command line with several real processes, each delayed by a random time."""
    import pandas as pd
    rng = case.rng
    c = e2e.Case(rng, case.path('base.ace'), fissile=bool(rng.random() < 0.5), max_mts=2)
    c.store(rng, case.path('cov.h5'))
    ns = int(rng.integers(1, 6))
    size = int(rng.choice([1, 2, 3, 4]))
    real = case.index % 4 == 3 and shutil.which('mpiexec') is not None
    work = case.path('work')
    mpi = case.path('mpi')
    os.makedirs(work)
    os.makedirs(mpi)
    cmd = [sys.executable, '-m', 'ASAPy.XsecSampler', c.path, case.path('cov.h5'), str(ns), '-mts'] + [str(m) for m in c.mts]
    log = case.path('log')
    base = child_env(case.dir, VF_LOG=log, VF_MPIDIR=mpi, VF_SIZE=size)
    repo = base['PYTHONPATH']
    case.input(mts=c.mts, samples=ns, size=size, real=real, bounds={str(k): v for k, v in c.bounds.items()})
    if real:
        env = dict(base, OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1', OMPI_MCA_rmaps_base_oversubscribe='1', OMPI_MCA_btl='self,tcp', OMPI_MCA_plm_rsh_agent='false')
        pre = ['mpiexec', '-n', str(size)]
        try:
            rc, o, _ = run_cmd(pre + [sys.executable, '-c', 'from mpi4py import MPI; print("rank", MPI.COMM_WORLD.Get_rank(), MPI.COMM_WORLD.Get_size())'], work, env, timeout=100)
            ok = rc == 0 and all(f'rank {r} {size}' in o for r in range(size))
        except Inconclusive:
            ok = False
        if ok:
            # only the logger is put in front: the real mpi4py must be found
            d = case.path('site')
            os.makedirs(d)
            shutil.copy(os.path.join(SHIM, 'sitecustomize.py'), d)
            env['PYTHONPATH'] = d + os.pathsep + repo
            try:
                rc, o, e = run_cmd(pre + cmd, work, env, timeout=150)
            except Inconclusive:
                rc, e = -1, ''
            case.check(rc == 0 or 'Traceback' not in e, 'the command failed with several processes', status=rc, err=e[-1500:])
            ok = rc == 0
        if ok:
            case.event('real_mpi')
        else:
            # the launcher does not work here (it is not what is checked): the stand-in does
            real = False
            case.event('no_real_mpi')
            shutil.rmtree(work)
            os.makedirs(work)
            if os.path.exists(log):
                os.unlink(log)
    if not real:
        base['PYTHONPATH'] = SHIM + os.pathsep + repo
        ps = []
        for r in rng.permutation(size):
            delay = float(rng.choice([0, 0, 0.3, 1.0]))
            case.event('delays', int(delay > 0))
            ps.append(subprocess.Popen(cmd, cwd=work, env=dict(base, VF_RANK=str(r), VF_DELAY=str(delay)), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                       text=True, start_new_session=True))
        res = []
        try:
            for p in ps:
                o, e = p.communicate(timeout=200)
                res.append((p.returncode, e))
        except subprocess.TimeoutExpired:
            for p in ps:
                p.kill()
            raise Inconclusive('processes ran over 200 s')
        if any(rc == 99 for rc, _ in res) and all(rc in (0, 99) for rc, _ in res):
            case.check(False, 'a rank waited for a message that never came')
        case.check(all(rc == 0 for rc, _ in res), 'the command failed with several processes', results=[(rc, e[-800:]) for rc, e in res])
    nuc = {'92235': 'U235', '94239': 'Pu239', '92238': 'U238', '1001': 'H1', '26056': 'Fe56', '8016': 'O16', '47107': 'Ag107'}[c.zaid]
    tables = {m: pd.read_csv(os.path.join(work, f'{nuc}_{m}_samples.csv'), index_col=0) for m in c.mts}
    ids = [list(t.columns)[4:] for t in tables.values()]
    common = [k for k in ids[0] if all(k in x for x in ids)]
    want = {f'{nuc}_{k}' for k in common} | {f'{nuc}_{m}_samples.csv' for m in c.mts}
    lines = [l.split(' ', 1) for l in open(log).read().split('\n') if l]
    events = [(int(r), os.path.basename(p)) for r, p in lines if os.path.dirname(p) == os.path.realpath(work) or os.path.dirname(p) == work]
    exactly_once(case, events, want, f'{size} processes')
    case.check(set(os.listdir(work)) == want, 'the files of all processes together are not the ones of one', got=sorted(os.listdir(work)), want=sorted(want))
    case.check(len(common) == ns, 'not the number of samples asked for', got=len(common), want=ns)
    for k in common:
        # all processes must have used the same samples: the ones in the tables
        e2e.verify(case, c, os.path.join(work, f'{nuc}_{k}'), {m: t[k].values for m, t in tables.items()}, f'sample {k} of {size} processes')
        case.event('files')
    case.event('process_runs')
    case.sig('p', c.text, size, ns)


WORKLOADS = [Workload('ranks', ranks, 80, 1200), Workload('processes', processes, 12, 96, timeout=500, chunk=1)]
