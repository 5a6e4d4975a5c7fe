"""C38: batch jobs of the sampling command do what the command was asked for."""
import json
import os
import runpy
import shlex
import sys
import types

import numpy as np

from ..core import REPO, Workload, child_env, run_cmd
from .. import e2e, gen
from . import c22

ID = 'C38'
RULE = ('the sampling command with --writepbs and random options (reactions, distribution, oversamples, plots, plots only, processes, dependency, submission; plain and awkward relative and absolute paths, files that are '
        'made later), with a recording stand-in for the helper that writes the job, for qsub and mpiexec; the recorded job is run by a shell and its files compared byte by byte with those of the '
        'same command run directly with the same random numbers; non-trivial = all; distinct by options and content')
EXPECT = {'jobs': 40, 'identical': 25, 'files': 40, 'submitted': 8, 'not_submitted': 8, 'dependent': 8, 'processes': 6, 'mpi': 8, 'plots': 3, 'plot_only': 3, 'awkward_path': 6, 'files_later': 6, 'oversampled': 5, 'failing': 2,
          'given_mts': 12, 'default_mts': 8}
ASSUMPTIONS = ['the helper that writes job scripts (coupleorigen.qsub_helper) is not part of the repository; the stand-in puts each program and its arguments in one line, as the helper is called',
               'numpy and python random generators of both runs are seeded alike']


def job(case):
    import pandas as pd
    rng = case.rng
    k = case.index
    plots = '--make_plots' if k % 16 == 3 else '--plot-only' if k % 16 == 11 else None
    c = e2e.Case(rng, case.path('made.ace'), fissile=bool(rng.random() < 0.5), max_mts=1 if plots else 3)
    awkward = rng.random() < 0.35
    sub = str(rng.choice(["a b", "it's", "x$HOME", "p(1)", "q;r", "s*"])) if awkward else 'in'
    rel = rng.random() < 0.5
    os.makedirs(case.path(sub))
    ace, store = (os.path.join('..' if rel else case.dir, sub, f) for f in ('base.ace', 'cov.h5'))
    real_store = case.path('made.h5')
    mts = [m for m in c.mts if not plots or m != 1018] or [2]
    with pd.HDFStore(real_store, 'w') as h:
        for m in sorted(set(mts) | {2}):
            b = c.bounds[m] if m in c.bounds else np.array([1e-5, 1.0, 2e7])
            g = len(b) - 1
            mean = rng.uniform(0.1, 10, g)
            corr, _ = gen.corr_matrix(rng, g, 'decay')
            gen.store_put(h, c.zaid, m, b[:-1], b[1:], mean, mean * rng.uniform(0.01, 0.09, g), corr)
    n = 2 if plots else int(rng.integers(1, 6))
    given = rng.random() < 0.65
    opts = []
    if given:
        opts.append(['-mts'] + [str(m) for m in mts])
    if plots:
        opts.append([plots])
    over = None
    if rng.random() < 0.4 or k % 16 in (5, 13):
        over = n - 1 if k % 16 in (5, 13) else -1 if rng.random() < 0.2 else n + int(rng.integers(0, 9))
        if over == 0:
            n, over = 2, 1
        opts.append(['-num_oversamples', str(over)])
    if rng.random() < 0.75:
        opts.append(['-distribution', str(rng.choice(c22.DISTROS))])
    proc = int(rng.choice([1, 2, 4, 16])) if rng.random() < 0.6 else None
    if proc is not None:
        opts.append(['-mpiproc', str(proc)])
    rng.shuffle(opts)
    batch = [['--writepbs']]
    wait = str(rng.choice(['1234', '99.server', 'J7'])) if rng.random() < 0.5 else None
    if wait:
        batch.append(['--waitforjob', wait])
    submit = rng.random() < 0.5
    if submit:
        batch.append(['--subpbs'])
    every = opts + batch
    rng.shuffle(every)
    # -mts takes all numbers that follow
    front = [ace, store, str(n)]
    flat = [w for o in every for w in o]
    args = front + flat
    plain = front + [w for o in opts for w in o]
    case.input(args=args, mts=mts, zaid=c.zaid)
    case.sig(tuple(flat), c.text)

    def files():
        os.replace(case.path('made.ace'), case.path(sub + '/base.ace'))
        os.replace(real_store, case.path(sub + '/cov.h5'))
    later = rng.random() < 0.3
    if not later:
        files()
    bin_, work = case.path('bin'), case.path('work')
    os.makedirs(bin_)
    os.makedirs(work)
    log = case.path('log')
    real = k % 8 == 1   # as processes; else the shell says what would run, and it is run here
    for name, text in (('qsub', f'#!/bin/sh\n(printf "%s\\n" "$PWD" "$@"; ls -1 | sed "s/^/has /") > {log}.qsub.$$\nexit 0\n'),
                       ('mpiexec', f'#!/bin/sh\nprintf "%s " "$@" > {log}.mpi\n[ "$1" = -n ] || [ "$1" = -np ] || exit 9\nshift 2\nexec "$@"\n'),
                       ('python', f'#!/bin/sh\nexec {sys.executable} "$@"\n' if real else f'#!/bin/sh\nprintf "%s\\0" "$@" > {log}.argv\n')):
        with open(os.path.join(bin_, name), 'w') as f:
            f.write(text)
        os.chmod(os.path.join(bin_, name), 0o755)
    calls = []

    def helper(*a, **kw):
        calls.append((a, kw))
        names = ('filename', 'programs', 'inputs')
        d = dict(zip(names, a), **kw)
        with open(d['filename'], 'w') as f:
            for p, i in zip(d['programs'], d['inputs']):
                f.write(f'{p} {i}\n')
    mod, sub_mod = types.ModuleType('coupleorigen'), types.ModuleType('coupleorigen.qsub_helper')
    sub_mod.qsub_helper = helper
    mod.qsub_helper = sub_mod
    saved = {m: sys.modules.get(m) for m in ('coupleorigen', 'coupleorigen.qsub_helper')}
    sys.modules.update({'coupleorigen': mod, 'coupleorigen.qsub_helper': sub_mod})
    path = os.environ['PATH']
    os.environ['PATH'] = bin_ + ':' + path
    try:
        rc, text = c22.command(case, args, work, False)
    finally:
        os.environ['PATH'] = path
        for m, v in saved.items():
            sys.modules.pop(m, None)
            if v is not None:
                sys.modules[m] = v
    case.check(rc == 0, 'the command that writes a job failed', status=rc, output=text[-800:])
    case.check(len(calls) == 1, 'not one job', calls=len(calls))
    a, kw = calls[0]
    d = dict(zip(('filename', 'programs', 'inputs'), a), **kw)
    script = os.path.join(work, d['filename'])
    case.equal(sorted(os.listdir(work)), [d['filename']], 'files after writing the job (the samples are for the job to make)')
    case.check(d.get('mpiprocs', 1) == (proc or 1), 'number of processes of the job', got=d.get('mpiprocs'), want=proc or 1)
    dep = (d.get('pbs_args') or {}).get('depends_on')
    case.check(dep == wait, 'job to wait for', got=dep, want=wait)
    case.event('dependent', int(bool(wait)))
    q = [f for f in os.listdir(case.dir) if f.startswith('log.qsub')]
    case.check(len(q) == int(submit), 'submissions of the job', got=len(q), want=int(submit))
    if submit:
        lines = open(case.path(q[0])).read().splitlines()
        case.check(os.path.realpath(lines[0]) == os.path.realpath(work) and [os.path.basename(v) for v in lines[1:] if not v.startswith('has ')] == [d['filename']] and 'has ' + d['filename'] in lines,
                   'the job that was written is not what was submitted', got=lines)
    case.event('submitted' if submit else 'not_submitted')
    # the job is run, and the command itself
    if later:
        files()
        case.event('files_later')
    before = [open(case.path(f'{sub}/{f}'), 'rb').read() for f in ('base.ace', 'cov.h5')]
    site = case.path('site')
    os.makedirs(site)
    with open(site + '/sitecustomize.py', 'w') as f:
        f.write(f'import random, numpy\nrandom.seed({k + 17})\nnumpy.random.seed({k + 17})\n')
    env = child_env(case.dir, PATH=bin_ + ':' + path)
    env['PYTHONPATH'] = site + ':' + env['PYTHONPATH']
    env['HOME'] = case.dir
    made = {}
    for name, cmd in (('job', ['/bin/sh', script]), ('direct', [sys.executable, '-m', 'ASAPy.XsecSampler'] + plain)):
        w = case.path('run_' + name)
        os.makedirs(w)
        if real:
            rc, o, e = run_cmd(cmd, w, env, timeout=200)
            case.event('processes')
        else:
            argv, e = plain, ''
            rc = 0
            if name == 'job':
                rc, o, e = run_cmd(cmd, w, env, timeout=200)
                argv = open(log + '.argv').read().split('\0')[:-1] if os.path.exists(log + '.argv') else ['nothing', '']
                case.check(os.path.realpath(argv[0]) == os.path.realpath(case.shared['script']), 'the job does not run the command', got=argv[0])
                argv = argv[1:]
            if rc == 0:
                rc, o = c22.command(case, argv, w, False, seed=k + 17)
        made[name] = (rc == 0, {f: open(os.path.join(w, f), 'rb').read() for f in sorted(os.listdir(w))}, (o + e)[-600:])
    jr, jf, jt = made['job']
    dr, df, dt = made['direct']
    bad = over is not None and over != -1 and over < n
    case.check(dr == (not bad), 'the command itself failed', output=dt)
    case.check(jr == dr, 'the job failed where the command works, or the other way round', job=jr, direct=dr, output=jt)
    case.check(sorted(jf) == sorted(df), 'the job did not make the files of the command', job=sorted(jf), direct=sorted(df), script=open(script).read()[-400:])
    for f in df:
        if not f.endswith('.png'):
            case.check(jf[f] == df[f], 'a file of the job is not that of the command', file=f, script=open(script).read()[-400:])
            case.event('files')
    if not bad:
        case.check(bool(df), 'no files')
        case.event('identical')
    case.check(before == [open(case.path(f'{sub}/{f}'), 'rb').read() for f in ('base.ace', 'cov.h5')], 'base file or store was changed')
    mpi = os.path.exists(log + '.mpi')
    case.check(mpi == ((proc or 1) > 1), 'the job uses MPI', got=mpi, processes=proc)
    if mpi:
        words = open(log + '.mpi').read().split()
        case.check(words[1] == str(proc), 'number of processes the job starts', got=words[:2], want=proc)
        case.event('mpi')
    case.event('jobs')
    case.event('awkward_path', int(awkward))
    case.event('plots', int(plots == '--make_plots'))
    case.event('plot_only', int(plots == '--plot-only'))
    case.event('oversampled', int(over is not None and over > n))
    case.event('failing', int(bad))
    case.event('given_mts' if given else 'default_mts')
    case.sample(args=flat, script=open(script).read().replace(case.dir, ''))


def prepare(scratch):
    return {'script': os.path.join(REPO, 'ASAPy', 'XsecSampler.py')}


WORKLOADS = [Workload('job', job, 64, 600)]
