"""C22: the sampling command line."""
import os
import random
import runpy
import sys

import numpy as np

from ..core import Workload, quiet, child_env, run_cmd
from .. import e2e, gen

ID = 'C22'
RULE = ('the command with random ACE files and stores (several nuclides, also with identifiers that contain each other, reactions the ACE file does not have), with and without given '
        'reactions, all distributions, numbers of samples and oversamples, wide and narrow uncertainties; run as a module in this process and as a separate process; files, tables '
        'and their agreement checked word by word; non-trivial = all; distinct by content and options')
EXPECT = {'runs': 80, 'files': 150, 'default_mts': 25, 'absent_mt': 15, 'oversampled': 10, 'refused_oversample': 5, 'nothing_to_do': 5, 'wide': 10, 'strata': 100, 'processes': 3, 'normal': 10, 'lognormal': 10,
          'uniform': 8, 'uncorrelated': 8, 'loguncorrelated': 8, 'correlated': 4}
NAMES = {'92235': 'U235', '94239': 'Pu239', '92238': 'U238', '1001': 'H1', '26056': 'Fe56', '8016': 'O16', '47107': 'Ag107'}
DISTROS = ['normal', 'lognormal', 'uncorrelated', 'uniform', 'loguncorrelated']


def quantiles(v, mean, sd, distro):
    from scipy.stats import norm
    if distro in ('normal', 'uncorrelated'):
        return norm.cdf((v - mean) / sd)
    if distro == 'uniform':
        return (v - (mean - 3 ** 0.5 * sd)) / (2 * 3 ** 0.5 * sd)
    s2 = np.log(1 + (sd / mean) ** 2)
    return norm.cdf((np.log(v) - np.log(mean) + s2 / 2) / s2 ** 0.5)


def command(case, args, work, process, seed=None):
    """Runs the command; returns (status, text)."""
    if process:
        rc, o, e = run_cmd([sys.executable, '-m', 'ASAPy.XsecSampler'] + args, work, child_env(case.dir), timeout=200)
        case.event('processes')
        return rc, o + e
    if seed is None:
        case.seed_global()
    else:
        random.seed(seed)
        np.random.seed(seed)
    old, cwd = sys.argv, os.getcwd()
    sys.argv = ['XsecSampler'] + args
    os.chdir(work)
    err = None
    sys.modules.pop('ASAPy.XsecSampler', None)
    with quiet() as buf:
        try:
            runpy.run_module('ASAPy.XsecSampler', run_name='__main__', alter_sys=True)
            rc = 0
        except SystemExit as e:
            rc = 0 if e.code in (None, 0) else e.code if isinstance(e.code, int) else 1
        except Exception as e:
            err = e
            rc = 1
        finally:
            sys.argv = old
            os.chdir(cwd)
    return rc, buf.getvalue() + (repr(err) if err else '')


def cli(case):
    import pandas as pd
    rng = case.rng
    c = e2e.Case(rng, case.path('base.ace'), fissile=bool(rng.random() < 0.6), max_mts=3)
    store = case.path('cov.h5')
    distro = DISTROS[case.index % 5]
    wide = bool(distro in ('normal', 'uncorrelated', 'uniform') and rng.random() < 0.3)
    have = list(c.mts)
    stats = {}
    absent = [m for m in (5, 11, 37, 117, 810) if m not in c.truth]
    ghost = [int(v) for v in rng.choice(absent, int(rng.integers(0, 3)) or int(case.index % 12 == 5), replace=False)]
    wide_mt = int(rng.choice([m for m in have if m != 1018] or [-1])) if wide else None
    p_neg = {}
    order = list(have) + ghost
    rng.shuffle(order)
    with pd.HDFStore(store, 'w') as h:
        for m in order:
            b = c.bounds[m] if m in c.bounds else gen.group_bounds(rng, 3)
            g = len(b) - 1
            mean = rng.uniform(0.1, 10, g)
            sd = mean * rng.uniform(0.005, 0.08, g)
            if m == wide_mt:
                k = int(rng.integers(0, g))
                sd[k] = mean[k] * float(rng.uniform(0.8, 1.6))
                lo = quantiles(0.0, mean[k], sd[k], distro)
                p_neg[m] = float(min(max(lo, 0), 1))
            corr, _ = gen.corr_matrix(rng, g, 'decay')
            stats[m], _ = gen.store_put(h, c.zaid, m, b[:-1], b[1:], mean, sd, corr)
        # other nuclides, one with an identifier that contains this one, with all kinds of reactions
        for z in (c.zaid + '1', '1' + c.zaid, '7014'):
            for m in (int(rng.choice([2, 102, 51])), 16):
                gen.store_put(h, z, m, [2e7, 1.0], [1.0, 1e-5], [1.0, 2.0], [0.1, 0.1], np.eye(2))
        # correlations with other reactions and nuclides are no data of a reaction of its own
        for z2, m2 in ((c.zaid, have[-1]), (c.zaid + '1', int(rng.choice([2, 102, 16])))):
            if (z2, m2) != (c.zaid, have[0]):
                gen.store_put(h, c.zaid, have[0], [2e7, 1.0], [1.0, 1e-5], [1.0, 2.0], [0.1, 0.1], np.eye(2) * 0.5, zaid2=z2, mt2=m2)
        gen.store_put(h, '7014', 102, [2e7, 1.0], [1.0, 1e-5], [1.0, 2.0], [0.1, 0.1], np.eye(2) * 0.5, zaid2=c.zaid, mt2=int(rng.choice([2, 102, 16])))
    before = open(store, 'rb').read()
    n = int(rng.integers(1, 6))
    over = None
    kind = 'plain'
    u = rng.random()
    if (u < 0.25 or wide and u < 0.7) and case.index % 11 != 3:
        over = n + int(rng.integers(0, 12))
    elif case.index % 11 == 3:
        n = max(n, 2)
        over = n - 1
        kind = 'bad_over'
    if rng.random() < 0.5 and case.index % 12 != 5:
        mts, asked = None, sorted(have + ghost)
    else:
        asked = list(have) + ([ghost[0]] if ghost and rng.random() < 0.6 else [])
        rng.shuffle(asked)
        if case.index % 12 == 5:
            asked = [ghost[0]]
        mts = [int(m) for m in asked]
    use = [int(m) for m in asked if m in c.truth or m == 1018]
    args = [c.path, store, str(n)]
    if mts:
        args += ['-mts'] + [str(m) for m in mts]
    if over is not None:
        args += ['-num_oversamples', str(over)]
    if distro != 'normal' or rng.random() < 0.5:
        args += ['-distribution', distro]
    work = case.path('work')
    os.makedirs(work)
    case.input(args=args[2:], use=use, ghost=ghost, name=c.a.name, bounds={str(k): v for k, v in c.bounds.items()}, wide=wide_mt)
    rc, text = command(case, args, work, case.index % 20 == 7)
    got = set(os.listdir(work))
    case.check(open(store, 'rb').read() == before, 'the covariance store was changed')
    case.check(open(c.path).read() == c.text, 'the base file was changed')
    if kind == 'bad_over':
        case.check(rc != 0 and not got, 'fewer oversamples than samples must be refused', status=rc, files=sorted(got))
        case.event('refused_oversample')
        case.event('runs')
        case.sig(tuple(args[2:]), case.index)
        return
    case.check(rc == 0, 'the command failed', status=rc, output=text[-1500:])
    if not use:
        case.check(not got, 'nothing to sample, but there are files', files=sorted(got))
        case.event('nothing_to_do')
        case.event('runs')
        case.sig(tuple(args[2:]), case.index)
        return
    nuc = NAMES[c.zaid]
    case.check({f for f in got if f.endswith('_samples.csv')} == {f'{nuc}_{m}_samples.csv' for m in use}, 'not one table for every reaction to sample', got=sorted(got), want=use)
    tables = {m: pd.read_csv(os.path.join(work, f'{nuc}_{m}_samples.csv'), index_col=0) for m in use}
    cnt = {}
    made = n if over is None else over
    for m, t in tables.items():
        ids = [k for k in t.columns if k not in ('e low', 'e high', 'xsec', 'rel std')]
        case.check(ids == [str(k) for k in range(len(ids))], f'MT {m}: numbers of the samples', got=ids)
        st = stats[m]
        for col, ref in (('e low', 'e low'), ('e high', 'e high'), ('xsec', 'x-sec(1)'), ('rel std', 'rel.s.d.(1)')):
            case.close_to(t[col].values, st[ref].values, f'MT {m}: {col} in the table of samples', rtol=1e-12)
        v = t[ids].values * st['x-sec(1)'].values[:, None]
        case.check((v >= 0).all(), f'MT {m}: negative samples were not removed')
        cnt[m] = len(ids)
        if m in p_neg:
            lo, hi = int(np.floor(p_neg[m] * made - 1e-6)), int(np.ceil(p_neg[m] * made + 1e-6))
            case.check(min(n, made - hi) <= cnt[m] <= min(n, made - lo), f'MT {m}: number of samples left after removing negative ones', got=cnt[m], made=made, asked=n, negative=[lo, hi])
            case.event('wide')
        else:
            case.check(cnt[m] == n, f'MT {m}: not the number of samples asked for', got=cnt[m], want=n)
        # every value in its own one of the equally probable intervals
        for g in range(v.shape[0]):
            mean, sd = st['x-sec(1)'].values[g], st['s.d.(1)'].values[g]
            q = quantiles(v[g], mean, sd, distro) * made
            case.check(((q > -1e-6) & (q < made + 1e-6)).all(), f'MT {m}: a sample outside the {distro} distribution asked for', group=g + 1, quantile=q / made)
            s = np.sort(q)
            k = len(s)
            # the i-th smallest of k different strata out of `made` lies between these bounds
            i = np.arange(k)
            case.check((s >= i - 1e-6).all() and (s <= made - (k - 1 - i) + 1e-6).all(), f'MT {m}: samples do not fill the {distro} distribution', group=g + 1, position=s)
            if k == made:
                case.check((np.abs(s - (i + 0.5)) <= 0.5 + 1e-6).all(), f'MT {m}: not one sample in every one of the {made} equally probable intervals of the {distro} distribution', group=g + 1, position=s)
                case.event('strata')
            else:
                f = np.floor(s + 1e-9)
                near = np.abs(s - np.round(s)) < 1e-6
                case.check(near.any() or len(set(f)) == k, f'MT {m}: two samples in one interval of the {distro} distribution', group=g + 1, position=s)
    number = min(cnt.values())
    files = got - {f'{nuc}_{m}_samples.csv' for m in use}
    case.check(files == {f'{nuc}_{k}' for k in range(number)}, 'not one ACE file for every sample', got=sorted(files), want=number)
    c.mts = use
    for k in range(number):
        e2e.verify(case, c, os.path.join(work, f'{nuc}_{k}'), {m: t[str(k)].values for m, t in tables.items()}, f'sample {k}')
        case.event('files')
    for m in asked:
        if m not in use:
            case.check(str(m) in text, 'a reaction that cannot be sampled must be named', mt=m)
            case.event('absent_mt')
    case.event('runs')
    case.event('default_mts', int(mts is None))
    case.event('oversampled', int(over is not None and over > n))
    case.event(distro)
    case.sig(tuple(args[2:]), c.text)
    case.sample(args=args[2:], files=sorted(got))


def correlated(case):
    """Which distribution is used shows in the correlation of the factors too."""
    import pandas as pd
    rng = case.rng
    distro = (DISTROS + [None])[case.index % 6]
    while True:
        c = e2e.Case(rng, case.path('base.ace'), fissile=False, max_mts=1)
        m = c.mts[0]
        if m < 1000 and len(c.bounds[m]) > 2:
            break
    b = c.bounds[m]
    g = len(b) - 1
    mean = rng.uniform(0.1, 10, g)
    sd = mean * rng.uniform(0.02, 0.08, g)
    rho = float(rng.choice([0.85, 0.95]))
    corr = np.full((g, g), rho)
    np.fill_diagonal(corr, 1.0)
    store = case.path('cov.h5')
    with pd.HDFStore(store, 'w') as h:
        gen.store_put(h, c.zaid, m, b[:-1], b[1:], mean, sd, corr)
    n = int(rng.integers(40, 60))
    work = case.path('work')
    os.makedirs(work)
    args = [c.path, store, str(n), '-mts', str(m)] + (['-distribution', distro] if distro else [])
    case.input(args=args[2:], mt=m, corr=rho, bounds=b)
    rc, text = command(case, args, work, False)
    case.check(rc == 0, 'the command failed', status=rc, output=text[-1500:])
    t = pd.read_csv(os.path.join(work, f'{NAMES[c.zaid]}_{m}_samples.csv'), index_col=0)
    v = t[[str(k) for k in range(n)]].values
    z = quantiles(v * mean[:, None], mean[:, None], sd[:, None], distro or 'normal')
    for i in range(g):
        s = np.sort(z[i]) * n
        case.check((np.abs(s - np.arange(n) - 0.5) <= 0.5 + 1e-6).all(), 'not one sample in every one of the equally probable intervals of the distribution', distro=distro, group=i + 1)
    r = np.corrcoef(z)
    off = r[~np.eye(g, dtype=bool)]
    if distro in ('uncorrelated', 'loguncorrelated'):
        case.check((np.abs(off) < 0.5).all(), 'samples without correlation are correlated', worst=float(np.abs(off).max()))
    else:
        case.check((off > 0.6).all(), 'samples do not have the correlation of the store', smallest=float(off.min()), stored=rho, distro=distro or 'default')
    case.event('correlated')
    case.sig('correlated', distro, n, g, m)


WORKLOADS = [Workload('cli', cli, 140, 2000, timeout=400), Workload('correlated', correlated, 6, 60, timeout=400)]
