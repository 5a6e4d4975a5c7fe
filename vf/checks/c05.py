"""C05: values without uncertainty data stay exactly at their mean; the others are sampled as usual."""
import numpy as np

from ..core import Workload, quiet
from .. import gen
from ..sampling import stratified

ID = 'C05'
RULE = ('random vectors in which any subset (none, some, all) has a zero mean, a standard deviation of zero or below 1e-30, or a zero on the correlation '
        'diagonal, in any combination, for every distribution, from the library function and through the store; non-trivial = at least one excluded and one sampled variable; distinct by '
        'exclusion pattern and reason')
EXPECT = {'excluded': 200, 'sampled_next_to_excluded': 100, 'none_sampled': 10, 'zero_mean': 50, 'zero_sd': 50, 'tiny_sd': 30, 'zero_corr': 50, 'all_sampled': 10, 'store': 20}


def _make(rng, d, distro):
    mean = gen.log_uniform(rng, *((1e-4, 1e4) if rng.random() < 0.7 else (1e-24, 1e6)), d)
    sd = mean * rng.uniform(0.02, 0.4, d)
    corr, kind = gen.corr_matrix(rng, d, rng.choice(['identity', 'factor', 'decay', 'anti', 'random', 'block']))
    m = rng.integers(0, 6)
    frac = [0.0, 0.25, 0.5, 0.8, 1.0, 0.25][m]
    skip = rng.random(d) < frac
    reasons = [set() for _ in range(d)]
    only = rng.choice(['zero_mean', 'zero_sd', 'tiny_sd', 'zero_corr', 'mix', 'mix'])
    for j in np.flatnonzero(skip):
        opts = ['zero_mean', 'zero_sd', 'tiny_sd', 'zero_corr'] if only == 'mix' else [str(only)]
        for r in rng.choice(opts, int(rng.integers(1, len(opts) + 1)), replace=False):
            r = str(r)
            reasons[j].add(r)
            if r == 'zero_mean':
                mean[j] = 0.0
                if rng.random() < 0.5:
                    sd[j] = 1e-7
            elif r == 'zero_sd':
                sd[j] = 0.0
            elif r == 'tiny_sd':
                sd[j] = float(rng.choice([1e-30, 1e-31, 1e-300])) if 'zero_sd' not in reasons[j] else 0.0
            else:
                corr[j, :] = 0.0
                corr[:, j] = 0.0
    return mean, sd, corr, skip, reasons


def library(case):
    from ASAPy import CovManipulation as cm
    rng = case.rng
    d, n = int(rng.integers(1, 9)), int(rng.choice([1, 2, 5, 20, 60, 120]))
    distro = str(rng.choice(['normal', 'lognormal', 'uniform']))
    mean, sd, corr, skip, reasons = _make(rng, d, distro)
    case.input(mean=mean, sd=sd, corr=corr, distro=distro, n=n, skip=skip)
    m0, s0, c0 = mean.copy(), sd.copy(), corr.copy()
    case.seed_global()
    with quiet():
        s = np.asarray(cm.sample_with_corr(mean, sd, corr, n, distro=distro, mt=102))
    case.equal(mean, m0, 'sampling changed the means it was given')
    case.equal(sd, s0, 'sampling changed the standard deviations it was given')
    case.equal(corr, c0, 'sampling changed the correlation it was given')
    case.check(s.shape == (n, d), 'wrong shape', got=list(s.shape), want=[n, d])
    for j in range(d):
        if skip[j]:
            case.check((s[:, j] == m0[j]).all(), f'variable {j} has no uncertainty ({sorted(reasons[j])}) but does not stay at its mean', mean=m0[j], got=s[:, j], sd=s0[j])
            case.event('excluded')
            for r in reasons[j]:
                case.event(r)
        else:
            bad = stratified(s[:, j], m0[j], s0[j], distro)
            case.check(bad is None, f'variable {j} is samplable, but its {distro} sample is wrong: {bad}', mean=m0[j], sd=s0[j], got=s[:, j], skip=skip)
            if skip.any():
                case.event('sampled_next_to_excluded')
    if skip.all():
        case.event('none_sampled')
    if not skip.any():
        case.event('all_sampled')
    if skip.any() and not skip.all():
        case.sig(distro, [sorted(r) for r in reasons])
    case.sample(distro=distro, n=n, reasons=[sorted(r) for r in reasons], first=s[0])


def store(case):
    import pandas as pd
    from ASAPy import XsecSampler as xs
    rng = case.rng
    d, n = int(rng.integers(2, 9)), int(rng.choice([2, 10, 50]))
    st, distro = [('normal', 'normal'), ('lognormal', 'lognormal'), ('uniform', 'uniform'), ('uncorrelated', 'normal'), ('loguncorrelated', 'lognormal')][int(rng.integers(0, 5))]
    mean, sd, corr, skip, reasons = _make(rng, d, distro)
    if st.endswith('uncorrelated'):      # the stored correlation is not used, so it excludes nothing
        for j in range(d):
            if reasons[j] == {'zero_corr'}:
                skip[j] = False
    b = gen.group_bounds(rng, d)
    case.input(mean=mean, sd=sd, corr=corr, sample_type=st, n=n, skip=skip)
    case.seed_global()
    with quiet(), pd.HDFStore(case.path('s.h5'), 'w') as h:
        gen.store_put(h, 26056, 16, b[:-1], b[1:], mean, sd, corr, scale=float(rng.choice([1.0, 1000.0])))
        rel, full = xs.sample_xsec(h, 16, 26056, n, sample_type=st, remove_neg=False)
    rel, full = np.asarray(rel.values, float), np.asarray(full.values, float)
    case.check(rel.shape == (d, n) and full.shape == (d, n), 'groups were lost', rel=list(rel.shape), full=list(full.shape), want=[d, n])
    for j in range(d):
        if skip[j]:
            case.check((full[j] == mean[j]).all(), f'group {j + 1} has no uncertainty ({sorted(reasons[j])}) but does not stay at its mean', mean=mean[j], got=full[j])
            case.close_to(rel[j], np.ones(n), f'group {j + 1} has no uncertainty ({sorted(reasons[j])}) but its relative value is not 1', rtol=1e-12)
        else:
            bad = stratified(full[j], mean[j], sd[j], distro)
            case.check(bad is None, f'group {j + 1} is samplable, but its sample is wrong: {bad}')
    case.event('store')
    if skip.any() and not skip.all():
        case.sig('store', st, [sorted(r) for r in reasons])


WORKLOADS = [Workload('library', library, 400, 8000), Workload('store', store, 80, 1500)]
