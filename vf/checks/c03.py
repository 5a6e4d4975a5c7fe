"""C03: every sampled variable is an exact Latin hypercube sample of the requested distribution."""
import numpy as np

from ..core import Workload, quiet
from .. import gen
from ..sampling import stratified, marginal_cdf

ID = 'C03'
RULE = ('random means over 12 decades (also negative ones), relative standard deviations 1e-5 to 3, correlations of every kind incl. indefinite, 1-400 samples incl. fewer '
        'samples than variables, three distributions, through the library function and through the covariance store; '
        'non-trivial = more than one sample of at least one variable; distinct by distribution, sizes and means')
EXPECT = {'normal': 100, 'lognormal': 100, 'uniform': 100, 'fewer_samples_than_variables': 5, 'single_sample': 2, 'indefinite': 10, 'store': 10,
          'unit': 10, 'lhs_normal': 10, 'many': 3, 'pooled': 3}


def _sizes(rng):
    m = rng.integers(0, 10)
    if m == 0:
        return 1, int(rng.integers(1, 6))
    if m == 1:
        return int(rng.integers(2, 8)), int(rng.integers(3, 14))
    if m <= 6:
        return int(rng.integers(2, 60)), int(rng.integers(1, 9))
    if m == 7:
        return int(rng.integers(10, 60)), int(rng.integers(9, 90))
    return int(rng.integers(60, 400)), int(rng.integers(1, 6))


def library(case):
    from ASAPy import CovManipulation as cm
    rng = case.rng
    n, d = _sizes(rng)
    distro = str(rng.choice(['normal', 'lognormal', 'uniform']))
    mean = gen.log_uniform(rng, 1e-6, 1e6, d) if rng.random() < 0.8 else gen.log_uniform(rng, 1e-24, 1e12, d)
    if distro != 'lognormal' and rng.random() < 0.2:
        mean = mean * rng.choice([-1.0, 1.0], d)
    rel = gen.log_uniform(rng, 1e-5, 3.0, d) if rng.random() < 0.5 else rng.uniform(0.01, 0.6, d)
    sd = np.abs(mean) * rel
    corr, kind = gen.corr_matrix(rng, d, rng.choice(['identity', 'factor', 'decay', 'anti', 'random', 'block', 'near_singular', 'constant', 'indefinite', 'singular']))
    if distro == 'lognormal' and kind in ('indefinite',) and rel.max() > 1:
        rel = np.minimum(rel, 1.0)
        sd = np.abs(mean) * rel
    case.input(n=n, d=d, distro=distro, mean=mean, sd=sd, corr=corr, kind=kind)
    case.seed_global()
    m0, s0, c0 = mean.copy(), sd.copy(), corr.copy()
    kw = {'mt': int(rng.choice([2, 18, 102, 452, 1018]))} if rng.random() < 0.5 else {}
    with quiet():
        s = np.asarray(cm.sample_with_corr(mean, sd, corr, n, distro=distro, **kw))
    case.equal(mean, m0, 'sampling changed the means it was given')
    case.equal(sd, s0, 'sampling changed the standard deviations it was given')
    case.equal(corr, c0, 'sampling changed the correlation it was given')
    case.check(s.shape == (n, d), 'samples must have one row per sample and one column per variable', got=list(s.shape), want=[n, d])
    for j in range(d):
        bad = stratified(s[:, j], m0[j], s0[j], distro)
        case.check(bad is None, f'{distro} sample of variable {j} is not a Latin hypercube sample of its distribution: {bad}', mean=m0[j], sd=s0[j], column=s[:, j])
        case.event(distro)
    if n == 1:
        case.event('single_sample')
    if n < d:
        case.event('fewer_samples_than_variables')
    if kind in ('indefinite', 'singular') and d > 2:
        case.event('indefinite')
    if n > 1:
        case.sig(distro, n, d, kind, np.round(np.log10(np.abs(mean)), 4).tolist())
    case.sample(distro=distro, samples=n, variables=d, kind=kind, first_sample=s[0, :4])


def store(case):
    import pandas as pd
    from ASAPy import XsecSampler as xs
    rng = case.rng
    n, d = int(rng.integers(2, 150)), int(rng.integers(1, 8))
    kind_name, distro = [('normal', 'normal'), ('lognormal', 'lognormal'), ('uncorrelated', 'normal'), ('uniform', 'uniform'),
                         ('loguncorrelated', 'lognormal')][int(rng.integers(0, 5))]
    mean = gen.log_uniform(rng, 1e-4, 1e4, d)
    sd = mean * rng.uniform(0.01, 0.15, d)      # no negative samples at any probability of these sample counts (uniform: < 1/sqrt(3))
    if distro != 'normal':
        sd = mean * rng.uniform(0.01, 0.5, d)
    corr, kind = gen.corr_matrix(rng, d)
    b = gen.group_bounds(rng, d)
    case.input(n=n, mean=mean, sd=sd, corr=corr, sample_type=kind_name)
    case.seed_global()
    zaid = int(rng.choice([1001, 92235, 94239]))
    mt = int(rng.choice([2, 18, 102, 452, 1018]))
    if rng.random() < 0.3:
        kind_name = kind_name.upper() if rng.random() < 0.5 else kind_name.capitalize()
    with quiet(), pd.HDFStore(case.path('s.h5'), 'w') as h:
        gen.store_put(h, zaid, mt, b[:-1], b[1:], mean, sd, corr)
        x = xs.XsecSampler(h, zaid, mt)
        relative = bool(rng.random() < 0.5)
        s = x.sample(kind_name, n, return_relative=relative, remove_neg=bool(rng.random() < 0.5), mt=mt)
    v = np.asarray(s.values, float)
    case.check(v.shape == (d, n), 'a sampled table has one row per group and one column per sample', got=list(v.shape), want=[d, n])
    for j in range(d):
        m, sg = (1.0, sd[j] / mean[j]) if relative else (mean[j], sd[j])
        bad = stratified(v[j], m, sg, distro)
        case.check(bad is None, f'{kind_name} sample of group {j + 1} is not a Latin hypercube sample of its distribution: {bad}', mean=m, sd=sg, row=v[j])
    case.event('store')
    case.sig('store', kind_name, n, d, np.round(mean, 6).tolist())
    case.sample(sample_type=kind_name, samples=n, groups=d, relative=relative)


def helpers(case):
    from ASAPy import CovManipulation as cm
    rng = case.rng
    n, d = int(rng.integers(1, 200)), int(rng.integers(1, 10))
    case.seed_global()
    with quiet():
        u = np.asarray(cm.lhs_uniform_sample(d, n))
    case.check(u.shape == (n, d), 'unit Latin hypercube: wrong shape', got=list(u.shape))
    for j in range(d):
        k = np.floor(np.sort(u[:, j]) * n * (1 - 1e-13)).astype(int)
        case.equal(k, np.arange(n), 'unit Latin hypercube: not one value in each stratum')
    case.event('unit')
    mean = rng.normal(size=d) * 10 ** rng.uniform(-3, 3)
    sd = gen.log_uniform(rng, 1e-4, 1e3, d)
    with quiet():
        s = np.asarray(cm.lhs_normal_sample(n, mean, sd))
    for j in range(d):
        bad = stratified(s[:, j], mean[j], sd[j], 'normal')
        case.check(bad is None, f'uncorrelated normal sample: {bad}')
    case.event('lhs_normal')
    case.sig('helpers', n, d, float(np.round(mean[0], 6)))


def many(case):
    """Samples far out in the tails: as many as users draw, and more."""
    from ASAPy import CovManipulation as cm
    rng = case.rng
    distro = ['normal', 'lognormal', 'uniform'][case.index % 3]
    n, d = int(rng.integers(1500, 6000)), int(rng.integers(1, 3))
    mean = gen.log_uniform(rng, 1e-6, 1e6, d)
    sd = mean * gen.log_uniform(rng, 1e-3, 2.0, d)
    corr, kind = gen.corr_matrix(rng, d, 'factor')
    case.input(n=n, d=d, distro=distro, mean=mean, sd=sd, corr=corr)
    case.seed_global()
    with quiet():
        s = np.asarray(cm.sample_with_corr(mean.copy(), sd.copy(), corr.copy(), n, distro=distro))
    case.check(s.shape == (n, d), 'samples must have one row per sample and one column per variable', got=list(s.shape), want=[n, d])
    for j in range(d):
        bad = stratified(s[:, j], mean[j], sd[j], distro)
        case.check(bad is None, f'{distro} sample of variable {j} is not a Latin hypercube sample of its distribution: {bad}', mean=mean[j], sd=sd[j], n=n)
    case.event('many')
    case.sig('many', distro, n, d)


def pooled(case):
    """Within its stratum a value can be anywhere: the first one of many small samples has the whole distribution."""
    from ASAPy import CovManipulation as cm
    rng = case.rng
    distro = ['normal', 'lognormal', 'uniform'][case.index % 3]
    n = int(rng.integers(1, 4))
    mean, sd = np.array([float(gen.log_uniform(rng, 0.01, 100))]), np.array([0.0])
    sd[0] = mean[0] * float(rng.uniform(0.05, 0.5))
    case.seed_global()
    u = []
    with quiet():
        for _ in range(400):
            s = np.asarray(cm.sample_with_corr(mean.copy(), sd.copy(), np.ones((1, 1)), n, distro=distro))
            u += list(np.sort(marginal_cdf(s[:, 0], mean[0], sd[0], distro)) * n % 1.0)
    u = np.sort(u)
    m = len(u)
    gap = max(np.abs(u - np.arange(m) / m).max(), np.abs(u - np.arange(1, m + 1) / m).max()) * np.sqrt(m)
    case.check(gap < 3.5, 'values are not spread over their strata', distro=distro, n=n, distance=gap)      # a chance of 5e-11
    case.event('pooled')
    case.sig('pooled', distro, n, float(mean[0]))


WORKLOADS = [Workload('many', many, 6, 60), Workload('pooled', pooled, 6, 60), Workload('library', library, 300, 6000), Workload('store', store, 60, 1200), Workload('helpers', helpers, 60, 1000)]
