"""C01: conversions between covariance and (correlation, standard deviation)."""
import numpy as np

from ..core import Workload, quiet
from .. import gen

ID = 'C01'
RULE = ('random symmetric correlation matrices (8 shapes incl. singular and indefinite, 1-60 groups) with standard deviations over '
        '60 decades incl. zeros; non-trivial = at least one off-diagonal coefficient is neither 0 nor NaN; distinct by matrix content')
EXPECT = {'to_cov': 100, 'to_corr': 100, 'round_trip': 100, 'zero_variance': 10, 'calc_cov': 5}


def _std(rng, n):
    mode = rng.integers(0, 4)
    if mode == 0:
        s = rng.uniform(0.01, 5, n)
    elif mode == 1:
        s = gen.log_uniform(rng, 1e-8, 1e8, n)
    elif mode == 2:
        s = gen.log_uniform(rng, 1e-30, 1e30, n)
    else:
        s = np.full(n, float(rng.choice([1.0, 1e-12, 3e5, 0.5])))
    return s


def _ref_cov(std, corr):
    n = len(std)
    out = np.empty((n, n))
    for i in range(n):
        for j in range(n):
            out[i, j] = std[i] * std[i] if i == j else corr[min(i, j), max(i, j)] * std[i] * std[j]
    return out


def _ref_corr(cov):
    n = len(cov)
    out = np.empty((n, n))
    for i in range(n):
        for j in range(n):
            if i == j:
                out[i, j] = 1.0
            else:
                d = np.sqrt(cov[i, i]) * np.sqrt(cov[j, j])
                out[i, j] = cov[i, j] / d if d else np.nan
    return out


def convert(case):
    from ASAPy import CovManipulation as cm
    rng = case.rng
    n = int(rng.choice([1, 2, 3, 4, 5, 8, 13, 20, 33, 44, 60]))
    corr, kind = gen.corr_matrix(rng, n, rng.choice(['identity', 'factor', 'decay', 'anti', 'random', 'block', 'constant', 'indefinite', 'singular']))
    std = _std(rng, n)
    zero = np.zeros(n, bool)
    if rng.random() < 0.3:
        zero = rng.random(n) < 0.3
        std[zero] = 0.0
    if rng.random() < 0.2:          # exact zeros and exact +-1 off the diagonal
        i, j = rng.integers(0, n, 2)
        if i != j:
            corr[i, j] = corr[j, i] = float(rng.choice([0.0, 1.0, -1.0, 1.02, -1.3]))       # printed matrices do not always keep to the limits
    case.input(std=std, corr=corr)
    s0, c0 = std.copy(), corr.copy()
    with quiet():
        cov = cm.correlation_to_cov(std, corr)
    case.equal(std, s0, 'correlation_to_cov changed the standard deviations it was given')
    case.equal(corr, c0, 'correlation_to_cov changed the correlation it was given')
    cov = np.asarray(cov)
    case.check(cov.shape == (n, n), 'covariance has the wrong shape', got=list(cov.shape))
    ref = _ref_cov(s0, c0)
    case.close_to(cov, ref, 'covariance is not correlation times both standard deviations', rtol=1e-11, atol=0.0)
    case.equal(cov, cov.T, 'covariance is not symmetric')
    case.event('to_cov')
    if zero.any():
        case.event('zero_variance')
        case.check((cov[zero, :] == 0).all() and (cov[:, zero] == 0).all(), 'a variable without uncertainty has a covariance', std=s0)
    # and back
    given = ref.copy()
    with quiet(), np.errstate(all='ignore'):
        back = np.asarray(cm.cov_to_correlation(given))
    case.equal(given, ref, 'cov_to_correlation changed the covariance it was given')
    want = _ref_corr(ref)
    case.close_to(back, want, 'correlation is not covariance over both standard deviations', rtol=1e-9, atol=0.0)
    case.close_to(back, back.T, 'correlation is not symmetric', rtol=0)
    case.equal(np.diag(back), np.ones(n), 'correlation diagonal is not 1')
    case.event('to_corr')
    ok = ~zero
    if ok.any():
        sub = np.ix_(ok, ok)
        case.close_to(back[sub], np.where(np.eye(n, dtype=bool), 1.0, (c0 + c0.T) / 2)[sub], 'round trip does not give the correlation back', rtol=1e-9, atol=1e-14)
        case.event('round_trip')
    off = c0[~np.eye(n, dtype=bool)]
    if n > 1 and (off != 0).any():
        case.sig(n, kind, np.round(corr[0], 6).tolist(), np.round(np.log10(std + 1e-300), 3).tolist())
    case.sample(n=n, kind=kind, std_head=std[:4], corr_row=corr[0, :4])


def calc_cov(case):
    import pandas as pd
    from ASAPy import XsecSampler as xs
    rng = case.rng
    n = int(rng.integers(2, 15))
    corr, kind = gen.corr_matrix(rng, n, rng.choice(['factor', 'decay', 'anti', 'random', 'identity']))
    mean = gen.log_uniform(rng, 1e-3, 1e3, n)
    sd = mean * rng.uniform(0.01, 0.5, n)
    b = gen.group_bounds(rng, n)
    scale = float(rng.choice([1.0, 1000.0]))
    with quiet(), pd.HDFStore(case.path('s.h5'), 'w') as h:
        gen.store_put(h, 92235, 102, b[:-1], b[1:], mean, sd, corr, scale=scale)
        # no repair: the covariance asked for is the one of the stored correlation
        x = xs.XsecSampler(h, 92235, 102, remove_negative_eig=False)
        before = x.corr_df.values.copy()
        cov = x.calc_cov()
        case.equal(x.corr_df.values, before, 'calculating the covariance changed the correlation')
    case.close_to(cov.values, _ref_cov(sd, corr), 'covariance of a loaded nuclide', rtol=1e-10)
    case.check(list(cov.index) == list(range(1, n + 1)) and list(cov.columns) == list(range(1, n + 1)), 'covariance lost its group labels',
               index=list(cov.index), columns=list(cov.columns))
    case.event('calc_cov')
    case.sig('calc', n, kind, np.round(sd, 9).tolist())
    case.sample(n=n, kind=kind, scale=scale)


WORKLOADS = [Workload('convert', convert, 600, 12000), Workload('calc_cov', calc_cov, 30, 400)]
