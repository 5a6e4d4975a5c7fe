"""C04: sampled data have the correlation they were asked for."""
import numpy as np

from ..core import Workload, quiet
from .. import gen
from ..sampling import score_corr, lognormal_target

ID = 'C04'
RULE = ('random correlation matrices of 10 kinds (positive definite, singular, indefinite), 2-25 variables, 300-1500 samples, normal, lognormal and uniform '
        'distributions and the uncorrelated variants, through the library function and the covariance store; oracle: correlation of the normal scores of '
        'the sample ranks against the target; non-trivial = some target coefficient over 0.2 in magnitude; distinct by matrix')
ASSUMPTIONS = ['score correlations deviate from the target only by rank rounding: at most a third of the tolerance in 800 calibration runs']
EXPECT = {'compared_pairs': 500, 'lognormal': 10, 'normal': 10, 'uniform': 5, 'uncorrelated': 5, 'indefinite': 4, 'strong_pairs': 100, 'variances': 50}


def _tol(n):
    return 0.06 * np.sqrt(300.0 / n) if n >= 300 else 0.11


def _pd(a):
    try:
        np.linalg.cholesky(a)
        return True
    except np.linalg.LinAlgError:
        return False


def _norm(t):
    d = np.sqrt(np.diag(t))
    return t / np.outer(d, d)


def _compare(case, s, target, n, what):
    got = score_corr(s)
    diff = np.abs(got - target)
    i = np.unravel_index(int(np.argmax(diff)), diff.shape)
    case.check(diff.max() <= _tol(n), f'{what}: sampled correlation differs from the target', worst=float(diff.max()), pair=[int(k) for k in i],
               got=got[i], target=target[i], tolerance=_tol(n), samples=n)
    d = len(target)
    case.event('compared_pairs', d * (d - 1) // 2)
    case.event('strong_pairs', int((np.abs(np.triu(target, 1)) > 0.3).sum()))


def _size(case, rng):
    n = int(rng.choice([300, 400, 600]))
    if case.thorough and rng.random() < 0.2:
        n = 1500
    d = int(rng.integers(2, 8)) if rng.random() < 0.9 else int(rng.integers(12, 26))
    return n, d


def library(case):
    from ASAPy import CovManipulation as cm
    rng = case.rng
    n, d = _size(case, rng)
    distro = str(rng.choice(['normal', 'lognormal', 'uniform']))
    kinds = ['factor', 'decay', 'anti', 'random', 'block', 'near_singular', 'constant', 'identity']
    kinds += ['indefinite', 'indefinite', 'indefinite'] + (['singular'] if distro != 'lognormal' else [])
    kind = str(rng.choice(kinds))
    if kind == 'indefinite':
        d = max(d, 5)
    corr, kind = gen.corr_matrix(rng, d, kind)
    p = rng.permutation(d)
    corr = corr[np.ix_(p, p)]
    mean = gen.log_uniform(rng, 1e-3, 1e3, d)
    rel = rng.uniform(0.05, 0.3, d) if rng.random() < 0.5 else rng.uniform(0.1, 1.2, d)
    sd = mean * rel
    case.input(n=n, d=d, distro=distro, kind=kind, mean=mean, sd=sd, corr=corr)
    case.seed_global()
    seen, real = [], cm.gmw_cholesky

    def watch(a, *args, **kw):
        given = np.array(a, float)
        out = real(a, *args, **kw)
        seen.append((given, np.asarray(out[0], float) @ np.asarray(out[1], float)))
        return out
    cm.gmw_cholesky = watch
    try:
        with quiet():
            s = np.asarray(cm.sample_with_corr(mean, sd, corr.copy(), n, distro=distro))
    finally:
        cm.gmw_cholesky = real
    case.check(s.shape == (n, d), 'wrong shape', got=list(s.shape))
    target = lognormal_target(corr, rel) if distro == 'lognormal' else corr
    if not _pd(target):
        if np.linalg.eigvalsh(target).min() > (-1e-6 if distro == 'lognormal' else -1e-9):
            return      # borderline: both decompositions are legitimate
        if distro == 'lognormal':                   # which variables are shifted depends on the last digits, so look at the factors used
            if not seen:
                return
            given, M = seen[0]
            case.close_to(_norm(given), _norm(target), 'the correlation that is repaired', rtol=0, atol=1e-6)
            case.event('indefinite_lognormal')
        else:
            with quiet():
                P, L, e = cm.gmw_cholesky(target)       # (its own properties: C02)
            M = np.asarray(P) @ np.asarray(L)
        target = M @ M.T
        case.event('indefinite')
    target = _norm(target)
    _compare(case, s, target, n, f'{distro}, {kind}')
    case.event(distro)
    # variances too: the correlation is imposed by reordering only
    v = s.std(axis=0) / sd
    ok = (np.abs(v - 1) < (0.1 if distro != 'lognormal' else 0.6)) | (rel > 0.5)
    case.check(ok.all(), 'sampled standard deviations differ from the requested ones', ratio=v, rel=rel)
    case.event('variances', d)
    if np.abs(np.triu(target, 1)).max() > 0.2:
        case.sig(kind, distro, n, np.round(corr[0], 5).tolist())
    case.sample(kind=kind, distro=distro, samples=n, variables=d, target_row=target[0, :5], got_row=score_corr(s)[0, :5])


def store(case):
    import pandas as pd
    from ASAPy import XsecSampler as xs
    rng = case.rng
    n, d = _size(case, rng)
    d = min(d, 12)
    st = str(rng.choice(['normal', 'lognormal', 'uncorrelated', 'uniform', 'loguncorrelated']))
    corr, kind = gen.corr_matrix(rng, d, rng.choice(['factor', 'decay', 'anti', 'random', 'block', 'near_singular', 'constant', 'singular']))
    mean = gen.log_uniform(rng, 1e-3, 1e3, d)
    rel = rng.uniform(0.02, 0.12, d) if st in ('normal', 'uncorrelated') else rng.uniform(0.05, 0.5, d)
    b = gen.group_bounds(rng, d)
    case.input(n=n, d=d, sample_type=st, kind=kind, mean=mean, rel=rel, corr=corr)
    case.seed_global()
    scale = float(rng.choice([1.0, 1000.0]))
    with quiet(), pd.HDFStore(case.path('s.h5'), 'w') as h:
        gen.store_put(h, 92235, 18, b[:-1], b[1:], mean, mean * rel, corr, scale=scale)
        if rng.random() < 0.5:
            rel_df, full = xs.sample_xsec(h, 18, 92235, n, sample_type=st)
            s = np.asarray(full.values, float).T
        else:
            s = np.asarray(xs.XsecSampler(h, 92235, 18).sample(st, n, mt=18).values, float).T
    case.check(s.shape == (n, d), 'wrong shape', got=list(s.shape), want=[n, d])
    if st in ('uncorrelated', 'loguncorrelated'):
        target = np.eye(d)
        case.event('uncorrelated')
    elif st == 'lognormal':
        target = lognormal_target(corr, rel)
        if kind == 'singular' and not _pd(target):
            return
        case.event('lognormal')
    else:
        target = corr
        case.event(st)
    _compare(case, s, _norm(target), n, f'{st}, {kind}')
    case.sig('store', st, kind, n, np.round(corr[0], 5).tolist())
    case.sample(kind=kind, sample_type=st, samples=n, groups=d)


def subset(case):
    """Variables that are not sampled must not disturb the correlation of the others."""
    from ASAPy import CovManipulation as cm
    rng = case.rng
    n, d = 400, int(rng.integers(4, 9))
    distro = str(rng.choice(['normal', 'lognormal', 'uniform']))
    corr, kind = gen.corr_matrix(rng, d, rng.choice(['factor', 'decay', 'anti', 'random', 'block']))
    mean = gen.log_uniform(rng, 1e-2, 1e2, d)
    rel = rng.uniform(0.05, 0.3, d)
    sd = mean * rel
    skip = np.zeros(d, bool)
    skip[rng.choice(d, int(rng.integers(1, d - 2)), replace=False)] = True
    how = rng.integers(0, 3, d)
    for j in np.flatnonzero(skip):
        if how[j] == 0:
            mean[j] = 0.0
        elif how[j] == 1:
            sd[j] = 0.0
        else:
            corr[j, :] = 0
            corr[:, j] = 0
    case.input(mean=mean, sd=sd, corr=corr, distro=distro)
    case.seed_global()
    with quiet():
        s = np.asarray(cm.sample_with_corr(mean.copy(), sd.copy(), corr.copy(), n, distro=distro))
    keep = ~skip
    target = corr[np.ix_(keep, keep)]
    if distro == 'lognormal':
        target = lognormal_target(target, rel[keep])
    _compare(case, s[:, keep], _norm(target), n, f'{distro}, with variables that are not sampled')
    case.event('subset')
    case.sig('subset', distro, skip.tolist(), np.round(corr[0], 4).tolist())


WORKLOADS = [Workload('library', library, 120, 1000), Workload('store', store, 32, 500), Workload('subset', subset, 16, 250)]
