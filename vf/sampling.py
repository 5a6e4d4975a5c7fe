"""Oracles for sampled data, written from the definitions (scipy.stats cdfs, rank scores)."""
import numpy as np
from scipy.stats import norm, rankdata


def marginal_cdf(x, mean, sd, distro):
    """Cumulative probability of x in the distribution with this mean and standard deviation."""
    x = np.asarray(x, float)
    if distro == 'normal':
        return norm.cdf((x - mean) / sd)
    if distro == 'lognormal':
        s2 = np.log1p((sd / mean) ** 2)
        mu = np.log(mean) - s2 / 2
        return norm.cdf((np.log(x) - mu) / np.sqrt(s2))
    if distro == 'uniform':
        half = np.sqrt(3.0) * sd
        return np.clip((x - (mean - half)) / (2 * half), -1, 2)
    raise ValueError(distro)


def stratified(x, mean, sd, distro, tol=1e-7):
    """None if x has exactly one value in each of len(x) equally probable strata, else what is wrong."""
    n = len(x)
    if not np.isfinite(x).all():
        return 'not finite'
    if distro == 'lognormal' and not (np.asarray(x) > 0).all():
        return 'lognormal sample not positive'
    if distro == 'lognormal':       # log(1 + rel^2) in double precision
        tol = tol + 1e-15 / (sd / mean) ** 2
    u = np.sort(marginal_cdf(x, mean, sd, distro))
    k = np.arange(n)
    lo = (k / n) - tol
    hi = ((k + 1) / n) + tol
    bad = (u < lo) | (u > hi)
    if bad.any():
        i = int(np.argmax(bad))
        return f'stratum {i} of {n}: expected a cumulative probability in [{i / n:.6g}, {(i + 1) / n:.6g}], found {u[i]:.6g}'
    return None


def score_corr(s):
    """Correlation of the normal scores of the ranks."""
    n, d = s.shape
    if d == 1:
        return np.ones((1, 1))
    z = np.column_stack([norm.ppf((rankdata(s[:, j], method='ordinal') - 0.5) / n) for j in range(d)])
    return np.corrcoef(z.T)


def lognormal_target(corr, rel):
    """Zerovnik et al.: correlation coefficients of lognormal variables from the normal ones."""
    q = np.sqrt(np.log1p(np.asarray(rel) ** 2))
    return np.expm1(corr * np.outer(q, q)) / np.outer(rel, rel)
