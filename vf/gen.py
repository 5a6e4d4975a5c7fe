"""Generators shared by the workloads (all drawn from the case's own rng)."""
import numpy as np


def corr_matrix(rng, n, kind=None):
    """A random symmetric matrix with unit diagonal, and what kind it is."""
    if kind is None:
        kind = rng.choice(['identity', 'factor', 'decay', 'anti', 'random', 'block', 'near_singular', 'constant'])
    kind = str(kind)
    if kind == 'identity':
        a = np.eye(n)
    elif kind == 'factor':          # strongly correlated, positive definite
        f = rng.normal(size=(n, max(1, n // 3)))
        a = f @ f.T + np.diag(rng.uniform(0.05, 1.0, n))
    elif kind == 'decay':           # neighbouring groups correlated, as covariances from resonance data
        r = rng.uniform(0.2, 0.97)
        i = np.arange(n)
        a = r ** np.abs(i[:, None] - i[None, :])
    elif kind == 'anti':
        r = rng.uniform(-0.9, -0.1)
        i = np.arange(n)
        a = r ** np.abs(i[:, None] - i[None, :])
    elif kind == 'constant':
        r = rng.uniform(0.1, 0.95)
        a = np.full((n, n), r)
        np.fill_diagonal(a, 1.0)
    elif kind == 'block':
        a = np.eye(n)
        k = rng.integers(1, n) if n > 1 else 1
        r1, r2 = rng.uniform(0.3, 0.95, 2)
        a[:k, :k] = r1
        a[k:, k:] = r2
        np.fill_diagonal(a, 1.0)
    elif kind == 'near_singular':
        f = rng.normal(size=(n, max(1, n // 2)))
        a = f @ f.T + 1e-3 * np.eye(n)
    elif kind == 'indefinite':      # unit diagonal, off diagonals too large to be a correlation matrix
        a = rng.uniform(-1, 1, (n, n))
        a = (a + a.T) / 2 + np.eye(n) * 0
        np.fill_diagonal(a, 1.0)
        return a, kind
    elif kind == 'singular':        # rank deficient: duplicated variables
        f = rng.normal(size=(n, max(1, n // 3)))
        a = f @ f.T
        d = np.sqrt(np.diag(a))
        d[d == 0] = 1
        a = a / np.outer(d, d)
        np.fill_diagonal(a, 1.0)
        return a, kind
    else:
        f = rng.normal(size=(n, 2 * n + 2))
        a = f @ f.T
    d = np.sqrt(np.diag(a))
    a = a / np.outer(d, d)
    a = (a + a.T) / 2
    np.fill_diagonal(a, 1.0)
    return a, kind


def log_uniform(rng, lo, hi, size=None):
    return 10.0 ** rng.uniform(np.log10(lo), np.log10(hi), size)


def group_bounds(rng, groups, lo=None, hi=None):
    """Strictly decreasing bounds (eV), groups + 1 of them; sometimes a standard looking range."""
    lo = lo if lo is not None else float(rng.choice([1e-5, 1e-3, 0.1, 10.0]))
    hi = hi if hi is not None else float(rng.choice([2e7, 1.5e8, 1e6]))
    while True:
        b = np.sort(log_uniform(rng, lo * 1.5, hi / 1.5, groups - 1)) if groups > 1 else np.array([])
        b = np.concatenate([[lo], b, [hi]])
        if (np.diff(b) > b[:-1] * 1e-6).all():
            return b[::-1].copy()


def store_put(h, zaid, mt, e_high, e_low, mean, sd, corr, rel=None, zaid2=None, mt2=None, scale=1.0, swap=False):
    """Put one covariance in a store in the documented key layout, written with pandas only (not through ASAPy)."""
    import pandas as pd
    n = len(mean)
    idx = pd.Index(range(1, n + 1), name='groups')
    mean = np.asarray(mean, float)
    sd = np.asarray(sd, float)
    if rel is None:
        with np.errstate(all='ignore'):
            rel = np.where(mean != 0, sd / np.where(mean == 0, 1, mean), 1e-7)
    df = pd.DataFrame({'e low': e_high if swap else e_low, 'e high': e_low if swap else e_high, 'x-sec(1)': mean, 'x-sec(2)': mean * 1.5,
                       'rel.s.d.(1)': rel, 'rel.s.d(2)': rel * 0.5, 's.d.(1)': sd, 's.d(2)': sd * 0.75}, index=idx)
    z2 = zaid if zaid2 is None else zaid2
    m2 = mt if mt2 is None else mt2
    h.put(f'{zaid}/{mt}/{z2}/{m2}/std_dev', df)
    c = pd.DataFrame(np.asarray(corr) * scale, index=range(1, n + 1), columns=list(range(1, n + 1)))
    h.put(f'{zaid}/{mt}/{z2}/{m2}/corr', c)
    return df, c
