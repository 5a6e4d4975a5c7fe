"""C02: the modified Cholesky factorisation used for matrices that are not positive definite."""
import numpy as np

from ..core import Workload, quiet
from .. import gen

ID = 'C02'
RULE = ('random symmetric matrices, 1-30 variables: positive definite, singular, indefinite, negative diagonal, zero, scaled over 12 decades, '
        'diagonals in every order (so that pivoting happens); non-trivial = pivoted or modified; distinct by matrix content')
EXPECT = {'factorised': 200, 'pivoted': 60, 'modified': 60, 'positive_definite': 60, 'singular': 5}


def factor(case):
    from ASAPy import CovManipulation as cm
    rng = case.rng
    n = int(rng.choice([1, 2, 3, 4, 5, 6, 8, 12, 20, 30]))
    mode = str(rng.choice(['pd_corr', 'pd_cov', 'indefinite', 'negdiag', 'singular', 'zero', 'corr_indef', 'nearly', 'int']))
    if mode == 'pd_corr':
        a, _ = gen.corr_matrix(rng, n)
    elif mode == 'pd_cov':
        c, _ = gen.corr_matrix(rng, n)
        s = gen.log_uniform(rng, 0.03, 30, n)
        a = c * np.outer(s, s)
    elif mode == 'indefinite':
        a = rng.normal(size=(n, n))
        a = a + a.T
    elif mode == 'negdiag':
        a = rng.normal(size=(n, n))
        a = a + a.T
        a[np.diag_indices(n)] -= rng.uniform(0, 5, n)
    elif mode == 'singular':
        a, _ = gen.corr_matrix(rng, n, 'singular')
    elif mode == 'zero':
        a = np.zeros((n, n))
        if n > 2:
            a[0, 1] = a[1, 0] = rng.normal()
    elif mode == 'corr_indef':
        a, _ = gen.corr_matrix(rng, n, 'indefinite')
    elif mode == 'nearly':          # slightly indefinite, as after rounding of printed correlations
        a, _ = gen.corr_matrix(rng, n, 'singular')
        a = np.round(a, 3)
    else:
        a = rng.integers(-4, 5, (n, n)).astype(float)
        a = a + a.T
    scale = float(gen.log_uniform(rng, 1e-6, 1e6)) if rng.random() < 0.3 else 1.0
    a = (a + a.T) / 2 * scale
    if rng.random() < 0.5:          # put the largest diagonal anywhere
        p = rng.permutation(n)
        a = a[np.ix_(p, p)]
    a0 = a.copy()
    case.input(a=a0, mode=mode)
    with quiet():
        P, L, e = cm.gmw_cholesky(a)
    case.equal(a, a0, 'the factorisation changed the matrix it was given')
    P, L, e = np.asarray(P), np.asarray(L), np.asarray(e)
    case.check(P.shape == (n, n) and L.shape == (n, n) and e.shape == (n,), 'wrong shapes', P=list(P.shape), L=list(L.shape), e=list(e.shape))
    case.check(np.isfinite(P).all() and np.isfinite(L).all() and np.isfinite(e).all(), 'factors are not finite')
    case.check(((P == 0) | (P == 1)).all() and (P.sum(0) == 1).all() and (P.sum(1) == 1).all(), 'P is not a permutation', P=P)
    mag = np.abs(a0).max() if n else 0
    tol = 1e-10 * n * n * max(mag, 1e-300) + 1e-14
    case.check(np.abs(np.triu(L, 1)).max() <= tol * 1e-3 + 1e-300 if n > 1 else True, 'L is not lower triangular', L=L)
    case.check((np.diag(L) > 0).all(), 'diagonal of L is not positive', diag=np.diag(L))
    case.check((e >= -tol).all(), 'the diagonal shift is negative', e=e)
    M = P @ L
    got = M @ M.T - np.diag(P @ e)
    emax = np.abs(e).max() if n else 0
    case.close_to(got, a0, 'factors do not reproduce the matrix: (P L)(P L)^T - diag(P e) != A', rtol=0, atol=tol + 1e-10 * n * emax)
    case.event('factorised')
    w = np.linalg.eigvalsh(a0)
    if w.min() > 1e-6 * max(1.0, w.max()) or (w.min() > 1e-6 * w.max() and mag >= 1):
        case.event('positive_definite')
        case.check(np.abs(e).max() <= tol, 'a positive definite matrix was modified', e=e, min_eig=w.min(), max_eig=w.max())
    elif w.min() < 0:
        # every modification must make it positive definite, so at least one shift is needed
        case.event('modified')
        case.check(e.max() >= -w.min() * 0.999 / 1.0 - tol or e.max() > 0, 'an indefinite matrix was not modified', e=e, min_eig=w.min())
        # Gill-Murray-Wright bound on the shift: it stays of the order of the matrix
        case.check(emax <= 1e-6 + 8 * n * n * (mag + mag), 'the modification is out of proportion to the matrix', e=e, largest=mag)
    else:
        case.event('singular')
    if not np.array_equal(P, np.eye(n)):
        case.event('pivoted')
    if not np.array_equal(P, np.eye(n)) or e.max() > tol:
        case.sig(mode, n, np.round(a0.ravel()[:12], 8).tolist())
    case.sample(mode=mode, n=n, min_eig=w.min(), shift_max=emax)


WORKLOADS = [Workload('factor', factor, 900, 20000)]
