"""C11: what is read from a matrix file, and what of it goes into the covariance store."""
import os

import numpy as np

from ..core import Workload, quiet
from .. import gen

ID = 'C11'
RULE = ('matrix files in the layout of boxer2mat (1-60 groups, values over the whole printable range, negative values that fill their column, zero cross-sections, zero '
        'variances, covariances too large for the variances), files with error text or missing blocks, processed one after another into new and existing stores; '
        'non-trivial = a zero, a clipped coefficient, an error or a second entry; distinct by content')
EXPECT = {'parsed': 100, 'stored': 150, 'clipped': 20, 'zero_xs': 30, 'zero_variance': 20, 'skipped_error': 15, 'refused_broken': 10, 'overwritten': 5, 'kept': 50, 'negative': 50}
COLS = ['e low', 'e high', 'x-sec(1)', 'x-sec(2)', 'rel.s.d.(1)', 'rel.s.d(2)', 's.d.(1)', 's.d(2)']


def _fmt(v):
    return f'{float(v):10.3E}'


def _block(itype, title, nrow, ncol, rows):
    out = ['', '', '', '', f'{itype:1d}{title:35.35s}{125:5d}{2:4d}{125:5d}{2:4d}{152:4d}{10:3d}{153:4d}{3:3d}{0:4d}{nrow:4d}{ncol:4d}']
    for r in rows:
        t = [_fmt(v) for v in r]
        out += [''.join(t[i:i + 8]) for i in range(0, len(t), 8)]
    return out


def q(a):
    """The values as printed."""
    a = np.asarray(a, float)
    return np.array([float(_fmt(v)) for v in a.ravel()]).reshape(a.shape)


def make(rng, n):
    b = gen.group_bounds(rng, n)
    b = q(b)
    for i in range(n - 1, -1, -1):          # printed bounds must stay distinct
        if b[i] <= b[i + 1]:
            b[i] = b[i + 1] * 1.1
    b = q(b)
    xs = gen.log_uniform(rng, 1e-12, 1e6, n) if rng.random() < 0.5 else rng.uniform(0.01, 50, n)
    rel = rng.uniform(0.001, 0.9, n)
    if rng.random() < 0.25:                 # cross-sections may be negative (interference); the relative deviation is printed as it is
        k = rng.random(n) < 0.4
        xs = np.where(k, -xs, xs)
        if rng.random() < 0.5:
            rel = np.where(k, -rel, rel)
    zero = rng.random(n) < (0.3 if rng.random() < 0.5 else 0.0)
    xs[zero] = 0.0
    if rng.random() < 0.5:
        rel[zero] = 0.0
    norel = rng.random(n) < (0.3 if rng.random() < 0.4 else 0.0)
    rel[norel] = 0.0
    corr, kind = gen.corr_matrix(rng, n, rng.choice(['identity', 'factor', 'decay', 'anti', 'random', 'block', 'indefinite']))
    if rng.random() < 0.4 and n > 1:
        k = rng.random((n, n)) < 0.2
        k = np.triu(k, 1)
        k = k | k.T
        corr = np.where(k, corr * rng.uniform(1.5, 6), corr)
    sd = np.abs(rel * np.where(xs != 0, xs, 1.0)) * float(gen.log_uniform(rng, 1e-3, 1e3))   # relative or absolute covariances, any scale
    cov = corr * np.outer(sd, sd)
    np.fill_diagonal(cov, sd ** 2)
    return b, q(xs), q(rel), q((cov + cov.T) / 2)


def write(path, b, xs, rel, cov, title=' cov  -a-238'):
    n = len(xs)
    lines = _block(0, title, n + 1, 1, [b]) + _block(1, title, n, 1, [xs]) + _block(2, title, n, 1, [rel]) + _block(3, title, n, 0, cov)
    with open(path, 'w') as f:
        f.write('\n'.join(lines) + '\n')
    return lines


def expected(b, xs, rel, cov):
    n = len(xs)
    sd = rel * xs
    v = np.sqrt(np.diag(cov))
    corr = np.zeros((n, n))
    clipped = 0
    for i in range(n):
        for j in range(n):
            if i == j:
                corr[i, j] = 1.0
            elif v[i] * v[j] > 0:
                c = cov[i, j] / (v[i] * v[j])
                clipped += abs(c) > 1
                corr[i, j] = min(1.0, max(-1.0, c))
    t = np.zeros((n, 8))
    t[:, 0], t[:, 1] = b[1:], b[:-1]
    for i in range(n):
        if xs[i] == 0:
            t[i, 2:4], t[i, 4:6], t[i, 6:8] = 0.0, 1e-7, 1e-7
        else:
            t[i, 2:4], t[i, 4:6], t[i, 6:8] = xs[i], sd[i] / xs[i], sd[i]
    return corr, t, clipped


def parse(case):
    from ASAPy import EndfToCov as ec
    rng = case.rng
    n = int(rng.choice([1, 2, 3, 7, 8, 9, 16, 17, 30, 60]))
    b, xs, rel, cov = make(rng, n)
    p = case.path('m.txt')
    lines = write(p, b, xs, rel, cov)
    case.input(b=b, xs=xs, rel=rel, cov=cov)
    with quiet():
        gb, gx, gs, gc = ec.read_boxer_out_matrix(p).get_block_data()
    case.close_to(gb, b, 'group bounds', rtol=1e-14)
    case.close_to(gx, xs, 'cross-sections', rtol=1e-14)
    case.close_to(gs, rel * xs, 'standard deviations are not relative ones times cross-sections', rtol=1e-13)
    case.close_to(gc, cov, 'covariance', rtol=1e-14)
    case.event('parsed')
    case.event('negative', int((cov < 0).any()))
    case.sig(n, b.tolist(), cov.tolist())
    # broken files
    k = int(rng.integers(0, 4))
    bad = case.path('bad.txt')
    heads = [i for i, l in enumerate(lines) if l[:1].isdigit() and 'cov  -a' in l]
    if k == 0:
        i = heads[int(rng.integers(0, 4))]
        txt = lines[:i] + ['', ' ***ERROR IN BOXR***CANNOT FIND ITYPE,MAT,MT,MAT1,MT1 =    3  125    2  125    2']
        if rng.random() < 0.3:
            txt = lines + txt[-2:]
        if rng.random() < 0.3:              # text of the run in front of the message
            txt[-1] = ' BOXR:' + txt[-1]
    elif k == 1:
        txt = lines[:heads[int(rng.integers(1, 4))]]
    elif k == 2:
        txt = [l for l in lines if not l[:1].isdigit() or 'cov  -a' not in l]
    else:
        txt = lines[:-1] if n > 1 else lines[:heads[3] + 1]
    with open(bad, 'w') as f:
        f.write('\n'.join(txt) + '\n')
    case.raises(lambda: ec.read_boxer_out_matrix(bad).get_block_data(), 'a matrix file with an error or with missing data must be refused')
    case.event('refused_broken')


def store(case):
    import pandas as pd
    from ASAPy import EndfToCov as ec
    from ASAPy import XsecSampler as xsm
    rng = case.rng
    n = int(rng.choice([1, 2, 3, 5, 8, 11, 25]))
    out = case.path('out')
    os.makedirs(out)
    name_format = str(rng.choice(['u235_102_{0}g_cov.h5', 'store_{0}.h5', 'fixed.h5']))
    h5 = os.path.join(out, name_format.format(n))
    model, ops = {}, []
    steps = int(rng.integers(1, 5))
    for step in range(steps):
        zaid = int(rng.choice([1001, 92235]))
        mt = int(rng.choice([2, 102, 18, 452, 1018, 51, 851]))
        mode = str(rng.choice(['good', 'good', 'good', 'error', 'broken']))
        fname = str(rng.choice(['covr_300.txt_{mt}_matrix.txt', 'covr_nu_600.txt_{mt}_matrix.txt']))
        b, xs, rel, cov = make(rng, n)
        p = os.path.join(out, fname.format(mt=mt))
        lines = write(p, b, xs, rel, cov)
        ops.append((mode, zaid, mt))
        case.input(ops=ops, groups=n, last=dict(b=b, xs=xs, rel=rel, cov=cov))
        if mode == 'error':
            with open(p, 'a') as f:
                f.write('\n ***ERROR IN BOXR***CANNOT FIND ITYPE,MAT,MT,MAT1,MT1 =    3  125    2  125    2\n')
            with quiet():
                ec.process_cov_to_h5(out, zaid, mt, boxer_matrix_name=fname, output_h5_format=name_format)
            case.event('skipped_error')
        elif mode == 'broken':
            with open(p, 'w') as f:
                f.write('\n'.join(lines[:-1] if n > 1 else lines[:12]) + '\n')
            case.raises(lambda: ec.process_cov_to_h5(out, zaid, mt, boxer_matrix_name=fname, output_h5_format=name_format), 'an incomplete matrix file must be refused')
            case.event('refused_broken')
        else:
            if (zaid, mt) in model:
                case.event('overwritten')
            with quiet():
                ec.process_cov_to_h5(out, zaid, mt, boxer_matrix_name=fname, output_h5_format=name_format)
            corr, table, clipped = expected(b, xs, rel, cov)
            model[zaid, mt] = (corr, table)
            case.event('clipped', int(clipped > 0))
            case.event('zero_xs', int((xs == 0).any()))
            case.event('zero_variance', int((np.diag(cov) == 0).any()))
            case.event('stored')
        # everything that should be in the store, and nothing else, after every step
        if not model:
            case.check(not os.path.exists(h5) or not pd.HDFStore(h5, 'r').keys(), 'a store entry was made from an erroneous file', ops=ops)
            continue
        with pd.HDFStore(h5, 'r') as h:
            want = {f'/{z}/{m}/{z}/{m}/{w}' for z, m in model for w in ('corr', 'std_dev')}
            case.check(set(h.keys()) == want, 'the store does not have exactly the processed data', got=sorted(h.keys()), want=sorted(want), ops=ops)
            for (z, m), (corr, table) in model.items():
                c = h[f'/{z}/{m}/{z}/{m}/corr']
                s = h[f'/{z}/{m}/{z}/{m}/std_dev']
                g = np.asarray(c.values, float)
                case.check(np.isfinite(g).all(), 'the stored correlation has undefined values', key=[z, m])
                case.close_to(g, corr, 'stored correlation', rtol=1e-9, atol=1e-300, key=[z, m], ops=ops)
                case.check((np.abs(g) <= 1).all(), 'a stored correlation coefficient is over 1')
                case.check(list(s.columns) == COLS and list(s.index) == list(range(1, n + 1)), 'labels of the stored table', got=list(s.columns))
                sv = np.asarray(s.values, float)
                case.check(np.isfinite(sv).all(), 'the stored table has undefined values', key=[z, m], ops=ops)
                for k, col in enumerate(COLS):
                    case.close_to(sv[:, k], table[:, k], f'stored column {col!r}', rtol=1e-12, key=[z, m], ops=ops)
                case.event('kept')
            z, m = list(model)[int(rng.integers(0, len(model)))]
            with quiet():
                sd, co = xsm.XsecSampler.load_zaid_mt(h, z, m)
            case.close_to(np.asarray(co.values, float), model[z, m][0], 'the stored correlation loads differently', rtol=1e-9, atol=1e-300)
            case.close_to(sd['s.d.(1)'].values, model[z, m][1][:, 6], 'the stored standard deviations load differently', rtol=1e-12)
    case.sig(n, tuple(ops), case.index)


WORKLOADS = [Workload('parse', parse, 300, 6000), Workload('store', store, 150, 2500)]
