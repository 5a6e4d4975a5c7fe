"""C07: loading covariance data from a store: normalisation, group bounds, repair of correlation matrices."""
import numpy as np

from ..core import Workload, quiet
from .. import gen

ID = 'C07'
RULE = ('random stores: correlation of 11 kinds (incl. indefinite, singular, groups without data, no data at all), stored as 1.0 or 1000 on the diagonal, '
        'with normal or exchanged bound columns, pairs of different nuclides and reactions; non-trivial = scaled, repaired, exchanged or partly without data; '
        'distinct by content')
EXPECT = {'loaded': 150, 'scaled': 40, 'swapped': 40, 'repaired': 40, 'untouched': 40, 'no_data_groups': 30, 'no_data_at_all': 5, 'pair_of_two': 20, 'no_repair_asked': 20}


def load(case):
    import pandas as pd
    from ASAPy import XsecSampler as xs
    rng = case.rng
    d = int(rng.choice([1, 2, 3, 5, 8, 13, 25]))
    kind = str(rng.choice(['factor', 'decay', 'anti', 'random', 'block', 'near_singular', 'constant', 'indefinite', 'indefinite', 'singular', 'rounded']))
    if kind == 'rounded':
        corr, _ = gen.corr_matrix(rng, d, 'singular')
        corr = np.round(corr, 3)
    else:
        corr, _ = gen.corr_matrix(rng, d, kind)
    if rng.random() < 0.2:
        np.fill_diagonal(corr, rng.uniform(0.6, 1.0, d))
        corr[0, 0] = 1.0
    nodata = np.zeros(d, bool)
    mode = rng.random()
    if mode < 0.3 and d > 1:
        nodata = rng.random(d) < 0.4
        nodata[int(rng.integers(0, d))] = False
    elif mode < 0.36:
        nodata[:] = True
    corr[nodata, :] = 0.0
    corr[:, nodata] = 0.0
    if not nodata.all():
        corr[np.flatnonzero(~nodata)[0], np.flatnonzero(~nodata)[0]] = 1.0
    scale = float(rng.choice([1.0, 1000.0, 1000.0, 0.4, 1e-3, 100.0]))
    swap = bool(rng.random() < 0.4)
    mean = gen.log_uniform(rng, 1e-4, 1e4, d)
    sd = mean * rng.uniform(0.01, 0.5, d)
    b = gen.group_bounds(rng, d)
    z1, m1 = int(rng.choice([1001, 92235])), int(rng.choice([2, 18, 102]))
    two = bool(rng.random() < 0.3)
    z2, m2 = (int(rng.choice([8016, 94239])), int(rng.choice([16, 51]))) if two else (None, None)
    case.input(corr=corr * scale, swap=swap, nodata=nodata, mean=mean, sd=sd, bounds=b, key=[z1, m1, z2, m2], kind=kind)
    repair = bool(rng.random() < 0.75)
    as_str = bool(rng.random() < 0.5)
    k = [str(v) if (as_str and v is not None) else v for v in (z1, m1, z2, m2)]
    with quiet(), pd.HDFStore(case.path('s.h5'), 'w') as h:
        gen.store_put(h, z1, m1, b[:-1], b[1:], mean, sd, corr, zaid2=z2, mt2=m2, scale=scale, swap=swap)
        # decoys next to it
        junk = gen.corr_matrix(rng, d, 'identity')[0]
        gen.store_put(h, z1, 999, b[:-1], b[1:], mean * 3, sd * 3, junk)
        gen.store_put(h, 40090, m1, b[:-1], b[1:], mean * 5, sd * 5, junk)
        if two:
            gen.store_put(h, z1, m1, b[:-1], b[1:], mean * 7, sd * 7, junk)
            gen.store_put(h, z2, m2, b[:-1], b[1:], mean * 9, sd * 9, junk)
        x = xs.XsecSampler(h, k[0], k[1], k[2], k[3], remove_negative_eig=repair)
        sdf, cdf = xs.XsecSampler.load_zaid_mt(h, k[0], k[1], k[2], k[3])
        x2 = xs.XsecSampler(h, k[0], k[1], k[2], k[3], remove_negative_eig=repair)
    case.event('loaded')
    top = np.diag(corr).max()
    norm = corr / top if top > 0 else corr
    for name, df in (('sampler', x.std_dev_df), ('loaded', sdf)):
        case.equal(np.asarray(df['e low'].values, float), b[1:], f'{name}: lower bounds')
        case.equal(np.asarray(df['e high'].values, float), b[:-1], f'{name}: upper bounds')
        case.equal(np.asarray(df['x-sec(1)'].values, float), mean, f'{name}: cross-sections')
        case.equal(np.asarray(df['s.d.(1)'].values, float), sd, f'{name}: standard deviations')
        case.close_to(df['rel.s.d.(1)'].values, sd / mean, f'{name}: relative standard deviations')
        case.check(list(df.index) == list(range(1, d + 1)), f'{name}: group labels', got=list(df.index))
    case.close_to(cdf.values, norm, 'loaded correlation is not the stored one normalised to a largest diagonal of 1', rtol=1e-12, atol=1e-15)
    case.check(list(cdf.index) == list(range(1, d + 1)) and list(cdf.columns) == list(range(1, d + 1)), 'correlation lost its labels')
    if swap:
        case.event('swapped')
    if scale != 1:
        case.event('scaled')
    if two:
        case.event('pair_of_two')
    got = np.asarray(x.corr_df.values, float)
    case.equal(np.asarray(x2.corr_df.values, float), got, 'loading the same data twice gives different correlations')
    case.check(got.shape == (d, d) and np.isfinite(got).all(), 'correlation is not finite')
    if nodata.any():
        case.check((got[nodata, :] == 0).all() and (got[:, nodata] == 0).all(), 'groups without data must stay without data', nodata=nodata)
        case.event('no_data_at_all' if nodata.all() else 'no_data_groups')
    ok = ~nodata
    if ok.any():
        sub = norm[np.ix_(ok, ok)]
        g = got[np.ix_(ok, ok)]
        w, v = np.linalg.eigh(sub)
        if not repair:
            case.close_to(g, sub, 'the correlation was changed although no repair was asked for', rtol=1e-12, atol=1e-15)
            case.event('no_repair_asked')
        elif w.min() > 2e-8:
            case.close_to(g, sub, 'a positive definite correlation was changed', rtol=1e-12, atol=1e-15, min_eig=w.min())
            case.event('untouched')
        elif w.min() < 0.5e-8:
            lift = w.copy()
            lift[w <= 1e-8] = min(1e-8 * w.max(), 1e-8)
            want = (v * lift) @ v.T
            case.close_to(g, want, 'repair is not the same matrix with its negative eigenvalues raised to a small positive one', rtol=0, atol=3e-8 * max(1, d), min_eig=w.min())
            gw = np.linalg.eigvalsh((g + g.T) / 2)
            case.check(gw.min() > -1e-12 * max(1, d) and gw.min() >= 0.2 * lift.min() - 1e-13 * d, 'repaired correlation is not positive definite', min_eig=gw.min(), before=w.min())
            case.close_to(g, g.T, 'repaired correlation is not symmetric', rtol=0, atol=1e-10)
            # no further from the given matrix than what the bad eigenvalues require
            need = np.linalg.norm(np.maximum(lift - w, 0) * (w <= 1e-8))
            case.check(np.linalg.norm(g - sub) <= need * (1 + 1e-6) + 1e-7, 'repair changed more than the bad eigenvalues', moved=np.linalg.norm(g - sub), needed=need)
            case.event('repaired')
    if scale != 1 or swap or nodata.any() or kind in ('indefinite', 'singular', 'rounded'):
        case.sig(kind, d, scale, swap, nodata.tolist(), np.round(corr[0], 5).tolist(), repair)
    case.sample(kind=kind, groups=d, scale=scale, swapped=swap, no_data=nodata, repair=repair)


def fill(case):
    import pandas as pd
    from ASAPy import XsecSampler as xs
    rng = case.rng
    d = int(rng.integers(2, 10))
    corr, kind = gen.corr_matrix(rng, d, rng.choice(['factor', 'decay', 'random']))
    diag = rng.uniform(0.2, 1.0, d)
    diag[int(rng.integers(0, d))] = 1.0
    c = corr.copy()
    np.fill_diagonal(c, diag)
    b = gen.group_bounds(rng, d)
    with quiet(), pd.HDFStore(case.path('s.h5'), 'w') as h:
        gen.store_put(h, 92235, 2, b[:-1], b[1:], np.ones(d), np.ones(d) * 0.1, c, scale=1000.0)
        sdf, cdf = xs.XsecSampler.load_zaid_mt(h, 92235, 2, fill_corr_diag=True)
        case.raises(lambda: xs.XsecSampler(h, 92235, 3), 'a reaction the store does not have must be refused')
        case.raises(lambda: xs.XsecSampler(h, 92238, 2), 'a nuclide the store does not have must be refused')
    want = corr.copy()
    np.fill_diagonal(want, 1.0)
    case.close_to(cdf.values, want, 'correlation with a filled diagonal', rtol=1e-12, atol=1e-15)
    case.event('filled')
    case.sig('fill', d, np.round(diag, 6).tolist())


WORKLOADS = [Workload('load', load, 400, 6000), Workload('fill', fill, 20, 200)]
