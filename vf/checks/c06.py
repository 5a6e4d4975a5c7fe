"""C06: sampled tables: relative against full values, labels, removal of negative samples, oversampling."""
import math

import numpy as np
from scipy.stats import norm

from ..core import Workload, quiet
from .. import gen
from ..sampling import stratified, marginal_cdf

ID = 'C06'
RULE = ('random covariance stores (1-10 groups, some zero means) sampled with every distribution, sample count, oversampling count and option for negative '
        'samples; large relative deviations so that negative samples really occur; the exact number of negative values is known from the strata; non-trivial = '
        'negative samples occurred or oversampling cut the table; distinct by configuration')
EXPECT = {'pairs': 60, 'negatives_removed': 20, 'negatives_kept': 10, 'zeroed': 10, 'oversampled': 20, 'refused_count': 10, 'accepted_count': 10,
          'zero_mean_group': 20, 'unknown_type': 2, 'one_missing': 3}

TYPES = {'normal': 'normal', 'lognormal': 'lognormal', 'uncorrelated': 'normal', 'uniform': 'uniform', 'loguncorrelated': 'lognormal'}


def _labels(case, df, groups, k):
    case.check(list(df.index) == list(range(1, groups + 1)), 'rows are not labelled with the group numbers 1..G', got=list(df.index))
    case.check(list(df.columns) == list(range(k)), 'columns are not numbered 0..n-1', got=list(df.columns), n=k)


def _store(case, rng, d, mean, sd, corr, zaid=92235, mt=102):
    import pandas as pd
    b = gen.group_bounds(rng, d)
    h = pd.HDFStore(case.path('s.h5'), 'w')
    gen.store_put(h, zaid, mt, b[:-1], b[1:], mean, sd, corr)
    return h


def _neg_range(p, n):
    """Possible numbers of negative values when n equally probable strata are sampled once each."""
    return math.floor(n * p + 1e-9), math.ceil(n * p - 1e-9)


def pairs(case):
    """sample_xsec: relative and full tables describe the same samples."""
    from ASAPy import XsecSampler as xs
    rng = case.rng
    d = int(rng.integers(1, 11))
    st = str(rng.choice(list(TYPES)))
    mean = gen.log_uniform(rng, 1e-5, 1e5, d)
    sd = mean * rng.uniform(0.01, 0.1, d)
    zero = rng.random(d) < 0.2
    mean[zero] = 0.0
    sd[zero] = 1e-7
    corr, kind = gen.corr_matrix(rng, d)
    take = int(rng.integers(1, 40))
    make = int(rng.choice([0, take, take + int(rng.integers(1, 40)), 2 * take]))
    remove = bool(rng.random() < 0.5)
    case.input(sample_type=st, mean=mean, sd=sd, take=take, make=make, remove_neg=remove)
    case.seed_global()
    with quiet():
        h = _store(case, rng, d, mean, sd, corr)
        try:
            kw = {'num_samples_to_make': make} if make else {}
            rel, full = xs.sample_xsec(h, 102, 92235, take, sample_type=st, remove_neg=remove, **kw)
        finally:
            h.close()
    _labels(case, full, d, take)
    _labels(case, rel, d, take)
    r, f = np.asarray(rel.values, float), np.asarray(full.values, float)
    case.check(np.isfinite(r).all() and np.isfinite(f).all(), 'samples are not finite')
    for j in range(d):
        if zero[j]:
            case.event('zero_mean_group')
            case.check((r[j] == 1.0).all() and (f[j] == 0).all(), 'a group with a zero mean must keep the value 0 and the relative value 1', rel=r[j], full=f[j])
        else:
            case.close_to(r[j] * mean[j], f[j], 'relative value times mean is not the full value', rtol=1e-12)
            m = make or take
            u = np.sort(marginal_cdf(f[j], mean[j], sd[j], TYPES[st]))
            k = np.clip(np.floor(u * m * (1 - 1e-12) + 1e-9), 0, m - 1).astype(int)
            near = np.abs(u * m - np.round(u * m)) < 1e-6
            case.check(len(set(k[~near])) == (~near).sum(), 'two samples lie in the same stratum of the samples made', strata=k, made=m)
            if m == take:
                bad = stratified(f[j], mean[j], sd[j], TYPES[st])
                case.check(bad is None, f'sample of group {j + 1}: {bad}')
    if make > take:
        case.event('oversampled')
        case.sig('over', st, take, make, d)
    case.event('pairs')
    case.sample(sample_type=st, groups=d, take=take, make=make, rel_head=r[:, 0])


def negatives(case):
    """One group can become negative, with a known number of negative values."""
    from ASAPy import XsecSampler as xs
    rng = case.rng
    d = int(rng.integers(1, 7))
    st = str(rng.choice(['normal', 'uncorrelated', 'uniform']))
    distro = TYPES[st]
    mean = gen.log_uniform(rng, 1e-3, 1e3, d)
    rel = rng.uniform(0.01, 0.1, d)
    j = int(rng.integers(0, d))
    rel[j] = float(rng.uniform(0.7, 3.0)) if rng.random() < 0.7 else float(rng.uniform(3, 30))
    sd = mean * rel
    p = float(marginal_cdf(0.0, mean[j], sd[j], distro))
    corr, kind = gen.corr_matrix(rng, d)
    n = int(rng.integers(5, 80))
    lo, hi = _neg_range(p, n)
    case.input(sample_type=st, mean=mean, sd=sd, n=n, group=j + 1, probability_negative=p)
    case.seed_global()
    with quiet():
        h = _store(case, rng, d, mean, sd, corr)
        try:
            x = xs.XsecSampler(h, 92235, 102)
            relative = bool(rng.random() < 0.5)
            removed = x.sample(st, n, return_relative=relative, remove_neg=True)
            kept = x.sample(st, n, return_relative=relative, remove_neg=False)
            zeroed = x.sample(st, n, return_relative=relative, remove_neg=False, set_neg_to_zero=True)
            take = int(rng.integers(1, n + 1))
            # without negative samples possible the table is exactly as long as asked for
            srel, sfull = xs.sample_xsec(h, 102, 92235, take, sample_type=st, remove_neg=True, num_samples_to_make=n)
            krel, kfull = xs.sample_xsec(h, 102, 92235, n, sample_type=st, remove_neg=False)
        finally:
            h.close()
    k = removed.shape[1]
    case.check(n - hi <= k <= n - lo, 'exactly the samples with a negative value are to be removed', made=n, kept=k, negative_values=[lo, hi])
    _labels(case, removed, d, k)
    v = np.asarray(removed.values, float)
    case.check((v >= 0).all(), 'a negative sample was kept', smallest=v.min() if v.size else None)
    m, sg = (1.0, rel[j]) if relative else (mean[j], sd[j])
    if k:
        # what is kept is the upper part of the strata, one value each
        u = np.sort(marginal_cdf(v[j], m, sg, distro))
        i = np.arange(n - k, n)
        case.check((u >= i / n - 1e-7).all() and (u <= (i + 1) / n + 1e-7).all(), 'other samples than the negative ones were removed or changed', strata=(u * n)[:8], first=n - k)
    if hi:
        case.event('negatives_removed')
    _labels(case, kept, d, n)
    kv = np.asarray(kept.values, float)
    neg = int((kv[j] < 0).sum())
    case.check(lo <= neg <= hi, 'negative values must be kept when not to be removed', negatives=neg, expected=[lo, hi])
    bad = stratified(kv[j], m, sg, distro)
    case.check(bad is None, f'kept sample: {bad}')
    case.event('negatives_kept')
    _labels(case, zeroed, d, n)
    zv = np.asarray(zeroed.values, float)
    u = np.sort(marginal_cdf(zv[j], m, sg, distro))[hi:]
    i = np.arange(n - len(u), n)
    case.check((u >= i / n - 1e-7).all() and (u <= (i + 1) / n + 1e-7).all(), 'values that are not negative were changed', strata=(u * n)[-8:])
    case.check((zv >= 0).all(), 'negative values must be set to zero when asked to', smallest=zv.min())
    nz = int((zv[j] == 0).sum())
    case.check(lo <= nz <= hi and (np.delete(zv, j, 0) > 0).all(), 'exactly the negative values are to be set to zero', zeros=nz, expected=[lo, hi])
    case.event('zeroed')
    ks = srel.shape[1]
    case.check(min(take, n - hi) <= ks <= min(take, n - lo) and sfull.shape[1] == ks, 'oversampling must keep the asked number of samples if that many are left',
               take=take, made=n, kept=ks, negative_values=[lo, hi])
    _labels(case, srel, d, ks)
    _labels(case, sfull, d, ks)
    case.check((srel.values >= 0).all() and (sfull.values >= 0).all(), 'a negative sample was kept')
    case.close_to(np.asarray(srel.values) * mean[:, None], sfull.values, 'relative value times mean is not the full value', rtol=1e-12)
    case.event('oversampled')
    _labels(case, krel, d, n)
    case.close_to(np.asarray(krel.values) * mean[:, None], kfull.values, 'relative value times mean is not the full value', rtol=1e-12)
    case.sig(st, n, round(p, 6), j, d, take)
    case.sample(sample_type=st, samples=n, negative_values=[lo, hi], kept=k, take=take, kept_of_take=ks)


def refusing(case):
    """raise_on_bad_sample: fails exactly when samples are missing."""
    from ASAPy import XsecSampler as xs
    rng = case.rng
    d = int(rng.integers(1, 5))
    st = str(rng.choice(['normal', 'uncorrelated', 'uniform']))
    mean = gen.log_uniform(rng, 1e-2, 1e2, d)
    rel = rng.uniform(0.01, 0.08, d)
    will_fail = bool(rng.random() < 0.5)
    n = int(rng.integers(8, 50))
    if will_fail:
        rel[int(rng.integers(0, d))] = float(rng.uniform(1.2, 3.0))
    p = max(float(marginal_cdf(0.0, 1.0, r, TYPES[st])) for r in rel)
    if will_fail and math.floor(n * p) < 1:
        n = int(math.ceil(1.5 / p))
    if will_fail and case.index % 2:
        # exactly one of n samples is negative
        i = int(np.argmax(rel))
        rel[i] = -1 / float(norm.ppf(1.02 / n)) if TYPES[st] == 'normal' else 1 / (3 ** 0.5 * (1 - 2.04 / n))
        case.event('one_missing')
    corr, _ = gen.corr_matrix(rng, d)
    case.input(sample_type=st, rel=rel, n=n, will_fail=will_fail)
    case.seed_global()
    with quiet():
        h = _store(case, rng, d, mean, mean * rel, corr)
        try:
            if will_fail:
                case.raises(lambda: xs.sample_xsec(h, 102, 92235, n, sample_type=st, remove_neg=True, raise_on_bad_sample=True),
                            'missing samples must be reported when asked to')
                case.raises(lambda: xs.XsecSampler(h, 92235, 102).sample(st, n, remove_neg=True, raise_on_bad_sample=True),
                            'missing samples must be reported when asked to')
                case.event('refused_count')
            else:
                a, b = xs.sample_xsec(h, 102, 92235, n, sample_type=st, remove_neg=True, raise_on_bad_sample=True)
                _labels(case, a, d, n)
                _labels(case, b, d, n)
                case.event('accepted_count')
            if rng.random() < 0.7:
                case.raises(lambda: xs.XsecSampler(h, 92235, 102).sample(str(rng.choice(['gamma', 'norm', '', 'normal2', 'lognorm', 'log', 'uncorrelated_', 'uni', 'xnormal', 'log-normal', 'none'])), n), 'an unknown distribution must be refused')
                case.event('unknown_type')
        finally:
            h.close()
    case.sig('refuse', st, n, d, will_fail)


WORKLOADS = [Workload('pairs', pairs, 150, 3000), Workload('negatives', negatives, 120, 2500), Workload('refusing', refusing, 60, 1000)]
