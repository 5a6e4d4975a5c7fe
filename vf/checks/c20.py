"""C20: perturbed ACE files."""
import os

import numpy as np

from ..core import Workload, quiet
from .. import e2e

ID = 'C20'
RULE = ('random base files (fissile and not, levels with and without sums, old and new headers), stores with an own group structure per reaction (bounds on and between energies, '
        'partly outside the range of the data), 1-4 reactions in any order incl. nu and fission spectrum, 1-4 samples of random factors incl. one and zero, different samples kept per '
        'reaction; every word of every file and every number of the tables compared; non-trivial = all; distinct by content')
EXPECT = {'files': 200, 'changed_words': 5000, 'nu': 20, 'chi': 15, 'sums': 100, 'several_mts': 80, 'csv': 150, 'dropped_samples': 20, 'elastic': 30, 'levels': 15, 'partial_range': 60}


def frames(rng, c, nsamples, drop):
    import pandas as pd
    out = []
    for m in c.mts:
        g = len(c.bounds[m]) - 1
        v = rng.uniform(0.3, 1.9, (g, nsamples)) if m != 1018 else rng.uniform(0.7, 1.3, (g, nsamples))
        if rng.random() < 0.2:
            v[int(rng.integers(0, g)), :] = 1.0
        if rng.random() < 0.15 and m != 1018:
            v[int(rng.integers(0, g)), int(rng.integers(0, nsamples))] = 0.0
        df = pd.DataFrame(v, index=range(1, g + 1), columns=range(nsamples))
        if drop and rng.random() < 0.5 and nsamples > 1:
            df = df.drop(columns=[int(rng.integers(0, nsamples))])
        out.append(df)
    return out


def perturb(case):
    import pandas as pd
    from ASAPy import XsecSampler as xs
    rng = case.rng
    c = e2e.Case(rng, case.path('base.ace'), fissile=bool(rng.random() < 0.7))
    c.store(rng, case.path('cov.h5'))
    ns = int(rng.integers(1, 5))
    drop = bool(rng.random() < 0.3)
    dfs = frames(rng, c, ns, drop)
    keep = [df.copy() for df in dfs]
    fmt = case.path('out/' + str(rng.choice(['U235_{0}', 'x{0}', 'xsec_sampled_{0}.ace'])))
    os.makedirs(case.path('out'))
    case.input(mts=c.mts, name=c.a.name, all=[rx['mt'] for rx in c.a.reactions], bounds={str(k): v for k, v in c.bounds.items()}, samples=ns)
    with quiet(), pd.HDFStore(case.path('cov.h5'), 'r') as h:
        xs.write_sampled_data(h, c.path, c.zaid, c.mts, dfs, output_formatter=fmt)
    common = [k for k in range(ns) if all(k in df.columns for df in keep)]
    want_files = {os.path.basename(fmt.format(k)) for k in common} | {os.path.basename(fmt.format(m)) + '_samples.csv' for m in c.mts}
    got_files = set(os.listdir(case.path('out')))
    case.check(got_files == want_files, 'not one file per sample and one table per reaction', got=sorted(got_files), want=sorted(want_files))
    for k in common:
        rel = {m: df[k].values for m, df in zip(c.mts, keep)}
        n = e2e.verify(case, c, fmt.format(k), rel, f'sample {k}')
        case.event('files')
        case.event('changed_words', n)
    case.check(open(c.path).read() == c.text, 'the base file was changed')
    for m, df in zip(c.mts, keep):
        t = pd.read_csv(fmt.format(m) + '_samples.csv', index_col=0)
        st = c.stats[m]
        case.check(list(t.columns) == ['e low', 'e high', 'xsec', 'rel std'] + [str(k) for k in df.columns], f'MT {m}: columns of the table of samples', got=list(t.columns))
        case.check(list(t.index) == list(df.index), f'MT {m}: groups of the table of samples')
        for col, ref in (('e low', 'e low'), ('e high', 'e high'), ('xsec', 'x-sec(1)'), ('rel std', 'rel.s.d.(1)')):
            case.close_to(t[col].values, st[ref].values, f'MT {m}: {col} in the table of samples', rtol=1e-12)
        for k in df.columns:
            case.close_to(t[str(k)].values, df[k].values, f'MT {m}: sample {k} in the table of samples', rtol=1e-12)
        case.event('csv')
    case.event('nu', int(452 in c.mts))
    case.event('chi', int(1018 in c.mts))
    case.event('sums', 1)
    case.event('several_mts', int(len(c.mts) > 1))
    case.event('dropped_samples', int(len(common) < ns))
    case.event('elastic', int(2 in c.mts))
    case.event('levels', int(any(m >= 600 and m != 1018 for m in c.mts)))
    case.event('partial_range', int(any(b[-1] > 1e-5 or b[0] < c.a.E[-1] * 1e6 for b in c.bounds.values())))
    case.sig(c.text, tuple(c.mts))
    case.sample(mts=c.mts, samples=ns, files=len(common))


WORKLOADS = [Workload('perturb', perturb, 220, 3000)]
