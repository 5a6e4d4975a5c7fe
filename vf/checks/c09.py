"""C09: the covariance store keeps what was put in, under its own key only, and refuses malformed tables."""
import numpy as np

from ..core import Workload, quiet
from .. import gen

ID = 'C09'
RULE = ('random histories of puts, overwrites and refused puts of standard deviation and correlation tables under random nuclide/reaction pairs (few keys, so that '
        'they collide), with the file closed and reopened in between, against a dictionary model; non-trivial = history with an overwrite or a refusal; distinct '
        'by operation sequence')
EXPECT = {'put': 200, 'overwrite': 30, 'refused_corr': 20, 'refused_std': 20, 'reopened': 50, 'read_back': 300, 'loaded': 70}

COLS = ['e low', 'e high', 'x-sec(1)', 'x-sec(2)', 'rel.s.d.(1)', 'rel.s.d(2)', 's.d.(1)', 's.d(2)']


def _key(k, what):
    return '/{0}/{1}/{2}/{3}/{4}'.format(*k, what)


def history(case):
    import pandas as pd
    from ASAPy import AsapyCovStorage as st
    from ASAPy import XsecSampler as xs
    rng = case.rng
    path = case.path('store.h5')
    model = {}
    ops = []
    zs, mts = [1001, 92235, 923, 5235], [2, 18, 102, 1, 12]
    h = pd.HDFStore(path, 'a')
    try:
        with quiet():
            for step in range(int(rng.integers(4, 14))):
                k = (int(rng.choice(zs)), int(rng.choice(mts)), int(rng.choice(zs)), int(rng.choice(mts)))
                if rng.random() < 0.6:
                    k = (k[0], k[1], k[0], k[1])
                if model and rng.random() < 0.3:
                    k = list(model)[int(rng.integers(0, len(model)))][:4]
                kk = tuple(str(v) for v in k) if rng.random() < 0.3 else k
                n = int(rng.choice([1, 2, 3, 7, 44]))
                op = str(rng.choice(['corr', 'std', 'bad_corr', 'bad_std', 'reopen'], p=[0.35, 0.35, 0.1, 0.1, 0.1]))
                ops.append((op, k))
                if op == 'corr':
                    df = st.create_corr_df(n)
                    case.check(list(df.index) == list(range(1, n + 1)) and list(df.columns) == list(range(1, n + 1)), 'new correlation table: labels', index=list(df.index), columns=list(df.columns))
                    c = gen.corr_matrix(rng, n)[0]
                    df.loc[:, :] = c
                    st.add_corr_to_store(h, df, *kk)
                    case.event('overwrite' if k + ('corr',) in model else 'put')
                    model[k + ('corr',)] = c
                elif op == 'std':
                    df = st.create_stddev_df(n)
                    case.check(list(df.index) == list(range(1, n + 1)) and list(df.columns) == COLS, 'new standard deviation table: labels', index=list(df.index), columns=list(df.columns))
                    b = gen.group_bounds(rng, n)
                    v = rng.normal(size=(n, 8)) * 10 ** rng.uniform(-8, 8)
                    v[:, 0], v[:, 1] = b[1:], b[:-1]
                    df.loc[:, :] = v
                    st.add_stddev_to_store(h, df, *kk)
                    case.event('overwrite' if k + ('std_dev',) in model else 'put')
                    model[k + ('std_dev',)] = v
                elif op == 'bad_corr':
                    n = max(n, 2)
                    c = gen.corr_matrix(rng, n)[0]
                    if rng.random() < 0.5:
                        df = pd.DataFrame(c[:, :-1], index=range(1, n + 1), columns=range(1, n))
                        if rng.random() < 0.5:
                            df = df.T
                    elif rng.random() < 0.4:       # the same groups, but in another order
                        cols = list(range(1, n + 1))
                        i = int(rng.integers(0, n - 1))
                        cols[i], cols[i + 1] = cols[i + 1], cols[i]
                        df = pd.DataFrame(c, index=range(1, n + 1), columns=cols)
                        if rng.random() < 0.5:
                            df = df.T
                    else:
                        cols = list(range(1, n + 1))
                        i = int(rng.integers(0, n))
                        cols[i] = n + 1 + i
                        df = pd.DataFrame(c, index=range(1, n + 1), columns=cols)
                        if rng.random() < 0.5:
                            df = df.T
                    case.raises(lambda: st.add_corr_to_store(h, df, *kk), 'a correlation table that is not square or labelled differently must be refused')
                    case.event('refused_corr')
                elif op == 'bad_std':
                    n = max(n, 2)
                    b = gen.group_bounds(rng, n)
                    df = st.create_stddev_df(n)
                    df.loc[:, :] = rng.uniform(0.1, 1, (n, 8))
                    df['e low'], df['e high'] = b[1:], b[:-1]
                    i = int(rng.integers(0, n - 1))
                    col = str(rng.choice(['e low', 'e high']))
                    how = rng.integers(0, 3)
                    lab = df.index
                    if how == 0:        # two neighbours exchanged
                        a, bb = df.loc[lab[i], col], df.loc[lab[i + 1], col]
                        df.loc[lab[i], col], df.loc[lab[i + 1], col] = bb, a
                    elif how == 1:      # two equal
                        df.loc[lab[i + 1], col] = df.loc[lab[i], col]
                    else:               # increasing throughout
                        df[col] = df[col].values[::-1].copy()
                    case.raises(lambda: st.add_stddev_to_store(h, df, *kk), f'bounds that do not decrease ({col}) must be refused')
                    case.event('refused_std')
                else:
                    h.close()
                    h = pd.HDFStore(path, str(rng.choice(['a', 'a', 'r+'])))
                    case.event('reopened')
            # everything put in is there as it was put in, and nothing else
            h.close()
            h = pd.HDFStore(path, 'r')
            case.event('reopened')
            keys = set(h.keys())
            want = {_key(k, k[4]) for k in model}
            case.check(keys == want, 'the store does not have exactly the tables put in', extra=sorted(keys - want), missing=sorted(want - keys), ops=ops)
            for k, v in model.items():
                df = h[_key(k, k[4])]
                case.equal(np.asarray(df.values, float), v, f'{_key(k, k[4])} came back different', ops=ops)
                n = len(v)
                case.check(list(df.index) == list(range(1, n + 1)), 'group labels came back different')
                case.check(list(df.columns) == (COLS if k[4] == 'std_dev' else list(range(1, n + 1))), 'column labels came back different', got=list(df.columns))
                case.event('read_back')
            for k in {k[:4] for k in model}:
                if k + ('corr',) in model and k + ('std_dev',) in model and len(model[k + ('corr',)]) == len(model[k + ('std_dev',)]):
                    s, c = xs.XsecSampler.load_zaid_mt(h, *k)
                    v = model[k + ('std_dev',)]
                    case.equal(s['x-sec(1)'].values, v[:, 2], 'loaded cross-section is not the one put in')
                    case.equal(s['s.d.(1)'].values, v[:, 6], 'loaded standard deviation is not the one put in')
                    case.equal(s['rel.s.d.(1)'].values, v[:, 4], 'loaded relative standard deviation is not the one put in')
                    case.equal(s['e low'].values, v[:, 0], 'loaded lower bounds are not the ones put in')
                    case.equal(s['e high'].values, v[:, 1], 'loaded upper bounds are not the ones put in')
                    case.close_to(c.values, model[k + ('corr',)], 'loaded correlation is not the one put in', rtol=1e-12)
                    case.event('loaded')
    finally:
        h.close()
    if any(o[0].startswith('bad') for o in ops) or len({o for o in ops}) < len(ops):
        case.sig(ops)
    case.sample(ops=[f'{o[0]} {o[1]}' for o in ops])


def both(case):
    """Both tables of one pair, put and loaded, next to tables of other pairs that look alike."""
    import pandas as pd
    from ASAPy import AsapyCovStorage as st
    from ASAPy import XsecSampler as xs
    rng = case.rng
    n = int(rng.choice([1, 2, 5, 12]))
    pairs = [(92235, 18, 92235, 18), (92235, 18, 92235, 102), (92235, 102, 92235, 18), (92235, 102, 92235, 102), (92238, 18, 92235, 18), (92235, 18, 92238, 18)]
    keep = {}
    path = case.path('s.h5')
    with quiet():
        with pd.HDFStore(path, 'w') as h:
            for i in rng.permutation(len(pairs)):
                p = pairs[int(i)]
                b = gen.group_bounds(rng, n)
                c = gen.corr_matrix(rng, n)[0]
                x, s = gen.log_uniform(rng, 1e-3, 1e3, n), rng.uniform(0.01, 0.5, n)
                df = st.create_stddev_df(n)
                df['e low'], df['e high'], df['x-sec(1)'], df['x-sec(2)'] = b[1:], b[:-1], x, x * 2
                df['rel.s.d.(1)'], df['rel.s.d(2)'], df['s.d.(1)'], df['s.d(2)'] = s, s * 2, s * x, s * x * 4
                st.add_stddev_to_store(h, df, *p)
                cd = st.create_corr_df(n)
                cd.loc[:, :] = c
                st.add_corr_to_store(h, cd, *p)
                keep[p] = (b, x, s, c)
        with pd.HDFStore(path, 'r') as h:
            for p, (b, x, s, c) in keep.items():
                args = p if p[:2] != p[2:] or rng.random() < 0.5 else p[:2]
                sd, co = xs.XsecSampler.load_zaid_mt(h, *args)
                case.equal(sd['x-sec(1)'].values, x, 'cross-section of another pair', pair=p)
                case.equal(sd['s.d.(1)'].values, s * x, 'standard deviation of another pair', pair=p)
                case.equal(sd['e high'].values, b[:-1], 'bounds of another pair', pair=p)
                case.close_to(co.values, c, 'correlation of another pair', rtol=1e-12, pair=p)
                case.event('loaded')
    case.sig('both', n, float(keep[pairs[0]][1][0]))


WORKLOADS = [Workload('history', history, 100, 1500), Workload('both', both, 20, 300)]
