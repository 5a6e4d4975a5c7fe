"""C36: the plots of the sampling command."""
import contextlib
import os
import sys

import numpy as np

from ..core import Workload, quiet
from .. import e2e, gen
from . import c22

ID = 'C36'
RULE = ('plots of samples and of base data, drawn for random ACE files, stores (one to eight groups, groups without uncertainty, groups that begin at zero) and numbers of samples from one on; '
        'yields and fission spectra too; what is drawn is taken from the figures when they are saved and compared with store, samples and base file at points inside every group; the command with '
        '--make_plots and --plot-only; non-trivial = all; distinct by content and options')
EXPECT = {'figures': 250, 'variances': 60, 'few': 60, 'correlations': 60, 'base': 60, 'one_group': 5, 'one_sample': 5, 'over_ten': 10, 'no_uncertainty': 8, 'from_zero': 5, 'spectrum': 5, 'yield': 5,
          'difference': 8, 'own_range': 8, 'linear': 8, 'threshold': 3, 'padded': 5, 'plot_only': 8, 'make_plots': 8, 'images': 2}
MEV = 1e6


class Seen:
    """What a figure shows when it is saved."""
    def __init__(self, fig, name):
        self.name = name
        self.axes = []
        for ax in fig.axes:
            lines = [(np.array(l.get_xdata(), float), np.array(l.get_ydata(), float), l.get_drawstyle(), str(l.get_label())) for l in ax.get_lines()]
            meshes = []
            for q in ax.collections:
                if hasattr(q, 'get_coordinates') and q.get_array() is not None:
                    c = np.array(q.get_coordinates(), float)
                    meshes.append((c, np.ma.filled(np.ma.array(q.get_array(), float), np.nan).reshape(c.shape[0] - 1, c.shape[1] - 1), tuple(q.get_clim())))
            leg = ax.get_legend()
            self.axes.append(dict(lines=lines, meshes=meshes, scale=(ax.get_xscale(), ax.get_yscale()), xlabel=ax.get_xlabel(), ylabel=ax.get_ylabel(), ylim=ax.get_ylim(), xlim=ax.get_xlim(),
                                  legend=[t.get_text() for t in leg.get_texts()] if leg else []))

    def data_axes(self, kind):
        return [a for a in self.axes if a[kind]]


@contextlib.contextmanager
def figures(real=False):
    import matplotlib.figure as mf
    seen = []
    old = mf.Figure.savefig

    def savefig(self, fname, *a, **k):
        seen.append(Seen(self, str(fname)))
        if real:
            k['dpi'] = 60
            return old(self, fname, *a, **k)
        with open(fname, 'w') as f:
            f.write('plot')
    mf.Figure.savefig = savefig
    try:
        yield seen
    finally:
        mf.Figure.savefig = old


def step(line, x):
    """Value of a line at x, by its drawing style; None outside."""
    lx, ly, style, _ = line
    if style in ('steps-post', 'steps-pre', 'steps', 'steps-mid'):
        for k in range(len(lx) - 1):
            a, b = sorted((lx[k], lx[k + 1]))
            if a <= x <= b and a < b:
                return ly[k] if style == 'steps-post' else ly[k + 1] if style in ('steps-pre', 'steps') else ly[k] if abs(x - lx[k]) < abs(x - lx[k + 1]) else ly[k + 1]
        return None
    o = np.argsort(lx, kind='stable')
    if x < lx[o][0] or x > lx[o][-1]:
        return None
    return float(np.interp(x, lx[o], ly[o]))


def groups_of(case, line, hi, lo, values, what, floor=None):
    """The line has the value of every group at points inside of it."""
    n = 0
    for g, (a, b, v) in enumerate(zip(lo, hi, values)):
        if floor is not None:
            a = max(a, floor)
        if g == len(hi) - 1:
            a = max(a, b * 0.6)
        if not a < b * (1 - 1e-9):
            continue
        for t in (0.1, 0.5, 0.9):
            x = b ** t * max(a, b * 1e-3) ** (1 - t)
            got = step(line, x)
            if got is None and floor is not None and g == len(hi) - 1:
                continue
            case.check(got is not None, f'{what}: nothing is drawn in a group', group=g + 1, energy=x)
            if not (np.isnan(v) and np.isnan(got)):
                case.close_to(got, v, f'{what} of group {g + 1}', rtol=1e-9, atol=1e-300)
            n += 1
    return n


def same_line(a, x, y):
    if len(a[0]) != len(x):
        return False
    return bool(np.allclose(a[0], x, rtol=1e-9, atol=0) and np.allclose(a[1], y, rtol=1e-9, atol=1e-300, equal_nan=True))


def cell(mesh, x, y):
    c, v, _ = mesh
    xs, ys = c[0, :, 0], c[:, 0, 1]
    i = j = None
    for k in range(len(xs) - 1):
        if min(xs[k], xs[k + 1]) < x < max(xs[k], xs[k + 1]):
            j = k
    for k in range(len(ys) - 1):
        if min(ys[k], ys[k + 1]) < y < max(ys[k], ys[k + 1]):
            i = k
    return None if i is None or j is None else float(v[i, j])


def by_name(case, seen, stem, kind):
    m = [s for s in seen if os.path.basename(s.name) == f'{stem}_{kind}.png']
    case.check(len(m) == 1, f'not one plot {kind}', got=[s.name for s in seen])
    return m[0]


def drawn(case, seen, stem, st, corr, truth, rel=None, full=None, diff=False, full_range=True, log=(True, True), base_only=False, log_std=False, logs_known=True):
    """Compares the figures of one reaction with the data."""
    hi, lo = st['e high'].values, st['e low'].values
    G = len(hi)
    ex, ey = truth
    sd, rsd = st['s.d.(1)'].values, st['rel.s.d.(1)'].values
    if not base_only:
        f = by_name(case, seen, stem, 'sampled_cov')
        ax = f.data_axes('lines')[0]
        case.equal(len(ax['lines']), 2, 'curves of variances')
        with np.errstate(all='ignore'):
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                var = np.var(full, axis=1, ddof=1)
        named = {('S' if 'ampl' in l[3] else 'E'): l for l in ax['lines']}
        case.equal(sorted(named), ['E', 'S'], 'names of the curves of variances')
        k = groups_of(case, named['E'], hi, lo, sd ** 2, 'variance of the store')
        if full.shape[1] > 1:
            # the size of the values limits what is left of their differences
            scale = (np.abs(full).max(axis=1) ** 2) * 1e-12
            for g in range(G):
                x = hi[g] * (1 - 1e-6)
                got = step(named['S'], x)
                case.check(got is not None and abs(got - var[g]) <= 1e-7 * var[g] + scale[g], f'variance of the samples in group {g + 1}', got=got, want=var[g])
            a, b = (np.sqrt(hi[-1] * max(lo[-1], 0.5 * hi[-1])), hi[0] * (1 - 1e-6))
            case.check(step(named['S'], a) is not None and step(named['S'], b) is not None, 'variances of the samples do not reach over all groups')
        case.equal(list(ax['scale']), ['log' if v else 'linear' for v in log], 'scales of the plot of variances')
        case.event('variances', int(k > 0))
        # some of the samples
        f = by_name(case, seen, stem, 'few_sampled_xsec')
        ax = f.data_axes('lines')[0]
        n = min(10, rel.shape[1])
        ins = ey != 0
        with np.errstate(all='ignore'):
            base = [l for l in ax['lines'] if same_line(l, ex, ey)]
        case.check(len(base) >= 1, 'the base cross-section is not in the plot of samples', n=[len(l[0]) for l in ax['lines']], want=len(ex))
        found = set()
        bounds = np.concatenate([hi, lo[-1:]])
        for l in ax['lines']:
            case.close_to(l[0], ex, 'energies in the plot of samples', rtol=1e-9)
            hit = None
            for s in range(rel.shape[1]):
                fac, alt = e2e.factor(ex, bounds, rel[:, s])
                edge = np.array([len(a) > 1 for a in alt])
                if np.allclose(l[1][~edge], (fac * ey)[~edge], rtol=1e-9, atol=1e-300):
                    hit = s
                    break
            case.check(hit is not None or same_line(l, ex, ey), 'a curve in the plot of samples is no sample')
            if hit is not None:
                found.add(hit)
        if ((ex >= lo[-1]) & (ex <= hi[0]) & ins).any():
            distinct = rel.shape[1] if (np.ptp(rel, axis=1) > 0).any() else 1
            case.check(len(found) >= min(n, distinct) or not covered(ex, ey, hi, lo, rel), 'samples missing in the plot', got=sorted(found), want=n)
        case.check(len(ax['lines']) <= n + 2, 'too many curves', got=len(ax['lines']))
        case.equal(ax['scale'][0], 'log' if log[0] else 'linear', 'energy scale of the plot of samples')
        case.event('few')
        case.event('over_ten', int(rel.shape[1] > 10))
        # the correlations
        f = by_name(case, seen, stem, 'sampled_corr_compare')
        axs = [a for a in f.data_axes('meshes') if np.shape(a['meshes'][0][1]) == (G, G) and not a['ylabel'] == '' or np.shape(a['meshes'][0][1]) == (G, G) and a['xlabel']]
        case.equal(len(axs), 2, 'plots of correlations')
        with np.errstate(all='ignore'):
            r = np.atleast_2d(np.corrcoef(full))
        if diff:
            second = np.abs(r - corr)
        else:
            second = np.where(np.isnan(r), 0.0, r)
            off = np.diag(corr) == 0
            second[off, :] = 0
            second[:, off] = 0
        low = max(lo[-1], hi[-1] / 2)
        mid = [np.sqrt(hi[g] * (lo[g] if g < G - 1 else low)) for g in range(G)]
        sharp = np.array([np.ptp(full[g]) > 1e-7 * np.abs(full[g]).max() for g in range(G)])
        for k, want in enumerate((corr, second)):
            mesh = axs[k]['meshes'][0]
            for i in range(G):
                for j in range(G):
                    got = cell(mesh, mid[j], mid[i])
                    case.check(got is not None, 'a pair of groups is not in the plot of correlations', pair=[i + 1, j + 1])
                    if k == 1 and (full.shape[1] < 3 or not (sharp[i] and sharp[j])) and not (off[i] or off[j] if not diff else False):
                        continue
                    if not np.isnan(want[i, j]):
                        case.close_to(got, want[i, j], ('correlation of the store', 'correlation of the samples')[k] if not (diff and k) else 'difference of the correlations', rtol=1e-7, atol=1e-7, pair=[i + 1, j + 1])
            c = mesh[2]
            vals = np.concatenate([corr.ravel(), second[np.isfinite(second)].ravel()])
            if full_range:
                case.check(c[0] <= min(-1, vals.min()) + 1e-9 and c[1] >= max(1, vals.max()) - 1e-9 and c[1] <= max(1, vals.max()) + 1e-6, 'range of colours', got=c)
            elif full.shape[1] > 2 and vals.max() > vals.min() + 1e-3:
                case.check(abs(c[0] - vals.min()) < 1e-6 and abs(c[1] - vals.max()) < 1e-6, 'range of colours of the values', got=c, want=[vals.min(), vals.max()])
        case.event('correlations')
    f = by_name(case, seen, stem, 'base_xsec_with_std')
    axs = f.data_axes('lines')
    case.equal(len(axs), 2, 'parts of the plot of the base cross-section')
    case.check(any(same_line(l, ex, ey) for l in axs[0]['lines']), 'the base cross-section is not the one of the ACE file')
    groups_of(case, axs[1]['lines'][0], hi, lo, rsd * 100, 'deviation in per cent', floor=ex[0])
    if logs_known:
        case.equal(axs[0]['scale'][0], 'log' if log[0] else 'linear', 'energy scale of the base cross-section')
        case.equal(axs[1]['scale'][0], 'log' if log[0] else 'linear', 'energy scale of the deviations')
        case.equal(axs[0]['scale'][1], 'log' if log[1] else 'linear', 'scale of the base cross-section')
        if log[1] or log_std:
            case.equal(axs[1]['scale'][1], 'log', 'scale of the deviations')
    case.event('threshold', int(ex[0] > hi[-1]))
    case.event('base')
    case.event('figures', len(seen))


def covered(ex, ey, hi, lo, rel):
    """Samples differ at an energy of the cross-section."""
    for g in range(len(hi)):
        if ((ex > lo[g] * (1 + 1e-6)) & (ex < hi[g] * (1 - 1e-6)) & (ey != 0)).any() and len(set(np.round(rel[g], 12))) == rel.shape[1]:
            return True
    return False


def truth_of(c, m):
    if m == 1018:
        o = c.law()['out'][0]
        return np.asarray(o['x'], float) * MEV, np.asarray(o['p'], float) / MEV
    return np.asarray(c.truth[m][0], float) * MEV, np.asarray(c.truth[m][1], float)


def fill(case, c, path):
    """A store: some groups without uncertainty, bounds from zero."""
    import pandas as pd
    rng = case.rng
    stats = {}
    with pd.HDFStore(path, 'w') as h:
        for m in c.mts:
            b = np.array(c.bounds[m])
            if rng.random() < 0.15:
                b = b[[0, -1]]
            if rng.random() < 0.15:
                b[-1] = 0.0
                case.event('from_zero')
            c.bounds[m] = b
            g = len(b) - 1
            mean = rng.uniform(0.1, 10, g)
            sd = mean * rng.uniform(0.005, 0.08, g)
            corr, _ = gen.corr_matrix(rng, g, 'decay')
            if g > 1 and rng.random() < 0.3:
                k = int(rng.integers(g))
                if rng.random() < 0.6:
                    sd[k] = 0.0
                corr[k, :] = 0
                corr[:, k] = 0
                if sd[k] == 0 and rng.random() < 0.5:
                    mean[k] = 0.0
                case.event('no_uncertainty')
            df, cf = gen.store_put(h, c.zaid, m, b[:-1], b[1:], mean, sd, corr)
            stats[m] = (df, np.array(cf.values, float))
            case.event('one_group', int(g == 1))
    return stats


def direct(case):
    import pandas as pd
    from ASAPy import XsecSampler as xs
    import matplotlib.pyplot as plt
    rng = case.rng
    c = e2e.Case(rng, case.path('base.ace'), fissile=bool(rng.random() < 0.6), max_mts=2)
    store = case.path('cov.h5')
    stats = fill(case, c, store)
    m = int(c.mts[int(rng.integers(len(c.mts)))])
    st, corr = stats[m]
    n = int(rng.choice([1, 2, 5, 9, 10, 11, 20]))
    diff, own = bool(rng.random() < 0.3), bool(rng.random() < 0.3)
    log = (bool(rng.random() < 0.8), bool(rng.random() < 0.8))
    if n < 3:
        own = False
    out = case.path('plots')
    os.makedirs(out)
    case.input(mt=m, n=n, diff=diff, own_range=own, log=log, bounds=c.bounds[m], sd=st['s.d.(1)'], mean=st['x-sec(1)'], name=c.a.name)
    case.seed_global()
    with quiet(), figures(real=case.index % 40 == 3) as seen, np.errstate(all='ignore'):
        with pd.HDFStore(store, 'r') as h:
            rel, full = xs.sample_xsec(h, m, c.zaid, n, sample_type=str(rng.choice(['normal', 'lognormal', 'uniform'])))
            before = rel.copy(), full.copy()
            kw = {}
            if diff:
                kw['corr_rel_diff'] = True
            if own:
                kw['use_max_range_for_correlation_plot'] = False
            if log != (True, True) or rng.random() < 0.5:
                kw.update(log_x=log[0], log_y=log[1])
            ls = bool(rng.random() < 0.3)
            if ls:
                kw['log_y_stddev'] = True
            if case.index % 5 == 4:
                pad = bool(rng.random() < 0.6)
                pk = {k: v for k, v in kw.items() if k.startswith('log')}
                xs.plot_xsec(c.path, h, c.zaid, m, output_base=out, pad_rel_y_decades=pad, **pk)
            else:
                xs.plot_sampled_info(c.path, h, c.zaid, m, rel, full, output_base=out, **kw)
        open_ = plt.get_fignums()
        plt.close('all')
    case.check(not open_, 'figures are left open', got=open_)
    stem = f'{c.zaid}_{m}'
    if case.index % 5 == 4:
        case.equal(sorted(os.listdir(out)), [f'{stem}_base_xsec_with_std.png'], 'files of the plot')
        drawn(case, seen, stem, st, corr, truth_of(c, m), base_only=True, log=pk and (pk.get('log_x', True), pk.get('log_y', True)) or (True, True), log_std=ls)
        if pad:
            lo, hi = sorted(seen[0].data_axes('lines')[1]['ylim'])
            v = st['rel.s.d.(1)'].values * 100
            case.check(v.min() <= 0 or lo <= v.min() * (1 + 1e-9) and hi >= v.max() * (1 - 1e-9) and hi / lo >= 10 * (1 - 1e-9), 'range of the deviations', got=[lo, hi], values=v)
            case.event('padded')
    else:
        case.equal(sorted(os.listdir(out)), sorted(f'{stem}_{k}.png' for k in ('sampled_cov', 'few_sampled_xsec', 'sampled_corr_compare', 'base_xsec_with_std')), 'files of the plots')
        case.check(rel.equals(before[0]) and full.equals(before[1]), 'the samples were changed')
        drawn(case, seen, stem, st, corr, truth_of(c, m), rel.values, full.values, diff, not own, log, log_std=ls, logs_known=False)
        case.event('difference', int(diff))
        case.event('own_range', int(own))
        case.event('one_sample', int(n == 1))
    if case.index % 40 == 3:
        for p in os.listdir(out):
            case.check(open(os.path.join(out, p), 'rb').read(8) == b'\x89PNG\r\n\x1a\n' and plt.imread(os.path.join(out, p)).std() > 0, 'no image', file=p)
        case.event('images')
    case.event('linear', int(log != (True, True)))
    case.event('spectrum', int(m == 1018))
    case.event('yield', int(m == 452))
    case.check(open(c.path).read() == c.text, 'the base file was changed')
    case.sig(stem, n, diff, own, log, c.text)


def cli(case):
    import pandas as pd
    rng = case.rng
    c = e2e.Case(rng, case.path('base.ace'), fissile=bool(rng.random() < 0.6), max_mts=3)
    store = case.path('cov.h5')
    stats = fill(case, c, store)
    work = case.path('work')
    os.makedirs(work)
    n = int(rng.integers(1, 5))
    only = case.index % 2 == 0
    flag = ['--plot-only'] if only else ['--make_plots']
    if only and rng.random() < 0.3:
        flag.append('--make_plots')
    order = [int(m) for m in c.mts]
    args = [c.path, store, str(n), '-mts'] + [str(m) for m in order] + flag
    case.input(args=args[2:], bounds={str(k): v for k, v in c.bounds.items()})
    before = open(store, 'rb').read()
    with figures() as seen, np.errstate(all='ignore'):
        rc, text = c22.command(case, args, work, False)
    case.check(rc == 0, 'the command failed', status=rc, output=text[-1500:])
    got = set(os.listdir(work))
    kinds = ('sampled_cov', 'few_sampled_xsec', 'sampled_corr_compare', 'base_xsec_with_std')
    plots = {f'{c.zaid}_{m}_{k}.png' for m in order for k in kinds}
    case.check({g for g in got if g.endswith('.png')} == plots, 'not the plots of the reactions asked for', got=sorted(got))
    nuc = c22.NAMES[c.zaid]
    case.check(open(store, 'rb').read() == before and open(c.path).read() == c.text, 'given files were changed')
    if only:
        case.equal(sorted(got), sorted(plots), 'files of a command that only plots')
        case.event('plot_only')
        for m in order:
            drawn(case, [s for s in seen if os.path.basename(s.name).startswith(f'{c.zaid}_{m}_')], f'{c.zaid}_{m}', *stats[m], truth_of(c, m), base_only=True)
    else:
        case.equal(sorted(got - plots), sorted([f'{nuc}_{m}_samples.csv' for m in order] + [f'{nuc}_{k}' for k in range(n)]), 'files next to the plots')
        tables = {}
        for m in order:
            t = pd.read_csv(os.path.join(work, f'{nuc}_{m}_samples.csv'), index_col=0)
            tables[m] = t
            v = t[[str(k) for k in range(n)]].values
            st = stats[m][0]
            mean = st['x-sec(1)'].values[:, None]
            full = np.where(mean == 0, v - 1, v * mean)
            drawn(case, [s for s in seen if os.path.basename(s.name).startswith(f'{c.zaid}_{m}_')], f'{c.zaid}_{m}', st, stats[m][1], truth_of(c, m), v, full)
        for k in range(n):
            e2e.verify(case, c, os.path.join(work, f'{nuc}_{k}'), {m: t[str(k)].values for m, t in tables.items()}, f'sample {k}')
        case.event('make_plots')
    case.sig(tuple(args[2:]), c.text)


WORKLOADS = [Workload('direct', direct, 140, 1600, timeout=400), Workload('cli', cli, 30, 240, timeout=400)]
