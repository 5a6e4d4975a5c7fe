"""C29: covariances of resonance parameters are read as written, cut as asked and sampled as they say."""
import copy

import numpy as np

from ..core import Workload, quiet
from .. import endfgen as eg
from .. import reson
from . import c27

ID = 'C29'
RULE = ('MF2 and MF32/MT151 written by an independent writer for single- and multi-level Breit-Wigner and Reich-Moore ranges, in the general (1-5 parameters per resonance, one or several '
        'blocks), the compact and the compatible format, with the resonances in the order of file 2, of energy or any other, with and without an uncertainty of the radius, one or several '
        'ranges and an unresolved one after them; the parameters and every covariance against what was written; subsets and subsets of subsets by every parameter; samples whitened with the '
        'written covariance against the unit matrix, exact linear dependences, widths spread over 14 orders of magnitude; cross-sections of samples; non-trivial = two or more resonances; '
        'distinct by the text of the file')
EXPECT = {'ranges_read': 150, 'lcomp0': 25, 'lcomp1': 60, 'lcomp2': 40, 'several_l_compatible': 15, 'several_blocks': 15, 'radius_uncertainty': 30, 'other_order': 60, 'competitive': 20,
          'zero_uncertainty': 15, 'mpar1': 8, 'mpar2': 8, 'mpar3': 20, 'mpar4': 20, 'mpar5': 10, 'several_ranges': 30, 'with_unresolved': 20, 'subsets': 200, 'nested_subsets': 60, 'empty_subsets': 5,
          'sampled_ranges': 40, 'samples': 4000, 'whitened_entries': 4000, 'wide_spread': 10, 'dependent_pairs': 3, 'sampled_subsets': 15, 'sample_points': 200, 'evaluations': 20, 'isotopes': 12, 'range_without_covariances': 5}
ASSUMPTIONS = ['file 32 gives the same resonances as file 2, with different energies, and no long-range covariances']
q = reson.q

BW = ['energy', 'neutronWidth', 'captureWidth', 'fissionWidth', 'competitiveWidth']
RM = ['energy', 'neutronWidth', 'captureWidth', 'fissionWidthA', 'fissionWidthB']
FILE = {'rm': ['energy', 'J', 'neutronWidth', 'captureWidth', 'fissionWidthA', 'fissionWidthB'], 'slbw': ['energy', 'J', 'totalWidth', 'neutronWidth', 'captureWidth', 'fissionWidth']}
FILE['mlbw'] = FILE['slbw']
CLASS = {'slbw': 'SingleLevelBreitWignerCovariance', 'mlbw': 'MultiLevelBreitWignerCovariance', 'rm': 'ReichMooreCovariance'}


def prepare(scratch):
    return {'plain': c27._build(scratch, False)}


def load(case):
    res, endf, neutron, _ = c27.load(case.shared['plain'])
    from ASAPy.data import resonance_covariance
    return res, resonance_covariance, endf, neutron


def rows_of(t):
    """Resonances in the order of file 2 as dicts by column name."""
    out = []
    for g in t['groups']:
        for r in g['rows']:
            d = {'energy': r['E'], 'L': g['l'], 'J': r['AJ'] if t['kind'] == 'rm' else r['J'], 'neutronWidth': r['gn'], 'captureWidth': r['gg'], 'row': r, 'group': g}
            if t['kind'] == 'rm':
                d.update(fissionWidthA=r['gfa'], fissionWidthB=r['gfb'])
            else:
                d.update(totalWidth=r['gt'], fissionWidth=r['gf'], competitiveWidth=r['gx'])
            out.append(d)
    return out


def make(rng, kind, emin=None, emax=None, small=False, spread=False, large=False):
    """A range with distinct resonance energies and its covariance, in the order of file 32."""
    t = reson.make(rng, kind, emin=emin, emax=emax)
    t['nro'], t['ape'] = 0, None
    t['naps'] = int(rng.integers(0, 2))
    seen = set()
    for g in t['groups']:
        if small:
            g['rows'] = g['rows'][:3]
        for r in g['rows']:
            while r['E'] in seen:
                r['E'] = q(r['E'] + (1e-3 * abs(r['E']) + 1e-3) * rng.uniform(0.5, 1))
            seen.add(r['E'])
    lcomp = int(rng.choice([1, 2] if kind == 'rm' else [0, 1, 1, 2]))
    rows = rows_of(t)
    order = 'file2' if lcomp == 0 else str(rng.choice(['file2', 'energy', 'any']))
    if order == 'energy':
        rows.sort(key=lambda d: d['energy'])
    elif order == 'any':
        rows = [rows[i] for i in rng.permutation(len(rows))]
    names = RM if kind == 'rm' else BW
    if lcomp == 0:
        mpar = 4
    elif lcomp == 1:
        mpar = int(rng.choice([1, 2, 3, 3, 4, 4, 5]))
    else:
        mpar = int(rng.choice([3, 4] if kind != 'rm' else [3, 4, 5]))
    m = {'t': t, 'lcomp': lcomp, 'rows': rows, 'mpar': mpar, 'order': order, 'names': names[:mpar], 'isr': int(rng.random() < 0.35), 'blocks': None, 'zero': 0, 'pairs': []}
    n = len(rows)
    mean = np.array([[d[c] for c in m['names']] for d in rows], float)
    rel = 10 ** rng.uniform(-3, -1.0, (n, mpar))
    rel[:, 0] = 10 ** rng.uniform(-6, -3, n)
    if spread:
        rel[:, 0] = 10 ** rng.uniform(-3, -2, n)
        rel[:, 1:2] = 10 ** rng.uniform(-6, -4, (n, min(1, mpar - 1)))
    if large:                                               # widths known to 50 % or less
        rel[:, 1:] = rng.uniform(0.5, 2, (n, mpar - 1))
    sd = np.array([[q(v) for v in row] for row in np.abs(mean) * rel])
    sd[mean == 0] = q(1e-5)
    N = n * mpar
    if lcomp == 0:
        cov = np.zeros((N, N))
        for i in range(n):
            c = corr(rng, 3)
            s = sd[i]
            cov[4 * i, 4 * i] = q(s[0] ** 2)
            for a in range(3):
                for b in range(3):
                    cov[4 * i + 1 + a, 4 * i + 1 + b] = q(c[a, b] * s[1 + a] * s[1 + b])
    elif lcomp == 1:
        nb = 1 if rng.random() < 0.6 else int(min(n, rng.integers(2, 4)))
        edges = [0] + sorted(int(v) for v in rng.choice(np.arange(1, n), nb - 1, replace=False)) + [n] if nb > 1 else [0, n]
        m['blocks'] = edges
        cov = np.zeros((N, N))
        for a, b in zip(edges, edges[1:]):
            k = (b - a) * mpar
            s = sd[a:b].ravel()
            c = corr(rng, k)
            v = np.vectorize(q)(np.outer(s, s) * c)
            if rng.random() < 0.3 and k > 2:                # one parameter without uncertainty
                z = int(rng.integers(k))
                v[z, :] = v[:, z] = 0.0
                m['zero'] += 1
            if rng.random() < 0.5 and k > 4:                # two parameters that move together
                i, j = (int(x) for x in rng.choice(k, 2, replace=False))
                u = float(f'{min(v[i, i], v[j, j]):.1e}')
                mu = np.abs(mean[a:b].ravel())
                if np.sqrt(u) > 1e-8 * max(mu[i], mu[j]):
                    v[[i, j], :] = 0.0
                    v[:, [i, j]] = 0.0
                    u = q(u / 4)
                    v[i, i], v[i, j], v[j, i], v[j, j] = u, q(2 * u), q(2 * u), q(4 * u)
                    m['pairs'].append((a * mpar + i, a * mpar + j))
            cov[a * mpar:b * mpar, a * mpar:b * mpar] = v
    else:
        nd = m['nd'] = int(rng.choice([2, 3, 4, 5, 6]))
        m['sd'] = sd
        if rng.random() < 0.35 and n > 1:
            z = (int(rng.integers(n)), int(rng.integers(mpar)))
            sd[z] = 0.0
            m['zero'] += 1
        if rng.random() < 0.25 and mpar > 1:
            sd[:, int(rng.integers(1, mpar))] = 0.0           # no resonance has an uncertainty of it
            m['zero'] += 1
        k = np.zeros((N, N), int)
        c = corr(rng, N)
        lim = 10 ** nd - 1
        for i in range(N):
            for j in range(i):
                k[i, j] = int(np.clip(np.trunc(c[i, j] * 10 ** nd), -lim, lim))
        m['k'] = k
        f = np.where(k > 0, k + 0.5, np.where(k < 0, k - 0.5, 0)) / 10 ** nd
        full = np.eye(N) + f + f.T
        s = sd.ravel()
        cov = full * np.outer(s, s)
    m['cov'], m['mean'] = cov, mean.ravel()
    m['sds'] = np.sqrt(np.diag(cov))
    return m


def corr(rng, n):
    """A correlation matrix whose smallest eigenvalue is not small."""
    a = rng.normal(size=(n, n + 2)) * (rng.random((n, n + 2)) < max(0.3, 3 / n))
    c = a @ a.T + np.diag(np.full(n, 0.3) + 1e-9)
    d = np.sqrt(np.diag(c))
    c = c / np.outer(d, d)
    return 0.85 * c + 0.15 * np.eye(n)


def lines(rng, m):
    t, n, mpar = m['t'], len(m['rows']), m['mpar']
    out = [eg.cont(rng, t['emin'], t['emax'], 1, reson.LRF[t['kind']], 0, t['naps'])]
    out.append(eg.cont(rng, t['spi'], t['ap'], 0, m['lcomp'], len(t['groups']) if m['lcomp'] == 0 else 0, m['isr']))
    if m['isr']:
        if t['kind'] == 'rm':
            out += eg.list_record(rng, 0.0, 0.0, 0, 0, 1, [q(0.01 * t['ap'])] + [q(v) for v in rng.uniform(0.01, 0.02, int(rng.integers(0, 8)))])
        else:
            out.append(eg.cont(rng, 0.0, q(0.01 * t['ap']), 0, 0, 0, 0))
    par = [[d[c] for c in FILE[t['kind']]] for d in m['rows']]
    if m['lcomp'] == 0:
        i = 0
        for g in t['groups']:
            vals = []
            for _ in g['rows']:
                c = m['cov'][4 * i:4 * i + 4, 4 * i:4 * i + 4]
                # DE2 DN2 DNDG DG2 DNDF DGDF DF2 DJDN DJDG DJDF DJ2
                vals += par[i] + [c[0, 0], c[1, 1], c[1, 2], c[2, 2], c[1, 3], c[2, 3], c[3, 3], 0.0, 0.0, 0.0, 0.0, 0.0]
                i += 1
            out += eg.list_record(rng, t['awri'], 0.0, g['l'], 0, len(g['rows']), vals)
    elif m['lcomp'] == 1:
        e = m['blocks']
        out.append(eg.cont(rng, t['awri'], 0.0, 0, 0, len(e) - 1, 0))
        for a, b in zip(e, e[1:]):
            c = m['cov'][a * mpar:b * mpar, a * mpar:b * mpar]
            out += eg.list_record(rng, 0.0, 0.0, mpar, 0, b - a, [v for p in par[a:b] for v in p] + [c[i, j] for i in range(len(c)) for j in range(i, len(c))])
    else:
        vals = []
        for i in range(n):
            s = list(m['sd'][i]) + [0.0] * (5 - mpar)
            vals += par[i] + ([s[0], 0.0, s[1], s[2], s[3], s[4]] if t['kind'] == 'rm' else [s[0], 0.0, 0.0, s[1], s[2], s[3]])
        out += eg.list_record(rng, t['awri'], 0.0, 0, 0, n, vals)
        nd, k = m['nd'], m['k']
        per = {2: 18, 3: 13, 4: 11, 5: 9, 6: 8}[nd]
        body = []
        for i in range(n * mpar):
            j = 0
            while j < i:
                if k[i, j] == 0:
                    j += 1
                    continue
                body.append((f'{i + 1:5d}{j + 1:5d}' + ' ' * (nd < 6) + ''.join(f'{v:{nd + 1}d}' for v in k[i, j:min(i, j + per)])).ljust(66))
                j += per
        out.append(eg.cont(rng, 0.0, 0.0, nd, n * mpar, len(body), 0))
        out += body
    return out


def tri(c):
    return np.triu(np.asarray(c, float))


def file(case, endf, ms, several=False):
    """Evaluation with the ranges and, sometimes, an unresolved one after them."""
    rng = case.rng
    parts2, parts32 = [reson.lines(rng, m['t']) for m in ms], [lines(rng, m) for m in ms]
    if rng.random() < 0.3:
        ls, _ = reson.unresolved(rng, 'c', emin=q(ms[-1]['t']['emax'] * 1.5), emax=q(ms[-1]['t']['emax'] * 10))
        parts2.append(ls)
        if rng.random() < 0.6:
            parts32.append([ls[0], eg.cont(rng, 0.5, 0.5, 0, 0, 1, 0)] + eg.list_record(rng, 233.0, 0.0, 0, 0, 1, [1.0, 0.5, 1e-3, 0.02, 0.0, 0.0]) + eg.list_record(rng, 0.0, 0.0, 1, 0, 1, [0.01]))
        case.event('with_unresolved')
    case.event('several_ranges', int(len(ms) > 1))
    cutat, more2, more32 = len(ms), (), ()
    if len(ms) > 1 and rng.random() < 0.4:                      # of two isotopes
        cutat = int(rng.integers(1, len(ms)))
        more2, more32 = [(parts2[cutat:], 0)], [(parts32[cutat:], 0)]
        parts2, parts32 = parts2[:cutat], parts32[:cutat]
        if rng.random() < 0.5:                                  # the first with a range that has no covariances
            ls, _ = reson.unresolved(rng, 'c', emin=q(ms[cutat - 1]['t']['emax']), emax=q(ms[cutat - 1]['t']['emax'] * 3))
            parts2 = parts2 + [ls]
            case.event('range_without_covariances')
            extra = cutat
        else:
            extra = None
        case.event('isotopes')
    else:
        extra = None
    ev, text = c27.evaluation(endf, rng, parts2, 0, other=[(32, 151, reson.section(rng, 92235, 233.0248, parts32, 0, more32))], more=more2)
    case.input(text=text, lcomp=[m['lcomp'] for m in ms])
    case.sig(text[-6000:])
    return (ev, extra) if several else ev


def columns(case, df, rows, names, what):
    for c in names:
        case.check(c in df.columns, f'{what}: no column {c}')
        case.close_to(df[c].values.astype(float), np.array([float(d[c]) for d in rows]), f'{what}: {c}', rtol=1e-12, atol=1e-14 if c == 'competitiveWidth' else 1e-300)


def check(case, r, m):
    t = m['t']
    case.equal(type(r).__name__, CLASS[t['kind']], 'formalism')
    case.equal([float(r.energy_min), float(r.energy_max)], [t['emin'], t['emax']], 'limits of the range')
    case.equal([int(r.mpar), int(r.lcomp)], [m['mpar'], m['lcomp']], 'parameters per resonance and format')
    case.equal(len(r.parameters), len(m['rows']), 'number of resonances')
    columns(case, r.parameters, m['rows'], FILE[t['kind']] + ['L'] + ([] if t['kind'] == 'rm' else ['competitiveWidth']), 'parameters of file 32')
    n = len(m['cov'])
    case.equal(np.shape(r.covariance), (n, n), 'size of the covariance matrix')
    case.close_to(tri(r.covariance), tri(m['cov']), 'covariances', rtol=1e-9, atol=1e-300)
    low = np.tril(np.asarray(r.covariance, float), -1)
    case.check(not low.any() or np.allclose(low, np.tril(m['cov'], -1), rtol=1e-9, atol=0), 'the lower triangle holds something else than zeros or the covariances')
    case.event('ranges_read')
    case.event(f'lcomp{m["lcomp"]}')
    case.event(f'mpar{m["mpar"]}')
    case.event('several_l_compatible', int(m['lcomp'] == 0 and len(t['groups']) > 1))
    case.event('several_blocks', int(m['lcomp'] == 1 and len(m['blocks']) > 2))
    case.event('radius_uncertainty', m['isr'])
    case.event('other_order', int([d['energy'] for d in m['rows']] != [d['energy'] for d in rows_of(t)]))
    case.event('competitive', int(t['kind'] != 'rm' and any(d['competitiveWidth'] > 0 for d in m['rows'])))
    case.event('zero_uncertainty', int(m['zero'] > 0))


def ranges(case, rng):
    n = int(rng.choice([1, 1, 2, 3]))
    edges = [1e-5] + sorted({q(v) for v in 10 ** rng.uniform(1, 5, n)})
    return [make(rng, str(rng.choice(['slbw', 'mlbw', 'rm'])), emin=a, emax=b) for a, b in zip(edges, edges[1:])]


def cut(rows, name, lo, hi):
    return [i for i, d in enumerate(rows) if lo <= d[name] <= hi]


def idx(ix, mpar):
    return np.array([i * mpar + k for i in ix for k in range(mpar)], int)


def read(case):
    res, rcov, endf, neutron = load(case)
    rng = case.rng
    ms = ranges(case, rng)
    ev, extra = file(case, endf, ms, True)
    with quiet():
        if rng.random() < 0.3:
            data = neutron.IncidentNeutron.from_endf(ev, covariance=True)
            R2, R = data.resonances, data.resonance_covariance
            case.event('evaluations')
            case.check(neutron.IncidentNeutron.from_endf(ev).resonance_covariance is None, 'covariances were read although not asked for')
        else:
            R2 = res.Resonances.from_endf(ev)
            R = rcov.ResonanceCovariances.from_endf(ev, R2)
    case.equal(len(R.ranges), len(ms), 'number of ranges with covariances')
    r2s = [r for i, r in enumerate(R2.ranges) if i != extra]
    keep = [(r.parameters.copy(), np.array(r.covariance)) for r in R.ranges]
    for r, m, r2 in zip(R.ranges, ms, r2s):
        check(case, r, m)
        c27.check_range(case, res, r2, m['t'])
        c27.check_range(case, res, r.file2res, m['t'])
    for r, m, k in zip(R.ranges, ms, keep):
        rows, ix, s = m['rows'], list(range(len(m['rows']))), r
        for depth in range(int(rng.choice([1, 2, 3]))):
            name = str(rng.choice(['energy', 'neutronWidth', 'captureWidth', 'J', 'L'] + (['fissionWidthA'] if m['t']['kind'] == 'rm' else ['fissionWidth', 'totalWidth', 'competitiveWidth'])))
            vals = sorted({rows[i][name] for i in ix})
            if not vals:
                break
            a, b = sorted(int(v) for v in rng.integers(0, len(vals), 2))
            lo, hi = vals[a], vals[b]
            if rng.random() < 0.5:
                lo, hi = (lo - 1e-3 * abs(lo), hi + 1e-3 * abs(hi)) if name != 'competitiveWidth' else (lo - 1e-12, hi + 1e-12)
            elif name == 'competitiveWidth':
                lo, hi = lo - 1e-12, hi + 1e-12
            if rng.random() < 0.04:
                lo, hi = hi + abs(hi) + 1, hi + abs(hi) + 2
            ix = [i for i in ix if lo <= rows[i][name] <= hi]
            s = s.subset(name, [lo, hi] if rng.random() < 0.5 else np.array([lo, hi]))
            case.event('subsets')
            case.event('nested_subsets', int(depth > 0))
            case.event('empty_subsets', int(not ix))
            sub = [rows[i] for i in ix]
            case.equal(len(s.parameters), len(sub), f'number of resonances of a subset by {name}')
            cols = [c for c in FILE[m['t']['kind']] + ['L'] if c != 'totalWidth']
            got = np.array(s.parameters[cols].values, float)
            want = np.array([[float(d[c]) for c in cols] for d in sub]).reshape(len(sub), len(cols))
            case.check(np.allclose(got[np.argsort(got[:, 0])], want[np.argsort(want[:, 0])], rtol=1e-12, atol=0), 'resonances of a subset', got=got, want=want)
            # the covariance follows the order of the parameters of the subset
            pos = {d['energy']: i for i, d in zip(ix, sub)}
            j = idx([pos[min(pos, key=lambda e: abs(e - g))] for g in s.parameters['energy'].values.astype(float)], m['mpar'])
            c = np.asarray(s.covariance, float)
            case.equal(c.shape, (len(j), len(j)), 'size of the covariance of a subset')
            case.close_to(tri(c), tri(m['cov'][np.ix_(j, j)]) if len(j) else np.zeros((0, 0)), f'covariance of a subset by {name}', rtol=1e-9, atol=1e-300)
            f2 = np.sort(np.asarray(s.file2res.parameters['energy'].values, float))
            case.close_to(f2, np.sort([d['energy'] for d in sub]).astype(float), 'resonances of the range a subset belongs to', rtol=1e-12)
        case.check(r.parameters.equals(k[0]) and np.array_equal(r.covariance, k[1]), 'taking a subset changed the range it was taken from')
    for r2, r, m in zip(r2s, R.ranges, ms):
        c27.check_range(case, res, r2, m['t'])
        c27.check_range(case, res, r.file2res, m['t'])
    if case.index < 3:
        case.sample(lcomp=[m['lcomp'] for m in ms], mpar=[m['mpar'] for m in ms], resonances=[len(m['rows']) for m in ms])


def statistics(case, x, m, j):
    """Whitened with the written covariance, the samples are independent with unit variance."""
    n = len(x)
    mean, cov = m['mean'][j], m['cov'][np.ix_(j, j)]
    sd = np.sqrt(np.diag(cov))
    fixed = sd == 0
    eps = 1e-9 * np.abs(mean)
    case.check(np.all(np.abs(x - mean)[:, fixed] <= eps[fixed] + 1e-300), 'a parameter without uncertainty varies')
    pos = {int(v): i for i, v in enumerate(j)}
    drop = set(np.flatnonzero(fixed))
    for a, b in m['pairs']:
        if a in pos and b in pos:
            a, b = pos[a], pos[b]
            u = (x[:, a] - mean[a]) / sd[a] - (x[:, b] - mean[b]) / sd[b]
            case.check(np.abs(u).max() <= 1e-5 + 1e-12 * max(abs(mean[a]) / sd[a], abs(mean[b]) / sd[b]), 'two fully correlated parameters do not move together', worst=float(np.abs(u).max()))
            case.event('dependent_pairs')
            drop.add(b)
    live = np.array([i for i in range(len(j)) if i not in drop], int)
    if not len(live):
        return
    z = (x[:, live] - mean[live]) / sd[live]
    C = cov[np.ix_(live, live)] / np.outer(sd[live], sd[live])
    C = (C + C.T) / 2
    w = np.linalg.solve(np.linalg.cholesky(C), z.T).T
    mu = w.mean(0)
    case.check(np.abs(mu).max() < 7 / np.sqrt(n), 'the mean of the samples is not the value of the file', worst=float(np.abs(mu).max() * np.sqrt(n)))
    S = w.T @ w / n - np.eye(len(live))
    case.check(np.abs(S - np.diag(np.diag(S))).max() < 8 / np.sqrt(n), 'the samples do not have the covariances of the file (correlations)', worst=float(np.abs(S - np.diag(np.diag(S))).max() * np.sqrt(n)))
    case.check(np.abs(np.diag(S)).max() < 9 * np.sqrt(2 / n), 'the samples do not have the covariances of the file (variances)', worst=float(np.abs(np.diag(S)).max() * np.sqrt(n / 2)))
    # single parameters, which whitening spreads out
    v = z.var(0)
    case.check(np.abs(v - 1).max() < 9 * np.sqrt(2 / n), 'a sampled parameter does not have its uncertainty', worst=float(np.abs(v - 1).max()))
    case.event('whitened_entries', len(live) * (len(live) + 1) // 2)


def sampled(case):
    res, rcov, endf, _ = load(case)
    rng = case.rng
    spread = rng.random() < 0.3
    while True:
        m = make(rng, ['slbw', 'mlbw', 'rm'][case.index % 3], small=rng.random() < 0.8, spread=spread, large=not spread and rng.random() < 0.4)
        if len(m['mean']) <= 90:
            break
    t = m['t']
    ev = file(case, endf, [m])
    with quiet():
        R2 = res.Resonances.from_endf(ev)
        r = rcov.ResonanceCovariances.from_endf(ev, R2).ranges[0]
    check(case, r, m)
    rows = m['rows']
    ix = list(range(len(rows)))
    if rng.random() < 0.4 and len(rows) > 2:
        name = str(rng.choice(['energy', 'neutronWidth', 'captureWidth']))
        vals = sorted(d[name] for d in rows)
        lo, hi = vals[len(vals) // 4], vals[-1 - len(vals) // 4]
        with quiet():
            r = r.subset(name, [lo, hi])
        ix = cut(rows, name, lo, hi)
        case.event('sampled_subsets')
    pos = {rows[i]['energy']: i for i in ix}
    order = [pos[min(pos, key=lambda e: abs(e - g))] for g in r.parameters['energy'].values.astype(float)]
    case.equal(sorted(order), sorted(ix), 'resonances of the range that is sampled')
    j = idx(order, m['mpar'])
    keep, kcov, kfile = r.parameters.copy(), np.array(r.covariance), r.file2res.parameters.copy()
    n = int(rng.choice([300, 600]))
    case.seed_global()
    with quiet():
        out = r.sample(n)
        again = r.sample(2)
    case.equal(len(out), n, 'number of samples')
    if m['sds'][j].any():
        e = [np.array([s.parameters[m['names']].values for s in o], float) for o in (out[:2], again)]
        case.check(not np.array_equal(e[0], e[1]), 'sampling again gives the same samples again')
        case.check(not np.array_equal(e[0][0], e[0][1]), 'two samples are the same')
    case.check(r.parameters.equals(keep) and np.array_equal(r.covariance, kcov) and r.file2res.parameters.equals(kfile), 'sampling changed the range')
    c27.check_range(case, res, R2.ranges[0], t)
    case.check(len({id(s) for s in out}) == n and len({id(s.parameters) for s in out}) == n, 'samples share their parameters')
    sub = [rows[i] for i in order]
    cols = c27.COLS[t['kind']]
    x = np.empty((n, len(j)))
    fixed = [c for c in cols if c not in m['names'] and c != 'totalWidth']
    want = {c: np.array([float(d[c]) for d in sub]) for c in fixed}
    case.check(all(type(s).__name__ == c27.CLASS[t['kind']] for s in out), 'a sample is not a range of the formalism')
    case.equal({tuple(sorted(str(c) for c in s.parameters.columns)) for s in out}, {tuple(sorted(cols))}, 'columns of the samples')
    case.equal({len(s.parameters) for s in out}, {len(sub)}, 'number of resonances of the samples')
    a = np.array([s.parameters[cols].values.astype(float) for s in out])          # sample, resonance, column
    for c in fixed:
        k = cols.index(c)
        case.check(np.allclose(a[:, :, k], want[c], rtol=1e-12, atol=1e-14), f'{c}, which has no covariance, is not that of the file', got=a[0, :, k], want=want[c])
    x[:] = a[:, :, [cols.index(c) for c in m['names']]].reshape(n, -1)
    if t['kind'] != 'rm':
        case.check(np.allclose(a[:, :, cols.index('totalWidth')], sum(a[:, :, cols.index(c)] for c in BW[1:]), rtol=1e-12, atol=0), 'the total width of a sample is not the sum of its widths')
    case.event('samples', n)
    case.event('sampled_ranges')
    live = m['sds'][j] > 0
    case.event('wide_spread', int(live.any() and m['sds'][j][live].max() / m['sds'][j][live].min() > 1e8))
    statistics(case, x, m, j)
    # a sample is a range that can be reconstructed
    for i in rng.choice(n, 3, replace=False):
        s = out[int(i)]
        p = s.parameters
        if (p['neutronWidth'] <= 0).any() or (p['captureWidth'] <= 0).any():
            continue
        if t['kind'] != 'rm' and ((p['competitiveWidth'] < 0).any() or (p['fissionWidth'] < 0).any()):
            continue
        t2 = {**t, 'groups': []}
        new = {}
        for k, d in enumerate(sub):
            row = dict(d['row'])
            row.update(E=float(p['energy'].iloc[k]), gn=float(p['neutronWidth'].iloc[k]), gg=float(p['captureWidth'].iloc[k]))
            if t['kind'] == 'rm':
                row.update(gfa=float(p['fissionWidthA'].iloc[k]), gfb=float(p['fissionWidthB'].iloc[k]))
            else:
                row.update(gf=float(p['fissionWidth'].iloc[k]), gx=float(p['competitiveWidth'].iloc[k]))
            new.setdefault(d['L'], []).append(row)
        bad = False
        for g in t['groups']:
            if g['l'] in new:
                bad = bad or (t['kind'] != 'rm' and not g['lrx'] and any(w['gx'] != 0 for w in new[g['l']])) or (g['lrx'] and any(w['E'] + g['q'] * (t['awri'] + 1) / t['awri'] <= 0 for w in new[g['l']]))
                t2['groups'].append({**g, 'rows': new[g['l']]})
        if bad or len(t2['groups']) < len(t['groups']):       # l-values without resonances are left out by the reconstruction
            continue
        es = c27.energies(rng, t2)[:15]
        o = s.reconstruct(es)
        for k, E in enumerate(es):
            c27.point(case, t2, float(E), {mt: o[mt][k] for mt in o}, 'sample')
            case.event('sample_points')


WORKLOADS = [Workload('read', read, 150, 2500), Workload('sampled', sampled, 100, 1500)]
