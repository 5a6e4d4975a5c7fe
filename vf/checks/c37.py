"""C37: elastic scattering at 0 K added from an evaluation."""
import copy
import os
import pathlib

import numpy as np

from ..core import Workload, quiet
from .. import acegen, endfgen as eg, endfn, reson
from . import c27

ID = 'C37'
RULE = ('neutron data from random ACE tables, and evaluations with single- and multi-level Breit-Wigner and Reich-Moore ranges (one to three orbital momenta in any order of energies, narrow resonances '
        'between those of others, bound levels only), two ranges with a common end, ranges that give the radius only, unresolved ranges, none at all, R-matrix limited; tables and functions of all magnitudes and tolerances linearized and thinned; the points added, points in '
        'between, at all resonances and in their wings against background plus independent formulas; data there already; non-trivial = all; distinct by evaluation')
EXPECT = {'thinned': 140, 'removed': 1500, 'linearized': 140, 'added': 40, 'points': 20000, 'peaks': 110, 'steps': 30, 'wings': 300, 'narrow': 12, 'two_ranges': 4, 'radius_only': 2, 'no_file2': 2, 'unresolved_only': 2, 'bound_only': 2, 'refused': 8, 'overwritten': 8, 'rml': 2, 'levels_outside': 10, 'exported': 8}
prepare = c27.prepare
ASSUMPTIONS = c27.ASSUMPTIONS


def mild(rng, kind, emin, emax):
    """A range with few resonances, so that the grid stays small."""
    while True:
        t = reson.make(rng, kind, emin=emin, emax=emax, awri=233.02, competitive=False)
        t['nro'], t['ape'] = 0, None
        t['naps'] = min(t['naps'], 1)
        if t['groups'][0]['l'] != 0:
            continue
        t['groups'] = t['groups'][:int(rng.integers(1, 4))]
        for g in t['groups']:
            g['rows'] = g['rows'][:int(rng.integers(1, 4))]
        return t


def wanted(truths, x, y):
    def f(e):
        above, below = (c27.side(e, x, y, w) for w in ('right', 'left'))
        v = above
        tol = 1e-9 * abs(v) + 1e-12
        alt = []
        for t in truths:
            if t['emin'] <= e <= t['emax']:
                v = below if e == t['emax'] else above
                el, _, _, atol = reson.evaluate(t, e)
                alt.append((v + el, tol + 1e-6 * abs(el) + atol))
        return alt or [(v, tol)] + [(below, tol)] * (above != below)
    return f


def added(case):
    res, endf, neutron, function = c27.load(case.shared['plain'])
    rng = case.rng
    shape = ['one', 'one', 'narrow', 'two', 'one', 'radius', 'none', 'unresolved', 'bound', 'rml', 'narrow', 'one'][case.index % 12]
    a = acegen.random_ace(rng)
    a.name = '92235.00c'
    temps = []
    with open(case.path('t.ace'), 'w') as f:
        f.write(a.text())
    emin = reson.q(10 ** rng.uniform(-5, 0))
    n = 2 if shape == 'two' else 1
    edges = [emin] + sorted(reson.q(v) for v in 10 ** rng.uniform(1.5, 3.5, n))
    truths, parts = [], []
    kind = str(rng.choice(['slbw', 'mlbw', 'rm']))
    if shape in ('one', 'two', 'narrow', 'bound'):
        for i in range(n):
            t = mild(rng, kind if rng.random() < 0.5 else str(rng.choice(['slbw', 'mlbw', 'rm'])), edges[i], edges[i + 1])
            if shape == 'narrow':
                # a second orbital momentum with a narrow resonance between those of the first
                while len(t['groups']) < 2:
                    t = mild(rng, t['kind'], edges[i], edges[i + 1])
                g = t['groups'][:2]
                t['groups'] = g
                d = t['emax'] - t['emin']
                r0 = g[0]['rows'][0]
                g[0]['rows'] = [dict(r0, E=reson.q(t['emin'] + d * rng.uniform(0.05, 0.3))), dict(r0, E=reson.q(t['emin'] + d * rng.uniform(0.7, 0.95)))]
                r1 = dict(g[1]['rows'][0], E=reson.q(t['emin'] + d * rng.uniform(0.4, 0.6)))
                g[1]['rows'] = [r1]
                if rng.random() < 0.5:
                    t['groups'] = [dict(g[0]), dict(g[1])]
                for gg in t['groups']:
                    for r in gg['rows']:
                        pen = reson.pen_shift(gg['l'], reson.wave(t['awri'], r['E']) * reson.radii(t, gg['l'], r['E'])[0])[0]
                        r['gn'], r['gg'] = reson.q(min(r['E'] * 10 ** rng.uniform(-6, -4), 2 * pen * 1e3)), reson.q(r['E'] * 10 ** rng.uniform(-6.5, -5))
                        if t['kind'] != 'rm':
                            r['gt'] = reson.q(r['gn'] + r['gg'] + r['gf'])
                            r['gx'] = 0.0
                if t['kind'] == 'rm':
                    t['fission'] = False
                    for gg in t['groups']:
                        for r in gg['rows']:
                            r['gfa'] = r['gfb'] = 0.0
                case.event('narrow')
            if shape in ('one', 'two') and rng.random() < 0.5:
                # levels outside of the range, which count but have no points of their own
                r0 = t['groups'][0]['rows'][0]
                for E in (t['emax'] * rng.uniform(1.02, 1.3), t['emin'] * rng.uniform(0.3, 0.95)):
                    if rng.random() < 0.6 and E > 1e-4:
                        r = dict(r0, E=reson.q(E), gn=reson.q(r0['gn'] * min(1.0, (E / abs(r0['E'])) ** 0.5)))
                        if 'gt' in r:
                            r['gt'] = reson.q(r['gn'] + r['gg'] + (r['gf'] or 0) + (r.get('gx') or 0))
                        t['groups'][0]['rows'].append(r)
                        case.event('levels_outside')
            if shape == 'bound':
                for g in t['groups']:
                    for r in g['rows']:
                        r['E'] = -abs(r['E'])
                case.event('bound_only')
            truths.append(t)
            parts.append(reson.lines(rng, t))
        if rng.random() < 0.4:
            parts.append(reson.unresolved(rng, 'c', emin=edges[-1], emax=2e5)[0])
    elif shape == 'unresolved':
        parts.append(reson.unresolved(rng, 'c', emin=1e3, emax=2e5)[0])
    elif shape == 'rml':
        parts.append(reson.rml(rng)[0])
    elif shape == 'radius':
        parts.append(radius_only(rng))
    x = np.unique([reson.q(v) for v in np.concatenate([[1e-5, 2e7], 10 ** rng.uniform(-5, 7, 8), edges])])
    y = np.array([reson.q(v) for v in rng.uniform(0.5, 20, len(x))])
    if rng.random() < 0.6:
        # a step where a range ends, or somewhere
        at = [edges[-1]] if truths else [x[int(rng.integers(1, len(x) - 1))]]
        x = np.sort(np.concatenate([x, at]))
        y = np.array([reson.q(v) for v in rng.uniform(0.5, 20, len(x))])
        steps = at
        case.event('steps')
    else:
        steps = []
    if not truths and rng.random() < 0.4:
        y[int(rng.integers(1, len(x) - 1))] = 0.0
    if truths and rng.random() < 0.5:
        y[:] = 0.0
        if steps:
            y[np.nonzero(x == edges[-1])[0][1]] = 5.0
        y[-1] = 3.0
        y[x > edges[-1]] = 5.0
    other = [(3, 2, [eg.cont(rng, 92235, 233.0248, 0, 0, 0, 0)] + eg.tab1_record(rng, 0.0, 0.0, 0, 0, [len(x)], [2], x, y))]
    if rng.random() < 0.5:
        other.append((3, 102, [eg.cont(rng, 92235, 233.0248, 0, 0, 0, 0)] + eg.tab1_record(rng, 0.0, 0.0, 0, 0, [len(x)], [2], x, y)))
    m = eg.Material(mat=9228, za=92235, awr=233.0248)
    if parts:
        m.add(2, 151, reson.section(rng, 92235, 233.0248, parts, 0, ()))
    for mf, mt, ls in other:
        m.add(mf, mt, ls)
    p = case.path('e.endf')
    with open(p, 'w') as f:
        f.write(eg.tape([m]))
    case.input(shape=shape, truths=truths, x=x, y=y)
    case.sig(shape, eg.tape([m])[:4000])
    with quiet(), np.errstate(all='ignore'):
        d = neutron.IncidentNeutron.from_ace(case.path('t.ace'))
    before = state(d)
    give = p if rng.random() < 0.7 else pathlib.Path(p) if rng.random() < 0.5 else endf.Evaluation(p)
    how = str(rng.choice(['plain', 'refused', 'overwritten']))
    if how != 'plain' and (shape != 'rml' or rng.random() < 0.5):
        fake = np.array([1.0, 2.0])
        d.energy['0K'] = fake
        d[2].xs['0K'] = function.Tabulated1D(fake, fake)
    with quiet(), np.errstate(all='ignore'):
        if shape == 'rml':
            had = '0K' in d.energy
            case.raises(lambda: d.add_elastic_0K_from_endf(give, overwrite=had or bool(rng.random() < 0.5)), 'R-matrix limited parameters gave 0 K data', allowed=(TypeError,))
            case.check(state(d) == before and ((d.energy['0K'] is fake and d[2].xs['0K'].x is not None and np.array_equal(d[2].xs['0K'].x, fake)) if had else '0K' not in d.energy and '0K' not in d[2].xs), 'data changed although nothing could be added')
            case.event('rml')
            return
        if how == 'refused':
            case.raises(lambda: d.add_elastic_0K_from_endf(give, **({'overwrite': False} if rng.random() < 0.5 else {})), '0 K data were replaced without being asked to', allowed=(ValueError,))
            case.check(d.energy['0K'] is fake and np.array_equal(d[2].xs['0K'].x, fake), '0 K data changed although refused')
            case.event('refused')
            if rng.random() < 0.5:
                return
            how = 'overwritten'
        if how == 'overwritten':
            d.add_elastic_0K_from_endf(give, overwrite=True)
            case.event('overwritten')
        else:
            d.add_elastic_0K_from_endf(give)
    case.check(state(d) == before, 'other temperatures or reactions changed')
    gx, gy = np.asarray(d.energy['0K'], float), np.asarray(d[2].xs['0K'].y, float)
    case.check(np.array_equal(gx, np.asarray(d[2].xs['0K'].x, float)) and len(gx) == len(gy), 'energies of the cross-section are not those of the nuclide')
    case.check(len(gx) > 1 and (np.diff(gx) >= 0).all(), 'energies are not in order', n=len(gx))
    f = wanted(truths, x, y)
    lo, hi = (truths[0]['emin'], truths[-1]['emax']) if truths else (x[0], x[-1])
    case.close_to([gx[0], gx[-1]], [lo, hi], 'range of the energies', rtol=1e-9)
    case.check(len(gx) >= 2, 'no points')
    pick = np.arange(len(gx)) if len(gx) < 1500 else np.sort(rng.choice(len(gx), 1500, replace=False))
    for i in pick:
        e = float(min(max(gx[i], lo), hi))
        case.check(any(abs(gy[i] - v) <= t for v, t in f(e)), 'a point that was added is not background plus resonances', energy=gx[i], got=gy[i], want=[v for v, _ in f(e)])
    case.event('points', len(pick))
    # between the points, where the cross-section is not about zero from interference
    def near(e, what, tol):
        if not lo < e < hi or any(abs(e - b) <= 1e-9 * e for b in edges):
            return False
        got = float(np.interp(e, gx, gy))
        w = f(e)[0][0]
        scale = abs(w)
        case.check(abs(got - w) <= tol * scale + 1e-9, f'the points added do not give the cross-section {what}', energy=e, got=got, want=w)
        return True
    if truths:
        # sums of wide positive parts only: the background keeps the values away from zero
        for t in truths:
            for g in t['groups']:
                for r in g['rows']:
                    if r['E'] > 0 and t['emin'] < r['E'] < t['emax']:
                        w = r['gn'] + r['gg'] + (r.get('gf') or 0) + abs(r.get('gfa') or 0) + abs(r.get('gfb') or 0)
                        top = max(abs(f(e)[0][0]) for e in (r['E'], r['E'] - w / 4, r['E'] + w / 4))
                        for u in (0.0, -0.5, 0.5, -0.2, 0.3, 1.5, -2.0):
                            e = r['E'] + u * w
                            if lo < e < hi and not any(abs(e - b) <= 1e-9 * e for b in edges) and t['emin'] < e < t['emax']:
                                got, want = float(np.interp(e, gx, gy)), f(e)[0][0]
                                err = abs(got - want) / max(abs(want), 1e-3 * top)
                                case.check(err <= 0.02, 'the points added do not give the cross-section ' + ('at a resonance' if u == 0 else 'next to a resonance'), energy=e, resonance=r['E'], width=w, got=got, want=want)
                                case.event('peaks' if u == 0 else 'wings')
    else:
        for e in [*np.exp(rng.uniform(np.log(x[0]), np.log(x[-1]), 60)), *[e * (1 + u) for e in steps for u in (-1e-7, 1e-7)]]:
            near(float(e), 'between', 0.005)
    case.event('two_ranges', int(shape == 'two'))
    case.event('radius_only', int(shape == 'radius'))
    case.event('no_file2', int(shape == 'none'))
    case.event('unresolved_only', int(shape == 'unresolved'))
    case.event('added')
    if rng.random() < 0.5:
        with quiet():
            d.export_to_hdf5(case.path('o.h5'))
            b = neutron.IncidentNeutron.from_hdf5(case.path('o.h5'))
        case.check(np.array_equal(b.energy['0K'], gx) and np.array_equal(b[2].xs['0K'].x, gx) and np.array_equal(b[2].xs['0K'].y, gy), '0 K data are not the same after export')
        case.event('exported')


def state(d):
    out = {}
    for t, e in d.energy.items():
        if t != '0K':
            out['energy', t] = np.asarray(e).tobytes()
    for mt, rx in d.reactions.items():
        for t, v in rx.xs.items():
            if t != '0K':
                out[mt, t] = (np.asarray(v.x).tobytes(), np.asarray(v.y).tobytes()) if hasattr(v, 'y') else id(v)
    out['mts'] = sorted(d.reactions)
    out['t'] = list(d.temperatures)
    return out


def grids(case):
    """linearize and thin by themselves, with the tolerance asked for."""
    from ASAPy.data import grid
    rng = case.rng
    tol = float(rng.choice([0.001, 0.01, 0.05, 10 ** rng.uniform(-4, -1)]))
    n = int(rng.integers(3, 200))
    scale = 10 ** rng.uniform(-8, 6)
    lo = 10 ** rng.uniform(-5, 3)
    x = np.unique(lo * 10 ** np.sort(rng.uniform(0, rng.uniform(0.01, 3), n)))
    if len(x) < 3:
        return
    n = len(x)
    shape = str(rng.choice(['line', 'smooth', 'lines', 'noise', 'steps', 'zeros']))
    if shape == 'line':
        y = 3.0 + 2.0 * (x - x[0]) / (x[-1] - x[0])
    elif shape == 'smooth':
        y = 1.2 + np.sin(rng.uniform(1, 20) * np.log(x))
    elif shape == 'lines':
        k = np.unique(np.concatenate([[0, n - 1], rng.integers(0, n, 4)]))
        y = np.interp(x, x[k], rng.uniform(0.5, 5, len(k)))
    elif shape == 'noise':
        y = 1.0 + tol * rng.uniform(-2, 2, n)
    elif shape == 'steps':
        x = np.sort(np.concatenate([x, rng.choice(x[1:-1], min(3, n - 2), replace=False)]))
        y = np.where(np.arange(len(x)) % 7 < 4, 1.0, rng.uniform(0.5, 5, len(x)))
    else:
        y = np.where(rng.random(n) < 0.4, 0.0, 1.0 + rng.uniform(0, 0.5 * tol, n))
    y = y * scale
    keep = x.copy(), y.copy()
    case.sig(shape, n, tol, scale)
    case.input(shape=shape, x=x, y=y, tolerance=tol)
    with np.errstate(all='ignore'):
        a, b = grid.thin(x, y, tol) if tol != 0.001 or rng.random() < 0.5 else grid.thin(x, y)
    case.check(np.array_equal(x, keep[0]) and np.array_equal(y, keep[1]), 'the points given were changed')
    case.check(len(a) == len(b) and a[0] == x[0] and a[-1] == x[-1] and (np.diff(a) >= 0).all(), 'points left', got=a)
    pairs, j = list(zip(x, y)), 0
    for pt in zip(a, b):
        while j < len(pairs) and pairs[j] != pt:
            j += 1
        case.check(j < len(pairs), 'a point left is none of those given, or not in order', point=pt)
        j += 1
    left = set(zip(a, b))
    for i, pt in enumerate(pairs):
        if pt in left:
            continue
        k = int(np.searchsorted(a, x[i]))
        case.check(0 < k < len(a), 'a point at an end was removed', point=pt)
        v = list(b[a == x[i]]) or [b[k - 1] + (b[k] - b[k - 1]) / (a[k] - a[k - 1]) * (x[i] - a[k - 1])]
        case.check(min(abs(u - y[i]) for u in v) <= tol * abs(y[i]) * (1 + 1e-9) + 1e-12 * scale * (y[i] != 0), 'a point was removed although the others do not give its value', point=pt, got=v)
        case.event('removed')
    if shape == 'line':
        case.check(len(a) <= 3, 'points of a straight line were left', n=len(a))
    case.event('thinned')
    # a function
    p, q = float(rng.uniform(-1.5, 3)), float(rng.uniform(0.1, 10))
    f = {0: lambda v: scale * v ** p, 1: lambda v: scale * np.exp(-v / lo / q), 2: lambda v: scale * (1.5 + np.sin(q * np.log(v))), 3: lambda v: scale * (p + 2 + v / lo)}[case.index % 4]
    g = np.unique(np.concatenate([[lo, lo * 8], lo * rng.uniform(1, 8, int(rng.integers(0, 12)))]))
    keep = g.copy()
    give = g if rng.random() < 0.6 else list(map(float, g))
    with np.errstate(all='ignore'):
        a, b = grid.linearize(give, f, tol) if tol != 0.001 or rng.random() < 0.5 else grid.linearize(give, f)
    case.check(np.array_equal(g, keep), 'the points given were changed')
    case.check((np.diff(a) > 0).all() and a[0] == g[0] and a[-1] == g[-1] and np.isin(g, a).all(), 'the points given are not among those made')
    case.close_to(b, f(a), 'values at the points made', rtol=1e-12)
    mid = 0.5 * (a[1:] + a[:-1])
    case.check((abs(0.5 * (b[1:] + b[:-1]) / f(mid) - 1) <= tol * (1 + 1e-6) + 1e-12).all(), 'tolerance asked for between the points', tolerance=tol)
    if len(g) > 6 or case.index % 4 in (0, 3):
        t = lo * rng.uniform(1, 8, 50)
        case.check((abs(np.interp(t, a, b) / f(t) - 1) <= 1.5 * tol + 1e-12).all() or case.index % 4 not in (0, 3), 'tolerance asked for at other points', tolerance=tol)
    if case.index % 4 == 3:
        case.check(len(a) == len(g), 'points were added to a straight line', n=len(a), given=len(g))
    case.event('linearized')


def radius_only(rng):
    return [eg.cont(rng, 1e-5, 1e5, 0, 0, 0, 0), eg.cont(rng, 3.5, reson.q(rng.uniform(0.3, 1)), 0, 0, 0, 0)]


WORKLOADS = [Workload('added', added, 144, 1000, timeout=500), Workload('grids', grids, 240, 6000)]
