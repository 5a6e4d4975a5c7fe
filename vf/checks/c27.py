"""C27: resonance parameters are read as written and give the cross-sections of their formalism."""
import copy
from concurrent.futures import ThreadPoolExecutor
import importlib.machinery
import importlib.util
import io
import json
import os
import subprocess
import sys
import sysconfig

import numpy as np

from ..core import Workload, REPO, VERIF, child_env, run_cmd, quiet
from .. import endfgen as eg
from .. import reson

ID = 'C27'
RULE = ('MF2/MT151 sections written by an independent writer: single- and multi-level Breit-Wigner, Reich-Moore (1-5 orbital momenta, target spins 0-9/2, every total and channel '
        'spin, bound levels, competitive widths above and below their threshold, signed fission widths, all scattering/channel radius options), R-matrix limited, the three '
        'unresolved cases and radius-only ranges, one or several ranges; the cross-sections of the compiled reconstruction at resonances, wings, between, at range ends and thermal, '
        'for scalars, integers, arrays; against the formulas of ENDF-102 appendix D evaluated independently; part of the runs under address and undefined-behaviour sanitizers; '
        'non-trivial = two or more resonances; distinct by parameters')
EXPECT = {'named_widths': 60, 'isotopes': 20, 'reordered': 80, 'points': 8000, 'slbw': 60, 'mlbw': 60, 'rm': 60, 'rml': 15, 'urr_a': 10, 'urr_b': 10, 'urr_c': 10, 'competitive': 40, 'below_competitive_threshold': 60, 'bound_levels': 60, 'energy_dependent_radius': 50,
          'channel_spin_minus': 40, 'one_channel_spin_only': 5, 'fission_interference': 40, 'tiny_phase_points': 60, 'high_l': 30, 'integer_energies': 40, 'copies': 40, 'with_background': 40,
          'evaluations': 20, 'common_end': 10, 'steps': 15, 'sanitized_points': 300, 'several_ranges': 15}
ASSUMPTIONS = ['the extension is compiled with cython and gcc as in the build script of the repository (setup.py does not build it)']


def _build(scratch, san):
    d = os.path.join(scratch, 'san' if san else 'plain')
    os.makedirs(d, exist_ok=True)
    c, so = os.path.join(d, 'reconstruct.c'), os.path.join(d, 'reconstruct.so')
    subprocess.run([os.path.join(os.path.dirname(sys.executable), 'cython'), '-2', os.path.join(REPO, 'ASAPy/data/reconstruct.pyx'), '-o', c], check=True, capture_output=True)
    flags = ['-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer'] if san else ['-O1']
    inc = sysconfig.get_paths()['include']
    subprocess.run(['gcc', '-shared', '-fPIC', '-w', *flags, '-I' + inc, '-I' + np.get_include(), c, '-o', so], check=True, capture_output=True)
    return so


def prepare(scratch):
    with ThreadPoolExecutor(2) as ex:
        a, b = ex.submit(_build, scratch, False), ex.submit(_build, scratch, True)
        return {'plain': a.result(), 'san': b.result()}


class _Finder:
    """Finds the extension as if it lay in the package."""
    def __init__(self, so):
        self.so = so

    def find_spec(self, name, path=None, target=None):
        if name != NAME:
            return None
        return importlib.util.spec_from_file_location(name, self.so, loader=importlib.machinery.ExtensionFileLoader(name, self.so))


NAME = 'ASAPy.data.reconstruct'


def load(so):
    """ASAPy.data with the compiled reconstruction in place."""
    if not any(isinstance(f, _Finder) for f in sys.meta_path):
        for m in [m for m in sys.modules if m == 'ASAPy.data' or m.startswith('ASAPy.data.')]:
            del sys.modules[m]
        sys.meta_path.insert(0, _Finder(so))
    from ASAPy.data import resonance, endf, neutron, function
    return resonance, endf, neutron, function


def evaluation(endf, rng, parts, lfw=0, za=92235, awr=233.0248, other=(), more=()):
    m = eg.Material(mat=9228, za=za, awr=awr, lfi=lfw)
    m.text = [' 92-U -235 TEST      EVAL-JUL16 A. Uthor'.ljust(66)] + [''.ljust(66)] * 5
    m.add(2, 151, reson.section(rng, za, awr, parts, lfw, more))
    for mf, mt, lines in other:
        m.add(mf, mt, lines)
    text = eg.tape([m])
    return endf.Evaluation(io.StringIO(text)), text


COLS = {'slbw': ['energy', 'L', 'J', 'totalWidth', 'neutronWidth', 'captureWidth', 'fissionWidth', 'competitiveWidth'],
        'rm': ['energy', 'L', 'J', 'neutronWidth', 'captureWidth', 'fissionWidthA', 'fissionWidthB']}
COLS['mlbw'] = COLS['slbw']
CLASS = {'slbw': 'SingleLevelBreitWigner', 'mlbw': 'MultiLevelBreitWigner', 'rm': 'ReichMoore'}


def same(case, got, want, what):
    case.close_to(np.asarray(got, float), np.asarray(want, float), what, rtol=1e-12, atol=1e-300)


def check_range(case, res, r, t):
    kind = t['kind']
    same(case, [r.energy_min, r.energy_max], [t['emin'], t['emax']], 'limits of the range')
    if kind in CLASS:
        case.equal(type(r).__name__, CLASS[kind], 'formalism of the range')
        same(case, [r.target_spin, r.atomic_weight_ratio], [t['spi'], t['awri']], 'spin and mass')
        rows = []
        for g in t['groups']:
            for x in g['rows']:
                rows.append([x['E'], g['l'], x['AJ'], x['gn'], x['gg'], x['gfa'], x['gfb']] if kind == 'rm' else
                            [x['E'], g['l'], x['J'], x['gt'], x['gn'], x['gg'], x['gf'], x['gx']])
        case.equal([str(c) for c in r.parameters.columns], COLS[kind], 'names of the parameters')
        case.close_to(r.parameters.values.astype(float), np.array(rows), 'resonance parameters', rtol=1e-12, atol=1e-15)
        e = float(np.sqrt(max(t['emin'], 1e-4) * t['emax']))
        for g in t['groups']:
            same(case, [r.channel_radius[g['l']](e), r.scattering_radius[g['l']](e)], reson.radii(t, g['l'], e), 'channel and scattering radius')
            if kind != 'rm':
                same(case, r.q_value[g['l']], g['q'], 'Q value of the competitive reaction')
        if kind == 'rm':
            case.equal([bool(r.angle_distribution), int(r.num_l_convergence)], [t['lad'] == 1, t['nlsc']], 'angular distribution flag and number of converged l')
    elif kind == 'lru0':
        same(case, [r.target_spin, r.scattering_radius[0](1.0), r.channel_radius[0](1.0)], [t['spi'], t['ap'], 0.123 * (reson.MN_AMU * t['awr']) ** (1 / 3) + 0.08], 'radius-only range')
    elif kind == 'urr':
        same(case, r.target_spin, t['spi'], 'spin')
        case.equal(bool(r.add_to_background), t['lssf'] == 0, 'self-shielding flag')
        if t['nro']:
            x, y = t['ape']
            same(case, [r.scattering_radius(v) for v in x], y, 'scattering radius')
        else:
            same(case, r.scattering_radius, t['ap'], 'scattering radius')
        if t['case'] == 'b':
            same(case, r.energies, t['energies'], 'energies of the unresolved parameters')
            case.equal(len(r.parameters), len(t['records']), 'number of energies of the unresolved parameters')
            for g, w in zip(r.parameters, t['records']):
                case.equal([str(c) for c in g.columns], ['L', 'J', 'd', 'amun', 'gn0', 'gg', 'gf'], 'names of the unresolved parameters')
                same(case, g.values, w, 'unresolved parameters at one energy')
        else:
            names = [str(c) for c in r.parameters.columns]
            case.equal(names, ['L', 'J', 'd', 'amun', names[4] if names[4:5] == ['gn0'] else 'gn', 'gg', 'gf'] if t['case'] == 'a' else ['L', 'J', 'E', 'd', 'gx', 'gn0', 'gg', 'gf'], 'names of the unresolved parameters')
            same(case, r.parameters.values, t['records'], 'unresolved parameters')
    else:
        case.equal([bool(r.reduced_width), r.formalism], [t['ifg'] == 1, t['krm']], 'flags of the R-matrix range')
        case.equal(len(r.particle_pairs), len(t['pairs']), 'number of particle pairs')
        for p, w in zip(r.particle_pairs, t['pairs']):
            same(case, [p.first['mass'], p.second['mass'], p.first['z'], p.second['z'], p.first['spin'], p.second['spin'], p.q_value, p.penetrability, p.shift, p.mt, p.first['parity'],
                        p.second['parity']], w, 'particle pair')
        case.equal(len(r.spin_groups), len(t['groups']), 'number of spin groups')
        for s, w in zip(r.spin_groups, t['groups']):
            case.equal([float(s.spin), s.parity], [w['J'], w['par']], 'spin and parity of a group')
            case.equal(len(s.channels), len(w['ch']), 'number of channels')
            for c, x in zip(s.channels, w['ch']):
                case.check(c['particle_pair'] is r.particle_pairs[int(x[0]) - 1], 'the channel belongs to another particle pair')
                same(case, [c['l'], c['spin'], c['boundary'], c['effective_radius'], c['true_radius']], x[1:], 'channel')
            case.equal(len(s.parameters), len(w['res']), 'number of resonances of a group')
            if w['res']:
                same(case, s.parameters.values, w['res'], 'resonances of a group')
                mts = [int(t['pairs'][int(x[0]) - 1][9]) for x in w['ch']]
                case.equal([str(c) for c in s.parameters.columns], ['energy'] + [{2: 'neutronWidth', 18: 'fissionWidth', 102: 'captureWidth'}.get(m, f'width (MT={m})') for m in mts], 'names of the widths')
                case.event('named_widths', len(mts))


def ranges(case):
    """Ranges of one isotope."""
    rng = case.rng
    truths, parts, lfw = [], [], int(rng.random() < 0.5)
    kinds = [str(k) for k in rng.choice(['slbw', 'mlbw', 'rm', 'rml', 'lru0'], int(rng.choice([0, 1, 1, 2])))]
    if rng.random() < 0.5 or not kinds:
        kinds.append('urr')
    for k in kinds:
        if k in CLASS:
            t = reson.make(rng, k)
            parts.append(reson.lines(rng, t))
        elif k == 'rml':
            ls, t = reson.rml(rng)
            parts.append(ls)
        elif k == 'urr':
            c = str(rng.choice(['b', 'c'] if lfw else ['a', 'c']))
            ls, t = reson.unresolved(rng, c)
            parts.append(ls)
            case.event('urr_' + c)
        else:
            t = {'kind': 'lru0', 'emin': 1e-5, 'emax': 1e5, 'spi': float(rng.choice([0, 0.5, 3.5])), 'ap': reson.q(rng.uniform(0.3, 1)), 'awr': 233.0248}
            parts.append([eg.cont(rng, 1e-5, 1e5, 0, 0, 0, 0), eg.cont(rng, t['spi'], t['ap'], 0, 0, 0, 0)])
        truths.append(t)
        case.event(k)
    return parts, truths, kinds, lfw


def read(case):
    res, endf, _, _ = load(case.shared['plain'])
    rng = case.rng
    isotopes, truths, kinds = [], [], []
    for _ in range(int(rng.choice([1, 1, 1, 2, 3]))):
        ps, ts, ks, lf = ranges(case)
        isotopes.append((ps, lf))
        truths += ts
        kinds += ks
    (parts, lfw), more = isotopes[0], isotopes[1:]
    case.event('isotopes', int(bool(more)))
    case.event('several_ranges', int(len(kinds) > 1))
    case.input(kinds=kinds, lfw=[l for _, l in isotopes])
    ev, text = evaluation(endf, rng, parts, lfw, more=more)
    case.sig('read', text[:4000])
    with quiet():
        R = res.Resonances.from_endf(ev)
    case.equal(len(list(R)), len(truths), 'number of ranges')
    for r, t in zip(R, truths):
        check_range(case, res, r, t)
    un = [r for r, t in zip(R, truths) if t['kind'] == 'urr']
    rs = [r for r, t in zip(R, truths) if t['kind'] != 'urr']
    case.check(R.unresolved is (un[0] if un else None), 'the unresolved range is not the one of the file')
    if len(rs) <= 1:
        case.check(R.resolved is (rs[0] if rs else None), 'the resolved range is not the one of the file')
    else:
        case.raises(lambda: R.resolved, 'several resolved ranges have no single resolved range', (ValueError,))
    if case.index < 2:
        case.sample(kinds=kinds, ranges=len(truths))


def energies(rng, t):
    es = [t['emin'], t['emax'], 0.0253 if t['emin'] < 0.0253 < t['emax'] else t['emin'] * 1.5, 1e-5]
    for g in t['groups']:
        for r in g['rows']:
            w = r['gn'] + r['gg']
            es += [abs(r['E']), abs(r['E']) + w * rng.uniform(-2, 2), abs(r['E']) * rng.uniform(0.9, 1.1)]
        if g['lrx'] and g['q'] < 0:
            th = -g['q'] * (t['awri'] + 1) / t['awri']
            es += [th * 0.9, th * 1.1, th * 1.001]
    es += list(rng.uniform(t['emin'], t['emax'], 4)) + list(10 ** rng.uniform(-5, np.log10(t['emax']), 4))
    es = [float(e) for e in es if e > 0]
    if len(es) > 60:
        es = [es[i] for i in sorted(rng.choice(len(es), 60, replace=False))]
    return np.array(es)


def point(case, t, E, got, what):
    el, ca, fi, atol = reson.evaluate(t, E)
    for mt, w in ((2, el), (102, ca), (18, fi)):
        g = float(got[mt])
        case.check(np.isfinite(g) and abs(g - w) <= 1e-6 * abs(w) + atol, f'{what}: MT {mt} is not the cross-section the parameters give', energy=E, got=g, want=w, tolerance=1e-6 * abs(w) + atol,
                   kind=t['kind'])
    case.event('points')
    k = reson.wave(t['awri'], E)
    case.event('tiny_phase_points', int(t['kind'] == 'rm' and t['groups'][0]['l'] == 0 and abs(k * reson.radii(t, 0, E)[1]) < 3e-4))
    for g in t['groups']:
        case.event('below_competitive_threshold', int(g['lrx'] and E + g['q'] * (t['awri'] + 1) / t['awri'] < 0))


def note(case, t):
    case.event(t['kind'])
    rows = [(g, r) for g in t['groups'] for r in g['rows']]
    case.event('competitive', int(any(g['lrx'] for g in t['groups'])))
    case.event('bound_levels', sum(r['E'] < 0 for _, r in rows))
    case.event('energy_dependent_radius', t['nro'])
    case.event('high_l', int(max(g['l'] for g in t['groups']) >= 3))
    if t['kind'] == 'rm':
        case.event('channel_spin_minus', sum(r['AJ'] < 0 for _, r in rows))
        case.event('one_channel_spin_only', sum(g['l'] > 0 and t['spi'] > 0 and r['AJ'] > 0 and r['s'] == t['spi'] - 0.5 for g, r in rows))
        case.event('fission_interference', int(sum(r['gfa'] != 0 for _, r in rows) > 1))


def reconstruct(case):
    res, endf, _, function = load(case.shared['plain'])
    rng = case.rng
    kind = ['slbw', 'mlbw', 'rm'][case.index % 3]
    t = reson.make(rng, kind)
    case.input(truth=t)
    ev, text = evaluation(endf, rng, [reson.lines(rng, t)])
    r = list(res.Resonances.from_endf(ev))[0]
    check_range(case, res, r, t)
    note(case, t)
    case.sig('reconstruct', text[:3000])
    es = energies(rng, t)
    twin = copy.copy(r)
    out = r.reconstruct(es)
    for mt in (2, 102, 18):
        case.equal(np.shape(out[mt]), es.shape, 'one value per energy')
    for i, E in enumerate(es):
        point(case, t, float(E), {mt: out[mt][i] for mt in out}, 'array')
    j = int(rng.integers(len(es)))
    one = r.reconstruct(float(es[j]))
    case.equal([float(one[mt]) for mt in (2, 102, 18)], [float(out[mt][j]) for mt in (2, 102, 18)], 'a single energy gives the value of the array')
    ints = np.array(sorted({int(v) for v in es if 1 <= v < 2 ** 31}), dtype=int)[:6]
    if len(ints):
        case.event('integer_energies')
        oi = r.reconstruct(ints if rng.random() < 0.5 else [int(v) for v in ints])
        for i, E in enumerate(ints):
            point(case, t, float(E), {mt: oi[mt][i] for mt in oi}, 'integers')
    # a copy with other parameters is independent of the range it was made from
    t2 = copy.deepcopy(t)
    df = twin.parameters.copy()
    f = float(rng.uniform(0.5, 2))
    df['captureWidth'] = df['captureWidth'] * f
    if rng.random() < 0.5:              # sorted by energy, in any order, or without some of the resonances
        how = str(rng.choice(['sorted', 'shuffled', 'selected']))
        if how == 'selected':
            drop = [i for i in range(len(df)) if rng.random() < 0.3 and (df['L'] == df['L'].iloc[i]).sum() > 1]
            for l in set(df['L']):      # every orbital momentum keeps a resonance
                if all(i in drop for i in range(len(df)) if df['L'].iloc[i] == l):
                    drop = [i for i in drop if df['L'].iloc[i] != l]
            df = df[[i not in drop for i in range(len(df))]]
            i = 0
            for g in t2['groups']:
                n = len(g['rows'])
                g['rows'] = [x for j, x in enumerate(g['rows']) if i + j not in drop]
                i += n
        elif how == 'sorted':
            df = df.sort_values('energy')
        else:
            df = df.iloc[rng.permutation(len(df))]
        case.event('reordered')
    twin.parameters = df
    for g in t2['groups']:
        for x in g['rows']:
            x['gg'] *= f
    e2 = es[np.sort(rng.choice(len(es), min(len(es), 12), replace=False))]
    o2 = twin.reconstruct(e2)
    for i, E in enumerate(e2):
        point(case, t2, float(E), {mt: o2[mt][i] for mt in o2}, 'changed copy')
    again = r.reconstruct(e2)
    for mt in (2, 102, 18):
        case.equal([float(v) for v in again[mt]], [float(out[mt][list(es).index(v)]) for v in e2], 'the range gives the same values after a copy was changed and evaluated')
    case.event('copies')
    if case.index < 3:
        case.sample(kind=kind, groups=len(t['groups']), energies=len(es))


def side(e, x, y, which):
    """Linear interpolation; at a step the value above ('right') or below it."""
    i = min(max(int(np.searchsorted(x, e, which)), 1), len(x) - 1)
    if x[i] == x[i - 1]:
        return float(y[i])
    return float(y[i - 1] + (y[i] - y[i - 1]) / (x[i] - x[i - 1]) * (e - x[i - 1]))


def background(case):
    res, endf, neutron, function = load(case.shared['plain'])
    rng = case.rng
    n = int(rng.choice([1, 1, 2]))
    edges = [1e-5] + sorted(reson.q(v) for v in 10 ** rng.uniform(1, 4, n))
    truths = [reson.make(rng, str(rng.choice(['slbw', 'mlbw', 'rm'])), emin=edges[i], emax=edges[i + 1], awri=233.02) for i in range(n)]
    if rng.random() < 0.5:
        for a, b in zip(truths, truths[1:]):
            a['emax'] = reson.q(a['emax'] * 0.999)   # else ranges share their end, where one of them counts
    parts = [reson.lines(rng, t) for t in truths]
    if rng.random() < 0.4:
        ls, u = reson.unresolved(rng, 'c', emin=reson.q(edges[-1] * 1.2), emax=2e5)
        parts.append(ls)
    mt = int(rng.choice([2, 102, 18]))
    x = np.unique([reson.q(v) for v in np.concatenate([[1e-5, 2e7], 10 ** rng.uniform(-5, 7, 8), edges])])
    y = np.array([reson.q(v) for v in rng.uniform(0.0, 20, len(x))])
    y[rng.random(len(x)) < 0.3] = 0.0
    steps = rng.random() < 0.5
    if steps:
        # a step where a range ends or starts, as in most evaluations
        at = sorted({t[k] for t in truths for k in ('emin', 'emax')} - {1e-5})
        keep = rng.random(len(at)) < 0.8
        x = np.sort(np.concatenate([np.union1d(x, at), [v for v, k in zip(at, keep) if k]]))
        y = np.array([reson.q(v) for v in rng.uniform(0.0, 20, len(x))])
        if rng.random() < 0.5:
            y[x < truths[-1]['emax']] = 0.0
        case.event('steps')
    other = []
    mts = [mt] if rng.random() < 0.5 else [2, 18, 102]
    tabs = {m: (y if m == mt else np.array([reson.q(v) for v in rng.uniform(0.0, 20, len(x))])) for m in mts}
    other += [(3, 16, [eg.cont(rng, 92235, 233.0248, 0, 0, 0, 0)] + eg.tab1_record(rng, -5e6, -5e6, 0, 0, [3], [2], [6e6, 1e7, 2e7], [0.0, 0.5, 0.25]))]
    for m in mts:
        other.append((3, m, [eg.cont(rng, 92235, 233.0248, 0, 0, 0, 0)] + eg.tab1_record(rng, 0.0, 0.0, 0, 0, [len(x)], [2], x, tabs[m])))
    ev, text = evaluation(endf, rng, parts, 0, other=other)
    case.sig('background', text[:3000])
    case.input(truths=truths, x=x, y=y)

    def want(e, m):
        above, below = (side(e, x, tabs[m], w) for w in ('right', 'left'))
        v = above
        tol = 1e-9 * abs(v)
        out = []
        for t in truths:
            if t['emin'] <= e <= t['emax']:
                v = below if e == t['emax'] else above
                tol = 1e-9 * abs(v)
                el, ca, fi, atol = reson.evaluate(t, e)
                w = {2: el, 102: ca, 18: fi}[m]
                out.append((v + w, tol + 1e-6 * abs(w) + atol + 1e-12))
        case.event('common_end', int(len(out) > 1))
        return out or [(v, tol + 1e-12)]
    es = np.concatenate([10 ** rng.uniform(-5, 6, 20), [edges[-1], edges[0], edges[-1] * 1.0001, edges[1]], [t['emax'] for t in truths]])
    R = res.Resonances.from_endf(ev)
    todo = [('made directly', mt, function.ResonancesWithBackground(R, function.Tabulated1D(x, y), mt))]
    with quiet():
        data = neutron.IncidentNeutron.from_endf(ev)
    case.event('evaluations')
    case.equal(sorted(data.reactions), sorted([16] + mts), 'reactions of the evaluation')
    for m in mts:
        todo.append(('from the evaluation', m, data[m].xs['0K']))
    for name, m, xs in todo:
        got = xs(es.copy())
        for e, g in zip(es, got):
            ok = want(float(e), m)
            case.check(any(abs(float(g) - v) <= tol for v, tol in ok), f'cross-section with background ({name}) is not background plus resonances', energy=float(e), got=float(g), want=ok, mt=m)
            if rng.random() < 0.3:
                h = float(xs(float(e)))
                case.check(any(abs(h - v) <= tol for v, tol in ok), f'cross-section with background ({name}) at a single energy is not background plus resonances', energy=float(e), got=h, want=ok, mt=m)
        ie = np.array(sorted({int(v) for v in es if v >= 1}), dtype=int)[:8]
        for e, g in zip(ie, xs(ie) if rng.random() < 0.5 else [xs(int(v)) for v in ie]):
            ok = want(float(e), m)
            case.check(any(abs(float(g) - v) <= tol for v, tol in ok), f'cross-section with background ({name}) at integer energies is not background plus resonances', energy=float(e), got=float(g), want=ok, mt=m)
        case.event('with_background')
    same(case, data[16].xs['0K'](np.array([1e3, 8e6, 1.5e7])), [0.0, 0.25, 0.375], 'a reaction without resonances')


CHILD = r'''
import json, sys
sys.path.insert(0, %(verif)r)
from vf.checks import c27
res, endf, _, _ = c27.load(%(so)r)
import io
import numpy as np
for job in json.load(open(sys.argv[1])):
    r = list(res.Resonances.from_endf(endf.Evaluation(io.StringIO(job['text']))))[0]
    out = r.reconstruct(np.array(job['es']))
    print(json.dumps({str(mt): [float(v) for v in out[mt]] for mt in out}))
print('done')
'''


def sanitized(case):
    _, endf, _, _ = load(case.shared['plain'])
    rng = case.rng
    jobs, truths = [], []
    for i in range(12 if not case.thorough else 30):
        t = reson.make(rng, ['slbw', 'mlbw', 'rm'][i % 3])
        _, text = evaluation(endf, rng, [reson.lines(rng, t)])
        es = [float(v) for v in energies(rng, t)[:30]]
        jobs.append({'text': text, 'es': es})
        truths.append(t)
    with open(case.path('jobs.json'), 'w') as f:
        json.dump(jobs, f)
    with open(case.path('child.py'), 'w') as f:
        f.write(CHILD % {'verif': VERIF, 'so': case.shared['san']})
    libs = [subprocess.run(['gcc', '-print-file-name=' + n], capture_output=True, text=True).stdout.strip() for n in ('libasan.so', 'libubsan.so')]
    env = child_env(case.dir, LD_PRELOAD=' '.join(libs), ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99', UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1', PYTHONMALLOC='malloc',
                    PYTHONPATH=REPO)
    case.input(truths=truths)
    case.sig('sanitized', case.index)
    rc, out, err = run_cmd([sys.executable, case.path('child.py'), case.path('jobs.json')], case.dir, env, timeout=200)
    case.check('Sanitizer' not in err and 'runtime error: ' not in err, 'the sanitizer reports an error', rc=rc, err=err[-1500:])
    case.check(rc == 0 and out.rstrip().endswith('done'), 'the reconstruction failed', rc=rc, err=err[-1500:])
    rows = [json.loads(l) for l in out.splitlines()[:-1]]
    for t, j, o in zip(truths, jobs, rows):
        for i, e in enumerate(j['es']):
            point(case, t, e, {int(m): v[i] for m, v in o.items()}, 'sanitized')
            case.event('sanitized_points')


WORKLOADS = [Workload('read', read, 120, 1500), Workload('reconstruct', reconstruct, 360, 6000), Workload('background', background, 60, 800), Workload('sanitized', sanitized, 4, 60)]
