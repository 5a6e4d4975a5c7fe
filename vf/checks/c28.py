"""C28: neutron data of an ENDF evaluation."""
import io

import numpy as np
from numpy.polynomial import legendre as L

from ..core import Workload, quiet
from .. import endfgen as eg
from .. import endfn
from ..reson import q

ID = 'C28'
RULE = ('evaluations written by an independent writer: cross-sections of 1-6 reactions with all interpolation laws, angular distributions of all kinds (isotropic, Legendre, tables, mixed), '
        'all energy laws of file 5 with 1-3 parts, products of file 6 with all neutron-induced laws, activation products of files 8, 9, 10, photons of files 12 and 13, fission with polynomial and '
        'tabulated total, prompt and delayed nu and 1-8 precursor groups, partial fission (MT 19, 20, 21, 38; with or without MT 18) with own spectra of file 5 or 6 or those of fission, fission energy release in all representations; non-trivial = a reaction with a product; distinct by content')
EXPECT = {'frames': 300, 'neutrons': 50, 'unheld_refused': 20, 'not_refused': 6, 'reactions': 400, 'mf4': 60, 'mf5_parts': 60, 'mf6_products': 120, 'law_1': 30, 'kalbach': 15, 'law_2': 25, 'law_6': 8, 'law_7': 8, 'levels': 20, 'activation': 25, 'photons': 30, 'photon_lines': 12,
          'fission': 60, 'not_six_groups': 25, 'polynomial_delayed': 10, 'partial_fission': 10, 'energy_release': 40, 'sher_beck': 12, 'metastable': 10,
          'tabulated_cosines': 8, 'transitions': 4, 'spectra_of_itself': 60, 'spectra_of_fission': 12, 'fission_mf6': 12, 'fission_angles': 30, 'energy_release_refused': 30}


def same(case, got, want, what):
    case.close_to(np.asarray(got, float), np.asarray(want, float), what, rtol=1e-12, atol=1e-300)


def is_tab(case, f, t, what):
    same(case, f.x, t['x'], what + ' (points)')
    same(case, f.y, t['y'], what + ' (values)')
    case.equal([int(v) for v in f.breakpoints], t['nbt'], what + ' (regions)')
    case.equal([int(v) for v in f.interpolation], t['int'], what + ' (laws)')


SCHEME = {1: 'histogram', 2: 'linear-linear', 3: 'linear-log', 4: 'log-linear', 5: 'log-log'}


def is_mu(case, d, t, what):
    if t[0] == 'iso':
        case.equal([type(d).__name__, float(d.a), float(d.b)], ['Uniform', -1.0, 1.0], what + ' is isotropic')
    elif t[0] == 'legendre':
        c = np.array(t[1])
        m = np.linspace(-1, 1, 9)
        case.close_to(np.array([float(d(v)) for v in m]), L.legval(m, c * (2 * np.arange(len(c)) + 1) / 2), what + ' (Legendre)', rtol=1e-9, atol=1e-11)
        case.close_to(np.array(d.coefficients, float), c, what + ' (coefficients)', rtol=1e-12, atol=1e-15)
    else:
        same(case, d.x, t[1]['x'], what + ' (cosines)')
        same(case, d.p, t[1]['y'], what + ' (densities)')
        case.equal(d.interpolation, SCHEME[t[1]['int'][0]], what + ' (interpolation)')


def is_angle(case, a, t, what):
    same(case, a.energy, t['energy'], what + ' (incident energies)')
    case.equal(len(a.mu), len(t['mu']), what + ' (number)')
    for d, w in zip(a.mu, t['mu']):
        is_mu(case, d, w, what)


def is_energy(case, d, t, what):
    name = {1: 'ArbitraryTabulated', 5: 'GeneralEvaporation', 7: 'MaxwellEnergy', 9: 'Evaporation', 11: 'WattEnergy', 12: 'MadlandNix'}[t['lf']]
    case.equal(type(d).__name__, name, what + ': kind of spectrum')
    if t['lf'] == 1:
        same(case, d.energy, t['energy'], what + ': incident energies')
        case.equal(len(d.pdf), len(t['pdf']), what + ': number of spectra')
        for f, w in zip(d.pdf, t['pdf']):
            is_tab(case, f, w, what + ': spectrum')
        return
    for k in ('u', 'efl', 'efh'):
        if k in t:
            same(case, getattr(d, k), t[k], f'{what}: {k}')
    for k in ('theta', 'g', 'a', 'b', 'tm'):
        if k in t:
            is_tab(case, getattr(d, k), t[k], f'{what}: {k}')


def is_product6(case, p, t, what, of):
    """of: mass of the target, Q value of the reaction."""
    case.equal(p.particle, t['particle'], what + ': particle')
    is_tab(case, p.yield_, t['yield'], what + ': yield')
    d = t['dist']
    law = d['law']
    case.event('mf6_products')
    is_dist6(case, p, t, what, of)


def is_dist6(case, p, t, what, of):
    d = t['dist']
    law = d['law']
    if law in (0, 4):
        case.equal(len(p.distribution), 0, what + ': no distribution')
        return
    case.equal(len(p.distribution), 1, what + ': one distribution')
    g = p.distribution[0]
    case.event(f'law_{law}')
    if law == 3:
        case.equal([type(g).__name__, g.angle, g.energy], ['UncorrelatedAngleEnergy', None, None], what + ': isotropic two-body')
    elif law == 2:
        is_angle(case, g.angle, d, what + ': two-body angles')
    elif law == 6:
        same(case, [g.total_mass, g.n_particles], [d['apsx'], d['npsx']], what + ': phase space')
        same(case, [g.atomic_weight_ratio, g.q_value], of, what + ': mass and Q value of phase space')
    else:
        same(case, g.energy, d['energy'], what + ': incident energies')
        case.equal([[int(v) for v in g.breakpoints], [int(v) for v in g.interpolation]], [d['nbt'], d['int']], what + ': interpolation')
        if law == 1:
            case.equal(len(g.energy_out), len(d['rows']), what + ': number of spectra')
            for i, m in enumerate(d['rows']):
                same(case, g.energy_out[i].x, m[:, 0], what + ': outgoing energies')
                same(case, g.energy_out[i].p, m[:, 1], what + ': densities')
                case.equal(g.energy_out[i].interpolation, SCHEME[d['lep']], what + ': interpolation')
                if d['lang'] > 10:
                    case.event('tabulated_cosines')
                    case.equal(len(g.mu[i]), len(m), what + ': number of angular distributions')
                    for j in range(len(m)):
                        is_mu(case, g.mu[i][j], ('table', {'x': m[j, 2::2], 'y': m[j, 3::2], 'int': [d['lang'] - 10]}), what + ': tabulated cosines')
                elif d['lang'] == 1:
                    case.equal(len(g.mu[i]), len(m), what + ': number of angular distributions')
                    for j in range(len(m)):
                        case.close_to(np.array(g.mu[i][j].coefficients, float), m[j, 1:], what + ': Legendre coefficients', rtol=1e-12, atol=1e-18)
                else:
                    case.event('kalbach')
                    same(case, g.precompound[i].x, m[:, 0], what + ': energies of the fractions')
                    same(case, g.precompound[i].y, m[:, 2], what + ': precompound fractions')
                    if m.shape[1] > 3:
                        same(case, g.slope[i].y, m[:, 3], what + ': slopes')
                        continue
                    a = np.array(g.slope[i].y, float)     # to be had from the systematics: positive and growing with the outgoing energy
                    if np.all(a == 0.0):
                        if case.prop == ID:            # other checks read such evaluations too
                            case.known.append({'id': 'C28-kalbach-slope', 'what': 'slopes that the file does not give (NA=1) are zero'})
                    else:
                        case.check(len(a) == len(m) and np.all(a >= 0) and np.all(np.diff(a) >= 0), what + ': slopes that the file does not give', got=a)
        else:
            for i, (m, fs) in enumerate(d['dists']):
                same(case, g.mu[i].x, m, what + ': cosines')
                case.equal(len(g.energy_out[i]), len(fs), what + ': number of spectra')
                for a, w in zip(g.energy_out[i], fs):
                    same(case, a.x, w['x'], what + ': outgoing energies')
                    same(case, a.p, w['y'], what + ': densities')


def material(rng, za, awr, fissionable=0, liso=0, mat=9228):
    m = eg.Material(mat=mat, za=za, awr=awr, lfi=fissionable, liso=liso, lis=2 * liso)
    m.text = [' 92-U -235 TEST      EVAL-JUL16 A. Uthor'.ljust(66)] + [''.ljust(66)] * 5
    if rng.random() < 0.6:
        from .. import reson
        m.add(2, 151, reson.section(rng, za, awr, [[eg.cont(rng, 1e-5, 1e5, 0, 0, 0, 0), eg.cont(rng, 0.5, 0.6, 0, 0, 0, 0)]]))
    return m


def load(case, m):
    from ASAPy.data import endf, neutron
    text = eg.tape([m])
    with quiet():
        ev = endf.Evaluation(io.StringIO(text))
        if case.index % 4 == 3:                                                 # by the name of the file
            path = case.path('evaluation.endf')
            with open(path, 'w') as f:
                f.write(text)
            return ev, neutron.IncidentNeutron.from_endf(path)
        return ev, neutron.IncidentNeutron.from_endf(ev)


def head(rng, m, *rest):
    return eg.cont(rng, m.za, m.awr, *rest)


def nuclides(rng):
    return [(92235, 233.0248, 'U235'), (26056, 55.454, 'Fe56'), (8016, 15.8575, 'O16'), (95242, 239.98, 'Am242'), (47110, 108.9, 'Ag110')][int(rng.integers(0, 5))]


# number of emitted neutrons (manual of ENDF-6, appendix B); one for the others
NEUTRONS = {11: 2, 16: 2, 17: 3, 24: 2, 25: 3, 30: 2, 37: 4, 41: 2, 42: 3, 152: 5, 153: 6, 154: 2, 156: 4, 157: 3, 159: 2, 160: 7, 161: 8, 876: 2, 891: 2}
OTHERS = [2, 4, 5, 22, 28, 29, 32, 44, 45, 51, 52, 60, 90, 91, 102, 103, 107, 600, 800, 849]


def frame(case, rx, ev, mt, what):
    """File 6 or else 4 tells the frame; file 5 is always in the laboratory."""
    want = None
    if (6, mt) in ev.section:
        want = int(ev.section[6, mt].split('\n')[0][33:44]) != 1
    elif (4, mt) in ev.section:
        want = int(ev.section[4, mt].split('\n')[1][33:44]) == 2
    elif (5, mt) in ev.section:
        want = False
    if want is not None:
        case.event('frames')
        case.check(rx.center_of_mass is want, what + ': frame of the neutrons', got=rx.center_of_mass, want=want)


def reactions(case):
    rng = case.rng
    za, awr, name = nuclides(rng)
    liso = int(rng.choice([0] * 8 + [1, 2]))
    m = material(rng, za, awr, liso=liso)
    mts = sorted(int(v) for v in rng.choice(OTHERS + list(NEUTRONS), int(rng.integers(1, 6)), replace=False))
    truth = {}
    for mt in mts:
        qm, qi = q(rng.uniform(-8e6, 8e6)), q(rng.uniform(-8e6, 8e6))
        thr = 1e-5 if mt in (2, 102) else q(10 ** rng.uniform(-5, 6.5))
        xs = endfn.tab(rng, lo=thr, ylo=0.0 if rng.random() < 0.3 else 0.001, laws=(1, 2) if rng.random() < 0.3 else (1, 2, 3, 4, 5))
        if min(xs['y']) <= 0:
            xs['int'] = [2] * len(xs['int'])
        t = truth[mt] = {'q': qi, 'xs': xs, 'products': [], 'act': [], 'photons': []}
        m.add(3, mt, [head(rng, m, 0, 0, 0, 0)] + endfn.tab1(rng, qm, qi, 0, 0, xs))
        u = rng.random()
        if mt == 2 or 51 <= mt <= 90 or u < 0.35:
            only4 = mt == 2 or 51 <= mt <= 90
            t['mode'] = '45'
            t['angle'] = t['parts'] = None
            if only4 or rng.random() < 0.7:
                ls, t['angle'] = endfn.mf4(rng, m.za, m.awr, m.emax)
                m.add(4, mt, ls)
            if not only4:
                ls, t['parts'] = endfn.mf5(rng, m.za, m.awr)
                m.add(5, mt, ls)
        elif u < 0.8:
            t['mode'] = '6'
            ls, t['mf6'] = endfn.mf6(rng, m.za, m.awr)
            m.add(6, mt, ls)
        else:
            t['mode'] = 'none'
        if rng.random() < 0.3 and mt not in (2,):                                # activation
            sub = int(rng.integers(0, 2))
            zs = [int(z) for z in rng.choice([za + 1, za, za - 1, za - 1000], 2)]
            states = [(zs[0], int(rng.choice([0, 0, 1])), int(rng.choice([9, 10, 3]))), (zs[1], int(rng.integers(2, 4)), int(rng.choice([9, 10, 3])))][:int(rng.integers(1, 3))]
            l8 = [eg.cont(rng, m.za, m.awr, 0, 0, len(states), sub)]
            for z, lfs, mf in states:
                if sub:
                    l8.append(eg.cont(rng, float(z), 0.0, mf, lfs, 0, 0))
                else:
                    nd = int(rng.integers(0, 3))
                    l8 += eg.list_record(rng, float(z), 0.0, mf, lfs, 0, [q(v) for v in rng.uniform(0, 100, 6 * nd)])
            m.add(8, mt, l8)
            for mf in (9, 10):
                own = [(z, lfs) for z, lfs, f in states if f == mf]
                if not own:
                    continue
                ls = [eg.cont(rng, m.za, m.awr, 0, 0, len(own), 0)]
                for z, lfs in own:
                    y = endfn.tab(rng, lo=thr, laws=(2,), regions=False)
                    ls += endfn.tab1(rng, qm, qi, z, lfs, y)
                    t['act'].append((mf, z, lfs, y))
                m.add(mf, mt, ls)
                if mf == 10:
                    xs['int'] = [2] * len(xs['int'])
                    m.add(3, mt, [head(rng, m, 0, 0, 0, 0)] + endfn.tab1(rng, qm, qi, 0, 0, xs))
        if rng.random() < 0.3:                                                  # photons
            mf = int(rng.choice([12, 13]))
            nk = int(rng.choice([1, 2, 4]))
            if mf == 12 and rng.random() < 0.2:                                 # transition arrays are no products
                lg, ns = int(rng.integers(1, 3)), int(rng.integers(1, 5))
                v = []
                for e in np.sort(rng.uniform(0, 1e6, ns))[::-1]:
                    v += [q(e)] + [q(x) for x in rng.uniform(0, 1, lg)]
                m.add(12, mt, [eg.cont(rng, m.za, m.awr, 2, lg, ns, 0)] + eg.list_record(rng, 1e6, 0.0, 0, 0, ns, v))
                t['transitions'] = True
                continue
            ls = [eg.cont(rng, m.za, m.awr, 1 if mf == 12 else 0, 0, nk, 0)]
            if nk > 1:
                ls += endfn.tab1(rng, 0, 0, 0, 0, endfn.tab(rng, laws=(2,)))
            if mf == 13:
                xs['int'] = [2] * len(xs['int'])
                m.add(3, mt, [head(rng, m, 0, 0, 0, 0)] + endfn.tab1(rng, qm, qi, 0, 0, xs))
            for _ in range(nk):
                lf, lp = int(rng.choice([1, 2])), int(rng.integers(0, 3))
                ge, se = q(rng.uniform(1e4, 8e6)), q(rng.uniform(1e4, 8e6))
                y = endfn.tab(rng, laws=(2,), regions=False)
                ls += endfn.tab1(rng, ge if lf == 2 else 0.0, se if lf == 2 else 0.0, lp if lf == 2 else 0, lf, y)
                t['photons'].append((mf, lf, lp, ge, y))
            m.add(mf, mt, ls)
    case.input(mts=mts, za=za, modes={mt: t['mode'] for mt, t in truth.items()})
    ev, d = load(case, m)
    case.sig('reactions', sorted(m.sections), str(list(m.sections.values()))[:2000])
    case.equal(d.name, name + (f'_m{liso}' if liso else ''), 'name of the nuclide')
    case.event('metastable', liso)
    case.equal([d.atomic_number, d.mass_number, d.metastable], [za // 1000, za % 1000, liso], 'nuclide')
    same(case, d.atomic_weight_ratio, awr, 'mass')
    case.equal(sorted(d.reactions), mts, 'reactions')
    for mt, t in truth.items():
        rx = d[mt]
        what = f'MT {mt}'
        case.event('reactions')
        same(case, rx.q_value, t['q'], what + ': Q value')
        is_tab(case, rx.xs['0K'], t['xs'], what + ': cross-section')
        frame(case, rx, ev, mt, what)
        left = list(rx.products)
        acts = {}
        for mf, z, lfs, y in t['act']:
            from ASAPy.data.data import ATOMIC_SYMBOL
            nm = f'{ATOMIC_SYMBOL[z // 1000]}{z % 1000}' + (f'_e{lfs}' if lfs else '')
            acts[nm] = (mf, y)
        if t['mode'] == '6':
            for w in t['mf6']:
                p = left.pop(0)
                if w['particle'] in acts:          # files 9 and 10 give the yield of a product of file 6; the first one with that name
                    act = acts.pop(w['particle'])
                    check_act(case, p, act, t, what)
                    w = dict(w, **{'yield': {'x': p.yield_.x, 'y': p.yield_.y, 'nbt': [int(v) for v in p.yield_.breakpoints], 'int': [int(v) for v in p.yield_.interpolation]}})
                is_product6(case, p, w, what, [awr, t['q']])
        elif t['mode'] == '45':
            p = left.pop(0)
            case.equal([p.particle, p.emission_mode], ['neutron', 'prompt'], what + ': emitted particle')
            case.event('neutrons', NEUTRONS.get(mt, 1) > 1)
            case.check(all(float(p.yield_(e)) == NEUTRONS.get(mt, 1) for e in (1e-5, 1.0, 2e7)), what + ': number of neutrons', got=str(p.yield_), want=NEUTRONS.get(mt, 1))
            if t['parts'] is not None:
                case.equal([len(p.distribution), len(p.applicability)], [len(t['parts'])] * 2, what + ': number of distributions')
                for g, a, (pr, e) in zip(p.distribution, p.applicability, t['parts']):
                    case.event('mf5_parts')
                    is_tab(case, a, pr, what + ': probability of the law')
                    is_energy(case, g.energy, e, what)
            else:
                case.equal(len(p.distribution), 1, what + ': number of distributions')
                if mt == 2:
                    case.check(p.distribution[0].energy is None, what + ': elastic scattering needs no spectrum')
                else:
                    lev = p.distribution[0].energy
                    case.event('levels')
                    same(case, [lev.threshold, lev.mass_ratio], [(awr + 1) / awr * abs(t['q']), (awr / (awr + 1)) ** 2], what + ': level kinematics')
            if t['angle'] is not None:
                case.event('mf4')
                for g in p.distribution:
                    is_angle(case, g.angle, t['angle'], what + ': angles')
        for nm, act in acts.items():
            case.check(left and left[0].particle == nm, what + ': activation product', got=[x.particle for x in left], want=nm)
            check_act(case, left.pop(0), act, t, what)
        for mf, lf, lp, ge, y in t['photons']:
            case.check(bool(left) and left[0].particle == 'photon', what + ': photon', got=[x.particle for x in left])
            p = left.pop(0)
            case.event('photons')
            if mf == 12:
                is_tab(case, p.yield_, y, what + ': photon yield')
            else:
                ratio(case, p.yield_, y, t['xs'], what + ': photon yield')
            g = p.distribution[0].energy
            if lf == 2:
                case.event('photon_lines')
                same(case, [g.energy, g.primary_flag, g.atomic_weight_ratio], [ge, lp, awr], what + ': photon line')
            else:
                case.check(g is None, what + ': continuous photons have no line')
        if t.get('transitions'):
            case.event('transitions')
            left = [p for p in left if p.particle != 'photon']
        case.equal(len(left), 0, what + ': further products')
    if case.index < 2:
        case.sample(mts=mts, sections=len(m.sections))


def ratio(case, y, num, den, what):
    e = np.union1d(num['x'], den['x'])
    same(case, y.x, e, what + ' (points)')
    n = np.where((e >= num['x'][0]) & (e <= num['x'][-1]), np.interp(e, num['x'], num['y']), 0.0)
    d = np.where((e >= den['x'][0]) & (e <= den['x'][-1]), np.interp(e, den['x'], den['y']), 0.0)
    w = np.where(d > 0, n / np.where(d > 0, d, 1), 0.0)
    case.close_to(np.array(y.y, float), w, what + ' (ratio of cross-sections)', rtol=1e-9, atol=1e-12)


def check_act(case, p, act, t, what):
    mf, y = act
    case.event('activation')
    if mf == 9:
        is_tab(case, p.yield_, y, what + ': yield of an activation product')
    else:
        ratio(case, p.yield_, y, t['xs'], what + ': yield of an activation product')


def nu_section(rng, m, mt, kind, lo, hi, terms=None):
    if kind == 'poly':
        c = [q(rng.uniform(lo, hi))] + [q(rng.uniform(0.1, 1) * 10.0 ** (-7 * k)) for k in range(1, int(terms or rng.integers(1, 4)))]
        m.add(1, mt, [head(rng, m, 0, 1, 0, 0)] + eg.list_record(rng, 0, 0, 0, 0, 0, c))
        return ('poly', c)
    t = endfn.tab(rng, ylo=lo, yhi=hi, laws=(2,), regions=False)
    m.add(1, mt, [head(rng, m, 0, 2, 0, 0)] + endfn.tab1(rng, 0, 0, 0, 0, t))
    return ('tab', t)


def at(nu, e):
    e = np.asarray(e, float)
    if nu[0] == 'poly':
        return sum(c * e ** k for k, c in enumerate(nu[1]))
    return np.interp(e, nu[1]['x'], nu[1]['y'])


def fission(case):
    rng = case.rng
    m = material(rng, 92235, 233.0248, 1, liso=int(rng.random() < 0.3))
    partial = rng.random() < 0.5
    mts = [18]
    if partial:
        mts = sorted([18] + [int(v) for v in rng.choice([19, 20, 21, 38], int(rng.integers(1, 4)), replace=False)])
        if rng.random() < 0.2:
            mts = [19] + [v for v in mts if v > 19]                             # no total fission
    truth = {}
    kinds = {k: str(rng.choice(['poly', 'tab'])) for k in (452, 455, 456)}
    prompt = rng.random() < 0.7
    delayed = rng.random() < 0.8
    total = nu_section(rng, m, 452, kinds[452], 2, 3)
    pr = nu_section(rng, m, 456, kinds[456], 2, 3) if prompt else None
    groups = []
    if delayed:
        ng = int(rng.choice([6, 6, 1, 2, 4, 5, 7, 8]))
        lam = [q(v) for v in np.sort(10 ** rng.uniform(-2, 1, ng))]
        lnu = kinds[455]
        terms = 1 if rng.random() < 0.5 else 3
        const = lnu == 'poly' and terms > 1 or rng.random() < 0.5
        body = [eg.cont(rng, m.za, m.awr, 0, 1 if lnu == 'poly' else 2, 0, 0)] + eg.list_record(rng, 0, 0, 0, 0, 0, lam)
        if lnu == 'poly':
            c = [q(rng.uniform(0.01, 0.02))] + [q(rng.uniform(0.001, 0.01) * 10.0 ** (-7 * k)) for k in range(1, terms)]
            body += eg.list_record(rng, 0, 0, 0, 0, 0, c)
            yd = ('poly', c)
        else:
            t = endfn.tab(rng, ylo=0.01, yhi=0.02, laws=(2,), regions=False)
            body += endfn.tab1(rng, 0, 0, 0, 0, t)
            yd = ('tab', t)
        m.add(1, 455, body)
        case.event('polynomial_delayed', int(lnu == 'poly'))
        case.event('not_six_groups', int(ng != 6))
        have5 = rng.random() < 0.85
        fr = []
        if have5:
            for _ in range(ng):
                p = endfn.tab(rng, ylo=0.01, yhi=0.3, laws=(2,), regions=False, hi=2e7 if rng.random() < 0.7 else float(rng.choice([3e7, 1.5e7])))
                if const:
                    p['y'][:] = p['y'][0]
                fr.append(p)
            ls, sp = endfn.mf5(rng, m.za, m.awr, laws=[int(v) for v in rng.choice([1, 5, 7, 9, 11, 12], ng)], fractions=fr)
            m.add(5, 455, ls)
        groups = [(lam[i], yd, fr[i] if have5 else None, sp[i][1] if have5 else None) for i in range(ng)]
    own5, own4, own6, others = {}, {}, {}, {}
    for mt in mts:
        xs = endfn.tab(rng, laws=(2,))
        qi = q(rng.uniform(1.8e8, 2e8))
        m.add(3, mt, [head(rng, m, 0, 0, 0, 0)] + endfn.tab1(rng, qi, qi, 0, 0, xs))
        truth[mt] = (qi, xs)
        others[mt] = []
        u = rng.random()
        if (mt == 18 or 18 not in mts or u < 0.5) and rng.random() < 0.8:
            ls, own5[mt] = endfn.mf5(rng, m.za, m.awr)
            m.add(5, mt, ls)
        elif mt == 18 or 18 not in mts or u < 0.7:
            n = int(rng.integers(1, 4))
            pos = int(rng.integers(0, n))
            ls, w6 = endfn.mf6(rng, m.za, m.awr, n=n, neutron=pos)
            m.add(6, mt, ls)
            own6[mt] = w6.pop(pos)
            others[mt] = w6
        if mt not in own6 and rng.random() < 0.5:
            ls, own4[mt] = endfn.mf4(rng, m.za, m.awr, m.emax)
            m.add(4, mt, ls)
    # energy release
    fer = None
    if rng.random() < 0.7:
        fer = energy_release(case, rng, m, pr or total)
    case.input(mts=mts, prompt=prompt, delayed=len(groups), kinds=kinds, fer=None if fer is None else fer['kind'])
    ev, d = load(case, m)
    case.sig('fission', sorted(m.sections), str(list(m.sections.values()))[:2000])
    es = 10 ** rng.uniform(-4, 7, 8)
    for mt in mts:
        rx = d[mt]
        what = f'MT {mt}'
        case.event('fission')
        case.event('partial_fission', int(mt != 18))
        same(case, rx.q_value, truth[mt][0], what + ': Q value')
        is_tab(case, rx.xs['0K'], truth[mt][1], what + ': cross-section')
        case.equal([p.emission_mode for p in rx.products], ['prompt' if prompt else 'total'] + ['delayed'] * len(groups) + ['prompt'] * len(others[mt]), what + ': fission neutrons')
        case.equal([p.particle for p in rx.products], ['neutron'] * (1 + len(groups)) + [w['particle'] for w in others[mt]], what + ': fission neutrons')
        for p, w in zip(rx.products[1 + len(groups):], others[mt]):
            is_product6(case, p, w, what + ': another product', [m.awr, truth[mt][0]])
        case.close_to(np.array([float(rx.products[0].yield_(e)) for e in es]), at(pr if prompt else total, es), what + ': nu', rtol=1e-9)
        case.equal([p.emission_mode for p in rx.derived_products], ['total'] if prompt else [], what + ': derived neutrons')
        if prompt:
            case.close_to(np.array([float(rx.derived_products[0].yield_(e)) for e in es]), at(total, es), what + ': total nu', rtol=1e-9)
        src = mt if mt in own5 or mt in own6 else 18
        frame(case, rx, ev, src, what)
        p0 = rx.products[0]
        case.event('spectra_of_' + ('itself' if src == mt else 'fission'))
        if src in own6:
            case.event('fission_mf6')
            is_dist6(case, p0, own6[src], what + ': fission neutrons', [m.awr, truth[src][0]])
        else:
            own = own5[src]
            case.equal([len(p0.distribution), len(p0.applicability)], [len(own)] * 2, what + ': number of spectra')
            for g, a, (prob, e) in zip(p0.distribution, p0.applicability, own):
                is_tab(case, a, prob, what + ': probability of the law')
                is_energy(case, g.energy, e, what + ': prompt spectrum')
                if mt in own4 and src == mt:
                    case.event('fission_angles')
                    is_angle(case, g.angle, own4[mt], what + ': angles')
        for p, (lam_i, yd, frac, spec) in zip(rx.products[1:], groups):
            same(case, p.decay_rate, lam_i, what + ': decay constant')
            if frac is None:
                case.close_to(np.array([float(p.yield_(e)) for e in es]), at(yd, es), what + ': delayed yield', rtol=1e-9)
                continue
            grid = frac['x'] if yd[0] == 'poly' else np.union1d(frac['x'], yd[1]['x'])
            pts = grid[grid > 0]
            hi = min(frac['x'][-1], yd[1]['x'][-1]) if yd[0] == 'tab' else frac['x'][-1]
            pts = pts[pts <= hi]
            if np.all(frac['y'] == frac['y'][0]):
                pts = np.concatenate([pts, es[es < hi]])
            elif yd[0] == 'tab':
                case.check(p.yield_.x[-1] == hi and len(p.yield_.x) == len(pts), what + ': energies of the yield of a delayed group', got=p.yield_.x, want=pts)
            want = at(yd, pts) * np.interp(pts, frac['x'], frac['y'])
            case.close_to(np.array([float(p.yield_(e)) for e in pts]), want, what + ': yield of a delayed group', rtol=1e-8)
            case.equal(len(p.distribution), 1, what + ': spectrum of a delayed group')
            is_energy(case, p.distribution[0].energy, spec, what + ': delayed spectrum')
    refused(case, ev, d, fer)
    if fer is None:
        case.check(d.fission_energy is None, 'energy release without file 1/458')
        return
    f = d.fission_energy
    case.event('energy_release')
    names = ['fragments', 'prompt_neutrons', 'delayed_neutrons', 'prompt_photons', 'delayed_photons', 'betas', 'neutrinos']
    val = {}
    tabs = [t['x'] for t in fer['tabs'].values()]
    sb_tab = fer['kind'] == 'sher-beck' and (pr or total)[0] == 'tab'
    if sb_tab:
        tabs.append((pr or total)[1]['x'])
    pts = np.unique(np.concatenate(tabs)) if tabs else es
    for n in names:
        val[n] = fer['value'](n, pts)
        if n == 'prompt_neutrons' and sb_tab and n not in fer['tabs']:
            x = (pr or total)[1]['x']
            val[n] = np.interp(pts, x, fer['value'](n, x))
        got = np.array([float(getattr(f, n)(e)) for e in pts])
        case.close_to(got, val[n], f'energy release: {n}', rtol=1e-9, atol=1e-3)
    sums = {'total': names, 'recoverable': names[:-1]}
    tot = {k: sum(val[n] for n in v) for k, v in sums.items()}
    tot['q_total'] = tot['total'] - pts
    tot['q_recoverable'] = tot['recoverable'] - pts
    tot['q_prompt'] = val['fragments'] + val['prompt_neutrons'] + val['prompt_photons'] - pts
    parts = dict(sums, q_total=names, q_recoverable=names[:-1], q_prompt=['fragments', 'prompt_neutrons', 'prompt_photons'])
    for k, w in tot.items():
        own = [t['x'] for n, t in fer['tabs'].items() if n in parts[k]] + ([(pr or total)[1]['x']] if sb_tab and 'prompt_neutrons' in parts[k] and 'prompt_neutrons' not in fer['tabs'] else [])
        at_ = np.isin(pts, np.concatenate(own)) if own else np.ones(len(pts), bool)          # between its points a sum with tables is linear
        w = w[at_]
        case.close_to(np.array([float(getattr(f, k)(e)) for e in pts[at_]]), w, f'energy release: {k}', rtol=1e-9, atol=1e-2)


def refused(case, ev, d, fer):
    """Energy release of another nuclide, isomer, or where there is none."""
    from ASAPy.data import neutron, fission_energy
    rng = case.rng
    wrong = str(rng.choice(['z', 'a', 'm', 'm', 'none']))
    other = neutron.IncidentNeutron('U235', 92 + (wrong == 'z'), 235 + int(rng.choice([-1, 1])) * (wrong == 'a'), d.metastable, 233.0, 0.0)
    if wrong == 'm':
        other.metastable = int(rng.choice([v for v in (0, 1, 2) if v != d.metastable]))
    other.reactions = d.reactions
    if wrong == 'none' and fer is not None:
        return
    case.event('energy_release_refused')
    with quiet():
        case.raises(lambda: fission_energy.FissionEnergyRelease.from_endf(ev, other), f'energy release of another nuclide or none at all ({wrong})')


def energy_release(case, rng, m, nu):
    kind = str(rng.choice(['sher-beck', 'poly1', 'poly2', 'poly3']))
    n = {'sher-beck': 0, 'poly1': 1, 'poly2': 2, 'poly3': 3}[kind]
    names = ['fragments', 'prompt_neutrons', 'delayed_neutrons', 'prompt_photons', 'delayed_photons', 'betas', 'neutrinos', 'recoverable', 'total']
    coef = {k: [q(rng.uniform(1e6, 1.7e8))] + [q(rng.uniform(-1, 1) * 10.0 ** (-7 * (j - 1))) for j in range(1, n + 1)] for k in names}
    wrong = kind == 'poly2' and rng.random() < 0.7
    if wrong:
        coef[str(rng.choice(names[:7]))][2] = q(rng.choice([-1, 1]) * float(rng.choice([rng.uniform(1e-2, 1e-1), 4.1e-6, 3.9e-6])))
    vals = []
    for j in range(n + 1):
        for k in names:
            vals += [coef[k][j], q(rng.uniform(0, 1e5))]
    tabs = {}
    which = [int(v) for v in rng.choice(np.arange(1, 8), int(rng.integers(1, 4)), replace=False)] if rng.random() < 0.35 else []
    out = [eg.cont(rng, m.za, m.awr, 0, int(bool(which)), 0, len(which))] + eg.list_record(rng, 0, 0, 0, n, 9 * (n + 1), vals)
    common = endfn.tab(rng, n=5, laws=(2,), regions=False)['x']
    for i in which:
        t = endfn.tab(rng, x=common if i % 2 else endfn.grid(rng, 4), ylo=1e6, yhi=1.7e8, laws=(2,), regions=False)
        out += endfn.tab1(rng, 0, 0, 2, i, t)
        tabs[names[i - 1]] = t
    m.add(1, 458, out)
    case.event('sher_beck', int(kind == 'sher-beck'))

    def value(k, e):
        e = np.asarray(e, float)
        if k in tabs:
            return np.interp(e, tabs[k]['x'], tabs[k]['y'])
        c = list(coef[k])
        if n:
            if n == 2 and abs(c[2]) * 2.5e13 > 1e8:
                c[2] /= 1e6
            return sum(a * e ** j for j, a in enumerate(c))
        if k in ('delayed_photons', 'betas'):
            return c[0] - 0.075 * e
        if k == 'neutrinos':
            return c[0] - 0.105 * e
        if k == 'prompt_neutrons':
            first = at(nu, nu[1]['x'][0]) if nu[0] == 'tab' else nu[1][0]
            return c[0] + 1.307 * e - 8.07e6 * (at(nu, e) - first)
        return np.full(e.shape, c[0])
    return {'kind': kind, 'tabs': tabs, 'value': value}


def unheld(case):
    """What the data classes cannot hold is refused and not read as something else."""
    rng = case.rng
    za, awr, name = nuclides(rng)
    m = material(rng, za, awr)
    what = ['table', 'mixed', 'groups', 'product'][case.index % 4]
    good = bool(rng.random() < 0.3)
    if what in ('table', 'mixed'):
        mt = int(rng.choice([2, 51, 90]))
        xs = endfn.tab(rng, ylo=0.1)
        m.add(3, mt, [head(rng, m, 0, 0, 0, 0)] + endfn.tab1(rng, 0.0, 0.0, 0, 0, xs))
        es = endfn.energies(rng, n=int(rng.integers(3, 8)))
        cut = 0 if what == 'table' else int(rng.integers(1, len(es)))
        ls = [eg.cont(rng, m.za, m.awr, 0, 2 if what == 'table' else 3, 0, 0), eg.cont(rng, 0.0, awr, 0, int(rng.integers(1, 3)), 0, 0)]
        if cut:
            ls += eg.tab2_record(rng, 0, 0, 0, 0, [cut], [2], cut)
            for e in es[:cut]:
                ls += eg.list_record(rng, 0.0, e, 0, 0, 0, endfn.legendre(rng))
        n = len(es) - cut
        bad = None if good else int(rng.integers(0, n))
        ls += eg.tab2_record(rng, 0, 0, 0, 0, [n], [2], n)
        for i, e in enumerate(es[cut:]):
            x = [-1.0, -0.5, 0.0, q(rng.uniform(0.1, 0.9)), 1.0]
            k = int(rng.integers(2, 5))
            ls += eg.tab1_record(rng, 0.0, e, 0, 0, [k, 5] if i == bad else [5], [2, int(rng.choice([1, 2, 4]))] if i == bad else [2], x, [q(v) for v in rng.uniform(0.1, 1, 5)])
        m.add(4, mt, ls)
    else:
        mt = 18
        xs = endfn.tab(rng, laws=(2,))
        m.add(3, 18, [head(rng, m, 0, 0, 0, 0)] + endfn.tab1(rng, 1.9e8, 1.9e8, 0, 0, xs))
        nu_section(rng, m, 452, 'tab', 2, 3)
        ng = int(rng.integers(1, 7))
        lam = [q(v) for v in np.sort(10 ** rng.uniform(-2, 1, ng))]
        if what == 'groups':
            # constants that depend on energy
            ls = [eg.cont(rng, m.za, m.awr, 0 if good else 1, 2, 0, 0)]
            if good:
                ls += eg.list_record(rng, 0, 0, 0, 0, 0, lam)
            else:
                ls += eg.tab2_record(rng, 0, 0, 0, 0, [2], [2], 2)
                for e in (1e-5, 2e7):
                    ls += eg.list_record(rng, 0, e, 0, 0, 0, [v for a in lam for v in (a, 1 / ng)])
            ls += endfn.tab1(rng, 0, 0, 0, 0, endfn.tab(rng, ylo=0.01, yhi=0.02, laws=(2,), regions=False))
            m.add(1, 455, ls)
        else:
            # a polynomial times a table has no form
            m.add(1, 455, [eg.cont(rng, m.za, m.awr, 0, 1, 0, 0)] + eg.list_record(rng, 0, 0, 0, 0, 0, lam) + eg.list_record(rng, 0, 0, 0, 0, 0, [0.01, 1e-10] + [1e-18] * int(rng.integers(0, 2))))
            fr = [endfn.tab(rng, ylo=0.01, yhi=0.3, laws=(2,), regions=False) for _ in range(ng)]
            bad = None if good else int(rng.integers(0, ng))
            for i, f in enumerate(fr):
                f['y'][:] = f['y'][0]
                if i == bad:
                    f['y'][int(rng.integers(0, len(f['y'])))] += 0.25
            m.add(5, 455, endfn.mf5(rng, m.za, m.awr, laws=[int(v) for v in rng.choice([1, 5, 7], ng)], fractions=fr)[0])
    case.input(what=what, good=good)
    case.sig(what, good, str(list(m.sections.values()))[:2000])
    if good:
        case.check(mt in load(case, m)[1], 'the reaction is not there')
        case.event('not_refused')
    else:
        try:
            load(case, m)
        except NotImplementedError:
            case.event('unheld_refused')
        else:
            case.check(False, 'data that cannot be held were read as something else', what=what)


WORKLOADS = [Workload('unheld', unheld, 60, 800), Workload('reactions', reactions, 240, 4000), Workload('fission', fission, 300, 4000)]
