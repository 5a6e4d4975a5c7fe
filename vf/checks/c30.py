"""C30: decay data and fission product yields are those of the evaluation."""
import io
import math

import numpy as np

from ..core import Workload, quiet
from .. import endfgen as eg

ID = 'C30'
RULE = ('decay evaluations (MF8/MT457) written by an independent writer: stable and unstable nuclides, ground and metastable states, known and unknown spins, 3 or 17 average energies, 0-6 decay modes made '
        'of up to four steps, all radiation types with discrete lines (6, 8 or 12 numbers), continuous spectra with or without covariances, or both; fission yields (MT454, MT459) at 1-4 energies '
        'with 1-80 products and metastable products; everything against the numbers printed in the file; non-trivial = at least one mode or two products; distinct by the text of the file')
EXPECT = {'decays': 120, 'stable': 10, 'metastable_parent': 15, 'modes': 200, 'chains': 50, 'daughter_states': 30, 'unknown_mode': 5, 'unknown_spin': 10, 'all_averages': 30, 'lines': 500, 'conversion': 25, 'shells': 10,
          'positron': 20, 'continuous': 60, 'both': 15, 'covariance': 12, 'yields': 40, 'products': 1200, 'metastable_products': 150, 'open_file': 30, 'constants': 80, 'by_hand': 40, 'other_energies': 1}

STEP = {1: ('beta-', 0, 1), 2: ('ec/beta+', 0, -1), 3: ('IT', 0, 0), 4: ('alpha', -4, -2), 5: ('n', -1, 0), 7: ('p', -1, -1)}
RAD = {0: 'gamma', 1: 'beta-', 2: 'ec/beta+', 4: 'alpha', 5: 'n', 6: 'sf', 7: 'p', 8: 'e-', 9: 'xray', 10: 'anti-neutrino', 11: 'neutrino'}
TYPE = [None, 'allowed', 'first-forbidden', 'second-forbidden', 'third-forbidden', 'fourth-forbidden', 'fifth-forbidden']
SYM = {1: 'H', 2: 'He', 3: 'Li', 4: 'Be', 11: 'Na', 25: 'Mn', 26: 'Fe', 27: 'Co', 28: 'Ni', 36: 'Kr', 37: 'Rb', 38: 'Sr', 39: 'Y', 52: 'Te', 53: 'I', 54: 'Xe', 55: 'Cs', 56: 'Ba', 61: 'Pm', 62: 'Sm', 84: 'Po', 85: 'At',
       86: 'Rn', 87: 'Fr', 88: 'Ra', 89: 'Ac', 90: 'Th', 91: 'Pa', 92: 'U', 93: 'Np', 94: 'Pu', 95: 'Am', 96: 'Cm', 97: 'Bk'}
AVG = ['light', 'electromagnetic', 'heavy', 'beta-', 'beta+', 'auger', 'conversion', 'gamma', 'xray', 'Bremsstrahlung', 'annihilation', 'alpha', 'recoil', 'SF', 'neutron', 'proton', 'neutrino']


def q(v):
    return float(f'{float(v):.4e}')


def pair(rng, lo=-3, hi=6, zero=0.1):
    v = 0.0 if rng.random() < zero else q(10 ** rng.uniform(lo, hi))
    return [v, 0.0 if rng.random() < 0.2 else q(10 ** rng.uniform(lo - 2, hi - 1))]


def modes_value(rng):
    """RTYP with its steps."""
    if rng.random() < 0.08:
        return 6.0, ['sf'], None
    if rng.random() < 0.06:
        return 10.0, ['unknown'], None
    n = int(rng.choice([1, 1, 1, 2, 2, 3, 4, 5, 6]))
    s = [int(v) for v in rng.choice(list(STEP), n)]
    if n > 1 and rng.random() < 0.15:                       # fission after another decay
        s = s[:-1] + [6]
        return float(f'{s[0]}.' + ''.join(str(v) for v in s[1:])), [STEP[v][0] for v in s[:-1]] + ['sf'], None
    return float(f'{s[0]}.' + (''.join(str(v) for v in s[1:]) or '0')), [STEP[v][0] for v in s], (sum(STEP[v][1] for v in s), sum(STEP[v][2] for v in s))


def uf(case, u, p, what):
    case.close_to([float(u.nominal_value), float(u.std_dev)], p, what, rtol=1e-12, atol=1e-300)


def read(case, cls, text):
    """From a file, an open evaluation or by the constructor."""
    from ASAPy.data import endf
    rng = case.rng
    p = case.path('t.endf')
    with open(p, 'w') as f:
        f.write(text)
    k = int(rng.integers(4))
    with quiet():
        if k == 0:
            return cls(p)
        if k == 1:
            return cls.from_endf(p)
        case.event('open_file')
        ev = endf.Evaluation(p if k == 2 else io.StringIO(text))
        return cls.from_endf(ev) if rng.random() < 0.5 else cls(ev)


def decay(case):
    from ASAPy.data import decay as mod
    rng = case.rng
    Z = int(rng.choice([26, 27, 53, 54, 55, 88, 92, 93, 94, 4]))
    A = int(rng.integers(2 * Z, 2 * Z + 60)) + 10
    liso = int(rng.choice([0, 0, 0, 1, 2]))
    lis = liso + int(rng.integers(0, 3)) if liso else 0
    za, awr = 1000 * Z + A, q(A * 0.9915)
    stable = rng.random() < 0.15
    m = eg.Material(mat=int(rng.integers(1, 9999)), za=za, awr=awr, liso=liso, lis=lis, nsub=4)
    spin = -77.777 if rng.random() < 0.2 and not stable else float(rng.choice([0, 0.5, 1, 2.5, 7]))
    par = float(rng.choice([-1, 1, 0]))
    t = {'modes': [], 'spectra': []}
    if stable:
        out = [eg.cont(rng, za, awr, lis, liso, 1, 0)] + eg.list_record(rng, 0.0, 0.0, 0, 0, 0, [0.0] * 6) + eg.list_record(rng, spin, par, 0, 0, 0, [0.0] * 6)
        case.event('stable')
    else:
        half = [q(10 ** rng.uniform(-6, 17)), 0.0]
        half[1] = q(half[0] * 10 ** rng.uniform(-5, 0.5)) if rng.random() < 0.9 else 0.0
        nc = int(rng.choice([3, 17]))
        avg = [pair(rng) for _ in range(nc)]
        t.update(half=half, avg=avg)
        for _ in range(int(rng.integers(0, 7))):
            rtyp, names, delta = modes_value(rng)
            t['modes'].append({'rtyp': rtyp, 'names': names, 'delta': delta, 'rfs': int(rng.choice([0, 0, 0, 1, 2])), 'q': pair(rng, 2, 7), 'br': [q(rng.uniform(0, 1)), q(rng.uniform(0, 0.1))]})
        styps = [int(v) for v in rng.choice(list(RAD), int(rng.integers(0, 6)), replace=False)]
        out = [eg.cont(rng, za, awr, lis, liso, 0, len(styps))] + eg.list_record(rng, half[0], half[1], 0, 0, 0, [v for p in avg for v in p])
        mv = [v for d in t['modes'] for v in [d['rtyp'], float(d['rfs'])] + d['q'] + d['br']]
        if mv:
            out += eg.list_record(rng, spin, par, 0, 0, len(t['modes']), mv)
        else:
            out.append(eg.cont(rng, spin, par, 0, 0, 0, 0))
        for st in styps:
            lcon = int(rng.integers(0, 3))
            nl = int(rng.integers(1, 9)) if lcon != 1 else 0
            s = {'type': RAD[st], 'lcon': lcon, 'norm': [pair(rng, -2, 1), pair(rng), pair(rng, -2, 1)], 'lines': []}
            out += eg.list_record(rng, 0.0, float(st), lcon, 0, nl, [v for p in s['norm'] for v in p])
            for _ in range(nl):
                rtyp, names, _d = modes_value(rng)
                nt = int(rng.choice([6, 8, 12])) if st == 0 else 6
                ty = int(rng.integers(0, 7))
                e, ri = pair(rng, 1, 6.5, 0), pair(rng, -4, 2)
                rest = [pair(rng, -4, 0) for _ in range((nt - 4) // 2)]
                s['lines'].append((e, names, TYPE[ty], ri, rest))
                out += eg.list_record(rng, e[0], e[1], 0, 0, 0, [rtyp, float(ty)] + ri + [v for p in rest for v in p])
            if lcon != 0:
                rtyp, names, _d = modes_value(rng)
                n = int(rng.integers(2, 20))
                x = np.unique([q(v) for v in np.concatenate([[0.0], 10 ** rng.uniform(2, 6.5, n)])])
                y = np.array([q(v) for v in rng.uniform(0, 1e-5, len(x))])
                law = int(rng.choice([1, 2]))
                lcov = int(rng.random() < 0.4)
                s['cont'] = (names, x, y, law, None)
                out += eg.tab1_record(rng, rtyp, 0.0, 0, lcov, [len(x)], [law], x, y)
                if lcov:
                    k = int(rng.integers(2, 8))
                    c = [(q(a), q(b)) for a, b in zip(np.sort(10 ** rng.uniform(2, 6, k)), rng.uniform(0, 0.5, k))]
                    s['cont'] = (names, x, y, law, c)
                    out += eg.list_record(rng, 0.0, 0.0, 0, 2, k, [v for p in c for v in p])
            t['spectra'].append(s)
    m.add(8, 457, out)
    text = eg.tape([m])
    case.input(text=text)
    case.sig(text)
    d = read(case, mod.Decay, text)
    case.event('decays')
    name = f'{SYM[Z]}{A}' + (f'_m{liso}' if liso else '')
    case.event('metastable_parent', int(liso > 0))
    n = d.nuclide
    case.equal([n['name'], int(n['atomic_number']), int(n['mass_number']), int(n['isomeric_state']), int(n['excited_state']), bool(n['stable'])], [name, Z, A, liso, lis, stable], 'the nuclide')
    case.close_to(float(n['mass']), awr, 'mass', rtol=1e-12)
    case.check((n['spin'] is None) if spin == -77.777 else n['spin'] == spin, 'spin', got=n['spin'], want=spin)
    case.event('unknown_spin', int(spin == -77.777))
    case.equal(float(n['parity']), par, 'parity')
    case.equal(len(d.modes), len(t['modes']), 'number of decay modes')
    case.equal(sorted(d.spectra), sorted(s['type'] for s in t['spectra']), 'types of radiation')
    if stable:
        case.check(float(d.half_life.nominal_value) == float('inf'), 'a stable nuclide decays')
        case.equal(float(d.decay_constant.nominal_value), 0.0, 'decay constant of a stable nuclide')
        return
    uf(case, d.half_life, half, 'half-life')
    uf(case, d.decay_constant, [math.log(2) / half[0], math.log(2) / half[0] ** 2 * half[1]], 'decay constant')
    case.event('constants')
    case.equal(sorted(d.average_energies), sorted(AVG[:nc]), 'kinds of average energies')
    case.event('all_averages', int(nc == 17))
    for k, p in zip(AVG, avg):
        uf(case, d.average_energies[k], p, f'average energy {k}')
    for g, w in zip(d.modes, t['modes']):
        case.equal(list(g.modes), w['names'], 'steps of a decay mode')
        case.equal(g.parent, name, 'parent')
        uf(case, g.energy, w['q'], 'decay energy')
        uf(case, g.branching_ratio, w['br'], 'branching ratio')
        if w['delta'] is not None and Z + w['delta'][1] in SYM:
            case.equal(g.daughter, f'{SYM[Z + w["delta"][1]]}{A + w["delta"][0]}' + (f'_m{w["rfs"]}' if w['rfs'] else ''), 'daughter')
        case.event('modes')
        case.event('chains', int(len(w['names']) > 1))
        case.event('daughter_states', int(w['rfs'] > 0))
        case.event('unknown_mode', int(w['names'] == ['unknown']))
    for w in t['spectra']:
        g = d.spectra[w['type']]
        case.equal([g['type'], g['continuous_flag']], [w['type'], ['discrete', 'continuous', 'both'][w['lcon']]], 'kind of spectrum')
        for k, p in zip(('discrete_normalization', 'energy_average', 'continuous_normalization'), w['norm']):
            uf(case, g[k], p, k)
        case.equal('discrete' in g, w['lcon'] != 1, 'lines are there if the spectrum has lines')
        case.equal('continuous' in g, w['lcon'] != 0, 'a continuum is there if the spectrum has one')
        if w['lcon'] != 1:
            case.equal(len(g['discrete']), len(w['lines']), 'number of lines')
            for a, (e, names, ty, ri, rest) in zip(g['discrete'], w['lines']):
                uf(case, a['energy'], e, 'energy of a line')
                uf(case, a['intensity'], ri, 'intensity of a line')
                case.check(list(a['from_mode']) == names and a['type'] == ty, 'origin of a line', got=[list(a['from_mode']), a['type']], want=[names, ty])
                extra = {'ec/beta+': ['positron_intensity'], 'gamma': ['internal_pair', 'total_internal_conversion', 'k_shell_conversion', 'l_shell_conversion']}.get(w['type'], [])[:len(rest)]
                case.equal(sorted(k for k in a if k not in ('energy', 'intensity', 'from_mode', 'type')), sorted(extra), 'further numbers of a line')
                for k, p in zip(extra, rest):
                    uf(case, a[k], p, k)
                case.event('lines')
                case.event('positron', int('positron_intensity' in a))
                case.event('conversion', int('total_internal_conversion' in a))
                case.event('shells', int('k_shell_conversion' in a))
        if w['lcon'] != 0:
            names, x, y, law, cov = w['cont']
            c = g['continuous']
            case.equal(list(c['type']), names, 'origin of a continuum')
            case.close_to(np.asarray(c['probability'].x, float), x, 'energies of a continuum', rtol=1e-12)
            case.close_to(np.asarray(c['probability'].y, float), y, 'density of a continuum', rtol=1e-12)
            case.equal([int(v) for v in c['probability'].interpolation], [law], 'interpolation of a continuum')
            case.equal('covariance' in c, cov is not None, 'covariances of a continuum')
            if cov is not None:
                case.equal(int(c['covariance_lb']), 2, 'kind of covariances')
                for _ in range(2):
                    case.equal([tuple(float(v) for v in p) for p in c['covariance']], cov, 'covariances of a continuum')
                case.event('covariance')
            case.event('continuous')
            case.event('both', int(w['lcon'] == 2))
    if case.index < 3:
        case.sample(nuclide=name, modes=len(t['modes']), spectra=len(t['spectra']))


def by_hand(case):
    """Decay modes made without a file."""
    from ASAPy.data import decay as mod
    from uncertainties import ufloat
    rng = case.rng
    names = {v[0]: v[1:] for v in STEP.values()}
    names.update(gamma=(0, 0), **{'e-': (0, 0), 'xray': (0, 0)})
    Z = int(rng.choice([1, 2, 3, 4, 26, 27, 53, 54, 88, 92, 94]))
    A = int(rng.integers(2 * Z, 2 * Z + 50)) + 20
    steps = [str(v) for v in rng.choice(sorted(names), int(rng.integers(1, 5)))]
    state = int(rng.choice([0, 0, 1, 2, 3]))
    lis = int(rng.choice([0, 0, 1, 2]))
    parent = f'{SYM[Z]}{A}' + (f'_m{lis}' if lis else '')
    e, b = pair(rng, 2, 7), [q(rng.uniform(0, 1)), q(rng.uniform(0, 0.1))]
    case.input(parent=parent, steps=steps, state=state)
    case.sig(parent, steps, state)
    with quiet():
        m = mod.DecayMode(parent, steps, state, ufloat(*e), ufloat(*b))
    z, a = Z + sum(names[v][1] for v in steps), A + sum(names[v][0] for v in steps)
    case.equal([m.parent] + list(m.modes), [parent] + steps, 'decay mode made by hand')
    uf(case, m.energy, e, 'decay energy')
    uf(case, m.branching_ratio, b, 'branching ratio')
    if z in SYM:
        want = f'{SYM[z]}{a}' + (f'_m{state}' if state else '')
        for _ in range(2):
            case.equal(m.daughter, want, 'daughter of a mode made by hand')
        case.check(want in repr(m) and parent in repr(m), 'text of a decay mode', got=repr(m))
    case.event('by_hand')
    bad = [('a negative branching ratio', (ufloat(-b[0] - 1e-6, 0.01), None)), ('a branching ratio without uncertainty', (b[0], None)), ('a negative decay energy', (None, ufloat(-e[0] - 1, 1.0))),
           ('a decay energy without uncertainty', (None, e[0]))]
    what, (br, en) = bad[case.index % 4]
    case.raises(lambda: mod.DecayMode(parent, steps, state, ufloat(*e) if en is None else en, ufloat(*b) if br is None else br), what)

    def assign():
        if br is None:
            m.energy = en
        else:
            m.branching_ratio = br
    case.raises(assign, what + ' assigned')
    uf(case, m.energy, e, 'decay energy after a refused one')
    uf(case, m.branching_ratio, b, 'branching ratio after a refused one')


def yields(case):
    from ASAPy.data import decay as mod, endf
    rng = case.rng
    Z = int(rng.choice([90, 92, 94, 96]))
    A = int(rng.integers(230, 250))
    liso = int(rng.choice([0, 0, 1]))
    m = eg.Material(mat=9999, za=1000 * Z + A, awr=q(A * 0.99), liso=liso, lis=liso, nsub=int(rng.choice([5, 11])))
    ne = int(rng.integers(1, 5))
    es = [q(v) for v in np.sort(np.concatenate([[0.0253], 10 ** rng.uniform(3, 7, ne - 1)]))] if rng.random() < 0.8 else [0.0][:1]
    zs = [z for z in SYM if 26 <= z <= 62]
    truth = {}
    for mt in (454, 459):
        out = [eg.cont(rng, m.za, m.awr, len(es), 0, 0, 0)]
        truth[mt] = []
        for i, e in enumerate(es):
            prods = {}
            for _ in range(int(rng.integers(1, 80))):
                z = int(rng.choice(zs))
                a = 2 * z + int(rng.integers(5, 40))
                s = int(rng.choice([0, 0, 0, 1, 2]))
                y = [0.0 if rng.random() < 0.1 else q(10 ** rng.uniform(-15, -1)), q(10 ** rng.uniform(-16, -2))]
                prods[z, a, s] = y
            vals = [v for (z, a, s), y in prods.items() for v in [1000.0 * z + a, float(s)] + y]
            out += eg.list_record(rng, e, 0.0, int(rng.integers(1, 6)) if i else len(es) - 1, 0, len(prods), vals)
            truth[mt].append({f'{SYM[z]}{a}' + (f'_m{s}' if s else ''): y for (z, a, s), y in prods.items()})
            case.event('metastable_products', sum(k[2] > 0 for k in prods))
        m.add(8, mt, out)
    if rng.random() < 0.15:
        del m.sections[8, 459]
        truth[459] = None
    elif rng.random() < 0.15:                               # cumulative yields at other energies do not belong to the independent ones
        ls = m.sections[8, 459]
        m.sections[8, 459] = [ls[0]] + eg.list_record(rng, q(es[0] + 1e3), 0.0, len(es) - 1, 0, 1, [54135.0, 0.0, 0.01, 0.001])
        m.sections[8, 459][0] = eg.cont(rng, m.za, m.awr, 1, 0, 0, 0)
        text = eg.tape([m])
        case.input(text=text[:20000])
        case.event('other_energies')
        case.raises(lambda: mod.FissionProductYields(endf.Evaluation(io.StringIO(text))), 'independent and cumulative yields at different energies')
        return
    text = eg.tape([m])
    case.input(text=text[:20000])
    case.sig(text[-4000:])
    d = read(case, mod.FissionProductYields, text)
    case.equal([d.nuclide[k] for k in ('name', 'atomic_number', 'mass_number', 'isomeric_state')], [f'{SYM[Z]}{A}' + (f'_m{liso}' if liso else ''), Z, A, liso], 'fissioning nuclide')
    case.close_to(np.asarray(d.energies, float), np.array(es), 'energies of the yields', rtol=1e-12)
    for mt, k in ((454, 'independent'), (459, 'cumulative')):
        if truth[mt] is None:
            continue
        got = getattr(d, k)
        case.equal(len(got), len(es), f'{k} yields at every energy')
        for g, w in zip(got, truth[mt]):
            case.equal(sorted(g), sorted(w), f'products with {k} yields')
            for n in w:
                uf(case, g[n], w[n], f'{k} yield of {n}')
                case.event('products')
    case.event('yields')


WORKLOADS = [Workload('decay', decay, 400, 6000), Workload('yields', yields, 90, 1500), Workload('by_hand', by_hand, 60, 1500)]
