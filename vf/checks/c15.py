"""C15: neutron data read from an ACE table are the encoded ones."""
import os

import numpy as np

from ..core import Workload, quiet
from .. import acegen

ID = 'C15'
RULE = ('random internally consistent neutron tables (12-60 energies, 0-4 neutron producing reactions, levels with and without their sums, gas production, fission as MT 18 or '
        'by chance, polynomial and tabulated nu, delayed groups, every energy law of the reader, all angle formats, photon production of all kinds, probability tables, '
        'negative and tiny values) read from text, new header and binary files; non-trivial = more than elastic and capture; distinct by content')
EXPECT = {'components': 5000, 'conventions': 4, 'law33': 20, 'log_tables': 30, 'negative_density': 10, 'same_ends': 5, 'read_again': 40, 'two_fission_laws': 20, 'urr_some': 1, 'all_levels': 15, 'tables': 200, 'reactions': 1000, 'fission': 80, 'delayed': 50, 'photons': 60, 'urr': 40, 'redundant_made': 60, 'negative': 20, 'binary': 20, 'new_header': 30, 'gas_skipped': 50,
          'law3': 50, 'law4': 100, 'law7': 20, 'law9': 20, 'law11': 10, 'law44': 20, 'law61': 20, 'law66': 20, 'law2': 20, 'angles': 200, 'yield_table': 40, 'poly': 15, 'mixture': 10, 'multi_temperature': 20}
MEV = 1e6
SUMS = {16: range(875, 892), 103: range(600, 650), 104: range(650, 700), 105: range(700, 750), 106: range(750, 800), 107: range(800, 850), 4: range(50, 92)}
NAMES = {'92235': ('U235', 92, 235), '94239': ('Pu239', 94, 239), '92238': ('U238', 92, 238), '1001': ('H1', 1, 1), '26056': ('Fe56', 26, 56), '8016': ('O16', 8, 16), '47107': ('Ag107', 47, 107)}


def tab(case, got, want, what, xs=MEV, ys=1.0):
    case.close_to(got.x, want.x * xs, what + ' abscissa', rtol=1e-12)
    case.close_to(got.y, want.y * ys, what + ' values', rtol=1e-12)
    nbt = want.nbt or [len(want.x)]
    law = want.law or [2]
    case.check([int(v) for v in got.breakpoints] == nbt and [int(v) for v in got.interpolation] == law, what + ' interpolation', got=[list(got.breakpoints), list(got.interpolation)], want=[nbt, law])


def angle(case, got, want, what):
    case.close_to(got.energy, want['e'] * MEV, what + ' energies', rtol=1e-12)
    case.check(len(got.mu) == len(want['mu']), what + ' number')
    for g, w in zip(got.mu, want['mu']):
        kind = type(g).__name__
        if w[0] == 'iso':
            isotropic(case, g, what)
        elif w[0] == 'bins':
            case.check(kind == 'Tabular' and g.interpolation == 'histogram', what + ' must be a histogram', got=kind)
            case.close_to(g.x, w[1], what + ' cosines', rtol=1e-13)
            case.close_to(g.c, np.arange(33) / 32, what + ' equal probabilities', rtol=1e-13)
            case.close_to(np.asarray(g.p)[:32], 1 / (32 * np.diff(w[1])), what + ' density', rtol=1e-12)
        else:
            pdf(case, g, w[1], w[2], w[3], w[4], what)
    case.event('angles')


def isotropic(case, g, what):
    """As a uniform distribution, or as the same in tabulated form."""
    if type(g).__name__ == 'Tabular':
        ok = [float(v) for v in g.x] == [-1.0, 1.0] and float(g.p[0]) == 0.5 and [float(v) for v in g.c] == [0.0, 1.0] and (g.interpolation == 'histogram' or float(g.p[1]) == 0.5)
    else:
        ok = type(g).__name__ == 'Uniform' and g.a == -1 and g.b == 1
    case.check(ok, what + ' must be isotropic', got=type(g).__name__)


def pdf(case, g, intt, x, p, c, what):
    case.check(type(g).__name__ == 'Tabular', what + ' must be tabulated', got=type(g).__name__)
    case.check(g.interpolation == {1: 'histogram', 2: 'linear-linear'}[intt], what + ' interpolation', got=g.interpolation)
    case.close_to(g.x, x, what + ' x', rtol=1e-12)
    case.close_to(g.p, p, what + ' density', rtol=1e-12)
    case.close_to(g.c, c, what + ' cumulative', rtol=1e-12)


def eout(case, g, o, what):
    nd = o['nd']
    if nd == 0:
        return pdf(case, g, o['intt'], o['x'] * MEV, o['p'] / MEV, o['c'], what)
    case.check(type(g).__name__ == 'Mixture' and len(g.distribution) == 2, what + ' must be lines and a continuum', got=type(g).__name__)
    d, t = g.distribution
    case.close_to(d.x, o['x'][:nd] * MEV, what + ' lines', rtol=1e-12)
    case.close_to(d.p, o['p'][:nd], what + ' line probabilities', rtol=1e-12)
    w = min(o['p'][:nd].sum(), 1.0)
    case.close_to(g.probability, [w, 1 - w], what + ' mixture', rtol=1e-9)
    pdf(case, t, o['intt'], o['x'][nd:] * MEV, o['p'][nd:] / MEV, o['c'][nd:], what)
    case.event('mixture')


def law(case, g, d, a, q, what):
    n = d['law']
    case.event(f'law{n}')
    what = f'{what} law {n}'
    if n in (2, 3, 4, 7, 9, 11):
        case.check(type(g).__name__ == 'UncorrelatedAngleEnergy', what + ' kind', got=type(g).__name__)
        h = g.energy
    else:
        h = g
    want = {2: 'DiscretePhoton', 3: 'LevelInelastic', 4: 'ContinuousTabular', 7: 'MaxwellEnergy', 9: 'Evaporation', 11: 'WattEnergy', 44: 'KalbachMann', 61: 'CorrelatedAngleEnergy',
            66: 'NBodyPhaseSpace'}[n]
    case.check(type(h).__name__ == want, what + ' kind', got=type(h).__name__, want=want)
    if n == 2:
        case.check(h.primary_flag == d['lp'] and h.atomic_weight_ratio == a.awr, what + ' flag or weight')
        case.close_to(h.energy, d['energy'] * MEV, what + ' energy', rtol=1e-12)
    elif n == 3:
        case.close_to([h.threshold, h.mass_ratio], [d['threshold'] * MEV, d['ratio']], what, rtol=1e-12)
    elif n in (7, 9):
        tab(case, h.theta, d['theta'], what + ' temperature', ys=MEV)
        case.close_to(h.u, d['u'] * MEV, what + ' restriction energy', rtol=1e-12)
    elif n == 11:
        tab(case, h.a, d['a'], what + ' a', ys=MEV)
        tab(case, h.b, d['b'], what + ' b', ys=1 / MEV)
        case.close_to(h.u, d['u'] * MEV, what + ' restriction energy', rtol=1e-12)
    elif n == 66:
        case.check(h.n_particles == d['n'] and h.atomic_weight_ratio == a.awr, what + ' particles or weight')
        case.close_to([h.total_mass, h.q_value], [d['total_mass'], q * MEV], what, rtol=1e-12)
    else:
        case.close_to(h.energy, d['e'] * MEV, what + ' incident energies', rtol=1e-12)
        case.check([int(v) for v in h.breakpoints] == (d['nbt'] or [len(d['e'])]) and [int(v) for v in h.interpolation] == (d['int'] or [2]), what + ' interpolation')
        case.check(len(h.energy_out) == len(d['out']), what + ' number of spectra')
        for k, (ge, o) in enumerate(zip(h.energy_out, d['out'])):
            eout(case, ge, o, f'{what} spectrum {k}')
            if n == 44:
                for name, key in (('precompound', 'r'), ('slope', 'a')):
                    f = getattr(h, name)[k]
                    case.close_to(f.x, o['x'] * MEV, what + ' ' + name, rtol=1e-12)
                    case.close_to(f.y, o[key], what + ' ' + name, rtol=1e-12)
            if n == 61:
                case.check(len(h.mu[k]) == len(o['mu']), what + ' number of angular distributions')
                for gm, m in zip(h.mu[k], o['mu']):
                    if m is None:
                        isotropic(case, gm, what)
                    else:
                        pdf(case, gm, *m, what + ' cosine')


def nu(case, got, f, what):
    if f[0] == 'poly':
        case.check(type(got).__name__ == 'Polynomial', what + ' must be a polynomial', got=type(got).__name__)
        e = np.array([0.0253, 1e3, 2e6, 1.4e7])
        want = sum(c * (e / MEV) ** i for i, c in enumerate(f[1]))
        case.close_to([got(v) for v in e], want, what + ' polynomial in the energy', rtol=1e-11)
        case.event('poly')
    else:
        tab(case, got, f[1], what)


def interp(t, x):
    return np.interp(x, t.x, t.y)


def fission(case, rx, a, d, what):
    prods = [p for p in rx.products if p.particle == 'neutron']
    kind = a.nu['kind']
    case.check(prods[0].emission_mode == ('prompt' if kind == 'both' or a.delayed else 'total'), what + ': first neutrons', got=prods[0].emission_mode)
    nu(case, prods[0].yield_, a.nu['prompt'] if kind == 'both' else a.nu['single'], what + ': first neutrons')
    if kind == 'both':
        case.check(len(rx.derived_products) == 1 and rx.derived_products[0].emission_mode == 'total', what + ': total neutrons')
        nu(case, rx.derived_products[0].yield_, a.nu['total'], what + ': total neutrons')
    else:
        case.check(not rx.derived_products, what + ': no total neutrons are given')
    rest = prods[1:]
    case.check(len(rest) == (len(a.delayed['groups']) if a.delayed else 0), what + ': number of delayed groups', got=len(rest))
    if a.delayed:
        case.event('delayed')
        tot = sum(g['prob'].y[0] for g in a.delayed['groups']) if not a.delayed['vary'] else None
        for k, (p, g) in enumerate(zip(rest, a.delayed['groups'])):
            case.check(p.emission_mode == 'delayed', what + ': delayed')
            case.close_to(p.decay_rate, g['rate'] * 1e8, what + ': decay rate', rtol=1e-12)
            if tot is not None:
                case.close_to(p.yield_.x, a.delayed['nu'].x * MEV, what + ': delayed energies', rtol=1e-12)
                case.close_to(p.yield_.y, a.delayed['nu'].y * g['prob'].y[0] / tot, what + ': delayed yield', rtol=1e-11)
            else:
                x = np.union1d(a.delayed['nu'].x, g['prob'].x)
                case.close_to(p.yield_.x, x * MEV, what + ': delayed energies', rtol=1e-12)
                case.close_to(p.yield_.y, interp(a.delayed['nu'], x) * interp(g['prob'], x), what + ': delayed yield', rtol=1e-10)
            law(case, p.distribution[0], g['law'], a, 0, what + f': delayed group {k}')
    return prods[0]


def compare(case, d, a, key, full=True):
    """All reactions of the data read against the table they were written to."""
    given = {}
    for i, rx in enumerate(a.reactions):
        if 200 < rx['mt'] < 219 or rx['mt'] == 444:
            case.event('gas_skipped')
            continue
        given[rx['mt']] = (i, rx)
    made = {}
    for m in (16, 103, 104, 105, 106, 107):
        parts = [p for p in SUMS[m] if p in given]
        if m not in given and parts:
            made[m] = parts
    pm = {p['mt'] // 1000 for p in a.photons}
    if 4 in pm and 4 not in given:
        made[4] = [p for p in SUMS[4] if p in given]
    want = {1, 2} | set(given) | set(made) | ({101} if np.any(a.absorption != 0) else set())
    red = {1, 101} & want | set(made) | {m for m in given if (m in SUMS and any(p in given for p in SUMS[m])) or (m == 18 and any(p in given for p in (19, 20, 21, 38)))}
    if full:
        case.check(set(d.reactions) == want, 'not the reactions of the table', got=sorted(d.reactions), want=sorted(want))
    else:                       # read back from a store: sums that are not stored are made again
        keep = {m for m in want if m not in red or m in pm or m in (4, 16, 103, 104, 105, 106, 107)}
        drop = want - keep
        given = {m: v for m, v in given.items() if m not in drop}
        want = keep
        rebuilt(case, d, keep, drop, key)
    n = len(a.E)

    def xs(mt, start, v, what):
        t = d.reactions[mt].xs
        case.check(list(t) == [key], what + ': temperature', got=list(t), want=key)
        case.close_to(t[key].x, a.E[start - 1:start - 1 + len(v)] * MEV, what + ': energies', rtol=1e-12)
        case.close_to(t[key].y, v, what + ': cross-section', rtol=1e-12)
    if 1 in want:
        xs(1, 1, a.total, 'total')
    if 101 in want:
        xs(101, 1, a.absorption, 'absorption')
    xs(2, 1, np.maximum(a.elastic, 0), 'elastic')
    for m, (i, rx) in given.items():
        xs(m, rx['start'], np.maximum(rx['xs'], 0), f'MT {m}')
        g = d.reactions[m]
        case.close_to(g.q_value, rx['q'] * MEV, f'MT {m}: Q', rtol=1e-12, atol=1e-9)
        case.event('reactions')
        case.check(bool(g.center_of_mass) == (rx['ty'] < 0), f'MT {m}: frame', got=g.center_of_mass)
        if i < a.nr:
            if rx['ty'] == 19:
                p = fission(case, g, a, rx, f'MT {m}')
                case.event('fission')
            else:
                ns = [p for p in g.products if p.particle == 'neutron']
                case.check(len(ns) == 1, f'MT {m}: neutron products', got=len(ns))
                p = ns[0]
                if rx.get('yield_') is not None:
                    tab(case, p.yield_, rx['yield_'], f'MT {m}: yield')
                    case.event('yield_table')
                else:
                    case.check(p.yield_(1e6) == abs(rx['ty']), f'MT {m}: multiplicity', got=p.yield_(1e6), want=abs(rx['ty']))
            case.check(len(p.distribution) == len(rx['laws']), f'MT {m}: number of laws', got=len(p.distribution), want=len(rx['laws']))
            for k, (gd, l) in enumerate(zip(p.distribution, rx['laws'])):
                law(case, gd, l, a, rx['q'], f'MT {m}')
                tab(case, p.applicability[k], l['applic'], f'MT {m}: applicability')
                if isinstance(rx['angle'], dict):
                    angle(case, gd.angle, rx['angle'], f'MT {m}: angle')
                elif rx['angle'] is None:
                    case.check(gd.angle is None, f'MT {m}: no angles are given')
        else:
            case.check(not [p for p in g.products if p.particle == 'neutron'], f'MT {m}: has no secondary neutrons')
    el = d.reactions[2].products[0]
    if a.elastic_angle is None:
        case.check(el.distribution[0].angle is None, 'elastic: no angles are given')
    else:
        angle(case, el.distribution[0].angle, a.elastic_angle, 'elastic angle')
    for m, parts in made.items():
        s = min(given[p][1]['start'] for p in parts)
        tot = np.zeros(n)
        for p in parts:
            q = given[p][1]
            tot[q['start'] - 1:q['start'] - 1 + len(q['xs'])] += np.maximum(q['xs'], 0)
        xs(m, s, tot[s - 1:], f'sum MT {m}')
        case.check(d.reactions[m].redundant, f'MT {m} must be marked redundant')
        case.event('redundant_made')
    for m in want:
        case.check(bool(d.reactions[m].redundant) == (m in red), f'MT {m}: redundant or not', got=d.reactions[m].redundant, want=m in red)
    for m in want:
        ph = [p for p in d.reactions[m].products if p.particle == 'photon']
        mine = [p for p in a.photons if p['mt'] // 1000 == m]
        case.check(len(ph) == len(mine), f'MT {m}: photons', got=len(ph), want=len(mine))
        for g, p in zip(ph, mine):
            if p['mftype'] == 13:
                e = a.E[p['start'] - 1:p['start'] - 1 + len(p['xs'])]
                case.close_to(g.yield_.x, e * MEV, f'MT {m}: photon energies', rtol=1e-12)
                rxs = d.reactions[m].xs[key]
                base = np.interp(e * MEV, rxs.x, rxs.y, left=0.0)
                y = np.zeros(len(e))
                ok = base > 0
                y[ok] = p['xs'][ok] / base[ok]
                case.close_to(g.yield_.y, y, f'MT {m}: photon yield', rtol=1e-10)
            else:
                tab(case, g.yield_, p['tab'], f'MT {m}: photon yield')
            law(case, g.distribution[0], p['law'], a, 0, f'MT {m}: photon')
            if p['angle'] is not None:
                angle(case, g.distribution[0].angle, p['angle'], f'MT {m}: photon angle')
            else:
                an = g.distribution[0].angle
                case.close_to(an.energy, [g.yield_.x[0], g.yield_.x[-1]], f'MT {m}: isotropic photons over all energies of the yield', rtol=1e-12)
                for mu in an.mu:
                    isotropic(case, mu, f'MT {m}: photon angle')
            case.event('photons')
    if a.urr:
        u = d.urr[key]
        t = a.urr['table'].copy()
        t[:, 5, :] *= MEV
        case.close_to(u.energy, a.urr['e'] * MEV, 'probability table energies', rtol=1e-12)
        case.close_to(u.table, t, 'probability tables', rtol=1e-12)
        case.check((u.interpolation, u.inelastic_flag, u.absorption_flag, bool(u.multiply_smooth)) == (a.urr['int'], a.urr['ilf'], a.urr['ioa'], a.urr['iff'] == 1), 'probability table flags')
        case.event('urr')
    else:
        case.check(not d.urr, 'there are no probability tables')


RULES = {1: [2, 3], 3: [4, 5, 11, 16, 17, 22, 23, 24, 25, 27, 28, 29, 30, 32, 33, 34, 35, 36, 37, 41, 42, 44, 45, 152, 153, 154] + [*range(156, 182)] + [*range(183, 191)] + [194, 195, 196, 198, 199, 200],
         18: [19, 20, 21, 38], 27: [18, 101], 101: [*range(102, 110), *range(111, 118), 155, 182, 191, 192, 193, 197], **SUMS}


def rebuilt(case, d, keep, drop, key):
    """Sums that a store does not have: made of the parts it has, each once."""
    have = dict.fromkeys(keep)
    for m in sorted(RULES, reverse=True):
        parts = [p for p in RULES[m] if p in have]
        if m not in have and parts:
            have[m] = parts
    case.check(set(d.reactions) == set(have), 'not the reactions stored and their sums', got=sorted(d.reactions), want=sorted(have))
    grid = d.energy[key]
    starts = [d.reactions[m].xs[key].x[0] for m in keep]
    e = np.array([v for v in np.concatenate([grid, np.sqrt(grid[1:] * grid[:-1])]) if not any(v != s and abs(v - s) < 3e-5 * s for s in starts)])

    def val(m):
        if have[m] is None:
            t = d.reactions[m].xs[key]
            return np.interp(e, t.x, t.y, left=0.0)
        return sum(val(p) for p in have[m])
    for m, parts in have.items():
        if parts is not None:
            case.check(bool(d.reactions[m].redundant), f'sum MT {m} must be marked redundant')
            w = val(m)
            case.close_to(d.reactions[m].xs[key](e), w, f'sum MT {m}', rtol=1e-9, atol=1e-12 * float(np.max(np.abs(w))))
            case.event('sum_rebuilt')


def read(case):
    from ASAPy.data import ace, neutron
    rng = case.rng
    neg = bool(rng.random() < 0.15)
    a = acegen.random_ace(rng, nu=str(rng.choice(['both', 'any'])), chi=str(rng.choice(['tab', 'any'])), negative=neg)
    if neg and rng.random() < 0.3:
        a.elastic = a.elastic.copy()
        a.elastic[3] *= -1
    if rng.random() < 0.6:
        for k in acegen.wild(rng, a):
            case.event(k)
    v2 = None if rng.random() < 0.7 else 3
    p = case.path('t.ace')
    text = a.text(v2=v2)
    with open(p, 'w') as f:
        f.write(text)
    case.input(mts=[rx['mt'] for rx in a.reactions], name=a.name, text=text[:3000])
    src = p
    how = str(rng.choice(['file', 'file', 'table', 'binary']))
    with quiet():
        if how == 'binary':
            ace.ascii_to_binary(p, case.path('t.bin'))
            src = case.path('t.bin')
            case.event('binary')
        elif how == 'table':
            src = ace.get_table(p)
        d = neutron.IncidentNeutron.from_ace(src)
    nm = NAMES[a.name.split('.')[0]]
    case.check((d.name, d.atomic_number, d.mass_number, d.metastable) == (*nm, 0), 'nuclide', got=[d.name, d.atomic_number, d.mass_number], want=nm)
    case.check(d.atomic_weight_ratio == a.awr, 'atomic weight ratio', got=d.atomic_weight_ratio)
    kelvin = a.kT / 8.6173324e-11
    key = d.temperatures[0]
    case.check(len(d.temperatures) == 1 and key == f'{int(round(kelvin))}K', 'temperature', got=d.temperatures, want=kelvin)
    case.close_to(d.kTs, [a.kT * MEV], 'temperature as energy', rtol=1e-12)
    case.close_to(d.energy[key], a.E * MEV, 'energy grid', rtol=1e-12)
    compare(case, d, a, key)
    if how == 'table':            # the table can be read again
        with quiet():
            d = neutron.IncidentNeutron.from_ace(src)
        compare(case, d, a, key)
        case.event('read_again')
    case.event('tables')
    case.event('negative', int(neg))
    case.event('new_header', int(v2 is not None))
    case.sig(text)
    case.sample(mts=[rx['mt'] for rx in a.reactions], photons=len(a.photons), energies=len(a.E))


def temperatures(case):
    """Several temperatures in one object: each keeps its own grid and cross-sections."""
    import copy
    from ASAPy.data import neutron
    rng = case.rng
    a = acegen.random_ace(rng)
    kts = [float(v) for v in rng.choice([2.53010e-8, 5.17040e-8, 7.75560e-8, 2.06820e-7], int(rng.integers(2, 5)), replace=False)]
    tabs, files = [], []
    first_without = bool(rng.random() < 0.5)
    for k, kt in enumerate(kts):
        b = copy.deepcopy(a)
        b.kT = float('%.5E' % kt)
        b.name = a.name.split('.')[0] + f'.{10 + k}c'
        if k:
            b.E = acegen.r(np.concatenate([b.E[:1], b.E[1:-1] * (1 + 1e-6 * k), b.E[-1:]]))
            for f in ('total', 'absorption', 'elastic'):
                setattr(b, f, acegen.r(getattr(b, f) * rng.uniform(0.5, 2, len(b.E))))
            for rx in b.reactions:
                rx['xs'] = acegen.r(rx['xs'] * rng.uniform(0.5, 2, len(rx['xs'])))
            if b.urr:
                b.urr['table'] = acegen.r(b.urr['table'] * rng.uniform(0.5, 2, b.urr['table'].shape))
            if rng.random() < 0.4:
                b.urr = None
        elif first_without:
            b.urr = None
        p = case.path(f't{k}.ace')
        with open(p, 'w') as f:
            f.write(b.text())
        tabs.append(b)
        files.append(p)
    case.input(kts=kts, mts=[rx['mt'] for rx in a.reactions])
    with quiet():
        d = neutron.IncidentNeutron.from_ace(files[0])
        for p in files[1:]:
            d.add_temperature_from_ace(p)
        d.add_temperature_from_ace(files[int(rng.integers(0, len(files)))])      # a temperature that is there: no effect
    case.close_to(d.kTs, [b.kT * MEV for b in tabs], 'temperatures', rtol=1e-12)
    keys = [f'{int(round(b.kT / 8.6173324e-11))}K' for b in tabs]
    case.check(list(d.temperatures) == keys, 'temperature labels', got=list(d.temperatures), want=keys)
    for b, key in zip(tabs, keys):
        case.close_to(d.energy[key], b.E * MEV, 'energy grid', rtol=1e-12)
        for m, v, s in [(1, b.total, 1), (2, b.elastic, 1)] + [(rx['mt'], rx['xs'], rx['start']) for rx in b.reactions if not (200 < rx['mt'] < 219 or rx['mt'] == 444)]:
            t = d.reactions[m].xs[key]
            case.close_to(t.x, b.E[s - 1:s - 1 + len(v)] * MEV, f'MT {m} at {key}: energies', rtol=1e-12)
            case.close_to(t.y, v, f'MT {m} at {key}: cross-section', rtol=1e-12)
        if b.urr:
            case.close_to(d.urr[key].table[:, :5], b.urr['table'][:, :5], 'probability tables', rtol=1e-12)
            case.event('urr_some', int(first_without))
        else:
            case.check(key not in d.urr, 'probability tables of another temperature')
        m = 101
        if m in d.reactions and list(d.reactions[m].xs)[0] == keys[0] and np.any(b.absorption != 0):
            case.close_to(d.reactions[m].xs[key].y, b.absorption, f'absorption at {key}', rtol=1e-12)
    with open(case.path('other.ace'), 'w') as f:
        z, m = divmod(int(a.name.split('.')[0]), 1000)
        other = '7014.33c' if case.index % 3 == 0 else f'{z}{m - 1 if m > 1 else 2:03d}.33c' if case.index % 3 == 1 else f'{z}{m + 400}.33c'
        f.write(acegen.random_ace(rng, name=other, fissile=False, kT=8.61733e-9).text())
    case.raises(lambda: d.add_temperature_from_ace(case.path('other.ace')), 'data of another nuclide must be refused')
    case.check(list(d.temperatures) == keys, 'refused data changed the temperatures')
    case.event('multi_temperature')
    case.sig(case.index, keys)


def metastable(case):
    """The convention of identifiers given is the one used, for the first and for further temperatures."""
    from ASAPy.data import neutron
    rng = case.rng
    zaid, scheme, want = [(95242, 'mcnp', ('Am242_m1', 242, 1)), (95242, 'nndc', ('Am242', 242, 0)), (95642, 'mcnp', ('Am242', 242, 0)), (95642, 'nndc', ('Am242_m1', 242, 1)),
                          (47510, 'mcnp', ('Ag110_m1', 110, 1)), (47510, 'nndc', ('Ag110_m1', 110, 1))][case.index % 6]
    files = []
    for k, kt in enumerate((2.53010e-8, 7.75560e-8)):
        p = case.path(f't{k}.ace')
        with open(p, 'w') as f:
            f.write(acegen.random_ace(rng, name=f'{zaid}.{80 + k}c', fissile=False, kT=kt, n=14).text())
        files.append(p)
    case.input(zaid=zaid, scheme=scheme)
    with quiet():
        d = neutron.IncidentNeutron.from_ace(files[0], scheme)
        d.add_temperature_from_ace(files[1], scheme)
    case.check((d.name, d.mass_number, d.metastable) == want, f'nuclide {zaid} in the convention {scheme}', got=[d.name, d.mass_number, d.metastable], want=want)
    case.check(len(d.temperatures) == 2 and len(d.kTs) == 2, 'the second temperature is missing', got=list(d.temperatures))
    case.event('conventions')
    case.sig(zaid, scheme, case.index)


def levels(case):
    """A table with every level of one reaction and not their sum."""
    from ASAPy.data import neutron
    rng = case.rng
    s = sorted(SUMS)[case.index % len(SUMS)]
    a = acegen.random_ace(rng)
    while s in {rx['mt'] for rx in a.reactions}:
        a = acegen.random_ace(rng)
    a.kT = float('%.5E' % a.kT)
    n = len(a.E)
    have = {rx['mt'] for rx in a.reactions}
    for m in SUMS[s]:
        if m not in have and rng.random() < (1.1 if case.index < len(SUMS) else 0.6):
            k = int(rng.integers(1, n - 3))
            a.reactions.append(dict(mt=m, q=0.0, ty=0, start=k, xs=acegen.r(rng.uniform(0.01, 5, n - k + 1))))
    p = case.path('t.ace')
    with open(p, 'w') as f:
        f.write(a.text())
    case.input(sum=s, mts=[rx['mt'] for rx in a.reactions])
    case.sig(s, tuple(rx['mt'] for rx in a.reactions), n)
    with quiet():
        d = neutron.IncidentNeutron.from_ace(p)
    compare(case, d, a, d.temperatures[0])
    parts = [m for m in SUMS[s] if m in {rx['mt'] for rx in a.reactions}]
    case.equal(sorted(d.get_reaction_components(s)), parts, f'components of MT {s}')
    case.event('all_levels')


def components(case):
    """What makes up a sum, for any reactions there are."""
    from ASAPy.data import neutron, reaction
    rng = case.rng
    every = sorted({p for v in RULES.values() for p in v} | set(RULES))
    k = case.index % 3
    have = set(every) - {s for s in RULES if rng.random() < 0.5} if k == 0 else set(map(int, rng.choice(every, int(rng.integers(1, 40)), replace=False))) if k == 1 else {m for m in every if rng.random() < 0.5}
    d = neutron.IncidentNeutron('U235', 92, 235, 0, 233.0, [0.0253])
    for m in (sorted(have) if rng.random() < 0.5 else sorted(have, reverse=True)):
        d.reactions[m] = reaction.Reaction(m)

    def parts(m):
        out = [q for p in RULES.get(m, []) for q in parts(p)]
        return out or ([m] if m in have else [])
    case.sig(tuple(sorted(have)))
    for m in [*every, 444, 203, 0]:
        case.equal(sorted(d.get_reaction_components(m)), sorted(parts(m)), f'components of MT {m}')
        case.event('components')


WORKLOADS = [Workload('components', components, 60, 600), Workload('metastable', metastable, 6, 30), Workload('levels', levels, 21, 210), Workload('temperatures', temperatures, 40, 600), Workload('read', read, 600, 8000)]
