"""C26: neutron data in an HDF5 store."""
import copy
import os

import numpy as np

from ..core import Workload, quiet
from .. import acegen
from .c15 import compare, MEV, NAMES, RULES

ID = 'C26'
RULE = ('random neutron tables with everything the ACE reader knows (see C15), one to three temperatures, fission energy release of polynomials and tables, '
        'exported to HDF5 and read back by name or group; each sum with all or some of its parts and the name of every reaction; one to three nuclides made by hand (metastable, 0 K data, any products, total nu) added to one file; non-trivial = more than elastic and capture; distinct by content')
EXPECT = {'by_hand': 150, 'several_nuclides': 50, 'metastable': 50, 'zero_kelvin': 40, 'urr_by_hand': 50, 'total_nu': 30, 'total_nu_of_sum': 5, 'redundant_stored': 50, 'many_products': 10, 'labels': 500, 'sums_of_all': 60, 'stored': 150, 'sum_rebuilt': 300, 'fission': 50, 'delayed': 30, 'photons': 30, 'urr': 20, 'several_temperatures': 40, 'energy_release': 30, 'components': 300, 'again': 20, 'by_group': 30,
          'law3': 20, 'law4': 50, 'law7': 10, 'law9': 10, 'law11': 5, 'law44': 10, 'law61': 10, 'law66': 10, 'law2': 10, 'angles': 60, 'mixture': 10}


def release(rng):
    from ASAPy.data import function as fn
    f = []
    for _ in range(7):
        if rng.random() < 0.5:
            f.append(fn.Polynomial([float(v) for v in rng.uniform(0.1, 10, int(rng.integers(1, 4)))]))
        else:
            f.append(fn.Tabulated1D(np.sort(rng.choice(np.arange(1, 1000), 4, replace=False)) * 1e3, rng.uniform(0.1, 10, 4)))
    return f


FER = ['fragments', 'prompt_neutrons', 'delayed_neutrons', 'prompt_photons', 'delayed_photons', 'betas', 'neutrinos']


def stored(case):
    import h5py
    from ASAPy.data import neutron, fission_energy
    rng = case.rng
    a = acegen.random_ace(rng, nu=str(rng.choice(['both', 'any'])), chi=str(rng.choice(['tab', 'any'])))
    a.kT = float('%.5E' % a.kT)
    if rng.random() < 0.6:
        for k in acegen.wild(rng, a):
            case.event(k)
    p = case.path('t.ace')
    text = a.text()
    with open(p, 'w') as f:
        f.write(text)
    case.input(mts=[rx['mt'] for rx in a.reactions], photons=[q['mt'] for q in a.photons], name=a.name, text=text[:3000])
    with quiet():
        d = neutron.IncidentNeutron.from_ace(p)
    fer = None
    if rng.random() < 0.4:
        fer = release(rng)
        d.fission_energy = fission_energy.FissionEnergyRelease(*fer)
    more = []
    if rng.random() < 0.4:
        for k, kt in enumerate(rng.choice([t for t in (5.17040e-8, 1.20600e-7, 7.75560e-8, 2.06820e-7) if abs(t - a.kT) > 1e-9], int(rng.integers(1, 3)), replace=False)):
            b = copy.deepcopy(a)
            b.kT, b.name = float('%.5E' % kt), a.name.split('.')[0] + f'.{70 + k}c'
            b.E = acegen.r(np.concatenate([b.E[:1], b.E[1:-1] * (1 + 1e-6 * (k + 1)), b.E[-1:]]))
            for rx in b.reactions:
                rx['xs'] = acegen.r(rx['xs'] * rng.uniform(0.5, 2, len(rx['xs'])))
            b.elastic = acegen.r(b.elastic * rng.uniform(0.5, 2, len(b.E)))
            with open(case.path(f'm{k}.ace'), 'w') as f:
                f.write(b.text())
            with quiet():
                d.add_temperature_from_ace(case.path(f'm{k}.ace'))
            more.append(b)
        case.event('several_temperatures')
    out = case.path('d.h5')
    d.export_to_hdf5(out, *([] if rng.random() < 0.5 else ['w']), **({} if rng.random() < 0.5 else {'libver': 'latest'}))
    size = os.path.getsize(out)
    for round_ in range(2):
        keep = None
        with quiet():
            if rng.random() < 0.3:
                keep = h5py.File(out, 'r')
                g = neutron.IncidentNeutron.from_hdf5(next(iter(keep.values())))
                case.event('by_group')
            else:
                g = neutron.IncidentNeutron.from_hdf5(out)
        nm = NAMES[a.name.split('.')[0]]
        case.check((g.name, g.atomic_number, g.mass_number, g.metastable) == (*nm, 0), 'nuclide', got=[g.name, g.atomic_number, g.mass_number], want=nm)
        case.check(g.atomic_weight_ratio == a.awr, 'atomic weight ratio', got=g.atomic_weight_ratio)
        tabs = {f'{int(round(b.kT / 8.6173324e-11))}K': b for b in [a] + more}
        case.check(sorted(g.temperatures) == sorted(tabs), 'temperatures', got=g.temperatures, want=sorted(tabs))
        for t, kt in zip(g.temperatures, g.kTs):
            case.close_to(kt, tabs[t].kT * MEV, 'temperature as energy', rtol=1e-12)
        case.check(set(g.energy) == set(tabs), 'energy grids', got=sorted(g.energy))
        if not more:
            key = next(iter(tabs))
            case.close_to(g.energy[key], a.E * MEV, 'energy grid', rtol=1e-12)
            compare(case, g, a, key, full=False)
        for key, b in tabs.items() if more else ():
            case.close_to(g.energy[key], b.E * MEV, 'energy grid', rtol=1e-12)
            for m, v, s in [(2, b.elastic, 1)] + [(rx['mt'], rx['xs'], rx['start']) for rx in b.reactions if not (200 < rx['mt'] < 219 or rx['mt'] == 444)]:
                if m in RULES and (m not in g.reactions or type(g.reactions[m].xs[key]).__name__ == 'Sum'):
                    continue
                t = g.reactions[m].xs[key]
                case.close_to(t.x, b.E[s - 1:s - 1 + len(v)] * MEV, f'MT {m} at {key}: energies', rtol=1e-12)
                case.close_to(t.y, v, f'MT {m} at {key}: cross-section', rtol=1e-12)
            if b.urr:
                case.close_to(g.urr[key].table[:, :5], b.urr['table'][:, :5], 'probability tables', rtol=1e-12)
        case.check((g.fission_energy is None) == (fer is None), 'fission energy release, or none')
        if fer is not None:
            e = np.concatenate([rng.uniform(1, 2e6, 5), [1.5, 1e5]])
            for name, f in zip(FER, fer):
                case.close_to(getattr(g.fission_energy, name)(e), f(e), f'energy release: {name}', rtol=1e-12)
            for name, parts, sub in [('recoverable', range(6), 0), ('total', range(7), 0), ('q_prompt', (0, 1, 3), 1), ('q_recoverable', range(6), 1), ('q_total', range(7), 1)]:
                got = getattr(g.fission_energy, name)
                pts = got.x if type(got).__name__ == 'Tabulated1D' else e
                case.close_to(got.y if pts is not e else got(e), sum(fer[k](pts) for k in parts) - sub * pts, f'energy release: {name}', rtol=1e-9, atol=1e-9)
            case.event('energy_release')
        # what a sum is made of
        for m in list(g.reactions) + [3, 27, 999]:
            def comp(k):
                c = [v for q in RULES.get(k, ()) for v in comp(q)]
                return c or ([k] if k in g.reactions else [])
            case.check(sorted(g.get_reaction_components(m)) == sorted(comp(m)), f'components of MT {m}', got=g.get_reaction_components(m), want=comp(m))
            case.event('components')
        case.event('stored')
        if keep:
            keep.close()
        if round_ == 0 and rng.random() < 0.3:          # a second generation
            out = case.path('again.h5')
            for m in [m for m in g.reactions if type(g.reactions[m].xs[g.temperatures[0]]).__name__ == 'Sum']:
                case.check(g.reactions[m].redundant, 'sums are redundant')
            with quiet():
                g.export_to_hdf5(out)
            case.event('again')
        else:
            break
    case.check(os.path.getsize(case.path('d.h5')) == size, 'reading changed the store')
    case.sig(text)
    case.sample(mts=[rx['mt'] for rx in a.reactions], temperatures=1 + len(more))


# outgoing particles of the reactions, ENDF-102 appendix B
NAMED = {1: 'total', 2: 'elastic', 3: 'nonelastic', 4: 'level', 5: 'misc', 18: 'fission', 27: 'absorption', 101: 'disappear', 102: 'gamma', 444: 'damage'}
PARTICLES = {11: 'nnd', 16: 'nn', 17: 'nnn', 19: 'f', 20: 'nf', 21: 'nnf', 22: 'na', 23: 'naaa', 24: 'nna', 25: 'nnna', 28: 'np', 29: 'naa', 30: 'nnaa', 32: 'nd', 33: 'nt', 34: 'nh', 35: 'ndaa', 36: 'ntaa', 37: 'nnnn',
             38: 'nnnf', 41: 'nnp', 42: 'nnnp', 44: 'npp', 45: 'npa', 103: 'p', 104: 'd', 105: 't', 106: 'h', 107: 'a', 108: 'aa', 109: 'aaa', 111: 'pp', 112: 'pa', 113: 'taa', 114: 'daa', 115: 'pd', 116: 'pt', 117: 'da',
             152: 'nnnnn', 153: 'nnnnnn', 154: 'nnt', 155: 'ta', 156: 'nnnnp', 157: 'nnnd', 158: 'nda', 159: 'nnpa', 160: 'n' * 7, 161: 'n' * 8, 162: 'n' * 5 + 'p', 163: 'n' * 6 + 'p', 164: 'n' * 7 + 'p', 165: 'nnnna',
             166: 'n' * 5 + 'a', 167: 'n' * 6 + 'a', 168: 'n' * 7 + 'a', 169: 'nnnnd', 170: 'n' * 5 + 'd', 171: 'n' * 6 + 'd', 172: 'nnnt', 173: 'nnnnt', 174: 'n' * 5 + 't', 175: 'n' * 6 + 't', 176: 'nnh', 177: 'nnnh', 178: 'nnnnh',
             179: 'nnnpp', 180: 'nnnaa', 181: 'nnnpa', 182: 'dt', 183: 'npd', 184: 'npt', 185: 'ndt', 186: 'nph', 187: 'ndh', 188: 'nth', 189: 'nta', 190: 'nnpp', 191: 'ph', 192: 'dh', 193: 'ha', 194: 'nnnnpp', 195: 'nnnnaa',
             196: 'nnnnpa', 197: 'ppp', 198: 'nppp', 199: 'nnnppa', 200: 'nnnnnpp'}
LEVELS = [(50, 91, 'n'), (600, 649, 'p'), (650, 699, 'd'), (700, 749, 't'), (750, 799, 'h'), (800, 849, 'a'), (875, 891, 'nn')]


def meaning(label):
    """Particles (sorted) and level of a name like (n,2n3a) or (n,3He12); None if it is another word."""
    import re
    m = re.fullmatch(r'\(n,(.*)\)', label)
    body = m.group(1) if m else label
    if body in NAMED.values():
        return body
    body = body.replace('He-3', 'h').replace('3He', 'h')
    out, level = '', None
    m = re.fullmatch(r'(\d*[npdtha])(c|\d+)', body)
    if m:
        body, level = m.groups()
    for k, c in re.findall(r'(\d*)([npdthaf])', body):
        out += c * int(k or 1)
    return ''.join(sorted(out)), level


def parts(case):
    """Every sum with all the parts the rules name; then without each of them."""
    import h5py
    from ASAPy.data import neutron, reaction, function
    rng = case.rng
    s = sorted(RULES)[case.index % len(RULES)]
    n = int(rng.integers(4, 30))
    e = np.sort(rng.uniform(1e-5, 2e7, n))
    left_out = [] if case.index < len(RULES) else [int(v) for v in rng.choice(RULES[s], int(rng.integers(0, len(RULES[s]))), replace=False)]
    mts = [m for m in RULES[s] if m not in left_out]
    d = neutron.IncidentNeutron('U235', 92, 235, 0, 233.0248, [0.0253])
    t = d.temperatures[0]
    d.energy[t] = e
    xs = {}
    for m in mts:
        rx = reaction.Reaction(int(m))
        k = int(rng.integers(0, n - 1))
        rx.xs[t] = function.Tabulated1D(e[k:], rng.uniform(0.1, 10, n - k))
        rx.xs[t]._threshold_idx = k
        full = np.zeros(n)
        full[k:] = rx.xs[t].y
        xs[m] = full
        d.reactions[int(m)] = rx
    case.input(sum=s, left_out=left_out, n=n)
    case.sig(s, tuple(left_out), n)
    have = set(mts)

    def comp(k):
        c = [v for q in RULES.get(k, ()) for v in comp(q)]
        return c or ([k] if k in have else [])
    for m in set(RULES) | have:
        case.equal(sorted(d.get_reaction_components(int(m))), sorted(comp(m)), f'components of MT {m}')
    p = case.path('d.h5')
    with quiet():
        d.export_to_hdf5(p, 'w')
        g = neutron.IncidentNeutron.from_hdf5(p)
    with h5py.File(p, 'r') as f:
        stored_ = {int(v.attrs['mt']): bytes(v.attrs['label']).decode() for v in f['U235']['reactions'].values()}
    case.equal(sorted(stored_), sorted(int(m) for m in mts), 'reactions stored')
    for m, label in stored_.items():
        lev = [(c, 'c' if m == b else str(m - a)) for a, b, c in LEVELS if a <= m <= b]
        want = NAMED[m] if m in NAMED else lev[0] if lev else (''.join(sorted(PARTICLES[m])), None)
        case.check(meaning(label) == want, f'MT {m} is called {label}', got=meaning(label), want=want)
        case.event('labels')
    # the sums above it as well
    made = {}
    for m in sorted(RULES, reverse=True):
        if m not in have:
            ps = [k for k in RULES[m] if k in have]
            if ps:
                made[m] = xs[m] = sum(xs[k] for k in ps)
                have.add(m)
    case.equal(sorted(g.reactions), sorted(int(m) for m in have), 'the reactions stored and their sums')
    for m in made:
        case.close_to(g.reactions[m].xs[t](e), made[m], f'sum MT {m}', rtol=1e-12)
        case.check(bool(g.reactions[m].redundant), f'MT {m} must be redundant')
        case.event('sums_of_all')
    for m in mts:
        k = int(np.flatnonzero(xs[m])[0])
        case.close_to(g.reactions[m].xs[t].y, xs[m][k:], f'MT {m}', rtol=1e-12)


def nuclide(rng, name, z, a, m):
    """Data made by hand, and a description of them."""
    from ASAPy.data import neutron, reaction, function, product, urr
    kts = [float(v) for v in rng.choice([0.0253, 0.0517, 0.07755, 0.1034], int(rng.integers(1, 4)), replace=False)]
    d = neutron.IncidentNeutron(name, z, a, m, (a or 12) * 0.99, list(kts))
    temps = [f'{int(round(k / 8.6173324e-5))}K' for k in kts]
    want = {'kTs': dict(zip(temps, kts)), 'energy': {}, 'reactions': {}, 'urr': {}}
    for t in temps:
        want['energy'][t] = d.energy[t] = np.sort(rng.uniform(1e-5, 2e7, int(rng.integers(5, 30))))
    red = {101: bool(rng.random() < 0.5), 18: bool(rng.random() < 0.4), 4: True, 16: bool(rng.random() < 0.5)}
    mts = [2] + [int(v) for v in rng.choice([4, 16, 17, 18, 19, 38, 51, 91, 101, 102, 103, 600, 649, 875], int(rng.integers(2, 9)), replace=False)]
    for mt in mts:
        rx = reaction.Reaction(mt)
        rx.q_value, rx.center_of_mass, rx.redundant = float(rng.uniform(-1e7, 1e7)), bool(rng.random() < 0.5), bool(red.get(mt, False))
        w = {'q': rx.q_value, 'cm': rx.center_of_mass, 'red': rx.redundant, 'xs': {}, 'products': [], 'total': None}
        for t in temps:
            e = want['energy'][t]
            k = int(rng.integers(0, len(e) - 1))
            f = function.Tabulated1D(e[k:], rng.uniform(0.1, 10, len(e) - k))
            f._threshold_idx = k
            rx.xs[t] = f
            w['xs'][t] = (e[k:], np.array(f.y))
        for _ in range(int(rng.integers(0, 13)) if rng.random() < 0.3 else int(rng.integers(0, 4))):
            q = product.Product(str(rng.choice(['neutron', 'photon', 'H1', 'He4'])))
            q.emission_mode = str(rng.choice(['prompt', 'delayed', 'total']))
            q.decay_rate = float(rng.choice([0.0, 1e-12, 0.0124, 3.01]))
            c = [float(v) for v in rng.uniform(0.1, 3, int(rng.integers(1, 4)))]
            q.yield_ = function.Polynomial(c)
            rx.products.append(q)
            w['products'].append((q.particle, q.emission_mode, q.decay_rate, c))
        if mt in (18, 19) and rng.random() < 0.6:
            q = product.Product('neutron')
            q.emission_mode = 'total'
            c = [float(v) for v in rng.uniform(0.1, 3, 2)]
            q.yield_ = function.Polynomial(c)
            rx.derived_products.append(q)
            w['total'] = c
        d.reactions[mt] = rx
        want['reactions'][mt] = w
    if rng.random() < 0.4:                     # elastic scattering at 0 K on its own grid
        e = np.sort(rng.uniform(1e-5, 2e7, int(rng.integers(5, 30))))
        d.energy['0K'] = want['energy']['0K'] = e
        d.reactions[2].xs['0K'] = function.Tabulated1D(e, rng.uniform(1, 9, len(e)))
        want['reactions'][2]['xs']['0K'] = (e, np.array(d.reactions[2].xs['0K'].y))
    if rng.random() < 0.5:
        for t in temps[:int(rng.integers(1, 4))]:
            ne, nb = int(rng.integers(2, 5)), int(rng.integers(2, 6))
            want['urr'][t] = (np.sort(rng.uniform(1e3, 1e5, ne)), rng.uniform(0, 2, (ne, 6, nb)), int(rng.choice([2, 5])), int(rng.choice([-1, 0, 4])), int(rng.choice([-1, 0, 102])), bool(rng.random() < 0.5))
        d.urr = {t: urr.ProbabilityTables(*v) for t, v in want['urr'].items()}
    return d, want


def library(case):
    """Several nuclides, made by hand, in one file."""
    import h5py
    from ASAPy.data import neutron
    rng = case.rng

    def same(got, want, what):
        case.check(got == want, what, got=str(got)[:600], want=str(want)[:600])
    all_ = [('U235', 92, 235, 0), ('Am242_m1', 95, 242, 1), ('Fe56', 26, 56, 0), ('C0', 6, 0, 0), ('Hf178_m2', 72, 178, 2)]
    names = [all_[i] for i in rng.permutation(5)[:int(rng.integers(1, 4))]]
    out = case.path('lib.h5')
    want = {}
    for k, n in enumerate(names):
        d, want[n[0]] = nuclide(rng, *n)
        want[n[0]]['awr'] = (n[2] or 12) * 0.99
        with quiet():
            d.export_to_hdf5(out, **({} if rng.random() < 0.5 else {'mode': 'w' if k == 0 else 'a'}))
    case.input(names=[n[0] for n in names], mts={k: sorted(w['reactions']) for k, w in want.items()})
    with h5py.File(out, 'r') as f:
        same(sorted(f), sorted(want), 'nuclides in the file')
        got = {k: neutron.IncidentNeutron.from_hdf5(f[k]) for k in f}
    with quiet():
        first = neutron.IncidentNeutron.from_hdf5(out)
    same(first.name, sorted(want)[0], 'the first nuclide of a file')
    for name, z, a, m in names:
        for g in [got[name]] + ([first] if name == first.name else []):
            w = want[name]
            same([g.name, int(g.atomic_number), int(g.mass_number), int(g.metastable), float(g.atomic_weight_ratio)], [name, z, a, m, w['awr']], 'nuclide')
            same(dict(zip(g.temperatures, [float(v) for v in g.kTs])), w['kTs'], 'temperatures')
            same(sorted(g.energy), sorted(w['energy']), 'energy grids')
            for t, e in w['energy'].items():
                case.check(list(g.energy[t]) == list(e), f'energy grid at {t}')
            temps = list(w['kTs'])
            kept = {}
            for mt, r in w['reactions'].items():
                if r['red'] and mt not in (4, 16, 103) and not any(p[0] == 'photon' for p in r['products']):
                    continue
                kept[mt] = r
                x = g.reactions[mt]
                case.check(float(x.q_value) == r['q'] and bool(x.center_of_mass) == r['cm'] and bool(x.redundant) == r['red'], f'MT {mt}', got=[x.q_value, x.center_of_mass, x.redundant], want=r['q'])
                same(sorted(x.xs), sorted(r['xs']), f'MT {mt}: temperatures')
                for t, (e, y) in r['xs'].items():
                    case.check(list(x.xs[t].x) == list(e) and list(x.xs[t].y) == list(y), f'MT {mt} at {t}: cross-section')
                same([(p.particle, p.emission_mode, float(p.decay_rate), [float(v) for v in p.yield_.coef]) for p in x.products], r['products'], f'MT {mt}: products')
                case.event('redundant_stored', int(r['red']))
                case.event('many_products', int(len(r['products']) > 9))
            # one total nu, that of the first fission reaction stored
            tot = [r['total'] for mt, r in kept.items() if r['total']]
            for mt in (18, 19, 38):
                if mt in g.reactions:
                    dp = g.reactions[mt].derived_products
                    same([([float(v) for v in p.yield_.coef], p.emission_mode) for p in dp], [(tot[0], 'total')] if tot else [], f'MT {mt}: total neutrons')
                    case.event('total_nu', int(bool(tot)))
                    case.event('total_nu_of_sum', int(bool(tot) and mt not in kept))
            have = set(kept)
            for mt in sorted(RULES, reverse=True):
                ps = [p for p in RULES[mt] if p in have]
                if mt not in have and ps:
                    have.add(mt)
                    case.check(mt in g.reactions and bool(g.reactions[mt].redundant) and sorted(g.reactions[mt].xs) == sorted(temps), f'MT {mt}: sum', got=sorted(g.reactions))
            same(sorted(int(v) for v in g.reactions), sorted(have), 'reactions')
            same(sorted(g.urr), sorted(w['urr']), 'probability tables')
            for t, v in w['urr'].items():
                u = g.urr[t]
                case.check(list(u.energy) == list(v[0]) and np.array_equal(u.table, v[1]) and (int(u.interpolation), int(u.inelastic_flag), int(u.absorption_flag), bool(u.multiply_smooth)) == v[2:], f'probability table at {t}')
                case.event('urr_by_hand')
            case.event('zero_kelvin', int('0K' in w['energy']))
            case.event('metastable', int(m > 0))
            case.event('by_hand')
    case.event('several_nuclides', int(len(names) > 1))
    case.sig([n[0] for n in names], [float(v) for w in want.values() for r in w['reactions'].values() for v in [r['q']]])


WORKLOADS = [Workload('library', library, 150, 3000), Workload('stored', stored, 300, 5000), Workload('parts', parts, 36, 600)]
