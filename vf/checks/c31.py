"""C31: thermal scattering tables are read as written and come back from HDF5."""
import os

import numpy as np

from ..core import Workload, quiet
from .. import acegen
from ..acegen import r

ID = 'C31'
RULE = ('thermal scattering ACE tables written by an independent writer: discrete (equal or skewed) and continuous outgoing energies, 1-20 cosines, no, coherent or incoherent elastic scattering, '
        '1-12 incident energies, known, unknown and given names, all pairs of nuclides; one to three temperatures in any order, again after one or two generations of HDF5 files; cross-sections '
        'between, at and outside of the points; the data against what was written; non-trivial = two or more incident energies; distinct by the text of the table')
EXPECT = {'tables': 100, 'equal': 25, 'skewed': 25, 'continuous': 25, 'coherent': 30, 'incoherent': 30, 'inelastic_only': 20, 'below_first_edge': 30, 'above_last_edge': 30, 'several_temperatures': 30,
          'reloaded': 60, 'second_generation': 15, 'given_name': 15, 'guessed_name': 8, 'own_name': 8, 'refused_material': 10, 'same_temperature': 10, 'natural_elements': 20, 'at_edges': 50, 'elastic_at_some': 3, 'two_materials': 15, 'other_version': 15}
KB = 8.6173303e-5

NAMES = {'lwtr': 'c_H_in_H2O', 'hh2o': 'c_H_in_H2O', 'h-h2o': 'c_H_in_H2O', 'lw': 'c_H_in_H2O', 'hwtr': 'c_D_in_D2O', 'dd2o': 'c_D_in_D2O', 'grph': 'c_Graphite', 'graph': 'c_Graphite', 'gr': 'c_Graphite',
         'grph10': 'c_Graphite_10p', 'grph30': 'c_Graphite_30p', 'be': 'c_Be', 'be-met': 'c_Be', 'beo': 'c_BeO', 'be-o': 'c_Be_in_BeO', 'o-be': 'c_O_in_BeO', 'obeo': 'c_O_in_BeO', 'poly': 'c_H_in_CH2',
         'hzrh': 'c_H_in_ZrH', 'h/zr': 'c_H_in_ZrH', 'zr/h': 'c_Zr_in_ZrH', 'zrzrh': 'c_Zr_in_ZrH', 'al27': 'c_Al27', 'fe56': 'c_Fe56', 'sio2': 'c_SiO2_alpha', 'sio2b': 'c_SiO2_beta', 'uuo2': 'c_U_in_UO2',
         'u-o2': 'c_U_in_UO2', 'o2-u': 'c_O_in_UO2', 'ouo2': 'c_O_in_UO2', 'parah': 'c_para_H', 'hpara': 'c_para_H', 'orthod': 'c_ortho_D', 'dortho': 'c_ortho_D', 'orthoh': 'c_ortho_H', 'parad': 'c_para_D',
         'lmeth': 'c_H_in_CH4_liquid', 'smeth': 'c_H_in_CH4_solid', 'benz': 'c_C6H6', 'lucite': 'c_H_in_C5O2H8', 'hice': 'c_H_in_H2O_solid', 'oice': 'c_O_in_H2O_ice', 'n-un': 'c_N_in_UN', 'u-un': 'c_U_in_UN',
         'csic': 'c_C_in_SiC', 'sisic': 'c_Si_in_SiC', 'hyh2': 'c_H_in_YH2', 'yyh2': 'c_Y_in_YH2', 'mg24': 'c_Mg24', 'cah': 'c_Ca_in_CaH2', 'hcah2': 'c_H_in_CaH2'}
GUESS = {'lw00': 'c_H_in_H2O', 'lw01': 'c_H_in_H2O', 'hw02': 'c_D_in_D2O', 'lwtr1': 'c_H_in_H2O', 'grphs': 'c_Graphite', 'polyx': 'c_H_in_CH2'}
OWN = ['qqqqq', 'xkvj', 'zzz9']
NATURAL = {'C': ['C12', 'C13'], 'Be': ['Be9'], 'Al': ['Al27'], 'Si': ['Si28', 'Si29', 'Si30'], 'Zr': ['Zr90', 'Zr91', 'Zr92', 'Zr94', 'Zr96'], 'U': ['U234', 'U235', 'U238'], 'Mg': ['Mg24', 'Mg25', 'Mg26'],
           'N': ['N14', 'N15'], 'Y': ['Y89']}
ZA = {'C': [6000, 6012, 6013], 'Be': [4009], 'Al': [13027], 'Si': [14000, 14028, 14029, 14030], 'Zr': [40000, 40090, 40091], 'U': [92238, 92235], 'Mg': [12024], 'N': [7014], 'Y': [39089]}
FIXED = {1001: 'H1', 1002: 'H2', 26056: 'Fe56', 26054: 'Fe54'}


class Thermal(acegen.Ace):
    """A thermal table: the truth in the units of the file."""
    def xss(self):
        x = [0.0] * 0
        nxs, jxs = [0] * 16, [0] * 32

        def here():
            return len(x) + 1
        n = len(self.e)
        jxs[0] = here()
        x.extend([n] + self.e.tolist())
        jxs[1] = here()
        x.extend(self.xs.tolist())
        jxs[2] = here()
        nxs[1], nxs[6] = 3, {'equal': 0, 'skewed': 1, 'continuous': 2}[self.mode]
        if self.mode != 'continuous':
            nxs[2], nxs[3] = self.mu.shape[2] - 1, self.eout.shape[1]
            for i in range(n):
                for j in range(self.eout.shape[1]):
                    x.extend([self.eout[i, j]] + self.mu[i, j].tolist())
        else:
            nmu = self.dist[0][3].shape[1]
            nxs[2], nxs[3] = nmu + 1, 0
            start = len(x)
            x.extend([0] * n + [len(d[0]) for d in self.dist])
            for i, (e, p, c, mu) in enumerate(self.dist):
                x[start + i] = len(x)            # the position before the first word
                for j in range(len(e)):
                    x.extend([e[j], p[j], c[j]] + mu[j].tolist())
        nxs[4], nxs[5] = 0, 0
        if self.el is not None:
            kind, e, y, mu = self.el
            jxs[3] = here()
            x.extend([len(e)] + e.tolist())
            jxs[4] = here()
            x.extend(y.tolist())
            if kind == 'coherent':
                nxs[4], nxs[5] = 4, -1
            else:
                nxs[4], nxs[5] = 3, mu.shape[1] - 1
                jxs[5] = here()
                x.extend(mu.ravel().tolist())
        nxs[0] = len(x)
        return nxs, jxs, x


def table(rng, name, kT, like=None, elastic=True):
    t = Thermal(name, float(f'{rng.uniform(0.9, 100):.6f}') if like is None else like.awr, kT)
    n = int(rng.integers(1, 13)) if rng.random() < 0.9 else int(rng.integers(13, 40))
    t.e = np.unique(r(10 ** rng.uniform(-11, -5.4, n)))
    n = len(t.e)
    t.xs = r(10 ** rng.uniform(0, 2.5, n))
    t.mode = str(rng.choice(['equal', 'skewed', 'continuous'])) if like is None else like.mode
    if t.mode != 'continuous':
        no, nm = int(rng.integers(1, 12)), int(rng.integers(1, 20))
        t.eout = r(np.sort(10 ** rng.uniform(-11, -6, (n, no)), axis=1))
        t.mu = r(np.sort(rng.uniform(-1, 1, (n, no, nm)), axis=2))
    else:
        nm = int(rng.integers(1, 20))
        t.dist = []
        for _ in range(n):
            no = int(rng.integers(2, 15))
            e, p, c = acegen.random_pdf(rng, 1e-12, float(10 ** rng.uniform(-8, -6)), no)
            if rng.random() < 0.2:
                c = r(c * rng.uniform(0.8, 1.1))       # as it is in the file, not as it should be
            t.dist.append((e, p, c, r(np.sort(rng.uniform(-1, 1, (len(e), nm)), axis=1))))
    t.el = None
    kind = str(rng.choice(['no', 'coherent', 'incoherent'])) if like is None else ('no' if like.el is None or not elastic else like.el[0])
    if kind != 'no':
        k = int(rng.integers(1, 25))
        e = np.unique(r(10 ** rng.uniform(-9.5, -5.5, k)))
        y = r(np.cumsum(rng.uniform(0, 1, len(e))) * (1e-7 if kind == 'coherent' else 1))
        t.el = (kind, e, y, r(np.sort(rng.uniform(-1, 1, (len(e), int(rng.integers(1, 17)))), axis=1)) if kind == 'incoherent' else None)
    if like is None:
        zas = []
        for _ in range(int(rng.integers(1, 4))):
            if rng.random() < 0.4:
                zas.append(int(rng.choice(list(FIXED))))
            else:
                s = str(rng.choice(list(ZA)))
                zas.append(int(rng.choice(ZA[s])))
        t.zas = sorted(set(zas), key=zas.index)
    else:
        t.zas = like.zas
    t.pairs = [(z, 0.0) for z in t.zas] + [(0, 0.0)] * (16 - len(t.zas))
    return t


def nuclides(zas):
    out = []
    for z in zas:
        if z in FIXED:
            out.append(FIXED[z])
        else:
            s = [k for k, v in ZA.items() if z in v][0]
            out += [s + '0'] + NATURAL[s]
    return set(out)


def eq(case, a, b, what, rtol=1e-12):
    case.close_to(np.asarray(a, float), np.asarray(b, float), what, rtol=rtol, atol=1e-300)


def compare(case, d, name, truths, where):
    rng = case.rng
    case.equal(d.name, name, f'{where}: name of the material')
    eq(case, d.atomic_weight_ratio, truths[0].awr, f'{where}: mass')
    case.equal(len(d.kTs), len(truths), f'{where}: number of temperatures')
    eq(case, sorted(d.kTs), sorted(t.kT * 1e6 for t in truths), f'{where}: temperatures')
    labels = {f'{int(round(t.kT * 1e6 / KB))}K': t for t in truths}
    case.equal(sorted(d.temperatures), sorted(labels), f'{where}: names of the temperatures')
    case.equal(d.secondary_mode, truths[0].mode, f'{where}: representation of outgoing energies')
    case.equal(len(d.nuclides), len(set(d.nuclides)), f'{where}: nuclides listed once')
    case.equal(set(d.nuclides), nuclides(truths[0].zas), f'{where}: nuclides the data apply to')
    case.event('natural_elements', int(any(z not in FIXED for z in truths[0].zas)))
    for T, t in labels.items():
        f = d.inelastic_xs[T]
        eq(case, f.x, t.e * 1e6, f'{where}: energies of inelastic scattering')
        eq(case, f.y, t.xs, f'{where}: inelastic cross-section')
        if len(t.e) > 1:
            e = rng.uniform(t.e[0], t.e[-1], 5)
            eq(case, f(e * 1e6), np.interp(e, t.e, t.xs), f'{where}: inelastic cross-section between the points', rtol=1e-9)
        if t.mode != 'continuous':
            eq(case, d.inelastic_e_out[T], t.eout * 1e6, f'{where}: outgoing energies')
            eq(case, d.inelastic_mu_out[T], t.mu, f'{where}: cosines of inelastic scattering')
            case.check(T not in d.inelastic_dist, f'{where}: a continuous distribution that is not in the table')
        else:
            g = d.inelastic_dist[T]
            eq(case, g.energy, t.e * 1e6, f'{where}: incident energies of the distribution')
            case.equal([[int(v) for v in g.breakpoints], [int(v) for v in g.interpolation]], [[len(t.e)], [2]], f'{where}: interpolation between incident energies')
            case.equal(len(g.energy_out), len(t.e), f'{where}: number of distributions')
            for i, (e, p, c, mu) in enumerate(t.dist):
                o = g.energy_out[i]
                eq(case, o.x, e * 1e6, f'{where}: outgoing energies')
                eq(case, o.p, p / 1e6, f'{where}: density of outgoing energies')
                eq(case, o.c, c, f'{where}: cumulated density of outgoing energies')
                case.equal(o.interpolation, 'linear-linear', f'{where}: interpolation of outgoing energies')
                case.equal(len(g.mu[i]), len(e), f'{where}: number of angular distributions')
                for j, m in enumerate(g.mu[i]):
                    eq(case, m.x, mu[j], f'{where}: cosines')
                    eq(case, m.p, np.full(mu.shape[1], 1 / mu.shape[1]), f'{where}: equally likely cosines')
                    eq(case, m.c, np.arange(1, mu.shape[1] + 1) / mu.shape[1], f'{where}: cumulated probability of cosines')
        if t.el is None:
            case.check(T not in d.elastic_xs and T not in d.elastic_mu_out, f'{where}: elastic data that are not in the table')
            continue
        kind, e, y, mu = t.el
        f = d.elastic_xs[T]
        if kind == 'coherent':
            eq(case, f.bragg_edges, e * 1e6, f'{where}: Bragg edges')
            eq(case, f.factors, y * 1e6, f'{where}: structure factors')
            case.equal(len(f), len(e), f'{where}: number of Bragg edges')
            case.check(T not in d.elastic_mu_out, f'{where}: coherent scattering has no tabulated cosines')
            k = e * 1e6
            es = np.concatenate([[k[0] * 0.3, k[0] * (1 - 1e-9), k[-1] * (1 + 1e-9), k[-1] * 7], rng.uniform(k[0] * 0.5, k[-1] * 1.5, 6), 10 ** rng.uniform(np.log10(k[0]), np.log10(k[-1] * 1.01), 6)])
            es = np.array([v for v in es if np.abs(k / v - 1).min() > 1e-12])
            want = np.array([(y[k < v][-1] * 1e6 if (k < v).any() else 0.0) / v for v in es])
            eq(case, f(es), want, f'{where}: coherent elastic cross-section', rtol=1e-9)
            eq(case, f(list(es)), want, f'{where}: coherent elastic cross-section of a list', rtol=1e-9)
            for v, w in zip(es[:6], want[:6]):
                eq(case, f(float(v)), w, f'{where}: coherent elastic cross-section at one energy', rtol=1e-9)
            at = np.asarray(f.bragg_edges, float)
            want = np.concatenate([[0.0], y[:-1] * 1e6]) / at
            eq(case, f(at), want, f'{where}: coherent elastic cross-section at the Bragg edges', rtol=1e-9)
            eq(case, f(float(at[-1])), want[-1], f'{where}: coherent elastic cross-section at a Bragg edge', rtol=1e-9)
            case.event('at_edges', len(at))
            case.event('below_first_edge', int((es < k[0]).any()))
            case.event('above_last_edge', int((es > k[-1]).any()))
        else:
            eq(case, f.x, e * 1e6, f'{where}: energies of elastic scattering')
            eq(case, f.y, y, f'{where}: elastic cross-section')
            eq(case, d.elastic_mu_out[T], mu, f'{where}: cosines of elastic scattering')


def tables(case):
    from ASAPy.data import thermal, ace
    import h5py
    rng = case.rng
    how = str(rng.choice(['known', 'known', 'given', 'guess', 'own']))
    short = str(rng.choice(list(NAMES if how in ('known', 'given') else GUESS if how == 'guess' else OWN)))
    want = NAMES[short] if how == 'known' else GUESS[short] if how == 'guess' else 'c_' + short
    if how == 'known' and rng.random() < 0.3 and len(short) <= 6:
        short = short.upper()
    given = None
    if how == 'given':
        given = want = str(rng.choice(['c_H_in_My_Stuff', 'c_Graphite', 'c_Fe56', 'c_special']))
        case.event('given_name')
    case.event('guessed_name', int(how == 'guess'))
    case.event('own_name', int(how == 'own'))
    nT = int(rng.choice([1, 1, 2, 3]))
    kts = [float(f'{v * KB * 1e-6:.5E}') for v in rng.choice([20, 77, 296, 293.6, 400, 600, 1000, 1200], nT, replace=False)]
    if len({int(round(k * 1e6 / KB)) for k in kts}) < nT:
        kts, nT = kts[:1], 1
    ts = []
    for i, k in enumerate(kts):
        t = table(rng, f'{short}.{10 + i}t', k, ts[0] if ts else None, rng.random() < 0.85)
        ts.append(t)
    v2 = None
    texts = [t.text(v2) for t in ts]
    paths = []
    for i, x in enumerate(texts):
        p = case.path(f't{i}.ace')
        with open(p, 'w') as f:
            f.write(x)
        paths.append(p)
    case.input(texts=[x[:3000] for x in texts], given=given)
    case.sig(texts[0][:5000])
    case.event('tables', nT)
    case.event(ts[0].mode)
    case.event(ts[0].el[0] if ts[0].el else 'inelastic_only')

    def src(i):
        return paths[i] if rng.random() < 0.5 else ace.get_table(paths[i])
    with quiet():
        d = thermal.ThermalScattering.from_ace(src(0), given) if given or rng.random() < 0.5 else thermal.ThermalScattering.from_ace(src(0))
        compare(case, d, want, ts[:1], 'one table')
        for i in range(1, nT):
            d.add_temperature_from_ace(src(i), given)
        if nT > 1:
            case.event('several_temperatures')
            compare(case, d, want, ts, 'several temperatures')
        if rng.random() < 0.3:
            t = table(rng, f'{short}.99t', kts[-1], ts[0])
            p = case.path('again.ace')
            with open(p, 'w') as f:
                f.write(t.text())
            d.add_temperature_from_ace(p, given)
            compare(case, d, want, ts, 'a temperature that is there already was added')
            case.event('same_temperature')
        if rng.random() < 0.3:
            other = 'hwtr' if want != 'c_D_in_D2O' else 'lwtr'
            t = table(rng, other + '.20t', float(f'{1500 * KB * 1e-6:.5E}'))
            p = case.path('other.ace')
            with open(p, 'w') as f:
                f.write(t.text())
            case.raises(lambda: d.add_temperature_from_ace(p), 'data of another material were added', (ValueError,))
            compare(case, d, want, ts, 'after another material was refused')
            case.event('refused_material')
        # HDF5
        h5 = case.path('out.h5')
        d.export_to_hdf5(h5, **({'libver': 'latest'} if rng.random() < 0.3 else {}))
        compare(case, d, want, ts, 'exported')
        if rng.random() < 0.5:
            e = thermal.ThermalScattering.from_hdf5(h5)
        else:
            with h5py.File(h5, 'r') as f:
                case.equal(list(f), [want], 'materials of the file')
                e = thermal.ThermalScattering.from_hdf5(f[want])
        compare(case, e, want, ts, 'from HDF5')
        case.event('reloaded')
        case.event('elastic_at_some', int(len({t.el is None for t in ts}) > 1))
        if rng.random() < 0.3:
            # another material in the same file
            name2 = 'c_another_material' if rng.random() < 0.5 else 'c_Zz'
            t2 = table(rng, 'other.10t', float(f'{350 * KB * 1e-6:.5E}'))
            p = case.path('second.ace')
            with open(p, 'w') as f:
                f.write(t2.text())
            thermal.ThermalScattering.from_ace(p, name2).export_to_hdf5(h5)
            with h5py.File(h5, 'r') as f:
                case.equal(sorted(f), sorted([want, name2]), 'materials of the file')
                compare(case, thermal.ThermalScattering.from_hdf5(f[want]), want, ts, 'first of two materials in a file')
                compare(case, thermal.ThermalScattering.from_hdf5(f[name2]), name2, [t2], 'second of two materials in a file')
            case.event('two_materials')
        if rng.random() < 0.3:
            h7 = case.path('version.h5')
            e.export_to_hdf5(h7, mode='w')
            with h5py.File(h7, 'r+') as f:
                if rng.random() < 0.3:
                    del f.attrs['version']
                else:
                    v = f.attrs['version'].copy()
                    v[0] += int(rng.choice([-1, 1, 3]))
                    f.attrs['version'] = v
            case.raises(lambda: thermal.ThermalScattering.from_hdf5(h7), 'a file of another format version was read', (IOError,))
            case.event('other_version')
        if rng.random() < 0.4:
            h6 = case.path('out2.h5')
            e.export_to_hdf5(h6, mode='w')
            compare(case, thermal.ThermalScattering.from_hdf5(h6), want, ts, 'second generation')
            case.event('second_generation')
    if case.index < 3:
        case.sample(name=want, mode=ts[0].mode, energies=len(ts[0].e), temperatures=nT)


def names(case):
    """Every known name in any case of letters stands for one material."""
    from ASAPy.data import thermal
    with quiet():
        for n, w in NAMES.items():
            case.equal(thermal.get_thermal_name(n), w, f'material of table {n}')
            case.equal(thermal.get_thermal_name(n.upper()), w, f'material of table {n.upper()}')
            case.equal(thermal.get_thermal_name(w), w, f'material {w}')
    case.sig('names')


WORKLOADS = [Workload('tables', tables, 160, 4000), Workload('names', names, 1, 1)]
