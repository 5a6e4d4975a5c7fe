"""C34: photon data are those of the evaluation or table, and HDF5 holds them on one grid."""
import io
import os

import numpy as np

from ..core import Workload, quiet, REPO
from .. import acegen, endfgen as eg
from ..acegen import r
from .c25 import value, area, lawof

ID = 'C34'
RULE = ('photoatomic and atomic relaxation evaluations (files 23, 27, 28) and photoatomic ACE tables of the old and new format from independent writers: all elements up to Z=100, 0-10 subshells with 0-12 transitions '
        '(radiative or not), cross-sections with steps and all laws, form factors, anomalous factors, Compton profiles; Compton, stopping power and bremsstrahlung data of the files in the tree; all written to HDF5, one '
        'or two elements per file; against the numbers printed, interpolation and integrals of them and an independent spline; non-trivial = two or more reactions; distinct by the text of the file')
EXPECT = {'evaluations': 60, 'tables': 40, 'new_format': 15, 'old_format': 15, 'subshells': 150, 'transitions': 300, 'nonradiative': 100, 'radiative': 80, 'form_factors': 100, 'anomalous': 30, 'compton': 100, 'stopping': 60,
          'bremsstrahlung': 60, 'exported': 80, 'grid_values': 3000, 'shell_values': 1500, 'two_elements': 15, 'without_relaxation': 10, 'integrated': 60, 'refused': 15, 'stored_transitions': 150, 'elements': 40, 'replaced': 6, 'read_again': 8}
SHELLS = 'K L1 L2 L3 M1 M2 M3 M4 M5 N1 N2 N3 N4 N5 N6 N7 O1 O2 O3 O4 O5 O6 O7 O8 O9 P1 P2 P3 P4 P5 P6 P7 P8 P9 P10 P11 Q1 Q2 Q3'.split()
SYM = ('n H He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co Ni Cu Zn Ga Ge As Se Br Kr Rb Sr Y Zr Nb Mo Tc Ru Rh Pd Ag Cd In Sn Sb Te I Xe Cs Ba La Ce Pr Nd Pm Sm Eu Gd Tb Dy Ho Er Tm Yb Lu Hf Ta W '
       'Re Os Ir Pt Au Hg Tl Pb Bi Po At Rn Fr Ra Ac Th Pa U Np Pu Am Cm Bk Cf Es Fm').split()
X_COH = [0.0, 0.01, 0.02, 0.03, 0.04, 0.05, 0.06, 0.08, 0.1, 0.12, 0.15, 0.18, 0.2, 0.25, 0.3, 0.35, 0.4, 0.45, 0.5, 0.55, 0.6, 0.7, 0.8, 0.9, 1.0, 1.1, 1.2, 1.3, 1.4, 1.5, 1.6, 1.7, 1.8, 1.9, 2.0, 2.2, 2.4, 2.6, 2.8, 3.0, 3.2, 3.4,
         3.6, 3.8, 4.0, 4.2, 4.4, 4.6, 4.8, 5.0, 5.2, 5.4, 5.6, 5.8, 6.0]
X_INC = [0.0, 0.005, 0.01, 0.05, 0.1, 0.15, 0.2, 0.3, 0.4, 0.5, 0.6, 0.7, 0.8, 0.9, 1.0, 1.5, 2.0, 3.0, 4.0, 5.0, 8.0]


def q(v):
    return float(f'{float(v):.4e}')


def tab(rng, lo, hi, n=None, steps=False, laws=(1, 2, 3, 4, 5), ylo=1e-3, yhi=1e3, regions=True):
    """x, y, nbt, laws."""
    n = n or int(rng.integers(2, 25))
    x = np.unique([q(v) for v in np.concatenate([[lo, hi], np.exp(rng.uniform(np.log(lo), np.log(hi), n))])])
    x = x.tolist()
    if len(x) > 3 and rng.random() < 0.4:
        # two neighbours almost at the same place
        i = int(rng.integers(1, len(x) - 1))
        v = float(f'{x[i] * (1 + rng.choice([1e-5, 3e-5])):.5e}')
        if x[i] < v < x[i + 1]:
            x.insert(i + 1, v)
    if steps and len(x) > 4:
        for i in sorted({int(v) for v in rng.integers(1, len(x) - 1, 2)}, reverse=True):
            x.insert(i, x[i])
    y = [q(v) for v in np.exp(rng.uniform(np.log(ylo), np.log(yhi), len(x)))]
    m = len(x)
    cuts = sorted({int(v) for v in rng.integers(2, m, 2)} | {m}) if regions and m > 4 and rng.random() < 0.4 else [m]
    return np.array(x), np.array(y), cuts, [int(v) for v in rng.choice(laws, len(cuts))]


def same(case, f, t, what):
    case.close_to(np.asarray(f.x, float), t[0], what + ': arguments', rtol=1e-12)
    case.close_to(np.asarray(f.y, float), t[1], what + ': values', rtol=1e-12)
    case.equal([int(v) for v in f.breakpoints], list(t[2]), what + ': breakpoints')
    case.equal([int(v) for v in f.interpolation], list(t[3]), what + ': laws')


def on(t, grid):
    last = {float(a): float(b) for a, b in zip(t[0], t[1])}        # at a step the upper value
    return np.array([last[v] if v in last else value(t[0], t[1], t[2], t[3], v) for v in (float(w) for w in grid)])


def relaxation(rng, Z, ns):
    """{shell: (binding, electrons, [(j, k, e, f)])} in the order of the file."""
    out = {}
    for d in sorted(int(v) for v in rng.choice(np.arange(1, 40), ns, replace=False)):
        tr = []
        for _ in range(int(rng.integers(0, 13)) if rng.random() < 0.8 else 0):
            j = int(rng.integers(1, 40))
            k = 0 if rng.random() < 0.45 else j if rng.random() < 0.2 else int(rng.integers(1, 40))
            tr.append((j, k, q(10 ** rng.uniform(0.5, 5)), q(rng.uniform(0.001, 1))))
        out[d] = (q(10 ** rng.uniform(0.5, 5.1)), q(rng.integers(1, 15)) if rng.random() < 0.8 else q(rng.uniform(0.5, 10)), tr)
    if rng.random() < 0.4:
        order = list(out)
        rng.shuffle(order)
        out = {d: out[d] for d in order}
    return out


def check_relaxation(case, got, want, rtol=1e-12):
    case.equal(sorted(got.binding_energy), sorted(SHELLS[d - 1] for d in want), 'subshells with binding energies')
    case.equal(sorted(got.num_electrons), sorted(SHELLS[d - 1] for d in want), 'subshells with electrons')
    case.equal(sorted(got.transitions), sorted(SHELLS[d - 1] for d in want if want[d][2]), 'subshells with transitions')
    case.equal(list(got.subshells), sorted(SHELLS[d - 1] for d in want), 'names of the subshells')
    for d, (b, n, tr) in want.items():
        s = SHELLS[d - 1]
        case.close_to(float(got.binding_energy[s]), b, f'binding energy of {s}', rtol=rtol)
        case.close_to(float(got.num_electrons[s]), n, f'electrons of {s}', rtol=1e-12)
        case.event('subshells')
        if not tr:
            continue
        df = got.transitions[s]
        case.equal(len(df), len(tr), f'number of transitions of {s}')
        case.equal(sorted(df.columns), ['energy (eV)', 'probability', 'secondary', 'tertiary'], f'columns of the transitions of {s}')
        df = df[['secondary', 'tertiary', 'energy (eV)', 'probability']]
        for (j, k, e, f), row in zip(tr, df.itertuples(index=False)):
            w = (SHELLS[j - 1], SHELLS[k - 1] if k else None)
            case.check((row[0], row[1]) == w, f'shells of a transition of {s}', got=[row[0], row[1]], want=w)
            case.close_to([float(row[2]), float(row[3])], [e, f], f'energy and probability of a transition of {s}', rtol=max(rtol, 1e-7 if rtol > 1e-12 else 0))
            case.event('transitions')
            case.event('nonradiative' if k else 'radiative')


_files = {}


def reference(Z):
    """Compton, stopping power and bremsstrahlung data of the tree, read here."""
    import h5py
    from scipy.interpolate import make_interp_spline
    d = os.path.join(REPO, 'ASAPy', 'data')
    out = {}
    with h5py.File(os.path.join(d, 'compton_profiles.h5'), 'r') as f:
        g = f[f'{Z:03d}']
        out['compton'] = (np.array(f['pz']), np.array(g['num_electrons']), np.array(g['binding_energy']) * 1e6, np.array(g['J']))
    if Z < 99:
        with h5py.File(os.path.join(d, 'stopping_powers.h5'), 'r') as f:
            g = f[f'{Z:03d}']
            out['stopping'] = (np.array(f['energy']) * 1e6, float(g.attrs['I']), np.array(g['s_collision']) * 1e6, np.array(g['s_radiative']) * 1e6)
    if 'brem' not in _files:
        with open(os.path.join(d, 'BREMX.DAT')) as f:
            _files['brem'] = f.read().split()
    w = _files['brem']
    n, k = int(w[37]), int(w[38])
    e = np.array(w[39:39 + n], float) * 1e6
    ph = np.array(w[39 + n:39 + n + k], float)
    p = 39 + n + k + (Z - 1) * n * k
    y = np.array(w[p:p + n * k], float).reshape(n, k) * 1e-3
    grid = 10 ** np.linspace(3, 9, 200)
    out['brem'] = (grid, ph, make_interp_spline(np.log(e), y, k=3)(np.log(grid)))
    return out


def check_tree_data(case, d, Z):
    ref = reference(Z)
    pz, n, b, J = ref['compton']
    c = d.compton_profiles
    case.close_to(np.asarray(c['num_electrons'], float), n, 'electrons of the Compton profiles', rtol=1e-12)
    case.close_to(np.asarray(c['binding_energy'], float), b, 'binding energies of the Compton profiles', rtol=1e-12)
    case.equal(len(c['J']), len(J), 'number of Compton profiles')
    for g, w in zip(c['J'], J):
        case.close_to(np.asarray(g.x, float), pz, 'momenta of a Compton profile', rtol=1e-12)
        case.close_to(np.asarray(g.y, float), w, 'a Compton profile', rtol=1e-12)
        case.event('compton')
    if Z < 99:
        e, I, sc, sr = ref['stopping']
        s = d.stopping_powers
        case.close_to(np.asarray(s['energy'], float), e, 'energies of the stopping powers', rtol=1e-12)
        case.close_to(float(s['I']), I, 'mean excitation energy', rtol=1e-12)
        case.close_to(np.asarray(s['s_collision'], float), sc, 'collision stopping power', rtol=1e-12)
        case.close_to(np.asarray(s['s_radiative'], float), sr, 'radiative stopping power', rtol=1e-12)
        case.event('stopping')
    else:
        case.equal(len(d.stopping_powers), 0, 'stopping powers of an element without them')
    e, ph, dcs = ref['brem']
    b = d.bremsstrahlung
    case.close_to(np.asarray(b['electron_energy'], float), e, 'electron energies of bremsstrahlung', rtol=1e-10)
    case.close_to(np.asarray(b['photon_energy'], float), ph, 'photon energies of bremsstrahlung', rtol=1e-12)
    case.close_to(np.asarray(b['dcs'], float), dcs, 'cross-sections of bremsstrahlung', rtol=1e-9, atol=1e-12 * np.abs(dcs).max())
    case.event('bremsstrahlung')


def check_export(case, path, Z, xs, ff, relax, data, rtol=1e-12):
    """The file against the tables xs {mt: tab}."""
    import h5py
    grid = np.unique(np.concatenate([t[0] for t in xs.values()]))
    with h5py.File(path, 'r') as f:
        case.equal(bytes(f.attrs['filetype']), b'data_photon', 'type of the file')
        g = f[SYM[Z]]
        case.equal(int(g.attrs['Z']), Z, 'Z of the file')
        e = g['energy'][()]
        case.close_to(e, grid, 'the energies of the file are those of all reactions', rtol=rtol)
        for mt, name in ((502, 'coherent'), (504, 'incoherent'), (515, 'pair_production_electron'), (517, 'pair_production_nuclear'), (522, 'photoelectric')):
            case.equal(name in g, mt in xs, f'{name} is stored if it is there')
            if mt in xs:
                want = on(xs[mt], grid)
                case.close_to(g[name]['xs'][()], want, f'stored cross-section of {name}', rtol=1e-9)
                case.event('grid_values', len(grid))
        if 502 in ff:
            t = ff[502]
            x2, y2 = t[0] ** 2, (t[1] / Z) ** 2
            parts = [area(x2[i], x2[i + 1], y2[i], y2[i + 1], lawof(i, t[2], t[3])) if x2[i + 1] > x2[i] else 0.0 for i in range(len(x2) - 1)]
            h = g['coherent/integrated_scattering_factor'][()]
            case.close_to(h[0], x2, 'squares of the arguments of the form factor', rtol=1e-10)
            want = np.concatenate([[0.0], np.cumsum(parts)])
            case.close_to(h[1], want, 'integrated form factor', rtol=1e-8, atol=1e-12 * abs(want[-1]))
            case.event('integrated')
        if 504 in ff:
            h = g['incoherent/scattering_factor']
            case.close_to(h[()][0], ff[504][0], 'arguments of the stored scattering function', rtol=1e-12)
            case.close_to(h[()][1], ff[504][1], 'stored scattering function', rtol=1e-12)
            case.equal([[int(v) for v in h.attrs['breakpoints']], [int(v) for v in h.attrs['interpolation']]], [list(ff[504][2]), list(ff[504][3])], 'regions of the stored scattering function') if len(ff[504][2]) else None
        for k, mt in (('anomalous_real', 506), ('anomalous_imag', 505)):
            case.equal(k in g['coherent'], mt in ff, f'{k} is stored if it is there')
            if mt in ff:
                case.close_to(g['coherent'][k][()], np.array(ff[mt][:2]), f'stored {k}', rtol=1e-12)
        mts = [mt for mt in xs if 534 <= mt <= 572]
        case.equal([v.decode() for v in g['subshells'].attrs['designators']], [SHELLS[mt - 534] for mt in mts], 'stored subshells')
        case.equal(sorted(g['subshells']), sorted(SHELLS[mt - 534] for mt in mts), 'stored subshells')
        for mt in mts:
            s = g['subshells'][SHELLS[mt - 534]]
            i = int(s['xs'].attrs['threshold_idx'])
            case.close_to(grid[i], xs[mt][0][0], 'energy at which a subshell begins', rtol=1e-10)
            case.close_to(s['xs'][()], on(xs[mt], grid[i:]), 'stored cross-section of a subshell', rtol=1e-9)
            case.event('shell_values', len(grid) - i)
            case.equal('binding_energy' in s.attrs, relax is not None, 'binding energy is stored with the relaxation data')
            if relax is not None:
                b, n, tr = relax[mt - 533]
                case.close_to([float(s.attrs['binding_energy']), float(s.attrs['num_electrons'])], [b, n], 'stored binding energy and number of electrons', rtol=1e-9)
                case.equal('transitions' in s, bool(tr), 'transitions are stored if there are any')
                if tr:
                    case.close_to(np.asarray(s['transitions'][()], float), np.array(tr, float), 'stored transitions', rtol=1e-7 if rtol > 1e-12 else 1e-12)
                    case.event('stored_transitions', len(tr))
        c = data.compton_profiles
        case.equal('compton_profiles' in g, bool(c), 'Compton profiles are stored if they are there')
        if c:
            h = g['compton_profiles']
            case.close_to(h['num_electrons'][()], np.asarray(c['num_electrons'], float), 'stored electrons of the profiles', rtol=1e-12)
            case.close_to(h['binding_energy'][()], np.asarray(c['binding_energy'], float), 'stored binding energies of the profiles', rtol=1e-12)
            case.close_to(h['pz'][()], np.asarray(c['J'][0].x, float), 'stored momenta', rtol=1e-12)
            case.close_to(h['J'][()], np.array([v.y for v in c['J']], float), 'stored profiles', rtol=1e-12)
        case.equal('stopping_powers' in g, bool(data.stopping_powers), 'stopping powers are stored if they are there')
        if data.stopping_powers:
            h = g['stopping_powers']
            case.close_to(float(h.attrs['I']), float(data.stopping_powers['I']), 'stored mean excitation energy', rtol=1e-12)
            for k in ('energy', 's_collision', 's_radiative'):
                case.close_to(h[k][()], np.asarray(data.stopping_powers[k], float), f'stored {k}', rtol=1e-12)
        case.equal('bremsstrahlung' in g, bool(data.bremsstrahlung), 'bremsstrahlung is stored if it is there')
        if data.bremsstrahlung:
            for k in ('electron_energy', 'photon_energy', 'dcs'):
                case.close_to(g['bremsstrahlung'][k][()], np.asarray(data.bremsstrahlung[k], float), f'stored {k}', rtol=1e-12)
    case.event('exported')


def one_evaluation(case, Z):
    from ASAPy.data import endf, photon as mod
    rng = case.rng
    m = eg.Material(mat=90 * Z + 7, za=1000 * Z, awr=q(Z * 2.4), nsub=3)
    ns = int(rng.integers(0, 11)) if rng.random() < 0.95 else 39
    relax = relaxation(rng, Z, ns)
    with_relax = rng.random() < 0.8
    e0 = 1.0
    xs, ff = {}, {}
    xs[502] = tab(rng, e0, 1e11)
    xs[504] = tab(rng, e0, 1e11)
    if rng.random() < 0.8:
        xs[515] = tab(rng, q(rng.uniform(2.05e6, 3e6)), 1e11)
    xs[516] = tab(rng, q(1.022e6), 1e11)
    if rng.random() < 0.8:
        xs[517] = tab(rng, q(rng.uniform(1.03e6, 1.5e6)), 1e11)
    xs[522] = tab(rng, e0, 1e11, steps=rng.random() < 0.6)
    if rng.random() < 0.5:
        xs[501] = tab(rng, e0, 1e11)
    yld = {}
    for d in relax:
        xs[533 + d] = tab(rng, relax[d][0], 1e11)
        yld[533 + d] = q(rng.uniform(0, 1)) if rng.random() < 0.7 else 0.0
    xs = dict(sorted(xs.items()))
    if rng.random() < 0.9:
        ff[502] = tab(rng, 1e-3, 1e9, ylo=1e-6, yhi=Z)
    if rng.random() < 0.9:
        ff[504] = tab(rng, 1e-3, 1e9, ylo=1e-6, yhi=Z)
    for mt in (505, 506):
        if rng.random() < 0.7:
            ff[mt] = tab(rng, 1.0, 1e7, laws=(2, 3))
    for mt, t in xs.items():
        c1, c2 = (relax[mt - 533][0], yld[mt]) if mt >= 534 else (0.0, 0.0)
        m.add(23, mt, [eg.cont(rng, m.za, m.awr, 0, 0, 0, 0)] + eg.tab1_record(rng, c1, c2, 0, 0, t[2], t[3], t[0], t[1]))
    for mt, t in ff.items():
        m.add(27, mt, [eg.cont(rng, m.za, m.awr, 0, 0, 0, 0)] + eg.tab1_record(rng, 0.0, float(Z), 0, 0, t[2], t[3], t[0], t[1]))
    text = eg.tape([m])
    mr = eg.Material(mat=90 * Z + 7, za=1000 * Z, awr=q(Z * 2.4), nsub=6)
    out = [eg.cont(rng, m.za, m.awr, 0, 0, len(relax), 0)]
    for d, (b, n, tr) in relax.items():
        v = [b, n, 0.0, 0.0, 0.0, 0.0]
        for t in tr:
            v += [float(t[0]), float(t[1]), t[2], t[3], 0.0, 0.0]
        out += eg.list_record(rng, float(d), 0.0, 0, 0, len(tr), v)
    mr.add(28, 533, out)
    rtext = eg.tape([mr])
    case.input(Z=Z, photoatomic=text[:30000], relaxation=rtext[:10000])
    p, pr = case.path(f'photoat{Z}'), case.path(f'relax{Z}')
    with open(p, 'w') as f:
        f.write(text)
    with open(pr, 'w') as f:
        f.write(rtext)
    with quiet():
        a = p if rng.random() < 0.5 else endf.Evaluation(p)
        b = pr if rng.random() < 0.5 else endf.Evaluation(pr)
        if with_relax:
            d = mod.IncidentPhoton.from_endf(a, b)
        else:
            d = mod.IncidentPhoton.from_endf(a)
    case.event('evaluations')
    case.event('without_relaxation', int(not with_relax))
    case.equal([int(d.atomic_number), d.name], [Z, SYM[Z]], 'the element')
    case.equal(sorted(int(v) for v in d.reactions), sorted(xs), 'reactions')
    case.equal([rx.mt for rx in d], [int(v) for v in d.reactions], 'going through the reactions')
    for mt in xs:
        case.check(mt in d, f'MT {mt} is not there')
        rx = d[mt]
        case.equal(int(rx.mt), mt, 'MT')
        same(case, rx.xs, xs[mt], f'cross-section of MT {mt}')
        if 534 <= mt:
            case.close_to([float(rx.subshell_binding_energy), float(rx.fluorescence_yield)], [relax[mt - 533][0], yld[mt]], 'binding energy and fluorescence yield of a subshell', rtol=1e-12)
        if mt in (502, 504) and mt in ff:
            same(case, rx.scattering_factor, ff[mt], f'form factor of MT {mt}')
            case.event('form_factors')
        else:
            case.check(rx.scattering_factor is None, 'a form factor that is not in the file')
        for k, fm in (('anomalous_imag', 505), ('anomalous_real', 506)):
            if mt == 502 and fm in ff:
                same(case, getattr(rx, k), ff[fm], k)
                case.event('anomalous')
            else:
                case.check(getattr(rx, k) is None, f'{k} that is not in the file')
    case.check(999 not in d, 'a reaction that is not in the file')
    case.raises(lambda: d[999], 'a reaction that is not in the file', allowed=(KeyError,))
    case.event('refused')
    if with_relax:
        check_relaxation(case, d.atomic_relaxation, relax)
    else:
        case.check(d.atomic_relaxation is None, 'relaxation data from nowhere')
    check_tree_data(case, d, Z)
    return d, xs, ff, relax if with_relax else None, pr, p


def evaluation(case):
    from ASAPy.data import photon as mod
    rng = case.rng
    zs = [int(rng.integers(1, 101)) if case.index > 5 else [1, 100, 99, 98, 97, 2][case.index]]
    if rng.random() < 0.35:
        zs.append(zs[0] % 100 + 1)
    made = [(Z,) + one_evaluation(case, Z) for Z in zs]
    case.sig(zs, [float(v) for m in made for v in m[2][502][1]])
    h = case.path('photon.h5')
    if rng.random() < 0.2:
        with quiet():
            made[-1][1].export_to_hdf5(h)           # an older file, to be replaced
            made[0][1].export_to_hdf5(h, mode='w', **({'libver': 'latest'} if rng.random() < 0.5 else {}))
        check_export(case, h, *[made[0][i] for i in (0, 2, 3, 4)], made[0][1])
        import h5py
        with h5py.File(h, 'r') as f:
            case.equal(list(f), [SYM[zs[0]]], 'elements of the replaced file')
        os.remove(h)
        case.event('replaced')
    for Z, d, *_ in made:
        with quiet():
            d.export_to_hdf5(h, 'a') if rng.random() < 0.5 or len(zs) > 1 else d.export_to_hdf5(h, mode='w')
        case.event('elements')
    for Z, d, xs, ff, relax, pr, p in made:
        check_export(case, h, Z, xs, ff, relax, d)
        for mt, t in xs.items():
            same(case, d[mt].xs, t, f'cross-section of MT {mt} after the export')
        for mt in (502, 504):
            if mt in ff:
                same(case, d[mt].scattering_factor, ff[mt], f'form factor of MT {mt} after the export')
        if relax is not None:
            check_relaxation(case, d.atomic_relaxation, relax)
    case.event('two_elements', int(len(zs) > 1))
    with quiet():
        case.raises(lambda: mod.AtomicRelaxation.from_endf(made[0][-1]), 'relaxation data of a file that has none', allowed=(IOError,))
    if case.index < 2:
        case.sample(Z=zs, reactions=sorted(made[0][2]))


class Photon(acegen.Ace):
    """A photoatomic table."""
    def xss(self):
        x, nxs, jxs = [], [0] * 16, [0] * 32

        def here():
            return len(x) + 1

        def put(v):
            x.extend(float(w) for w in np.ravel(v))
        nxs[1], nxs[2] = self.Z, len(self.e)
        jxs[0] = here()
        put(self.e)
        for k in (504, 502, 522, 515):
            put(self.logxs[k])
        jxs[1] = here()
        if self.new:
            put(self.inc[0])
        put(self.inc[1])
        jxs[2] = here()
        if self.new:
            put(self.coh[0])
        put(self.coh[2])
        put(self.coh[1])
        jxs[3] = here()
        put(self.flo)
        nxs[3] = len(self.flo) // 4
        jxs[4] = here()
        put([1.0])
        nxs[4] = len(self.prof)
        if self.prof:
            jxs[5] = here()
            put(self.ne)
            jxs[6] = here()
            put(self.be)
            jxs[7] = here()
            put(np.full(len(self.prof), 1.0 / len(self.prof)))
            jxs[8] = here()
            loc, p = [], 1
            for law, pz, pdf in self.prof:
                loc.append(p)
                p += 2 + 3 * len(pz)
            put(loc)
            jxs[9] = here()
            for law, pz, pdf in self.prof:
                put([law, len(pz)])
                put(pz)
                put(pdf)
                put(np.cumsum(pdf))
        nxs[5] = 1 if self.new else 0
        nxs[6] = len(self.relax)
        if self.relax:
            D = list(self.relax)
            jxs[10] = here()
            put(D)
            jxs[11] = here()
            put([self.relax[d][1] for d in D])
            jxs[12] = here()
            put([self.relax[d][0] for d in D])
            jxs[13] = here()
            put(np.zeros(len(D)))
            jxs[14] = here()
            put([len(self.relax[d][2]) for d in D])
            jxs[15] = here()
            for d in D:
                put(self.subxs[d])
            jxs[17] = here()
            for d in D:
                c = 0.0
                for j, k, e, f in self.relax[d][2]:
                    c += f
                    put([j, k, e, c])
        nxs[0] = len(x)
        return nxs, jxs, x


def log_xs(rng, n):
    v = r(rng.uniform(-12, 12, n))
    v[np.abs(v) < 1e-3] = 0.5
    if rng.random() < 0.4:
        v[int(rng.integers(0, n))] = float(rng.choice([1e-4, -3e-6, 2e-5]))
    if rng.random() < 0.5:
        v[:int(rng.integers(0, n))] = 0.0
    return v


def table(case):
    from ASAPy.data import ace as acemod, photon as mod
    rng = case.rng
    Z = int(rng.integers(1, 101))
    t = Photon(f'{1000 * Z}.{rng.choice(["84p", "12p", "04p", "00p"])}', q(2.4 * Z), 0.0)
    t.Z = Z
    n = int(rng.integers(2, 40))
    t.e = np.unique(r(rng.uniform(-6.9, 11.5, n)))
    n = len(t.e)
    t.logxs = {k: log_xs(rng, n) for k in (502, 504, 515, 522)}
    t.new = bool(rng.random() < 0.5)
    case.event('new_format' if t.new else 'old_format')
    xi = np.unique(np.concatenate([[0.0], r(10 ** rng.uniform(-3, 3, int(rng.integers(1, 30))))])) if t.new else np.array(X_INC)
    xc = np.unique(np.concatenate([[0.0], r(10 ** rng.uniform(-3, 3, int(rng.integers(1, 30))))])) if t.new else np.array(X_COH)
    t.inc = (xi, r(np.sort(rng.uniform(0, Z, len(xi)))))
    t.coh = (xc, r(np.sort(rng.uniform(0, Z, len(xc)))[::-1]), r(np.sort(rng.uniform(0, Z * Z, len(xc)))))
    t.flo = r(rng.uniform(0, 1, 4 * int(rng.integers(0, 5))))
    t.prof = []
    if rng.random() < 0.8:
        pz = np.concatenate([[0.0], np.cumsum(r(rng.uniform(0.05, 2, int(rng.integers(1, 30)))))])
        pz = r(pz)
        for _ in range(int(rng.integers(1, 12))):
            if rng.random() < 0.15:
                pz = r(np.concatenate([[0.0], np.cumsum(rng.uniform(0.05, 2, len(pz) - 1))]))
            t.prof.append((int(rng.choice([1, 2, 4])), pz, r(rng.uniform(1e-4, 1, len(pz)))))
        t.ne = r(rng.integers(1, 15, len(t.prof)))
        t.be = r(10 ** rng.uniform(-6, -1, len(t.prof)))
    t.relax = {d: (float(r(b * 1e-6)), k, [(j, l, float(r(e * 1e-6)), f) for j, l, e, f in tr]) for d, (b, k, tr) in relaxation(rng, Z, int(rng.integers(1, 9))).items()} if t.new else {}
    t.subxs = {d: log_xs(rng, n) for d in t.relax}
    text = t.text()
    case.input(Z=Z, text=text[:20000])
    case.sig(text[-3000:])
    p = case.path('p.ace')
    with open(p, 'w') as f:
        f.write(text)
    with quiet():
        if rng.random() < 0.5:
            d = mod.IncidentPhoton.from_ace(p)
        else:
            tb = acemod.get_table(p)
            before = np.array(tb.xss)
            d = mod.IncidentPhoton.from_ace(tb)
            case.check(np.array_equal(before, tb.xss), 'the table is another one after it was read')
            if rng.random() < 0.5:
                d = mod.IncidentPhoton.from_ace(tb)
                case.event('read_again')
    case.event('tables')
    case.equal([int(d.atomic_number), d.name], [Z, SYM[Z]], 'the element')
    e = np.exp(t.e) * 1e6

    def xs_of(v):
        return np.where(v == 0.0, 0.0, np.exp(v))
    xs = {k: (e, xs_of(t.logxs[k]), [n], [5]) for k in (502, 504, 515, 522)}
    for s in t.relax:
        xs[533 + s] = (e, xs_of(t.subxs[s]), [n], [5])
    case.equal(sorted(int(v) for v in d.reactions), sorted(xs), 'reactions of the table')
    for mt, w in xs.items():
        case.close_to(np.asarray(d[mt].xs.x, float), w[0], f'energies of MT {mt}', rtol=1e-9)
        case.close_to(np.asarray(d[mt].xs.y, float), w[1], f'cross-section of MT {mt}', rtol=1e-9)
        case.equal([int(v) for v in d[mt].xs.interpolation], [5], 'law of the cross-section')
        if mt >= 534:
            case.close_to(float(d[mt].subshell_binding_energy), t.relax[mt - 533][0] * 1e6, 'binding energy of a subshell', rtol=1e-9)
    for mt, w in ((502, t.coh), (504, t.inc)):
        g = d[mt].scattering_factor
        case.close_to(np.asarray(g.x, float), w[0], f'arguments of the form factor of MT {mt}', rtol=1e-9)
        case.close_to(np.asarray(g.y, float), w[1], f'form factor of MT {mt}', rtol=1e-9)
        case.event('form_factors')
    if t.prof:
        c = d.compton_profiles
        case.close_to(np.asarray(c['num_electrons'], float), t.ne, 'electrons of the profiles', rtol=1e-9)
        case.close_to(np.asarray(c['binding_energy'], float), t.be * 1e6, 'binding energies of the profiles', rtol=1e-9)
        case.equal(len(c['J']), len(t.prof), 'number of profiles')
        for g, (law, pz, pdf) in zip(c['J'], t.prof):
            case.close_to(np.asarray(g.x, float), pz, 'momenta of a profile', rtol=1e-9)
            case.close_to(np.asarray(g.y, float), pdf, 'a profile', rtol=1e-9)
            case.equal([int(v) for v in g.interpolation], [law], 'law of a profile')
            case.event('compton')
    else:
        case.equal(len(d.compton_profiles), 0, 'profiles from nowhere')
    relax = {k: (b * 1e6, m, [(j, l, en * 1e6, f) for j, l, en, f in tr]) for k, (b, m, tr) in t.relax.items()}
    if relax:
        check_relaxation(case, d.atomic_relaxation, relax, rtol=1e-7)
    else:
        case.check(d.atomic_relaxation is None, 'relaxation data from nowhere')
    case.raises(lambda: mod.PhotonReaction.from_ace(acemod.get_table(p), 501), 'a reaction that is not in the table', allowed=(ValueError,))
    h = case.path('p.h5')
    with quiet():
        d.export_to_hdf5(h)
    grid_xs = {mt: (np.asarray(d[mt].xs.x), w[1], w[2], w[3]) for mt, w in xs.items()}
    check_export(case, h, Z, grid_xs, {502: (t.coh[0], t.coh[1], [len(t.coh[0])], [2]), 504: (t.inc[0], t.inc[1], [len(t.inc[0])], [2])}, relax or None, d, rtol=1e-9)


WORKLOADS = [Workload('evaluation', evaluation, 70, 1500), Workload('table', table, 60, 1500)]
