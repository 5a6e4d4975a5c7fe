"""C33: names, masses, abundances, water and lists of libraries."""
import json
import math
import os
import re
import warnings
import xml.etree.ElementTree as ET

import numpy as np

from ..core import Workload, quiet, REPO

ID = 'C33'
RULE = ('every nuclide of the mass evaluation in the tree (masses also against the mass excess printed beside them), every element with natural isotopes against an independent table of standard atomic weights, '
        'every Z with A and state drawn, in any order and case of a first call; water at random temperatures and pressures against the IAPWS-IF97 formulation and its published verification values, '
        'warnings included; collections of 0-8 HDF5 files in one or several folders, by relative or absolute path, written to and read from XML beside or apart from them, under a current folder that is '
        'changed between; non-trivial = at least one nuclide, state point or file; distinct by the drawn inputs')
EXPECT = {'masses': 3000, 'excess': 2900, 'metastable_mass': 300, 'weights': 80, 'natural_masses': 5, 'names': 1000, 'metastable': 300, 'bad_names': 40, 'water': 300, 'verification': 3, 'warned': 60, 'silent': 100,
          'libraries': 60, 'apart': 10, 'beside': 7, 'relative': 20, 'absolute': 20, 'several_folders': 15, 'found': 100, 'not_found': 60, 'other_cwd': 15, 'environment': 8, 'no_file': 8}

SYMBOLS = ('n H He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co Ni Cu Zn Ga Ge As Se Br Kr Rb Sr Y Zr Nb Mo Tc Ru Rh Pd Ag Cd In Sn Sb Te I Xe Cs Ba La Ce Pr Nd Pm Sm Eu Gd Tb Dy Ho Er Tm Yb Lu Hf Ta W '
           'Re Os Ir Pt Au Hg Tl Pb Bi Po At Rn Fr Ra Ac Th Pa U Np Pu Am Cm Bk Cf Es Fm Md No Lr Rf Db Sg Bh Hs Mt Ds Rg Cn Nh Fl Mc Lv Ts Og').split()
# conventional standard atomic weights
WEIGHT = {'H': 1.008, 'He': 4.0026, 'Li': 6.94, 'Be': 9.01218, 'B': 10.81, 'C': 12.011, 'N': 14.007, 'O': 15.999, 'F': 18.9984, 'Ne': 20.1797, 'Na': 22.98977, 'Mg': 24.305, 'Al': 26.98154, 'Si': 28.085, 'P': 30.97376, 'S': 32.06,
          'Cl': 35.45, 'Ar': 39.948, 'K': 39.0983, 'Ca': 40.078, 'Sc': 44.95591, 'Ti': 47.867, 'V': 50.9415, 'Cr': 51.9961, 'Mn': 54.93804, 'Fe': 55.845, 'Co': 58.93319, 'Ni': 58.6934, 'Cu': 63.546, 'Zn': 65.38, 'Ga': 69.723,
          'Ge': 72.63, 'As': 74.9216, 'Se': 78.971, 'Br': 79.904, 'Kr': 83.798, 'Rb': 85.4678, 'Sr': 87.62, 'Y': 88.90584, 'Zr': 91.224, 'Nb': 92.90637, 'Mo': 95.95, 'Ru': 101.07, 'Rh': 102.9055, 'Pd': 106.42, 'Ag': 107.8682,
          'Cd': 112.414, 'In': 114.818, 'Sn': 118.71, 'Sb': 121.76, 'Te': 127.6, 'I': 126.90447, 'Xe': 131.293, 'Cs': 132.90545, 'Ba': 137.327, 'La': 138.90547, 'Ce': 140.116, 'Pr': 140.90766, 'Nd': 144.242, 'Sm': 150.36,
          'Eu': 151.964, 'Gd': 157.25, 'Tb': 158.92535, 'Dy': 162.5, 'Ho': 164.93033, 'Er': 167.259, 'Tm': 168.93422, 'Yb': 173.045, 'Lu': 174.9668, 'Hf': 178.49, 'Ta': 180.94788, 'W': 183.84, 'Re': 186.207, 'Os': 190.23,
          'Ir': 192.217, 'Pt': 195.084, 'Au': 196.96657, 'Hg': 200.592, 'Tl': 204.38, 'Pb': 207.2, 'Bi': 208.9804, 'Th': 232.0377, 'Pa': 231.03588, 'U': 238.02891}


# isotopic compositions of the elements (IUPAC 2009), recorded once; the checks below hold them against sums and standard weights
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'data', 'abundance.json')) as _f:
    ABUNDANCE = json.load(_f)


def evaluation():
    """{name: (mass, mass excess in keV, Z, A)}"""
    out = {}
    with open(os.path.join(REPO, 'ASAPy', 'data', 'mass.mas12')) as f:
        for line in f:
            r = re.match(r'^[01 ][ -]?\s*-?\d+\s+(\d+)\s+(\d+)\s+(\d+) ([A-Za-z]{1,2})\s', line)
            if not r:
                continue
            m = re.search(r'(\d+) (\d+)(?:\.(\d+))?#?\s+[\d.]+#?\s*$', line)
            x = re.search(r'(-?[\d.]+)#?\s+[\d.]+#?', line[28:])
            N, Z, A = (int(v) for v in r.groups()[:3])
            if not m or N + Z != A:
                continue
            out[f'{r.group(4)}{A}'] = (int(m.group(1)) + (int(m.group(2)) + float('0.' + (m.group(3) or '0'))) * 1e-6, float(x.group(1)), Z, A)
    return out


def masses(case):
    from ASAPy.data import data as mod
    rng = case.rng
    ref = evaluation()
    case.check(len(ref) > 3000, 'cannot read the mass evaluation', n=len(ref))
    case.input(n=len(ref))
    case.sig(case.index)
    names = sorted(ref)
    rng.shuffle(names)
    if rng.random() < 0.5:
        mod.atomic_weight('U')
    for n in names:
        m, x, Z, A = ref[n]
        ask = n
        k = rng.random()
        if k < 0.15:
            ask += f'_m{int(rng.integers(1, 4))}' if rng.random() < 0.7 else f'_e{int(rng.integers(1, 12))}'
            case.event('metastable_mass')
        got = float(mod.atomic_mass(ask))
        case.check(abs(got - m) < 1e-9 * max(1, m), f'atomic mass of {ask}', got=got, want=m)
        case.check(abs(got - (A + x / 931494.061)) < 3e-6, f'atomic mass of {ask} and its mass excess', got=got, want=A + x / 931494.061)
        case.event('masses')
        case.event('excess')
    ab = mod.NATURAL_ABUNDANCE
    case.equal({k: float(v) for k, v in ab.items()}, ABUNDANCE, 'natural abundances')
    el = {}
    for k, v in ab.items():
        s = re.fullmatch(r'([A-Z][a-z]?)(\d+)(_m1)?', k)
        case.check(s is not None, f'a name with natural abundance: {k}')
        case.check(0 < float(v) <= 1, f'abundance of {k}', got=v)
        el.setdefault(s.group(1), {})[k] = float(v)
    case.equal(sorted(el), sorted(WEIGHT), 'elements found in nature')
    for e, d in el.items():
        case.check(abs(sum(d.values()) - 1) < 2e-5, f'abundances of {e} do not add up to one', got=sum(d.values()))
        w = float(mod.atomic_weight(e))
        case.close_to(w, math.fsum(v * ref[k.split('_')[0]][0] for k, v in d.items()), f'atomic weight of {e}', rtol=1e-12)
        case.check(abs(w - WEIGHT[e]) < 6e-4 * WEIGHT[e], f'atomic weight of {e} differs from the standard one', got=w, want=WEIGHT[e])
        case.event('weights')
    for e in ('C', 'Zn', 'Pt', 'Os', 'Tl'):
        case.close_to(float(mod.atomic_mass(e + '0')), float(mod.atomic_weight(e)), f'mass of natural {e}', rtol=1e-12)
        case.event('natural_masses')
    for e in ('Tc', 'Pu', 'Xx', 'n'):
        case.raises(lambda: mod.atomic_weight(e), f'atomic weight of {e}, which has no natural isotopes', allowed=(ValueError,))


def names(case):
    from ASAPy.data import data as mod
    rng = case.rng
    case.equal([mod.ATOMIC_SYMBOL[i] for i in range(119)], SYMBOLS, 'symbols of the elements')
    case.equal([mod.ATOMIC_NUMBER[s] for s in SYMBOLS], list(range(119)), 'numbers of the elements')
    seen = {}
    for _ in range(60):
        Z = int(rng.integers(0, 119))
        A = int(rng.choice([0, 1, int(rng.integers(1, 300))]))
        m = int(rng.choice([0, 0, 1, 2, 11]))
        n = mod.gnd_name(Z, A, m) if m or rng.random() < 0.5 else mod.gnd_name(Z, A)
        case.equal(n, f'{SYMBOLS[Z]}{A}' + (f'_m{m}' if m else ''), 'name of a nuclide')
        case.equal(tuple(int(v) for v in mod.zam(n)), (Z, A, m), f'what the name {n} means')
        case.check(seen.setdefault(n, (Z, A, m)) == (Z, A, m), 'two nuclides of one name', name=n)
        case.event('names')
        case.event('metastable', int(m > 0))
        e = int(rng.integers(1, 20))
        case.equal(tuple(int(v) for v in mod.zam(f'{SYMBOLS[Z]}{A}_e{e}')), (Z, A, e), 'an excited level')
    case.sig(sorted(seen))
    case.input(names=sorted(seen)[:10])
    for bad in ('', '235', '_m1', 'U', 'u235', '92235', 'Am_m1', 'U235_', 'U235_m', 'U235_m1x', 'U235m', 'U235_g', 'Am242_m1 2', 'c_U235', 'Xx12', 'Uu4'):
        case.raises(lambda: mod.zam(bad), f'{bad!r} is taken for a nuclide', allowed=(ValueError, KeyError))
        case.event('bad_names')
    for k, v in (('K_BOLTZMANN', 8.6173303e-5), ('EV_PER_MEV', 1e6), ('JOULE_PER_EV', 1.6021766208e-19), ('AVOGADRO', 6.022140857e23), ('NEUTRON_MASS', 1.00866491588)):
        case.close_to(float(getattr(mod, k)), v, f'{k} (CODATA 2014)', rtol=1e-10)


# IAPWS R7-97(2012), table 2: I, J, n
IF97 = '''0 -2 0.14632971213167 0 -1 -0.84548187169114 0 0 -0.37563603672040e1 0 1 0.33855169168385e1 0 2 -0.95791963387872 0 3 0.15772038513228 0 4 -0.16616417199501e-1 0 5 0.81214629983568e-3
1 -9 0.28319080123804e-3 1 -7 -0.60706301565874e-3 1 -1 -0.18990068218419e-1 1 0 -0.32529748770505e-1 1 1 -0.21841717175414e-1 1 3 -0.52838357969930e-4 2 -3 -0.47184321073267e-3 2 0 -0.30001780793026e-3
2 1 0.47661393906987e-4 2 3 -0.44141845330846e-5 2 17 -0.72694996297594e-15 3 -4 -0.31679644845054e-4 3 0 -0.28270797985312e-5 3 6 -0.85205128120103e-9 4 -5 -0.22425281908000e-5 4 -2 -0.65171222895601e-6
4 10 -0.14341729937924e-12 5 -8 -0.40516996860117e-6 8 -11 -0.12734301741641e-8 8 -6 -0.17424871230634e-9 21 -29 -0.68762131295531e-18 23 -31 0.14478307828521e-19 29 -38 0.26335781662795e-22 30 -39 -0.11947622640071e-22
31 -40 0.18228094581404e-23 32 -41 -0.93537087292458e-25'''.split()
IF97 = [(int(IF97[i]), int(IF97[i + 1]), float(IF97[i + 2])) for i in range(0, len(IF97), 3)]


def rho(T, p):
    pi, tau = p / 16.53, 1386.0 / T
    g = math.fsum(-n * I * (7.1 - pi) ** (I - 1) * (tau - 1.222) ** J for I, J, n in IF97 if I)
    return 16.53 / (0.461526 * T * g)


def p_sat(T):
    """Saturation pressure (region 4), MPa."""
    n = [0.11670521452767e4, -0.72421316703206e6, -0.17073846940092e2, 0.12020824702470e5, -0.32325550322333e7, 0.14915108613530e2, -0.48232657361591e4, 0.40511340542057e6, -0.23855557567849, 0.65017534844798e3]
    th = T + n[8] / (T - n[9])
    A, B, C = th * th + n[0] * th + n[1], n[2] * th * th + n[3] * th + n[4], n[5] * th * th + n[6] * th + n[7]
    return (2 * C / (-B + math.sqrt(B * B - 4 * A * C))) ** 4


def water(case):
    from ASAPy.data import data as mod
    rng = case.rng
    if case.index == 0:
        for T, p, v in ((300, 3, 0.100215168e-2), (300, 80, 0.971180894e-3), (500, 3, 0.120241800e-2)):
            case.close_to(float(mod.water_density(T, p)), 1e-3 / v, f'published specific volume at {T} K, {p} MPa', rtol=5e-9)
            case.event('verification')
        for c, d in ((4, 0.99997), (20, 0.99821), (25, 0.99705), (40, 0.99222), (60, 0.98320), (80, 0.97179)):
            case.close_to(float(mod.water_density(273.15 + c)), d, f'density of water at {c} C', rtol=1.5e-5)
    pts = []
    for _ in range(8):
        T = float(rng.uniform(260, 640))
        p = float(10 ** rng.uniform(-3, 2.1))
        case.input(T=T, p=p)
        pts.append((T, p))
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            got = float(mod.water_density(T, p))
        case.close_to(got, rho(T, p), 'density of water', rtol=1e-9)
        said = len(w) > 0
        outside = T < 272.99 or T > 623.16 or p > 100.01
        boiling = 273.16 < T - 0.21 < 623 and p_sat(T - 0.21) > p
        liquid = not outside and 273.15 < T < 623.1 and p < 100 and p_sat(T) < p
        if outside or boiling:
            case.check(said, 'no warning outside the range of liquid water', T=T, p=p)
            case.event('warned')
        elif liquid:
            case.check(not said, 'warning within the range of liquid water', T=T, p=p, text=[str(v.message) for v in w])
            case.event('silent')
        case.event('water')
    case.sig(pts)
    if case.index < 2:
        case.sample(water=pts[:3])


def library(case):
    import h5py
    from ASAPy.data import library as mod
    rng = case.rng
    base = os.path.realpath(case.dir)
    dirs = [os.path.join(base, d) for d in ('lib', 'lib/neutron', 'lib/neutron2', 'other', 'xml', 'x y', 'a&b \u00e9')]
    for d in dirs:
        os.makedirs(d, exist_ok=True)
    cwd0 = os.getcwd()
    cwd = str(rng.choice([base] + dirs))
    nf = int(rng.integers(0, 9))
    style = int(rng.integers(3))      # one folder, any, below lib
    here = [str(rng.choice(dirs))] if style == 0 else dirs if style == 1 else dirs[:3]
    want, used = [], set()
    for i in range(nf):
        p = os.path.join(str(rng.choice(here)), f'{rng.choice(["U235", "Pu", "c_H", "n"])}{i}.h5')
        kind = str(rng.choice(['neutron', 'thermal', 'photon', 'wmp', 'multi_group']))
        mats = sorted(f'{rng.choice(["U", "Pu", "Fe", "c_H_in_H2O_"])}{rng.integers(1, 60)}' + str(rng.choice(['', '_m1'])) for _ in range(int(rng.integers(1, 5))))
        mats = sorted(set(mats))
        if want and rng.random() < 0.25:
            kind, mats = want[-1][1:]
        with h5py.File(p, 'w') as f:
            f.attrs['filetype'] = np.bytes_('data_' + kind)
            f.attrs['version'] = [2, 0]
            for m in mats:
                f.create_group(m)
        want.append((p, kind, mats))
    xmldir = str(rng.choice([base] + dirs)) if rng.random() < 0.6 or style else here[0]
    rel = rng.random() < 0.5
    mixed = rng.random() < 0.15
    case.input(files=[w[0] for w in want], cwd=cwd, xmldir=xmldir, relative=rel, mixed=mixed)
    case.sig([(w[0][len(base):], w[1], w[2]) for w in want] + [cwd[len(base):], xmldir[len(base):]])
    os.chdir(cwd)
    try:
        lib = mod.DataLibrary()
        for p, _, _ in want:
            r = rel ^ (mixed and rng.random() < 0.5)
            q = os.path.relpath(p, cwd) if r else p
            lib.register_file(q)
            case.event('relative' if r else 'absolute')
        got = [(os.path.realpath(d['path']), d['type'], sorted(d['materials'])) for d in lib.libraries]
        case.check(got == want, 'registered files', got=got, want=want)
        xml = os.path.join(xmldir, 'cross_sections.xml')
        if xmldir == cwd and rng.random() < 0.6:
            lib.export_to_xml('cross_sections.xml' if rng.random() < 0.5 else './cross_sections.xml') if rng.random() < 0.5 else lib.export_to_xml()
        else:
            lib.export_to_xml(os.path.relpath(xml, cwd) if rng.random() < 0.5 else xml)
        case.check(os.path.isfile(xml), 'no XML file where it was asked for')
        ET.parse(xml)
        cwd2 = str(rng.choice([base] + dirs)) if rng.random() < 0.6 else cwd
        os.chdir(cwd2)
        case.event('other_cwd', int(cwd2 != cwd))
        ask = os.path.relpath(xml, cwd2) if rng.random() < 0.5 else xml
        if rng.random() < 0.25:
            old = os.environ.get('OPENMC_CROSS_SECTIONS')
            os.environ['OPENMC_CROSS_SECTIONS'] = ask
            try:
                back = mod.DataLibrary.from_xml()
            finally:
                if old is None:
                    del os.environ['OPENMC_CROSS_SECTIONS']
                else:
                    os.environ['OPENMC_CROSS_SECTIONS'] = old
            case.event('environment')
        else:
            back = mod.DataLibrary.from_xml(ask)
        if rng.random() < 0.2:
            old = os.environ.get('OPENMC_CROSS_SECTIONS')
            try:
                os.environ['OPENMC_CROSS_SECTIONS'] = xml
                case.raises(lambda: mod.DataLibrary.from_xml(os.path.join(base, 'nowhere.xml')), 'an XML file that is not there was read')
                del os.environ['OPENMC_CROSS_SECTIONS']
                case.raises(lambda: mod.DataLibrary.from_xml(), 'a library was read from nowhere', (ValueError,))
            finally:
                os.environ.pop('OPENMC_CROSS_SECTIONS', None)
                if old is not None:
                    os.environ['OPENMC_CROSS_SECTIONS'] = old
            case.event('no_file')
        got = [(os.path.realpath(d['path']), d['type'], sorted(d['materials'])) for d in back.libraries]
        case.check(got == want, 'libraries read back from XML', got=got, want=want)
        for l in (lib, back):
            for m in sorted({m for w in want for m in w[2]})[:10]:
                d = l.get_by_material(m)
                first = next(w for w in want if m in w[2])
                case.check(d is not None and m in d['materials'] and os.path.basename(d['path']) == os.path.basename(first[0]), f'where {m} is', got=d, want=first)
                case.event('found')
            case.check(l.get_by_material('Xx999') is None, 'a material that is nowhere is found')
            case.event('not_found')
        case.event('libraries')
        if case.index < 2:
            case.sample(files=[w[0][len(base):] for w in want], cwd=cwd[len(base):], xml=xml[len(base):])
        case.event('several_folders', int(len({os.path.dirname(w[0]) for w in want}) > 1))
        case.event('beside' if want and {os.path.dirname(w[0]) for w in want} == {xmldir} else 'apart')
    finally:
        os.chdir(cwd0)


WORKLOADS = [Workload('masses', masses, 2, 12), Workload('names', names, 40, 400), Workload('water', water, 60, 3000), Workload('library', library, 120, 3000)]
