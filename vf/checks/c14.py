"""C14: reading ACE libraries: every format gives the tables of the file."""
import os

import numpy as np

from ..core import Workload, quiet
from .. import acegen

ID = 'C14'
RULE = ('libraries of 1-6 tables with random contents (1-2000 words, values of any exponent incl. those NJOY writes without an E, integers, negative numbers) in the old and the '
        'new header style with any number of comment lines, as text and binary, read whole or by names (present, absent, repeated, in any order); nuclide identifiers of all '
        'elements in both conventions; non-trivial = more than one table, a selection, or an unusual number; distinct by content')
EXPECT = {'tables': 300, 'selected': 100, 'binary': 60, 'new_header': 60, 'eless': 60, 'record_edge': 10, 'absent': 30, 'names': 400, 'metastable': 60}


def raw_table(rng, name, size=None):
    n = int(rng.choice([1, 2, 3, 4, 5, 7, 8, 9, 40, 161, 511, 512, 513, 1024, 1025, int(rng.integers(10, 2000))])) if size is None else size
    mant = rng.uniform(1, 10, n) * rng.choice([1, 1, 1, -1], n)
    ex = rng.integers(-12, 6, n)
    kind = str(rng.choice(['plain', 'eless', 'eless_first', 'eless_last', 'ints', 'mixed']))
    eless = kind.startswith('eless') or kind == 'mixed'
    if kind == 'eless_first':
        ex[0] = -120
    elif kind == 'eless_last':
        ex[-1] = -101
    elif eless:
        ex[rng.random(n) < 0.2] = -int(rng.integers(100, 250))
        ex[rng.random(n) < 0.05] = int(rng.integers(100, 290))
    v = [acegen.r(m * 10.0 ** int(x)) for m, x in zip(mant, ex)]
    if kind in ('ints', 'mixed'):
        v = [int(rng.integers(-3000, 100000)) if rng.random() < 0.4 else x for x in v]
    a = acegen.Ace(name, rng.uniform(0.9, 260), float(rng.choice([2.5301e-8, 8.61733e-9, 2.0682e-7, 0.0])), comment='table of ' + name)
    a.pairs = [(int(rng.integers(1, 99999)), float('%.6f' % rng.uniform(0, 240))) if rng.random() < 0.3 else (0, 0.0) for _ in range(16)]
    nxs = [n] + [int(x) for x in rng.integers(-9, 99999, 15)]
    jxs = [int(x) for x in rng.integers(0, 999999, 32)]
    a.raw = (nxs, jxs, v)
    return a, any('E' not in acegen.token(float(x)) for x in v if not isinstance(x, int))


def same(case, t, a, what, **ctx):
    nxs, jxs, x = a.raw
    case.check(t.name == a.name, f'{what}: name', got=t.name, want=a.name, **ctx)
    case.check(t.atomic_weight_ratio == a.awr, f'{what}: atomic weight ratio', got=t.atomic_weight_ratio, want=a.awr, **ctx)
    case.check(t.temperature == a.kT, f'{what}: temperature', got=t.temperature, want=a.kT, **ctx)
    case.check([(int(i), float(j)) for i, j in t.pairs] == a.pairs, f'{what}: pairs of identifiers and weights', got=list(t.pairs), want=a.pairs, **ctx)
    case.check([int(v) for v in t.nxs] == [0] + nxs, f'{what}: lengths', got=list(t.nxs), want=nxs, **ctx)
    case.check([int(v) for v in t.jxs] == [0] + jxs, f'{what}: locators', got=list(t.jxs), want=jxs, **ctx)
    g, w = np.asarray(t.xss, float), np.array([0.0] + [float(v) for v in x])
    case.check(g.shape == w.shape and np.array_equal(g, w), f'{what}: data', size=[int(g.size), int(w.size)], first=int(np.argmax(g[:min(g.size, w.size)] != w[:min(g.size, w.size)])), **ctx)
    case.event('tables')


def library(case):
    from ASAPy.data import ace
    rng = case.rng
    k = int(rng.choice([1, 1, 2, 3, 4, 6]))
    pool = ['92235.80c', '92235.81c', '1001.80c', '26056.71c', '8016.00c', '95242.80c', 'lwtr.20t', '1095242.710nc']
    names = [str(v) for v in rng.choice(pool, k, replace=False)]
    style = str(rng.choice(['old', 'old', 'new3', 'new', 'mix']))
    tables, text = [], ''
    for nm in names:
        a, e = raw_table(rng, nm[:10] if style != 'new' else nm)
        if not tables and len(a.raw[2]) >= 40 and rng.random() < 0.3:      # numbers without any conspicuous byte in front
            a.awr, a.kT = float(rng.choice([0.5, 1.0, 2.0, 12.0])), 0.0
        a_v2 = None if style == 'old' else 3 if style == 'new3' else int(rng.integers(0, 7)) if style == 'new' else [None, 3][int(rng.integers(0, 2))]
        tables.append(a)
        text += a.text(v2=a_v2)
        case.event('eless', int(e))
        case.event('new_header', int(a_v2 is not None))
        case.event('record_edge', int(len(a.raw[2]) % 512 == 0))
    names = [a.name for a in tables]
    if rng.random() < 0.2:
        text = '\n'.join(l.rstrip() for l in text.split('\n'))
    if rng.random() < 0.2:
        text = text.rstrip('\n')
    p = case.path('lib.ace')
    with open(p, 'w') as f:
        f.write(text)
    case.input(names=names, style=style, sizes=[len(a.raw[2]) for a in tables], text=text if len(text) < 4000 else text[:4000])
    paths = [(p, 'text')]
    convertible = style in ('old', 'new3', 'mix')
    b = case.path('lib.bin')
    if convertible:
        with quiet():
            ace.ascii_to_binary(p, b)
        size = sum(4096 * (1 + (len(a.raw[2]) + 511) // 512) for a in tables)
        case.check(os.path.getsize(b) == size, 'a binary library must have whole records of 4096 bytes', got=os.path.getsize(b), want=size)
        paths.append((b, 'binary'))
        case.event('binary')
    for path, what in paths:
        with quiet():
            lib = ace.Library(path)
        case.check([t.name for t in lib.tables] == names, f'{what}: not the tables of the file', got=[t.name for t in lib.tables], want=names)
        for t, a in zip(lib.tables, tables):
            same(case, t, a, what)
        # selections
        pick = [str(v) for v in rng.choice(names, int(rng.integers(1, k + 1)), replace=False)]
        extra = ['7014.99c'] if rng.random() < 0.3 else []
        sel = pick + extra
        arg = pick[0] if len(sel) == 1 and rng.random() < 0.5 else [sel, tuple(sel), set(sel)][int(rng.integers(0, 3))]
        with quiet():
            lib = ace.Library(path, arg)
        want = [a for a in tables if a.name in sel]
        case.check([t.name for t in lib.tables] == [a.name for a in want], f'{what}: not the tables asked for', got=[t.name for t in lib.tables], want=[a.name for a in want], asked=sel)
        for t, a in zip(lib.tables, want):
            same(case, t, a, what + ' by name', asked=sel)
        case.event('selected')
        j = int(rng.integers(0, k))
        with quiet():
            same(case, ace.get_table(path), tables[0], what + ' first')
            same(case, ace.get_table(path, names[j]), tables[j], what + ' by name')
        for absent in ('7014.99c', names[j][:-1], names[j] + 'c', names[j][1:]):
            if absent not in names:
                case.raises(lambda: ace.get_table(path, absent), f'{what}: a table the file does not have must be refused', ValueError)
        case.event('absent')
    case.sig(text)
    case.sample(names=names, style=style)


def names(case):
    """Nuclide names from identifiers, in both conventions."""
    from ASAPy.data import ace
    from ASAPy.data.data import ATOMIC_SYMBOL
    rng = case.rng
    sym = 'n H He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co Ni Cu Zn Ga Ge As Se Br Kr Rb Sr Y Zr Nb Mo Tc Ru Rh Pd Ag Cd In Sn Sb Te I Xe Cs Ba La Ce Pr Nd Pm ' \
          'Sm Eu Gd Tb Dy Ho Er Tm Yb Lu Hf Ta W Re Os Ir Pt Au Hg Tl Pb Bi Po At Rn Fr Ra Ac Th Pa U Np Pu Am Cm Bk Cf Es Fm'.split()
    case.input(seed=case.index)
    for _ in range(20):
        z = int(rng.integers(1, 101))
        a = int(rng.integers(max(1, 2 * z - z // 8), int(2.7 * z) + 1)) if z > 2 else int(rng.integers(1, 3 * z + 1))
        if (z, a) == (95, 242):
            continue
        m = int(rng.random() < 0.3) if a + 100 > 3 * z else 0
        for scheme in ('mcnp', 'nndc'):
            got = ace.get_metadata(z * 1000 + a + 400 * m, scheme)
            want = (sym[z] + str(a) + ('_m1' if m else ''), sym[z], z, a, m)
            case.check(tuple(got) == want, f'{scheme}: identifier {z * 1000 + a + 400 * m}', got=got, want=want)
            case.event('names')
            case.event('metastable', m)
        if a > 200:                     # 100 per state is enough to tell, for heavy nuclides
            got = ace.get_metadata(z * 1000 + a + 100, 'nndc')
            case.check(tuple(got) == (sym[z] + str(a) + '_m1', sym[z], z, a, 1), f'nndc: identifier {z * 1000 + a + 100}', got=got)
        if a <= 3 * z - 1:              # a natural element
            got = ace.get_metadata(z * 1000, str(rng.choice(['mcnp', 'nndc'])))
            case.check(tuple(got) == (sym[z] + '0', sym[z], z, 0, 0), f'identifier {z * 1000}', got=got)
        s = int(rng.integers(1, 4))
        got = ace.get_metadata(s * 1000000 + z * 1000 + a, 'mcnp')
        want = (sym[z] + str(a) + f'_m{s}', sym[z], z, a, s)
        case.check(tuple(got) == want, f'identifier {s * 1000000 + z * 1000 + a}', got=got, want=want)
    for zaid, m in ((95242, 1), (95642, 0), (1095242, 0)):
        got = ace.get_metadata(zaid, 'mcnp')
        case.check(tuple(got) == ('Am242' + ('_m1' if m else ''), 'Am', 95, 242, m), f'identifier {zaid}', got=got)
    case.raises(lambda: ace.get_metadata(1001, 'other'), 'an unknown convention must be refused')
    case.sig(case.index)


WORKLOADS = [Workload('library', library, 400, 6000), Workload('names', names, 20, 300)]
