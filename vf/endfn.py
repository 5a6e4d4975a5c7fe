"""Neutron evaluations (MF 1, 3, 4, 5, 6, 8, 9, 10, 12, 13) with the data they stand for."""
import numpy as np

from . import endfgen as eg
from .reson import q


def grid(rng, n, lo=1e-5, hi=2e7):
    while True:
        x = np.unique([q(v) for v in np.concatenate([[lo, hi], 10 ** rng.uniform(np.log10(lo), np.log10(hi), max(0, n - 2))])])
        if len(x) >= 2 and np.all(np.diff(x) > 1e-3 * x[:-1]):
            return x


def tab(rng, n=None, lo=1e-5, hi=2e7, ylo=0.01, yhi=5.0, laws=(1, 2, 3, 4, 5), regions=True, x=None):
    x = grid(rng, int(n or rng.integers(2, 12)), lo, hi) if x is None else np.asarray(x, float)
    y = np.array([q(v) for v in rng.uniform(ylo, yhi, len(x))])
    nr = int(min(rng.choice([1, 1, 1, 2, 3, 4]), max(1, len(x) - 2))) if regions else 1
    nbt = sorted(int(v) for v in rng.choice(np.arange(2, len(x)), nr - 1, replace=False)) + [len(x)] if nr > 1 else [len(x)]
    return {'x': x, 'y': y, 'nbt': nbt, 'int': [int(v) for v in rng.choice(laws, nr)]}


def tab1(rng, c1, c2, l1, l2, t):
    return eg.tab1_record(rng, c1, c2, l1, l2, t['nbt'], t['int'], t['x'], t['y'])


def outer(rng, ne):
    nr = int(min(rng.choice([1, 1, 2]), max(1, ne - 2)))
    nbt = sorted(int(v) for v in rng.choice(np.arange(2, ne), nr - 1, replace=False)) + [ne] if nr > 1 else [ne]
    return nbt, [int(v) for v in rng.choice([1, 2, 3, 4, 5], nr)]


def energies(rng, lo=1e-5, hi=2e7, n=None):
    return grid(rng, int(n or rng.integers(2, 7)), lo, hi)


def eout(rng, n=None):
    n = int(n or rng.integers(2, 9))
    x = np.unique([q(v) for v in np.concatenate([[0.0], 10 ** rng.uniform(1, 7, n - 1)])])
    return x


# ---- MF 5

def law5(rng, lf):
    """TAB1 parameters (U), the records after the applicability, the truth."""
    u = q(rng.uniform(-2e7, 2e6))
    if lf == 1:
        es = energies(rng)
        nbt, ints = outer(rng, len(es))
        out = eg.tab2_record(rng, 0, 0, 0, 0, nbt, ints, len(es))
        pdf = []
        for e in es:
            t = tab(rng, x=eout(rng), laws=(1, 2), ylo=1e-9, yhi=1e-6)
            out += tab1(rng, 0.0, e, 0, 0, t)
            pdf.append(t)
        return 0.0, out, {'lf': 1, 'energy': es, 'pdf': pdf}
    if lf == 5:
        th, g = tab(rng, ylo=1e4, yhi=2e6), tab(rng, x=eout(rng) / 1e3, ylo=0.0, yhi=1.0, laws=(1, 2))
        g['x'] = np.unique([q(v) for v in g['x']])
        g = tab(rng, x=g['x'], ylo=0.0, yhi=1.0, laws=(1, 2))
        return u, tab1(rng, 0, 0, 0, 0, th) + tab1(rng, 0, 0, 0, 0, g), {'lf': 5, 'u': u, 'theta': th, 'g': g}
    if lf in (7, 9):
        th = tab(rng, ylo=1e4, yhi=2e6)
        return u, tab1(rng, 0, 0, 0, 0, th), {'lf': lf, 'u': u, 'theta': th}
    if lf == 11:
        a, b = tab(rng, ylo=1e5, yhi=2e6), tab(rng, ylo=1e-7, yhi=1e-5)
        return u, tab1(rng, 0, 0, 0, 0, a) + tab1(rng, 0, 0, 0, 0, b), {'lf': 11, 'u': u, 'a': a, 'b': b}
    efl, efh, tm = q(rng.uniform(5e5, 2e6)), q(rng.uniform(5e5, 2e6)), tab(rng, ylo=1e4, yhi=2e6)
    return 0.0, tab1(rng, efl, efh, 0, 0, tm), {'lf': 12, 'efl': efl, 'efh': efh, 'tm': tm}


def mf5(rng, za, awr, laws=None, fractions=None):
    nk = len(laws) if laws is not None else int(rng.choice([1, 1, 2, 3]))
    laws = laws or [int(v) for v in rng.choice([1, 5, 7, 9, 11, 12], nk)]
    out, truth = [eg.cont(rng, za, awr, 0, 0, nk, 0)], []
    for k, lf in enumerate(laws):
        p = fractions[k] if fractions else tab(rng, ylo=0.0, yhi=1.0, laws=(1, 2))
        u, rec, t = law5(rng, lf)
        out += tab1(rng, u, 0.0, 0, lf, p) + rec
        truth.append((p, t))
    return out, truth


# ---- MF 4

def legendre(rng, n=None):
    n = int(n or rng.integers(1, 9))
    return [q(v) for v in rng.uniform(-0.3, 0.3, n) / np.arange(1, n + 1)]


def mus(rng):
    n = int(rng.integers(0, 7))
    return np.unique([q(v) for v in np.concatenate([[-1.0, 1.0], rng.uniform(-0.99, 0.99, n)])])


def mf4(rng, za, awr, emax):
    kind = str(rng.choice(['iso', 'legendre', 'table', 'mixed']))
    lct = int(rng.integers(1, 3))
    ltt = {'iso': 0, 'legendre': 1, 'table': 2, 'mixed': 3}[kind]
    nk = int(rng.integers(1, 30)) if rng.random() < 0.25 else 0                 # obsolete transformation matrix
    li = int(kind == 'iso')
    out = [eg.cont(rng, za, awr, int(nk > 0), ltt, 0, 0)]
    if nk:
        out += eg.list_record(rng, 0.0, awr, li, lct, 0, [q(v) for v in rng.uniform(-1, 1, nk)])
    else:
        out.append(eg.cont(rng, 0.0, awr, li, lct, 0, 0))
    if kind == 'iso':
        return out, {'energy': [0.0, emax], 'mu': [('iso',), ('iso',)]}
    es = energies(rng, n=int(rng.integers(3, 8)))
    cut = {'legendre': len(es), 'table': 0, 'mixed': int(rng.integers(1, len(es)))}[kind]
    truth = []
    if cut:
        nbt, ints = outer(rng, cut)
        out += eg.tab2_record(rng, 0, 0, 0, 0, nbt, ints, cut)
        for e in es[:cut]:
            a = legendre(rng)
            out += eg.list_record(rng, 0.0, e, 0, 0, 0, a)
            truth.append(('legendre', [1.0] + a))
    if cut < len(es):
        m = len(es) - cut
        nbt, ints = outer(rng, m)
        out += eg.tab2_record(rng, 0, 0, 0, 0, nbt, ints, m)
        for e in es[cut:]:
            t = tab(rng, x=mus(rng), regions=False, laws=(1, 2, 4), ylo=0.01, yhi=1.0)
            out += tab1(rng, 0.0, e, 0, 0, t)
            truth.append(('table', t))
    return out, {'energy': list(es), 'mu': truth}


# ---- MF 6

def mf6_product(rng, law, za, awr):
    """lines after the TAB1 yield record, truth."""
    if law in (0, 3, 4):
        return [], {'law': law}
    if law == 1:
        lang = int(rng.choice([1, 1, 2, 2, 11, 12, 14]))
        lep = int(rng.choice([1, 2, 2, 3, 4, 5]))
        es = energies(rng)
        nbt, ints = outer(rng, len(es))
        out = eg.tab2_record(rng, 0, 0, lang, lep, nbt, ints, len(es))
        rows = []
        for e in es:
            na = int(rng.integers(0, 5)) if lang == 1 else int(rng.integers(1, 3))
            x = eout(rng)
            nd = 0
            if lang == 1 and rng.random() < 0.25:                               # discrete lines come first, with falling energies
                lines = np.unique([q(v) for v in rng.uniform(1e4, 8e6, int(rng.integers(1, 4)))])[::-1]
                nd = len(lines)
                x = np.concatenate([lines, x]) if rng.random() < 0.7 else lines
            if lang > 10:
                c = np.linspace(-1, 1, int(rng.integers(2, 5)))
                m = np.array([[xx, q(rng.uniform(1e-9, 1e-6))] + [v for k, u in enumerate(c) for v in (q(u + (rng.uniform(-0.2, 0.2) if 0 < k < len(c) - 1 else 0.0)), q(rng.uniform(0.05, 1)))]
                              for xx in x])
                na = m.shape[1] - 2
            else:
                m = np.array([[xx] + [q(v) for v in rng.uniform(1e-9, 1e-6, 1)] + [q(v) for v in rng.uniform(-0.9, 0.9, na)] for xx in x])
            if lang == 2:
                m[:, 2:] = [[q(abs(v)) for v in r] for r in m[:, 2:]]
            out += eg.list_record(rng, 0.0, e, nd, na, len(x), m.ravel())
            rows.append(m)
        return out, {'law': 1, 'lang': lang, 'lep': lep, 'energy': es, 'rows': rows, 'nbt': nbt, 'int': ints}
    if law == 2:
        es = energies(rng)
        nbt, ints = outer(rng, len(es))
        out = eg.tab2_record(rng, 0, 0, 0, 0, nbt, ints, len(es))
        mu = []
        for e in es:
            lang = int(rng.choice([0, 0, 12, 14]))
            if lang == 0:
                a = legendre(rng)
                out += eg.list_record(rng, 0.0, e, 0, 0, len(a), a)
                mu.append(('legendre', [1.0] + a))
            else:
                x = mus(rng)
                t = tab(rng, x=x, regions=False, laws=(2,) if lang == 12 else (4,), ylo=0.01, yhi=1.0)
                out += eg.list_record(rng, 0.0, e, lang, 0, len(x), np.column_stack([t['x'], t['y']]).ravel())
                mu.append(('table', t))
        return out, {'law': 2, 'energy': es, 'mu': mu}
    if law == 6:
        apsx, npsx = q(rng.uniform(1, 10)), int(rng.integers(2, 6))
        return [eg.cont(rng, apsx, 0.0, 0, 0, 0, npsx)], {'law': 6, 'apsx': apsx, 'npsx': npsx}
    es = energies(rng, n=3)
    nbt, ints = outer(rng, len(es))
    out = eg.tab2_record(rng, 0, 0, 0, 0, nbt, ints, len(es))
    truth = []
    for e in es:
        m = mus(rng)
        nb, it = outer(rng, len(m))
        out += eg.tab2_record(rng, 0.0, e, 0, 0, nb, it, len(m))
        fs = []
        for c in m:
            t = tab(rng, x=eout(rng), regions=False, laws=(2,), ylo=1e-9, yhi=1e-6)
            out += tab1(rng, 0.0, c, 0, 0, t)
            fs.append(t)
        truth.append((m, fs))
    return out, {'law': 7, 'energy': es, 'dists': truth, 'nbt': nbt, 'int': ints}


PARTICLES = [(1, 'neutron'), (0, 'photon'), (1001, 'H1'), (1002, 'H2'), (2004, 'He4'), (2003, 'He3'), (92234, 'U234'), (26056, 'Fe56'), (1000, 'electron'), (6000, 'C0')]


def mf6(rng, za, awr, n=None, neutron=None):
    """neutron: position of the only neutron (None: anything anywhere)."""
    n = int(n or rng.integers(1, 5))
    out = [eg.cont(rng, za, awr, 0, int(rng.integers(1, 4)), n, 0)]
    truth = []
    for i in range(n):
        zap, name = PARTICLES[0] if i == neutron else PARTICLES[int(rng.integers(int(neutron is not None), len(PARTICLES)))]
        law = int(rng.choice([1, 1, 7] if i == neutron else [0, 1, 1, 1, 2, 2, 3, 4, 6, 7]))
        y = tab(rng, ylo=0.0, yhi=3.0, laws=(1, 2))
        rec, t = mf6_product(rng, law, za, awr)
        out += tab1(rng, float(zap), q(rng.uniform(0.5, 230)), 0, law, y) + rec
        truth.append({'particle': name, 'yield': y, 'dist': t})
    return out, truth
