"""Independent writer of ENDF-6 files, with the truth they hold."""
import numpy as np


def f11(rng, v, style=None):
    """A number in 11 columns, in one of the styles found in evaluations."""
    v = float(v)
    style = style or (str(rng.choice(['eless', 'eless', 'eless2', 'plain', 'E'])) if rng is not None else 'eless')
    if style == 'plain':
        for d in (6, 5, 4, 3, 2, 1):
            s = f'{v:.{d}f}'
            if len(s) <= 11 and float(s) == float(f'{v:.6e}') and '.' in s:
                return s.rjust(11)
        style = 'eless'
    if style == 'E':
        s = f'{v:.3e}'
        if float(s) == v and len(s) <= 11:
            return s.upper().rjust(11)
        style = 'eless'
    digits = 6 if style == 'eless' else 5
    s = f'{v:.{digits}e}'
    m, e = s.split('e')
    e = int(e)
    while True:
        t = f'{m}{"-" if e < 0 else "+"}{abs(e)}'
        if len(t) <= 11:
            return t.rjust(11)
        digits -= 1
        m, ee = f'{v:.{digits}e}'.split('e')
        e = int(ee)


def value(text):
    """What an 11 column field stands for, independently of the code under test."""
    t = text.strip()
    if not t:
        return 0.0
    u = t.lower()
    if 'e' in u:
        return float(u)
    for k in range(len(u) - 1, 0, -1):
        if u[k] in '+-':
            return float(u[:k] + 'e' + u[k:])
    return float(u)


def i11(v):
    return f'{int(v):11d}'


def cont(rng, c1, c2, l1, l2, n1, n2, style=None):
    return f11(rng, c1, style) + f11(rng, c2, style) + i11(l1) + i11(l2) + i11(n1) + i11(n2)


def rows(fields, per=6):
    return [''.join(fields[i:i + per]).ljust(66) for i in range(0, len(fields), per)]


def list_record(rng, c1, c2, l1, l2, n2, vals):
    return [cont(rng, c1, c2, l1, l2, len(vals), n2)] + rows([f11(rng, v) for v in vals])


def tab1_record(rng, c1, c2, l1, l2, nbt, ints, x, y):
    f = []
    for a, b in zip(nbt, ints):
        f += [i11(a), i11(b)]
    g = []
    for a, b in zip(x, y):
        g += [f11(rng, a), f11(rng, b)]
    return [cont(rng, c1, c2, l1, l2, len(nbt), len(x))] + rows(f) + rows(g)


def tab2_record(rng, c1, c2, l1, l2, nbt, ints, nz):
    f = []
    for a, b in zip(nbt, ints):
        f += [i11(a), i11(b)]
    return [cont(rng, c1, c2, l1, l2, len(nbt), nz)] + rows(f)


class Material:
    def __init__(self, mat, za, awr, lrp=1, lfi=0, nlib=0, nmod=0, elis=0.0, sta=0, lis=0, liso=0, nfor=6, awi=1.0, emax=2e7, lrel=0, nsub=10,
                 nver=8, temp=0.0, ldrv=0, text=None):
        self.__dict__.update({k: v for k, v in locals().items() if k != 'self'})
        self.sections = {}
        self.mods = {}

    def add(self, mf, mt, lines, mod=0):
        self.sections[mf, mt] = lines
        self.mods[mf, mt] = mod

    def header(self, blank_mod=False):
        text = self.text if self.text is not None else ['' for _ in range(5)]
        keys = sorted(self.sections)
        nxc = len(keys) + 1
        lines = [cont(None, self.za, self.awr, self.lrp, self.lfi, self.nlib, self.nmod), cont(None, self.elis, self.sta, self.lis, self.liso, 0, self.nfor),
                 cont(None, self.awi, self.emax, self.lrel, 0, self.nsub, self.nver), cont(None, self.temp, 0.0, self.ldrv, 0, len(text), nxc)]
        lines += [t.ljust(66)[:66] for t in text]
        nc451 = len(lines) + nxc
        lines.append(' ' * 22 + i11(1) + i11(451) + i11(nc451) + i11(self.mods.get((1, 451), 0)))
        for k in keys:
            m = i11(self.mods[k]) if not (blank_mod and self.mods[k] == 0) else ' ' * 11
            lines.append(' ' * 22 + i11(k[0]) + i11(k[1]) + i11(len(self.sections[k])) + m)
        return lines, keys

    def directory(self):
        lines, keys = self.header()
        return [(1, 451, len(lines), self.mods.get((1, 451), 0))] + [(k[0], k[1], len(self.sections[k]), self.mods[k]) for k in keys]

    def lines(self, blank_mod=False, numbered=True):
        out = []
        head, keys = self.header(blank_mod)
        secs = {(1, 451): head}
        secs.update(self.sections)
        mf_prev = None
        for k in sorted(secs):
            if mf_prev is not None and k[0] != mf_prev:
                out.append(f'{"":66s}{self.mat:4d} 0  0    0')
            mf_prev = k[0]
            for n, l in enumerate(secs[k]):
                out.append(f'{l:66.66s}{self.mat:4d}{k[0]:2d}{k[1]:3d}' + (f'{(n + 1) % 100000:5d}' if numbered else ''))
            out.append(f'{"":66s}{self.mat:4d}{k[0]:2d}  099999')
        out.append(f'{"":66s}{self.mat:4d} 0  0    0')
        out.append(f'{"":66s}   0 0  0    0')
        return out


def tape(materials, tpid='tape made for a test', **kw):
    out = [f'{tpid:66.66s}   1 0  0    0']
    for m in materials:
        out += m.lines(**kw)
    out.append(f'{"":66s}  -1 0  0    0')
    return '\n'.join(out) + '\n'


def simple(rng, z=None, a=None, mat=None, fissionable=None, cov_mts=(2, 102), liso=0, nlib=0, text=True, other=()):
    z = int(z if z is not None else rng.integers(1, 100))
    a = int(a if a is not None else rng.integers(0, 260))
    m = Material(mat=int(mat if mat is not None else rng.integers(25, 9999)), za=z * 1000 + a, awr=round(float(max(1, a)) * 0.9913, 4),
                 lfi=int(fissionable) if fissionable is not None else int(rng.integers(0, 2)), liso=liso, lis=liso, nlib=nlib,
                 lrel=int(rng.integers(0, 4)), nver=int(rng.integers(3, 9)))
    if text:
        m.text = [' 1-H -  1 LANL      EVAL-JUL16 G.M.Hale'.ljust(66)] + [f' line {i} of the description'.ljust(66) for i in range(int(rng.integers(5, 9)))]
    for mt in cov_mts:
        m.add(33, mt, [cont(rng, m.za, m.awr, 0, 0, 0, 1)] + rows([f11(rng, v) for v in rng.uniform(0, 1, int(rng.integers(1, 30)))]))
    for mf, mt in other:
        m.add(mf, mt, [cont(rng, m.za, m.awr, 0, 0, 0, 0)] + rows([f11(rng, v) for v in rng.uniform(0, 1, int(rng.integers(1, 20)))]))
    return m
