"""Resonance parameters: independent writer of MF2/MT151 and of the formulas of ENDF-102 (appendix D)."""
import cmath
import math

import numpy as np

from . import endfgen as eg

MN_EV = 939.5654133e6
HBARC = 197.3269788e5
MN_AMU = 1.00866491588


def q(v):
    return float(f'{float(v):.4e}')


def wave(A, E):
    return A / (A + 1.0) * math.sqrt(2 * MN_EV * abs(E)) / HBARC


def hankel(l, rho):
    """rho*h_l(rho) outgoing, by recurrence: gives penetrability, shift and phase from one definition."""
    # w_0 = e^{i rho} (G+iF with phases such that F=sin, G=cos), w_1 = (1/rho - i) e^{i rho} up to (-i)
    w0 = cmath.exp(1j * rho)                       # G0 + i F0
    if l == 0:
        return w0
    w1 = w0 * (1.0 / rho - 1j)                     # G1 + i F1 : F1 = sin/rho - cos, G1 = cos/rho + sin
    a, b = w0, w1
    for n in range(1, l):
        a, b = b, (2 * n + 1) / rho * b - a
    return b


def pen_shift(l, rho):
    """P and S by the exact polynomials, derived from the modulus of the outgoing wave."""
    # 1/|w|^2 * rho = P ; S = rho * (F F' + G G') / (F^2 + G^2)
    # closed form: |w_l|^2 = sum_k c_k rho^{-2k}
    c = [math.factorial(2 * l - k) * math.factorial(2 * l - 2 * k) / (math.factorial(k) * math.factorial(l - k) ** 2) * (2.0) ** (2 * k - 2 * l)
         for k in range(l + 1)]
    m2 = sum(ck * rho ** (2 * k - 2 * l) for k, ck in enumerate(c))
    dm2 = sum(ck * (2 * k - 2 * l) * rho ** (2 * k - 2 * l) for k, ck in enumerate(c))      # rho * d|w|^2/drho
    return rho / m2, dm2 / (2 * m2)


def phase(l, rho):
    """phi with tan(phi) = F/G; series for small rho where the recurrence cancels."""
    if l == 0:
        return rho
    if rho < 0.3:
        # F_l = rho^{l+1} sum (-1)^k rho^{2k} / (2^k k! (2l+2k+1)!!)
        F = 0.0
        t = rho ** (l + 1)
        for n in range(1, l + 1):
            t /= 2 * n + 1
        for k in range(30):
            F += t
            t *= -rho * rho / (2.0 * (k + 1) * (2 * l + 2 * k + 3))
        # G by upward recurrence is stable
        g0, g1 = math.cos(rho), math.cos(rho) / rho + math.sin(rho)
        for n in range(1, l):
            g0, g1 = g1, (2 * n + 1) / rho * g1 - g0
        return math.atan2(F, g1)
    w = hankel(l, rho)
    return math.atan2(w.imag, w.real)


class Range:
    """kind: slbw, mlbw, rm; groups: list of dicts (l, q, lrx, rows)."""


def radii(t, l, E):
    """channel radius, scattering radius at E (1e-12 cm)."""
    A = t['awri']
    a = 0.123 * (MN_AMU * A) ** (1 / 3) + 0.08
    ap = t['ap']
    if t['kind'] == 'rm':
        apl = [g for g in t['groups'] if g['l'] == l][0]['apl']
        ap = apl if apl != 0.0 else ap
    if t['nro'] == 0:
        return (a if t['naps'] == 0 else ap), ap
    ape = float(np.interp(E, t['ape'][0], t['ape'][1]))
    return {0: a, 1: ape, 2: ap}[t['naps']], ape


def evaluate(t, E):
    """elastic, capture, fission and the absolute uncertainty of a double precision evaluation."""
    A, I = t['awri'], t['spi']
    k = wave(A, E)
    scale = math.pi / k ** 2
    el = cap = fis = atol = 0.0
    for g in t['groups']:
        l = g['l']
        ac, asc = radii(t, l, E)
        P, S = pen_shift(l, k * ac)
        phi = phase(l, k * asc)
        e2 = cmath.exp(-2j * phi)
        if t['kind'] == 'rm':
            for s in sorted({abs(I - 0.5), I + 0.5}):
                J = abs(l - s)
                while J <= l + s + 1e-9:
                    gJ = (2 * J + 1) / (4 * I + 2)
                    K = np.zeros((3, 3), complex)
                    has = False
                    for r in g['rows']:
                        if r['J'] != J or r['s'] != s:
                            continue
                        acr, _ = radii(t, l, r['E'])
                        Pr, _ = pen_shift(l, wave(A, r['E']) * acr)
                        amp = np.array([math.sqrt(P * r['gn'] / Pr), math.copysign(math.sqrt(abs(r['gfa'])), r['gfa']),
                                        math.copysign(math.sqrt(abs(r['gfb'])), r['gfb'])])
                        has = has or r['gfa'] != 0 or r['gfb'] != 0
                        K += 0.5j * np.outer(amp, amp) / (r['E'] - E - 0.5j * r['gg'])
                    if not has:
                        K0 = K[0, 0]
                        d = 2 * cmath.exp(-1j * phi) * (1j * math.sin(phi) - K0 * math.cos(phi)) / (1 - K0)
                        el += gJ * abs(d) ** 2
                        cap += gJ * -4 * K0.real / abs(1 - K0) ** 2
                        atol += gJ * (2e-14 + (2 * phi ** 4 if abs(phi) < 1e-3 else 0))
                    else:
                        B = np.eye(3) - K
                        X = np.linalg.solve(B, np.array([1, 0, 0], complex))
                        d = 1 - e2 * (2 * X[0] - 1)
                        f = 4 * (abs(X[1]) ** 2 + abs(X[2]) ** 2)
                        el += gJ * abs(d) ** 2
                        fis += gJ * f
                        cap += gJ * (2 * d.real - abs(d) ** 2 - f)
                        atol += gJ * 5e-14 * max(1.0, np.linalg.cond(B))
                    J += 1
            continue
        Ex = E + g['q'] * (A + 1) / A
        sums = {}
        if t['kind'] == 'slbw':
            el += 4 * (2 * l + 1) * math.sin(phi) ** 2
        for r in g['rows']:
            acr, _ = radii(t, l, r['E'])
            Pr, Sr = pen_shift(l, wave(A, r['E']) * acr)
            gn = r['gn'] * P / Pr
            gt = gn + r['gg'] + r['gf']
            if g['lrx'] and r['gx'] > 0 and Ex > 0:
                Erx = r['E'] + g['q'] * (A + 1) / A
                Pc = pen_shift(l, wave(A, Ex) * radii(t, l, Ex)[0])[0]
                Prx = pen_shift(l, wave(A, Erx) * radii(t, l, Erx)[0])[0]
                gt += r['gx'] * Pc / Prx
            Ep = r['E'] + (Sr - S) / (2 * Pr) * r['gn']
            gJ = (2 * r['J'] + 1) / (4 * I + 2)
            den = (E - Ep) ** 2 + gt * gt / 4
            cap += gJ * gn * r['gg'] / den
            fis += gJ * gn * r['gf'] / den
            if t['kind'] == 'slbw':
                el += gJ * gn * (gn * math.cos(2 * phi) - 2 * (r['gg'] + r['gf']) * math.sin(phi) ** 2 + 2 * (E - Ep) * math.sin(2 * phi)) / den
                atol += 1e-13 * gJ * gn * (gn + 2 * abs(E - Ep) * abs(math.sin(2 * phi))) / den
            else:
                sums[r['J']] = sums.get(r['J'], 0) + 1j * gn / (Ep - E - 0.5j * gt)
        if t['kind'] == 'mlbw':
            D = 2 * l + 1.0
            J = abs(abs(I - l) - 0.5)
            while J <= I + l + 0.5 + 1e-9:
                gJ = (2 * J + 1) / (4 * I + 2)
                D -= gJ
                el += gJ * abs(1 - e2 * (1 + sums.get(J, 0))) ** 2
                J += 1
            el += 2 * D * 2 * math.sin(phi) ** 2
            atol += 2e-14 * (2 * l + 1)
        else:
            atol += 1e-14 * (2 * l + 1)
    return el * scale, cap * scale, fis * scale, atol * scale


def tot_j(I, l):
    J = abs(abs(I - l) - 0.5)
    out = []
    while J <= I + l + 0.5 + 1e-9:
        out.append(J)
        J += 1
    return out


def make(rng, kind, emin=None, emax=None, awri=None, spi=None, competitive=None, fission=None):
    awri = awri or q(rng.choice([0.9992, 10.0, 15.86, 55.45, 100.0, 136.0, 233.02, 236.0]) if rng.random() < 0.5 else rng.uniform(1, 250))
    spi = float(rng.choice([0, 0.5, 1, 1.5, 2, 2.5, 3, 3.5, 4, 4.5])) if spi is None else spi
    emin = q(10 ** rng.uniform(-5, 1)) if emin is None else emin
    emax = q(emin + 10 ** rng.uniform(1, 5)) if emax is None else emax
    nro = int(rng.random() < 0.3)
    naps = int(rng.integers(0, 3 if nro else 2))
    t = {'kind': kind, 'awri': awri, 'spi': spi, 'emin': emin, 'emax': emax, 'nro': nro, 'naps': naps, 'ap': q(rng.uniform(0.2, 1.2)), 'ape': None, 'lad': int(rng.integers(0, 2)),
         'nlsc': int(rng.integers(0, 6))}
    if nro:
        n = int(rng.integers(2, 7))
        x = np.unique([q(v) for v in np.concatenate([[1e-5, emax * 1.5 + 1e5], 10 ** rng.uniform(-4, math.log10(emax), n)])])
        t['ape'] = (x, np.array([q(v) for v in rng.uniform(0.2, 1.2, len(x))]))
    nls = int(rng.integers(1, 6)) if rng.random() < 0.5 else int(rng.integers(1, 3))
    fission = bool(rng.random() < 0.5) if fission is None else fission
    t['fission'] = fission
    t['groups'] = []
    ls = list(range(nls)) if rng.random() < 0.85 else sorted(int(v) for v in rng.choice(5, nls, replace=False))
    for l in ls:
        comp = kind != 'rm' and bool(rng.random() < 0.35 if competitive is None else competitive)
        nr = int(rng.integers(1, 9))
        lo = 0.0
        g = {'l': l, 'lrx': int(comp), 'q': 0.0, 'apl': q(rng.uniform(0.2, 1.2)) if kind == 'rm' and rng.random() < 0.5 else 0.0, 'rows': []}
        if comp:
            g['q'] = q(rng.choice([-1, -1, 1]) * rng.uniform(0.01, 0.3) * emax) if rng.random() < 0.9 else 0.0
            lo = max(0.0, -g['q'] * (awri + 1) / awri * 1.01)
        for _ in range(nr):
            neg = not comp and not nro and rng.random() < 0.15
            E = q(-10 ** rng.uniform(-1, 3)) if neg else q(rng.uniform(max(lo, emin, 1e-3), emax) if rng.random() < 0.6 or comp else 10 ** rng.uniform(math.log10(max(emin, 1e-3)), math.log10(emax)))
            gn, gg = q(10 ** rng.uniform(-6, 0.5)), q(10 ** rng.uniform(-3, 0))
            # not wider than a reduced width of 10 keV allows: beyond, the level shift loses all digits
            P = pen_shift(l, wave(awri, E) * radii({**t, 'groups': [g]}, l, E)[0])[0]
            gn = q(min(gn, 2 * P * 10 ** rng.uniform(2, 4)))
            r = {'E': E, 'gn': gn, 'gg': gg}
            if kind == 'rm':
                s = float(rng.choice(sorted({abs(spi - 0.5), spi + 0.5})))
                js = np.arange(abs(l - s), l + s + 0.1)
                J = float(rng.choice(js))
                r['J'], r['s'] = J, s
                other = [u for u in {abs(spi - 0.5), spi + 0.5} if u != s and abs(l - u) <= J <= l + u]
                if l > 0 and other:
                    r['AJ'] = -J if s < other[0] else J
                else:
                    r['AJ'] = J
                fi = rng.random() < 0.8 if fission else False
                r['gfa'] = q(rng.choice([-1, 1]) * 10 ** rng.uniform(-4, 0)) if fi and rng.random() < 0.9 else 0.0
                r['gfb'] = q(rng.choice([-1, 1]) * 10 ** rng.uniform(-4, 0)) if fi and rng.random() < 0.6 else 0.0
            else:
                r['J'] = float(rng.choice(tot_j(spi, l)))
                r['gf'] = q(10 ** (rng.uniform(-4, 0) if rng.random() < 0.7 else rng.uniform(-8, -4))) if fission and rng.random() < 0.8 else 0.0
                gx = 10 ** rng.uniform(-3, 0) if comp and rng.random() < 0.8 else 0.0
                r['gt'] = q(gn + gg + r['gf'] + gx)
                r['gx'] = r['gt'] - (gn + gg + r['gf']) if comp else 0.0
            g['rows'].append(r)
        t['groups'].append(g)
    return t


LRF = {'slbw': 1, 'mlbw': 2, 'rm': 3}


def lines(rng, t):
    out = [eg.cont(rng, t['emin'], t['emax'], 1, LRF[t['kind']], t['nro'], t['naps'])]
    if t['nro']:
        x, y = t['ape']
        out += eg.tab1_record(rng, 0, 0, 0, 0, [len(x)], [2], x, y)
    if t['kind'] == 'rm':
        out.append(eg.cont(rng, t['spi'], t['ap'], 0, t['lad'], len(t['groups']), t['nlsc']))
    else:
        out.append(eg.cont(rng, t['spi'], t['ap'], 0, 0, len(t['groups']), 0))
    for g in t['groups']:
        vals = []
        for r in g['rows']:
            vals += [r['E'], r['AJ'], r['gn'], r['gg'], r['gfa'], r['gfb']] if t['kind'] == 'rm' else [r['E'], r['J'], r['gt'], r['gn'], r['gg'], r['gf']]
        out += eg.list_record(rng, t['awri'], g['apl'] if t['kind'] == 'rm' else g['q'], g['l'], g['lrx'], len(g['rows']), vals)
    return out


def unresolved(rng, case_, emin=1e3, emax=1e5):
    """case_ a, b or c of ENDF-102 section 2.3.1: lines and truth."""
    spi, ap = float(rng.choice([0, 0.5, 1.5, 3.5])), q(rng.uniform(0.2, 1.2))
    nro = int(rng.random() < 0.3)
    lssf = int(rng.integers(0, 2))
    t = {'kind': 'urr', 'case': case_, 'spi': spi, 'emin': emin, 'emax': emax, 'nro': nro, 'ap': ap, 'lssf': lssf, 'ape': None, 'awri': 233.0}
    out = [eg.cont(rng, emin, emax, 2, 2 if case_ == 'c' else 1, nro, 0)]
    if nro:
        x = np.unique([q(v) for v in np.linspace(emin, emax, int(rng.integers(2, 6)))])
        y = np.array([q(v) for v in rng.uniform(0.2, 1.2, len(x))])
        t['ape'] = (x, y)
        out += eg.tab1_record(rng, 0, 0, 0, 0, [len(x)], [2], x, y)
    nls = int(rng.integers(1, 4))
    ls = list(range(nls)) if rng.random() < 0.8 else sorted(int(v) for v in rng.choice(4, nls, replace=False))
    rec = []

    def val(a, b):
        return q(10 ** rng.uniform(a, b))
    if case_ == 'a':
        out.append(eg.cont(rng, spi, ap, lssf, 0, nls, 0))
        for l in ls:
            vals = []
            for J in tot_j(spi, l):
                d, mu, gn, gg = val(-1, 3), float(rng.integers(1, 3)), val(-5, 0), val(-3, 0)
                vals += [d, J, mu, gn, gg, 0.0]
                rec.append([l, J, d, mu, gn, gg, 0.0])
            out += eg.list_record(rng, 233.0, 0.0, l, 0, len(vals) // 6, vals)
        t['records'] = rec
    elif case_ == 'b':
        ne = int(rng.integers(2, 15))
        es = [q(v) for v in np.linspace(emin, emax, ne)]
        out += eg.list_record(rng, spi, ap, lssf, 0, nls, es)
        t['energies'] = es
        rec = [[] for _ in es]
        for l in ls:
            js = tot_j(spi, l)
            out.append(eg.cont(rng, 233.0, 0.0, l, 0, len(js), 0))
            for J in js:
                d, mu, gn, gg = val(-1, 3), float(rng.integers(1, 3)), val(-5, 0), val(-3, 0)
                gf = [val(-4, 0) for _ in es]
                out += eg.list_record(rng, 0.0, 0.0, l, int(rng.integers(1, 5)), 0, [d, J, mu, gn, gg, 0.0] + gf)
                for k in range(ne):
                    rec[k].append([l, J, d, mu, gn, gg, gf[k]])
        t['records'] = rec
    else:
        out.append(eg.cont(rng, spi, ap, lssf, 0, nls, 0))
        for l in ls:
            js = tot_j(spi, l)
            out.append(eg.cont(rng, 233.0, 0.0, l, 0, len(js), 0))
            for J in js:
                ne = int(rng.integers(1, 12))
                vals = [0.0, 0.0] + [float(rng.integers(0, 5)) for _ in range(4)]
                for e in np.linspace(emin, emax, ne):
                    row = [q(e), val(-1, 3), val(-4, 0), val(-5, 0), val(-3, 0), val(-4, 0)]
                    vals += row
                    rec.append([l, J] + row)
                out += eg.list_record(rng, J, 0.0, int(rng.integers(1, 6)), 0, ne, vals)
        t['records'] = rec
    return out, t


def rml(rng):
    """LRF=7: particle pairs and spin groups, no background or tabulated phases."""
    emin, emax = 1e-5, q(10 ** rng.uniform(3, 6))
    ifg, krm = int(rng.integers(0, 2)), int(rng.integers(1, 5))
    npp = int(rng.integers(2, 5))
    njs = int(rng.integers(1, 5))
    out = [eg.cont(rng, emin, emax, 1, 7, 0, 0), eg.cont(rng, 0.0, 0.0, ifg, krm, njs, 0)]
    vals, pairs = [], []
    for i in range(npp):
        mt = [102, 2, 18, 600][i]
        p = [q(rng.uniform(0, 2)), q(rng.uniform(1, 240)), float(rng.integers(0, 3)), float(rng.integers(1, 90)), 0.5, float(rng.choice([0, 1.5, 2.5])), q(rng.uniform(-5e5, 5e5)),
             float(rng.integers(0, 2)), float(rng.integers(0, 2)), float(mt), float(rng.choice([-1, 1])), float(rng.choice([-1, 1]))]
        pairs.append(p)
        vals += p
    out += [eg.cont(rng, 0.0, 0.0, npp, 0, 12 * npp, 2 * npp)] + eg.rows([eg.f11(rng, v) for v in vals])
    groups = []
    for _ in range(njs):
        J = float(rng.choice([0, 0.5, 1, 1.5, 2, 3]))
        par = int(rng.choice([-1, 1]))
        nch = int(rng.integers(1, 9))
        ch = []
        for c in range(nch):
            ch.append([float(rng.integers(1, npp + 1)), float(rng.integers(0, 4)), float(rng.choice([0.5, 1, 1.5])), q(rng.uniform(-1, 1)), q(rng.uniform(0.2, 1)), q(rng.uniform(0.2, 1))])
        out += eg.list_record(rng, J * par if J else 0.0, float(par) if J == 0 else 0.0, 0, 0, nch, [v for c in ch for v in c])
        nrs = int(rng.integers(0, 6))
        m = -(-(nch + 1) // 6)
        res, vals = [], []
        for _ in range(nrs):
            row = [q(rng.uniform(emin, emax))] + [q(rng.choice([-1, 1]) * 10 ** rng.uniform(-5, 1)) for _ in range(nch)]
            res.append(row)
            vals += row + [0.0] * (6 * m - len(row))
        if not vals:
            vals = [0.0] * 6
        out += [eg.cont(rng, 0.0, 0.0, 0, nrs, len(vals), len(vals) // 6)] + eg.rows([eg.f11(rng, v) for v in vals])
        groups.append({'J': J, 'par': '+' if par > 0 else '-', 'ch': ch, 'res': res})
    return out, {'kind': 'rml', 'emin': emin, 'emax': emax, 'ifg': ifg, 'krm': krm, 'pairs': pairs, 'groups': groups}


def section(rng, za, awr, parts, lfw=0, more=()):
    """MF2/MT151 with one isotope and the given (already written) ranges, and more: (ranges, lfw) of other isotopes."""
    out = [eg.cont(rng, za, awr, 0, 0, 1 + len(more), 0)]
    for k, (ps, lf) in enumerate([(parts, lfw), *more]):
        out.append(eg.cont(rng, za + k, 1.0 if not more else q(rng.uniform(0.1, 0.9)), 0, lf, len(ps), 0))
        for p in ps:
            out += p
    return out
