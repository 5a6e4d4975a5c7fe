"""What a perturbed ACE file must be: base values times group factors, sums following, everything else as in the base file."""
import copy

import numpy as np

from . import acegen, gen
from .checks.c17 import RULES, model

MEV = 1e6


def groups(rng, e, lo=None):
    """Group bounds (eV, decreasing): some on grid energies, some in between, covering all or part of the range."""
    n = int(rng.integers(1, 9))
    lo = float(rng.choice([1e-5, 1e-6, 1.0, 1e3])) if lo is None else lo
    hi = float(rng.choice([2e7, 1.5e8, 1e9, 1e6]))
    b = [lo, hi]
    while len(b) < n + 1:
        c = float(rng.choice(e)) if rng.random() < 0.4 else float(10 ** rng.uniform(np.log10(lo), np.log10(hi)))
        if lo * 1.01 < c < hi / 1.01 and all(abs(c - x) > 1e-3 * x for x in b):
            b.append(c)
        elif rng.random() < 0.05:
            n = max(1, n - 1)
    return np.array(sorted(b, reverse=True))


def factor(e, bounds, values):
    """(factor, alternatives) at every energy; alternatives are the values of both groups next to a bound closer than rounding."""
    out, alt = [], []
    G = len(values)
    for x in e:
        if x < bounds[-1] or x > bounds[0]:
            f = 1.0
        else:
            f = values[G - 1]
            for g in range(G):
                if bounds[g + 1] < x <= bounds[g]:
                    f = values[g]
                    break
        a = {f}
        for g, bd in enumerate(bounds):
            if bd != x and abs(x - bd) <= 1e-9 * bd:
                a |= {values[g - 1] if g > 0 else 1.0, values[g] if g < G else 1.0}
        out.append(f)
        alt.append(a)
    return np.array(out), alt


class Case:
    """A base file, a store and samples; knows where in the file everything is."""
    def __init__(self, rng, path, fissile=None, max_mts=4):
        while True:
            self.a = a = acegen.random_ace(rng, chi='18', nu='both', fissile=fissile, photons=bool(rng.random() < 0.5))
            leaves = [2] + [rx['mt'] for rx in a.reactions if rx['mt'] not in RULES and not (200 < rx['mt'] < 219 or rx['mt'] == 444)]
            leaves += [18, 452, 1018] if any(rx['mt'] == 18 for rx in a.reactions) else []
            if len(leaves) > 1:
                break
        self.leaves = sorted(set(leaves))
        k = int(rng.integers(1, min(max_mts, len(self.leaves)) + 1))
        self.mts = [int(m) for m in rng.choice(self.leaves, k, replace=False)]
        if 1018 in self.leaves and rng.random() < 0.4:
            extra = int(rng.choice([452, 1018]))
            if extra not in self.mts:
                self.mts[-1] = extra
        if rng.random() < 0.6:
            self.mts = sorted(self.mts)
        self.v2 = None if rng.random() < 0.7 else int(rng.integers(0, 6))
        self.text = a.text(v2=self.v2)
        self.path = path
        self.zaid = a.name.split('.')[0]
        with open(path, 'w') as f:
            f.write(self.text)
        self.head = 12 + (self.v2 or 0)
        self.nxs, self.jxs, self.x = a.xss()
        self.truth = {1: (a.E, a.total), 2: (a.E, a.elastic)}
        n = len(a.E)
        self.at = {1: n, 2: 3 * n}
        if np.any(a.absorption != 0):
            self.truth[101] = (a.E, a.absorption)
            self.at[101] = 2 * n
        pos = self.jxs[6] - 1
        for rx in a.reactions:
            if not (200 < rx['mt'] < 219 or rx['mt'] == 444):
                self.truth[rx['mt']] = (a.E[rx['start'] - 1:], rx['xs'])
                self.at[rx['mt']] = pos + 2
            pos += 2 + len(rx['xs'])
        if a.nu and 18 in self.truth:
            t = a.nu['total'][1]
            self.truth[452] = (t.x, t.y)
            p = -self.x[self.jxs[1] - 1]
            start = self.jxs[1] - 1 + 1 + p + 1            # the table after the word 2
            self.at[452] = start + 1 + 2 * len(t.nbt) + 1 + len(t.x)
        self.bounds, self.stats = {}, {}
        for m in self.mts:
            e = self.truth[m][0] if m != 1018 else np.concatenate([o['x'] for o in self.law()['out']])
            self.bounds[m] = groups(rng, e[e > 0] * MEV)

    def law(self):
        return next(rx for rx in self.a.reactions if rx['mt'] == 18)['laws'][0]

    def chi_at(self):
        """Positions of density and cumulative values of every fission spectrum."""
        i = [rx['mt'] for rx in self.a.reactions[:self.a.nr]].index(18)
        dlw = self.jxs[10] - 1
        loc = self.x[self.jxs[9] - 1 + i]
        idat = self.x[dlw + loc - 1 + 2]
        at = dlw + idat - 1
        nr = self.x[at]
        ne = self.x[at + 1 + 2 * nr]
        locs = self.x[at + 2 + 2 * nr + ne: at + 2 + 2 * nr + 2 * ne]
        out = []
        for l in locs:
            k = self.x[dlw + l - 1 + 1]
            s = dlw + l - 1 + 2
            out.append((s + k, s + 2 * k, k))
        return out

    def store(self, rng, path, other=True):
        """A covariance store with the sampled reactions (and some others), written without ASAPy."""
        import pandas as pd
        with pd.HDFStore(path, 'w') as h:
            for m in self.mts:
                b = self.bounds[m]
                g = len(b) - 1
                mean = rng.uniform(0.1, 10, g)
                sd = mean * rng.uniform(0.005, 0.08, g)
                corr, _ = gen.corr_matrix(rng, g, 'decay')
                df, _ = gen.store_put(h, self.zaid, m, b[:-1], b[1:], mean, sd, corr)
                self.stats[m] = df
            if other:
                gen.store_put(h, '7014', 102, [2e7, 1.0], [1.0, 1e-5], [1.0, 2.0], [0.1, 0.1], np.eye(2))

    def expected(self, rel, observed):
        """Words of the file for relative values rel[mt] (one per group).  observed: the words written, only used where a bound is within rounding of an energy.
        Returns (values by position, changed positions)."""
        orig = {m: np.array(v[1], float) for m, v in self.truth.items() if m != 452}
        energy = {m: v[0] for m, v in self.truth.items() if m != 452}
        cur = {m: v.copy() for m, v in orig.items()}
        want = {}

        def pick(base, e, m, at):
            f, alt = factor(e * MEV, self.bounds[m], rel[m])
            out = base * f
            for i, al in enumerate(alt):
                if len(al) > 1 and base[i] != 0:
                    got = float(acegen_float(observed[at + i])) / base[i]
                    c = min(al, key=lambda z: abs(z - got))
                    out[i] = base[i] * c
            return out
        for m in self.mts:
            if m == 1018:
                for (pa, ca, k), o in zip(self.chi_at(), self.law()['out']):
                    f, alt = factor(o['x'] * MEV, self.bounds[m], rel[m])
                    new = o['p'] * f
                    d = (new - o['p']) * np.concatenate([[0.0], np.diff(o['x'])])
                    norm = o['c'][-1] + d.sum()
                    for i in range(k):
                        want[pa + i] = new[i] / norm
                        want[ca + i] = (o['c'][i] + d[:i + 1].sum()) / norm
            elif m == 452:
                e, y = self.truth[452]
                v = pick(np.array(y), e, m, self.at[m])
                for i in range(len(v)):
                    want[self.at[m] + i] = v[i]
            else:
                cur[m] = pick(orig[m], energy[m], m, self.at[m])
        new, changed = model(energy, orig, cur, {m for m in self.mts if m in orig})
        scale = {}
        for m in changed:
            if m in self.at:
                for i in range(len(new[m])):
                    want[self.at[m] + i] = new[m][i]
                    scale[self.at[m] + i] = abs(orig[m][i])
        return want, scale


def acegen_float(s):
    """A number of an ACE file, also without E."""
    try:
        return float(s)
    except ValueError:
        i = max(s.rfind('+'), s.rfind('-'))
        return float(s[:i] + 'E' + s[i:])


def words(text, head):
    lines = text.split('\n')
    return lines[:head], ' '.join(lines[head:]).split()


def verify(case, c, path, rel, what):
    """The perturbed file against the model."""
    text = open(path).read()
    head, got = words(text, c.head)
    bhead, base = words(c.text, c.head)
    case.check(head == bhead, what + ': the header changed')
    case.check(len(got) == len(base), what + ': number of words', got=len(got), want=len(base))
    want, scale = c.expected(rel, got)
    nchanged = 0
    for i in range(len(base)):
        if i in want:
            g = acegen_float(got[i])
            tol = 2e-11 * (abs(want[i]) + scale.get(i, 0.0)) + 1e-11 * abs(want[i]) + 1e-300
            case.check(abs(g - want[i]) <= tol, what + ': a value is not the base value times the factor of its group (with sums following)', position=i + 1, got=got[i], want=want[i], base=base[i],
                       where=where(c, i), mts=c.mts)
            nchanged += got[i] != base[i]
        else:
            case.check(got[i] == base[i], what + ': a value changed that should not', position=i + 1, got=got[i], base=base[i], where=where(c, i), mts=c.mts)
    case.check(text == '\n'.join(head) + '\n' + ''.join(''.join(t.rjust(20) for t in got[i:i + 4]) + '\n' for i in range(0, len(got), 4)), what + ': layout of the file')
    return nchanged


def where(c, i):
    best = None
    for m, s in c.at.items():
        if s <= i < s + len(c.truth[m][1]):
            best = m
    return best if best is not None else [k for k, v in enumerate(c.jxs) if v and v - 1 <= i][-1:]
