"""Writer of ACE files from known data.  The truth is kept in the units of the file (MeV, barn, shakes), rounded as printed."""
import numpy as np

KB = 8.6173324e-11           # MeV/K, only used to choose temperatures


def r(v):
    """The value(s) as printed in the file."""
    if np.ndim(v) == 0:
        return float('%.11E' % float(v))
    a = np.asarray(v, float)
    return np.array([float('%.11E' % x) for x in a.ravel()]).reshape(a.shape)


def token(v, eless=True):
    if isinstance(v, (int, np.integer)):
        return '%20d' % v
    s = '%.11E' % v
    if eless and s[-4] in '+-' and s[-5] == 'E':
        s = s[:-5] + s[-4:]
    return '%20s' % s


class Tab:
    """A tabulated function of the file: x, y and interpolation regions ([] = linear)."""
    def __init__(self, x, y, nbt=(), law=()):
        self.x, self.y = r(x), r(y)
        self.nbt, self.law = [int(v) for v in nbt], [int(v) for v in law]

    def words(self):
        return [len(self.nbt)] + self.nbt + self.law + [len(self.x)] + self.x.tolist() + self.y.tolist()


def random_tab(rng, lo, hi, ylo=0.0, yhi=5.0, n=None, constant=None, monotone=True):
    n = int(rng.integers(2, 8)) if n is None else n
    x = np.concatenate([[lo], np.sort(rng.uniform(lo, hi, n - 2)), [hi]])
    y = np.full(n, constant) if constant is not None else rng.uniform(ylo, yhi, n)
    if rng.random() < 0.5:
        return Tab(x, y)
    if n > 3 and rng.random() < 0.5:
        k = int(rng.integers(2, n))
        return Tab(x, y, [k, n], [int(v) for v in rng.choice([1, 2], 2)])
    return Tab(x, y, [n], [int(rng.choice([1, 2]))])


# ---- angular distributions

def random_angle(rng, emin, emax):
    n = int(rng.integers(1, 5)) + 1
    e = r(np.concatenate([[emin], np.sort(rng.uniform(emin, emax, n - 2)), [emax]]))
    mu = []
    for _ in range(n):
        k = str(rng.choice(['iso', 'bins', 'tab', 'tab']))
        if k == 'iso':
            mu.append(('iso',))
        elif k == 'bins':
            c = r(np.concatenate([[-1.0], np.sort(rng.uniform(-0.999, 0.999, 31)), [1.0]]))
            mu.append(('bins', c))
        else:
            mu.append(('tab', int(rng.choice([1, 2])), *random_pdf(rng, -1.0, 1.0)))
    return {'e': e, 'mu': mu}


def random_pdf(rng, lo, hi, n=None, scale=None):
    n = int(rng.integers(2, 9)) if n is None else n
    x = np.concatenate([[lo], np.sort(rng.uniform(lo, hi, n - 2)), [hi]])
    p = rng.uniform(0.05, 1.0, n)
    area = ((p[1:] + p[:-1]) / 2 * np.diff(x)).sum()
    p = p / area
    c = np.concatenate([[0.0], np.cumsum((p[1:] + p[:-1]) / 2 * np.diff(x))])
    c[-1] = 1.0
    return r(x), r(p), r(c)


def angle_words(a, base):
    """Words of one angular distribution; locators are relative to the block, base = 1-based offset of the first word."""
    n = len(a['e'])
    loc, body = [], []
    at = base + 1 + 2 * n
    for m in a['mu']:
        if m[0] == 'iso':
            loc.append(0)
            continue
        w = m[1].tolist() if m[0] == 'bins' else [m[1], len(m[2])] + m[2].tolist() + m[3].tolist() + m[4].tolist()
        loc.append(at + len(body) if m[0] == 'bins' else -(at + len(body)))
        body += w
    return [n] + a['e'].tolist() + loc + body


# ---- energy distributions: dictionaries with 'law' and data; applicability is a Tab

def _eout(rng, emax, discrete):
    nd = int(rng.integers(1, 4) if rng.random() < 0.8 else rng.integers(9, 16)) if discrete else 0
    x, p, c = random_pdf(rng, 0.0, emax)
    intt = int(rng.choice([1, 2]))
    if nd:
        w = rng.uniform(0.05, 0.3, nd) / max(1, nd / 3)
        xd = np.sort(rng.uniform(0.0, emax, nd))[::-1]
        f = 1 - w.sum()
        x, p, c = r(np.concatenate([xd, x])), r(np.concatenate([w, p * f])), r(np.concatenate([np.cumsum(w), w.sum() + c * f]))
    return dict(intt=intt, nd=nd, x=x, p=p, c=c)


def random_law(rng, law, emin, emax, photon=False):
    d = {'law': law}
    d['applic'] = Tab([emin, emax], [1.0, 1.0]) if rng.random() < 0.5 else random_tab(rng, emin, emax, 0.1, 1.0)
    if law == 2:
        d.update(lp=int(rng.choice([0, 1, 2])), energy=r(rng.uniform(0.01, 8)))
    elif law == 3:
        d.update(threshold=r(rng.uniform(0.01, 5)), ratio=r(rng.uniform(0.5, 1)))
    elif law in (4, 44, 61):
        n = int(rng.integers(2, 5))
        d['e'] = r(np.concatenate([[emin], np.sort(rng.uniform(emin, emax, n - 2)), [emax]]))
        d['nbt'], d['int'] = ([], []) if rng.random() < 0.6 else ([n], [int(rng.choice([1, 2]))])
        d['out'] = [_eout(rng, emax * 0.8, rng.random() < (0.5 if photon else 0.15 * (law != 4))) for _ in range(n)]
        if rng.random() < 0.3 and n > 1:      # real files repeat spectra
            d['out'][1] = dict(d['out'][0])
        for o in d['out']:
            k = len(o['x'])
            if law == 44:
                o['r'], o['a'] = r(rng.uniform(0, 1, k)), r(rng.uniform(0.1, 3, k))
            if law == 61:
                o['mu'] = [None if rng.random() < 0.3 else (int(rng.choice([1, 2])), *random_pdf(rng, -1.0, 1.0)) for _ in range(k)]
    elif law in (7, 9):
        d.update(theta=random_tab(rng, emin, emax, 0.1, 2.0), u=r(rng.uniform(-20, 1)))
    elif law == 11:
        d.update(a=random_tab(rng, emin, emax, 0.5, 1.2), b=random_tab(rng, emin, emax, 1.0, 4.0), u=r(rng.uniform(-20, 1)))
    elif law == 66:
        d.update(n=int(rng.choice([3, 4])), total_mass=r(rng.uniform(1, 5)))
    return d


def law_words(d, base):
    law = d['law']
    if law == 2:
        return [d['lp'], d['energy']]
    if law == 3:
        return [d['threshold'], d['ratio']]
    if law in (7, 9):
        return d['theta'].words() + [d['u']]
    if law == 11:
        return d['a'].words() + d['b'].words() + [d['u']]
    if law == 66:
        return [d['n'], d['total_mass']]
    n = len(d['e'])
    head = [len(d['nbt'])] + d['nbt'] + d['int'] + [n] + d['e'].tolist()
    at = base + len(head) + n
    loc, body = [], []
    for o in d['out']:
        loc.append(at + len(body))
        k = len(o['x'])
        w = [o['intt'] + 10 * o['nd'], k] + o['x'].tolist() + o['p'].tolist() + o['c'].tolist()
        if law == 44:
            w += o['r'].tolist() + o['a'].tolist()
        if law == 61:
            start = at + len(body) + len(w) + k
            lc, mub = [], []
            for m in o['mu']:
                if m is None:
                    lc.append(0)
                else:
                    lc.append(start + len(mub))
                    mub += [m[0], len(m[1])] + m[1].tolist() + m[2].tolist() + m[3].tolist()
            w += lc + mub
        body += w
    return head + loc + body


def dist_words(laws, base):
    """A chain of laws of one reaction."""
    out = []
    for i, d in enumerate(laws):
        at = base + len(out)
        ap = d['applic'].words()
        idat = at + 3 + len(ap)
        lw = law_words(d, idat)
        nxt = idat + len(lw) if i + 1 < len(laws) else 0
        out += [nxt, d.get('code', d['law']), idat] + ap + lw
    return out


class Ace:
    """All that is in a table: set the attributes, then xss() or text()."""
    def __init__(self, name='1001.80c', awr=0.9992, kT=2.53e-8, date='01/02/2020', comment='made for tests', mat=125):
        self.name, self.awr, self.kT, self.date, self.comment, self.mat = name, float('%.6f' % awr), float('%.5E' % kT), date, comment, mat
        self.pairs = [(0, 0.0)] * 16
        self.E = self.total = self.absorption = self.elastic = self.heating = None
        self.reactions = []      # dicts mt q ty start xs [yield_] [angle None|'corr'|dict] [laws]
        self.nr = 0              # how many of them have secondary neutrons (the first ones)
        self.elastic_angle = None
        self.nu = None           # dict kind total|both, prompt/total each ('poly', coef) or ('tab', Tab)
        self.delayed = None      # dict nu: Tab, groups: [dict rate, prob: Tab, law]
        self.photons = []        # dicts mt mftype [tab] [start xs] law angle
        self.urr = None
        self.raw = None          # (nxs, jxs, xss) instead of everything above

    def xss(self):
        if self.raw is not None:
            return self.raw
        x, nxs, jxs = [], [0] * 16, [0] * 32
        nxs[1] = int(self.name.split('.')[0]) % 1000000
        nxs[2], nxs[3], nxs[4], nxs[5] = len(self.E), len(self.reactions), self.nr, len(self.photons)
        nxs[7] = len(self.delayed['groups']) if self.delayed else 0

        def here():
            return len(x) + 1
        jxs[0] = here()
        for a in (self.E, self.total, self.absorption, self.elastic, self.heating):
            x.extend(np.asarray(a).tolist())
        if self.nu:
            jxs[1] = here()

            def nuw(f):
                return [1, len(f[1])] + [float(c) for c in f[1]] if f[0] == 'poly' else [2] + f[1].words()
            if self.nu['kind'] == 'both':
                p = nuw(self.nu['prompt'])
                x.extend([-len(p)] + p + nuw(self.nu['total']))
            else:
                x.extend(nuw(self.nu[self.nu['kind']]))
        for k, key in ((2, 'mt'), (3, 'q'), (4, 'ty')):
            jxs[k] = here()
            at_ty = here() if key == 'ty' else None
            for rx in self.reactions:
                x.append(rx[key] if key != 'ty' else rx['ty'])
            if key == 'ty':
                ty_at = at_ty - 1
        jxs[5] = here()
        loc = 1
        for rx in self.reactions:
            x.append(loc)
            loc += 2 + len(rx['xs'])
        jxs[6] = here()
        for rx in self.reactions:
            x.extend([rx['start'], len(rx['xs'])] + np.asarray(rx['xs']).tolist())
        # angular distributions: elastic, then reactions with secondary neutrons
        jxs[7] = here()
        angles = [self.elastic_angle] + [rx.get('angle') for rx in self.reactions[:self.nr]]
        block, locs = [], []
        for a in angles:
            if a is None:
                locs.append(0)
            elif a == 'corr':
                locs.append(-1)
            else:
                locs.append(len(block) + 1)
                block += angle_words(a, len(block) + 1)
        x.extend(locs)
        jxs[8] = here()
        x.extend(block)
        jxs[9] = here()
        block, locs = [], []
        for i, rx in enumerate(self.reactions[:self.nr]):
            if rx.get('yield_') is not None:
                x[ty_at + i] = (100 + len(block) + 1) * (-1 if rx['ty'] < 0 else 1)
                block += rx['yield_'].words()
            locs.append(len(block) + 1)
            block += dist_words(rx['laws'], len(block) + 1)
        x.extend(locs)
        jxs[10] = here()
        x.extend(block)
        if self.photons:
            jxs[12] = here()
            x.extend([p['mt'] for p in self.photons])
            jxs[13] = here()
            block, locs = [], []
            for p in self.photons:
                locs.append(len(block) + 1)
                if p['mftype'] == 13:
                    block += [13, p['start'], len(p['xs'])] + np.asarray(p['xs']).tolist()
                else:
                    block += [p['mftype'], p['mt'] // 1000] + p['tab'].words()
            x.extend(locs)
            jxs[14] = here()
            x.extend(block)
            jxs[15] = here()
            block, locs = [], []
            for p in self.photons:
                if p['angle'] is None:
                    locs.append(0)
                else:
                    locs.append(len(block) + 1)
                    block += angle_words(p['angle'], len(block) + 1)
            x.extend(locs)
            jxs[16] = here()
            x.extend(block)
            jxs[17] = here()
            block, locs = [], []
            for p in self.photons:
                locs.append(len(block) + 1)
                block += dist_words([p['law']], len(block) + 1)
            x.extend(locs)
            jxs[18] = here()
            x.extend(block)
            jxs[19] = here()
            mts = sorted({p['mt'] // 1000 for p in self.photons})
            x.extend([len(mts)] + mts)
        if self.urr:
            u = self.urr
            jxs[22] = here()
            x.extend([len(u['e']), u['table'].shape[2], u['int'], u['ilf'], u['ioa'], u['iff']] + u['e'].tolist() + u['table'].ravel().tolist())
        if self.delayed:
            jxs[23] = here()
            x.extend([2] + self.delayed['nu'].words())
            jxs[24] = here()
            for g in self.delayed['groups']:
                x.extend([g['rate']] + g['prob'].words())
            jxs[25] = here()
            block, locs = [], []
            for g in self.delayed['groups']:
                locs.append(len(block) + 1)
                block += dist_words([g['law']], len(block) + 1)
            x.extend(locs)
            jxs[26] = here()
            x.extend(block)
        jxs[21] = len(x)
        nxs[0] = len(x)
        return nxs, jxs, x

    def header(self, nxs, jxs, v2=None):
        out = []
        if v2 is None:
            out.append('%10s%12.6f %11.5E %10s' % (self.name.rjust(10), self.awr, self.kT, self.date[:10]))
            out.append('%-70s%10s' % (self.comment[:70], f'   mat{self.mat:4d}'))
        else:
            n = int(v2)
            out.append('2.0.0%22s%22s' % (self.name, 'ENDFB-VII.1'))
            out.append('%12.6f %11.5E %10s %5d' % (self.awr, self.kT, self.date[:10], n))
            for i in range(n):
                if i == n - 2:
                    out.append('%10s%12.6f %11.5E %10s' % (self.name[:10].rjust(10), self.awr, self.kT, self.date[:10]))
                elif i == n - 1:
                    out.append('%-70s%10s' % (self.comment[:70], f'   mat{self.mat:4d}'))
                else:
                    out.append(f'comment line {i} 1.0 2 3.0E+00')
        for i in range(0, 16, 4):
            out.append(''.join('%7d%11.6f' % p for p in self.pairs[i:i + 4]))
        for a in (nxs, jxs):
            for i in range(0, len(a), 8):
                out.append(''.join('%9d' % v for v in a[i:i + 8]))
        return out

    def lines(self, v2=None, eless=True):
        nxs, jxs, x = self.xss()
        out = self.header(nxs, jxs, v2)
        t = [token(v, eless) for v in x]
        out += [''.join(t[i:i + 4]) for i in range(0, len(t), 4)]
        return out

    def text(self, v2=None, eless=True):
        return '\n'.join(self.lines(v2, eless)) + '\n'


NEUTRON_MTS = [16, 17, 22, 28, 51, 52, 53, 54, 90, 91]
ABSORB_MTS = [102, 103, 104, 105, 106, 107, 108, 111, 112]
LEVELS = {103: [600, 601, 649], 104: [650, 699], 105: [700, 749], 106: [750], 107: [800, 801, 849]}


def random_ace(rng, n=None, name=None, fissile=None, photons=True, kT=None, tiny=0.1, zeros=True, levels=True, chi='tab', nu='both', total4=None, awr=None, laws=None,
               simple=False, negative=False):
    """A random, internally consistent neutron table."""
    n = int(rng.integers(12, 60)) if n is None else n
    fissile = bool(rng.random() < 0.5) if fissile is None else fissile
    name = name or (str(rng.choice(['92235.80c', '94239.31c', '92238.71c'])) if fissile else str(rng.choice(['1001.80c', '26056.71c', '8016.00c', '47107.80c'])))
    kT = float(rng.choice([2.53010e-8, 5.17040e-8, 7.75560e-8, 2.06820e-7, 8.61733e-9])) if kT is None else kT
    a = Ace(name, rng.uniform(0.9, 250) if awr is None else awr, kT)
    lo = 1e-11
    hi = float(rng.choice([20.0, 150.0, 30.0]))
    while True:
        e = r(np.concatenate([[lo], np.sort(10 ** rng.uniform(-10.5, np.log10(hi) - 0.05, n - 2)), [hi]]))
        if (np.diff(e) > 2e-5 * e[:-1]).all():
            break
    a.E = e
    el = 10 ** rng.uniform(-1, 2, n)
    a.elastic = r(el)
    a.elastic_angle = None if rng.random() < 0.2 else random_angle(rng, e[0], e[-1])
    mts = [int(m) for m in rng.choice(NEUTRON_MTS, int(rng.integers(0, 5)), replace=False)]
    fission = []
    if fissile:
        fission = [18] if rng.random() < 0.6 else [19, 20, 21, 38][:int(rng.integers(1, 5))]
        if chi == '18':
            fission = [18]
    mts = sorted(mts + fission)
    absorb = [102] if rng.random() < 0.9 else []
    absorb += [int(m) for m in rng.choice(ABSORB_MTS[1:], int(rng.integers(0, 4)), replace=False)]
    second = []
    for m in sorted(absorb):
        if m in LEVELS and levels and rng.random() < 0.6:
            k = int(rng.integers(1, len(LEVELS[m]) + 1))
            second += LEVELS[m][:k]
            if rng.random() < 0.4:
                second.append(m)
        else:
            second.append(m)
    part = {}

    def partial(thr):
        s = int(rng.integers(n // 3, n - 3)) + 1 if thr else 1
        v = 10 ** rng.uniform(-3, 1, n - s + 1)
        if thr and zeros:
            v[0] = 0.0
        if rng.random() < tiny:
            v[int(rng.integers(0, len(v)))] = 10 ** rng.uniform(-130, -101)
        if zeros and rng.random() < 0.2 and len(v) > 3:
            v[int(rng.integers(0, len(v)))] = 0.0
        return s, r(v)
    for m in mts:
        part[m] = partial(m != 18 and m != 19)
    for m in second:
        if m in LEVELS and any(l in second for l in LEVELS[m]):
            continue
        part[m] = partial(m not in (102,))

    def add(ms):
        tot = np.zeros(n)
        st = n
        for m in ms:
            s, v = part[m]
            tot[s - 1:s - 1 + len(v)] += v
            st = min(st, s)
        return st, tot
    for m in second:
        if m not in part:
            s, t = add([l for l in LEVELS[m] if l in second])
            part[m] = (s, r(t[s - 1:]))
    dis = [m for m in second if not any(m in LEVELS[p] and p in second for p in LEVELS)]
    _, ab = add(dis)
    a.absorption = r(ab)
    inel = [m for m in mts if 51 <= m <= 91]
    extra = []
    if inel and (rng.random() < 0.5 if total4 is None else total4):
        s, t = add(inel)
        part[4] = (s, r(t[s - 1:]))
        extra.append(4)
    _, nonel = add(dis + mts)
    a.total = r(a.elastic + nonel)
    a.heating = r(rng.uniform(0, 10, n))
    gas = []
    if rng.random() < 0.5:
        for m in (203, 207, 444):
            if rng.random() < 0.6:
                part[m] = partial(True)
                gas.append(m)
    others = sorted(second + extra) + gas
    if rng.random() < 0.3:
        rng.shuffle(mts)                      # the order in the file is not prescribed
    a.nr = len(mts)
    for m in mts + others:
        s, v = part[m]
        rx = dict(mt=int(m), q=r(rng.uniform(-10, 8)), ty=0, start=int(s), xs=v)
        if m in mts:
            emin, emax = float(e[s - 1]), float(e[-1])
            fis = m in fission
            rx['ty'] = 19 if fis else int({16: 2, 17: 3}.get(m, 1)) * int(rng.choice([-1, 1]))
            if not fis and rng.random() < 0.3:
                rx['yield_'] = random_tab(rng, emin, emax, 0.5, 4)
            if fis:
                ls = [4] if chi in ('tab', '18') else [int(rng.choice([4, 7, 11]))]
            elif 51 <= m <= 90:
                ls = [3]
            else:
                ls = [int(v) for v in rng.choice([4, 7, 9, 44, 61, 66], int(rng.choice([1, 1, 2])))]
                if ls[0] in (44, 61, 66):
                    ls = ls[:1]
                ls = [l for i, l in enumerate(ls) if i == 0 or l not in (44, 61, 66)]
            rx['laws'] = [random_law(rng, l, emin, emax) for l in ls]
            if ls[0] in (44, 61, 66):
                rx['angle'] = 'corr'
            else:
                rx['angle'] = None if rng.random() < 0.3 else random_angle(rng, emin, emax)
        a.reactions.append(rx)
    if fissile:
        emin, emax = float(e[0]), float(e[-1])

        def f(kind):
            if kind == 'poly':
                return ('poly', r(np.concatenate([[rng.uniform(2, 3)], rng.uniform(0, 0.2, int(rng.integers(0, 3)))])))
            return ('tab', random_tab(rng, emin, emax, 2.0, 5.0))
        kinds = ['tab', 'tab'] if nu == 'both' else [str(v) for v in rng.choice(['tab', 'tab', 'poly'], 2)]
        which = 'both' if nu == 'both' else str(rng.choice(['both', 'single']))
        if which == 'both':
            a.nu = dict(kind='both', prompt=f(kinds[0]), total=f(kinds[1]))
        else:
            a.nu = dict(kind='single', single=f(kinds[0]))
        if rng.random() < 0.7:
            g = int(rng.choice([1, 6, 8]))
            shape = rng.uniform(0.2, 1, g)
            shape = shape / shape.sum() * rng.uniform(0.999, 1.001)
            vary = bool(rng.random() < 0.25)
            a.delayed = dict(vary=vary, nu=Tab(*[(t.x, t.y) for t in [random_tab(rng, emin, emax, 0.005, 0.02)]][0]) if vary else random_tab(rng, emin, emax, 0.005, 0.02),
                             groups=[dict(rate=r(10 ** rng.uniform(-10, -8)), prob=Tab(*[(t.x, t.y) for t in [random_tab(rng, emin, emax, 0.01, 0.3)]][0]) if vary else random_tab(rng, emin, emax, constant=float(s)),
                                          law=random_law(rng, 4, emin, emax)) for i, s in enumerate(shape)])
    if photons and rng.random() < 0.6:
        have = [rx['mt'] for rx in a.reactions if rx['mt'] < 200 or rx['mt'] >= 600]
        ms = [int(m) for m in rng.choice(have, min(len(have), int(rng.integers(1, 3))), replace=False)] if have else []
        if inel and 4 not in part and rng.random() < 0.5:
            ms.append(4)
        for m in ms:
            for k in range(int(rng.integers(1, 3))):
                s = part[m][0] if m in part else min(part[i][0] for i in inel)
                emin, emax = float(e[s - 1]), float(e[-1])
                p = dict(mt=m * 1000 + k + 1, mftype=int(rng.choice([12, 13, 16])))
                if p['mftype'] == 13:
                    p['start'] = int(s)
                    p['xs'] = r(rng.uniform(0, 2, n - s + 1))
                else:
                    p['tab'] = random_tab(rng, emin, emax, 0.1, 3)
                p['law'] = random_law(rng, int(rng.choice([2, 4])), emin, emax, photon=True)
                p['angle'] = None if rng.random() < 0.6 else random_angle(rng, emin, emax)
                a.photons.append(p)
    if rng.random() < 0.3:
        ne, m = int(rng.integers(2, 5)), int(rng.integers(2, 6))
        a.urr = dict(e=r(np.sort(rng.uniform(1e-3, 0.1, ne))), table=r(rng.uniform(0.01, 2, (ne, 6, m))), int=int(rng.choice([2, 5])), ilf=int(rng.choice([-1, 4, 0, 51])),
                     ioa=int(rng.choice([-1, 102, 0])), iff=int(rng.choice([0, 1])))
    if negative:
        for rx in a.reactions:
            if rng.random() < 0.4 and len(rx['xs']) > 2:
                rx['xs'] = rx['xs'].copy()
                rx['xs'][int(rng.integers(0, len(rx['xs'])))] *= -1
    return a


def wild(rng, a):
    """Rarer things a table may have, put into a random one; returns what was put in."""
    done = set()

    def tabs(d):
        return [v for v in d.values() if isinstance(v, Tab)]
    for rx in a.reactions[:a.nr]:
        emin, emax = float(a.E[rx['start'] - 1]), float(a.E[-1])
        if rx['ty'] == 19 and rng.random() < 0.4:
            rx['laws'].append(random_law(rng, int(rng.choice([4, 7, 11])), emin, emax))
            done.add('two_fission_laws')
        for d in rx['laws']:
            if d['law'] == 3 and rng.random() < 0.4:
                d['code'] = 33
                done.add('law33')
            if d['law'] in (44, 61) and rng.random() < 0.5:
                o = d['out'][int(rng.integers(0, len(d['out'])))]
                o['p'] = o['p'].copy()
                o['p'][int(rng.integers(o['nd'], len(o['p'])))] *= -0.01
                done.add('negative_density')
            if d['law'] == 44 and rng.random() < 0.5:
                o = d['out'][-1]
                o['a'] = r(o['a'] * 10.0)
                done.add('steep')
        for t in [t for d in rx['laws'] for t in tabs(d)] + [rx.get('yield_')]:
            if t is not None and t.x[0] > 0 and (t.y > 0).all() and rng.random() < 0.4:
                t.nbt, t.law = [len(t.x)], [int(rng.choice([3, 4, 5]))]
                done.add('log_tables')
    if a.delayed and a.delayed['vary']:
        for g in a.delayed['groups']:
            y = g['prob'].y
            if len(y) > 2 and rng.random() < 0.6:
                y[-1] = y[0]
                done.add('same_ends')
    n = len(a.E)
    for m in (201, 218, 205, 209):
        if rng.random() < 0.2 and m not in {rx['mt'] for rx in a.reactions}:
            a.reactions.append(dict(mt=m, q=0.0, ty=0, start=1, xs=r(rng.uniform(0, 3, n))))
            done.add('gas')
    return done
