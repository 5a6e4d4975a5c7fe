"""An abstract NJOY: reads an input deck card by card as the program does and follows what every tape holds."""
import re

MODULES = ('reconr', 'broadr', 'heatr', 'purr', 'groupr', 'errorr', 'covr', 'viewr', 'acer', 'thermr', 'stop')


class DeckError(Exception):
    pass


class Tape:
    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)

    def __repr__(self):
        return f"{self.kind}({', '.join(f'{k}={v!r}' for k, v in self.__dict__.items() if k not in ('kind', 'bounds'))})"


class Cards:
    """List directed input: a card ends with '/', or when all its values were found."""
    def __init__(self, text):
        self.lines = text.split('\n')
        self.i = 0

    def module(self):
        while self.i < len(self.lines):
            l = self.lines[self.i].strip()
            self.i += 1
            if not l or l.startswith('--'):
                continue
            name = re.split(r'[\s/]', l)[0].strip("'*")
            if name not in MODULES:
                raise DeckError(f'line {self.i}: expected a module, found {l[:60]!r}')
            return name
        return None

    def read(self, nmax, what=''):
        """Up to nmax values; a slash ends the card early."""
        out = []
        while len(out) < nmax:
            if self.i >= len(self.lines):
                raise DeckError(f'the deck ends inside {what}')
            l = self.lines[self.i]
            self.i += 1
            if len(l) > 80:
                raise DeckError(f'line {self.i} is longer than 80 columns: {l[:90]!r}')
            k, ended = 0, False
            while k < len(l) and len(out) < nmax:
                c = l[k]
                if c in ' ,\t':
                    k += 1
                elif c == '/':
                    ended = True
                    break
                elif c == "'":
                    e = l.find("'", k + 1)
                    if e < 0:
                        raise DeckError(f'line {self.i}: string not closed')
                    out.append(l[k + 1:e])
                    k = e + 1
                else:
                    m = re.match(r"[^\s,/]+", l[k:])
                    out.append(m.group(0))
                    k += len(m.group(0))
            if ended or len(out) >= nmax:
                return out
        return out

    def ints(self, nmin, nmax, what):
        t = self.read(nmax, what)
        if len(t) < nmin:
            raise DeckError(f'line {self.i}: {what} needs {nmin} values, found {t}')
        try:
            return [int(v) for v in t]
        except ValueError:
            raise DeckError(f'line {self.i}: {what}: not integers: {t}')

    def floats(self, n, what):
        t = self.read(n, what)
        if len(t) != n:
            raise DeckError(f'line {self.i}: {what} needs {n} values, found {len(t)}: {t[:5]}')
        try:
            return [float(v) for v in t]
        except ValueError:
            raise DeckError(f'line {self.i}: {what}: not numbers: {t[:5]}')


class Njoy:
    def __init__(self, deck, tapes):
        self.c = Cards(deck)
        self.t = dict(tapes)
        self.log = []
        self.stopped = False

    # -- helpers
    def need(self, n, *kinds):
        if n not in self.t:
            raise DeckError(f'line {self.c.i}: tape {n} is read before anything is written on it')
        if self.t[n].kind not in kinds:
            raise DeckError(f'line {self.c.i}: tape {n} holds {self.t[n]!r}, expected {kinds}')
        return self.t[n]

    def put(self, n, tape):
        if n in self.t:
            raise DeckError(f'line {self.c.i}: tape {n} is written although it already holds {self.t[n]!r}')
        if not 20 <= abs(n) <= 99:
            raise DeckError(f'line {self.c.i}: tape number {n} is out of the allowed range')
        self.t[n] = tape

    def same_mat(self, tape, mat):
        if tape.mat != mat:
            raise DeckError(f'line {self.c.i}: material {mat} is not the one on the tape ({tape.mat})')

    def temps_on(self, tape, temps, what):
        missing = [t for t in temps if not any(abs(t - u) <= 1e-6 * max(1, abs(t)) for u in tape.temps)]
        if missing:
            raise DeckError(f'line {self.c.i}: {what} asks for temperatures {missing}, the tape has {tape.temps}')

    def flux(self):
        head = self.c.floats(8, 'user flux head')
        np_ = int(head[5])
        if int(head[4]) != 1 or int(head[6]) != np_:
            raise DeckError('user flux: interpolation range does not cover its points')
        # the interpolation card and the points are one list read (TAB1 in one read statement)
        return [int(head[7]), self.c.floats(2 * np_, 'user flux points')]

    def groups(self, what):
        n = self.c.ints(1, 1, what)[0]
        b = self.c.floats(n + 1, what + ' bounds')
        if any(y <= x for x, y in zip(b, b[1:])):
            raise DeckError(f'{what}: bounds do not increase')
        return b

    # -- modules
    def run(self):
        while True:
            name = self.c.module()
            if name is None:
                break
            if self.stopped:
                raise DeckError('there are cards after stop')
            if name == 'stop':
                self.stopped = True
                continue
            entry = {'module': name}
            getattr(self, name)(entry)
            self.log.append(entry)
        if not self.stopped:
            raise DeckError('the deck does not end with stop')
        return self

    def reconr(self, e):
        nendf, npend = self.c.ints(2, 2, 'reconr tapes')
        t = self.need(nendf, 'endf')
        e['label'] = self.c.read(1, 'reconr label')
        mat, ncards = (self.c.ints(2, 3, 'reconr material') + [0])[:2]
        self.same_mat(t, mat)
        e['err'] = self.c.floats(1, 'reconr error')[0]
        for _ in range(ncards):
            e.setdefault('cards', []).append(self.c.read(1, 'reconr comment'))
        if self.c.ints(1, 1, 'reconr end')[0] != 0:
            raise DeckError('reconr: no end of materials')
        self.put(npend, Tape('pendf', mat=mat, temps=[0.0], parts=(), err=e['err']))

    def broadr(self, e):
        nendf, nin, nout = self.c.ints(3, 3, 'broadr tapes')
        self.same_mat(self.need(nendf, 'endf'), self.need(nin, 'pendf').mat)
        v = self.c.read(5, 'broadr material')
        mat, n = int(v[0]), int(v[1])
        self.same_mat(self.t[nin], mat)
        e['err'] = self.c.floats(1, 'broadr error')[0]
        temps = self.c.floats(n, 'broadr temperatures')
        if self.c.ints(1, 1, 'broadr end')[0] != 0:
            raise DeckError('broadr: no end of materials')
        self.put(nout, Tape('pendf', mat=mat, temps=temps, parts=self.t[nin].parts + ('broadr',), err=e['err']))

    def heatr(self, e):
        nendf, nin, nout = self.c.ints(3, 4, 'heatr tapes')[:3]
        self.need(nendf, 'endf')
        t = self.need(nin, 'pendf')
        mat, npk = self.c.ints(2, 6, 'heatr material')[:2]
        self.same_mat(t, mat)
        e['mts'] = self.c.ints(npk, npk, 'heatr quantities')
        self.put(nout, Tape('pendf', mat=mat, temps=list(t.temps), parts=t.parts + ('heatr',), err=t.err))

    def purr(self, e):
        nendf, nin, nout = self.c.ints(3, 3, 'purr tapes')
        self.need(nendf, 'endf')
        t = self.need(nin, 'pendf')
        v = self.c.ints(5, 6, 'purr material')
        self.same_mat(t, v[0])
        temps = self.c.floats(v[1], 'purr temperatures')
        self.temps_on(t, temps, 'purr')
        self.c.floats(v[2], 'purr dilutions')
        if self.c.ints(1, 1, 'purr end')[0] != 0:
            raise DeckError('purr: no end of materials')
        self.put(nout, Tape('pendf', mat=v[0], temps=list(t.temps), parts=t.parts + ('purr',), err=t.err))

    def thermr(self, e):
        nde, nin, nout = self.c.ints(3, 3, 'thermr tapes')
        t = self.need(nin, 'pendf')
        v = self.c.ints(10, 10, 'thermr material')
        if nde:
            self.same_mat(self.need(nde, 'endf'), v[0])
        elif v[0]:
            raise DeckError('thermr: a thermal material without a tape for it')
        self.same_mat(t, v[1])
        temps = self.c.floats(v[3], 'thermr temperatures')
        self.temps_on(t, temps, 'thermr')
        tol, emax = self.c.floats(2, 'thermr tolerance')
        e.update(card=v, tol=tol, emax=emax)
        self.put(nout, Tape('pendf', mat=v[1], temps=list(t.temps), parts=t.parts + (('thermr', v[0], v[8]),), err=t.err, thermal=dict(card=v, tol=tol, emax=emax)))

    def groupr(self, e):
        nendf, npend, _, nout = self.c.ints(4, 4, 'groupr tapes')
        self.need(nendf, 'endf')
        t = self.need(npend, 'pendf')
        v = (self.c.ints(6, 8, 'groupr material') + [1])[:7]
        mat, ign, igg, iwt, lord, ntemp, nsig = v
        self.same_mat(t, mat)
        self.c.read(1, 'groupr title')
        temps = self.c.floats(ntemp, 'groupr temperatures')
        self.temps_on(t, temps, 'groupr')
        self.c.floats(nsig, 'groupr dilutions')
        if ign != 1:
            raise DeckError('groupr: not the user groups')
        b = self.groups('groupr groups')
        flux = self.flux() if iwt == 1 else None
        sections = []
        for _ in range(ntemp):
            these = []
            while True:
                c = self.c.read(3, 'groupr reaction')
                if int(c[0]) == 0:
                    break
                these.append((int(c[0]), int(c[1]) if len(c) > 1 else None))
            sections.append(these)
        if self.c.ints(1, 1, 'groupr end')[0] != 0:
            raise DeckError('groupr: no end of materials')
        self.put(nout, Tape('gendf', mat=mat, temps=temps, bounds=b, iwt=iwt, flux=flux, sections=sections, source=npend, parts=t.parts))

    def errorr(self, e):
        v = self.c.ints(4, 6, 'errorr tapes')
        nendf, npend, ngout, nout = v[:4]
        self.need(nendf, 'endf')
        if npend:
            self.need(npend, 'pendf')
        g = self.need(ngout, 'gendf') if ngout else None
        if not npend and not ngout:
            raise DeckError('errorr: neither pointwise nor group data')
        mat, ign, iwt = self.c.ints(3, 5, 'errorr material')[:3]
        m = self.c.read(2, 'errorr temperature')
        temp = float(m[1])
        w = self.c.ints(2, 6, 'errorr covariance file')
        mf = w[1]
        if ign != 1:
            raise DeckError('errorr: not the user groups')
        b = self.groups('errorr groups')
        flux = self.flux() if iwt == 1 else None
        if g is not None:
            self.same_mat(g, mat)
            self.temps_on(g, [temp], 'errorr')
            if b != g.bounds:
                raise DeckError('errorr: other groups than on the group tape')
            if iwt != g.iwt or flux != g.flux:
                raise DeckError('errorr: other weight than on the group tape')
            k = [i for i, t in enumerate(g.temps) if abs(t - temp) < 1e-6 * max(1, temp)][0]
            have = g.sections[k]
            want = {33: [(3, None)], 31: [(3, 452)], 35: [(5, 18)]}[mf]
            for x in want:
                if x not in have:
                    raise DeckError(f'errorr: {x} at {temp} K is not on the group tape: {have}')
        if npend:
            self.temps_on(self.t[npend], [temp], 'errorr')
        self.put(nout, Tape('cov', mat=mat, mf=mf, temp=temp, bounds=b, iwt=iwt, flux=flux))

    def covr(self, e):
        v = (self.c.ints(2, 3, 'covr tapes') + [0])[:3]
        t = self.need(v[0], 'cov')
        if v[1] == 0:
            self.c.read(1, 'covr colours')
            self.c.read(1, 'covr range')
            c = self.c.ints(2, 6, 'covr cases')
            cases = []
            for _ in range(c[1]):
                k = self.c.ints(1, 4, 'covr case')
                cases.append(tuple(k))
                self.same_mat(t, k[0])
            self.put(v[2], Tape('plot', mat=t.mat, mf=t.mf, temp=t.temp, cases=cases))
        else:
            matype = self.c.ints(1, 2, 'covr type')[0]
            e['lib'] = self.c.read(1, 'covr library')
            self.c.read(1, 'covr description')
            k = self.c.ints(1, 4, 'covr case')
            self.same_mat(t, k[0])
            if len(k) > 1:
                raise DeckError('covr: not all reactions are written')
            self.put(v[1], Tape('boxer', mat=t.mat, mf=t.mf, temp=t.temp, bounds=t.bounds, matype=matype, iwt=t.iwt))

    def viewr(self, e):
        a, b = self.c.ints(2, 2, 'viewr tapes')
        t = self.need(a, 'plot')
        self.put(b, Tape('ps', mat=t.mat, mf=t.mf, temp=t.temp, cases=t.cases))

    def acer(self, e):
        nendf, npend, ngend, nace, ndir = self.c.ints(5, 5, 'acer tapes')
        self.need(nendf, 'endf')
        t = self.need(npend, 'pendf')
        c = self.c.read(4, 'acer option')
        iopt = int(c[0])
        title = self.c.read(1, 'acer title')[0]
        v = self.c.read(2 if iopt == 1 else 3, 'acer material')
        mat, temp = int(v[0]), float(v[1])
        self.same_mat(t, mat)
        self.temps_on(t, [temp], 'acer')
        extra = {}
        if iopt == 1:
            self.c.read(2, 'acer options')
            self.c.read(3, 'acer thinning')
        elif iopt == 2:
            extra = dict(name=v[2], zaids=self.c.ints(1, 3, 'acer zaids'), card=self.c.read(7, 'acer thermal'))
        else:
            raise DeckError(f'acer option {iopt}')
        self.put(nace, Tape('ace', mat=mat, temp=temp, suffix=c[3], parts=t.parts, title=title, iopt=iopt, **extra))
        self.put(ndir, Tape('xsdir', mat=mat, temp=temp, suffix=c[3]))
