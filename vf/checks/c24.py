"""C24: reading ENDF-6 records and evaluations."""
import io

import numpy as np

from ..core import Workload, quiet
from .. import endfgen as eg

ID = 'C24'
RULE = ('streams of 3-10 records of all kinds (control, head, list, one and two dimensional tables, compact matrices, text) with any number of items, regions and points and '
        'every number format found in evaluations, read one after another by both readers; tapes of 1-4 evaluations with random sections, header data and directories, read '
        'by path, from an open file and all at once; non-trivial = more than one record or section; distinct by content')
EXPECT = {'records': 1500, 'tab1': 100, 'tab2': 100, 'list': 100, 'intg': 60, 'intg_negative': 15, 'evaluations': 200, 'sections': 800, 'several_materials': 40, 'open_file': 40, 'blank_mod': 15, 'eless': 300,
          'metastable': 15, 'full_rows': 40, 'leading_point': 60, 'described': 100, **{f'digits{k}': 10 for k in range(2, 7)}}


def modules():
    from ASAPy import endf as top
    from ASAPy.data import endf as data
    return [('ASAPy.endf', top), ('ASAPy.data.endf', data)]


def line(body, rng):
    return f'{body:66.66s}{9228:4d}{3:2d}{102:3d}{int(rng.integers(1, 99999)):5d}\n'


def number(rng):
    u = rng.random()
    if u < 0.1:
        return 0.0
    if u < 0.3:
        return float(rng.integers(-2000, 100000))
    v = float(rng.uniform(1, 10) * 10.0 ** int(rng.integers(-35, 36)))
    return v if rng.random() < 0.7 else -v


def field(case, rng, v):
    s = eg.f11(rng, v)
    t = s.strip()
    if rng.random() < 0.15:                  # at the left of its columns
        s = t.ljust(11)
    elif rng.random() < 0.15 and not t.startswith('-') and len(t) < 11:
        s = ('+' + t).rjust(11)
    elif rng.random() < 0.1:                 # no digit before the point
        for d in (5, 4):
            m, e = f'{abs(v):.{d - 1}e}'.split('e')
            u = ('-' if v < 0 else '') + '.' + m.replace('.', '') + f'{int(e) + 1:+d}'
            if len(u) <= 11:
                s = u.rjust(11)
                case.event('leading_point')
                break
    case.event('eless', int('e' not in s.lower() and any(c in s.strip()[1:] for c in '+-')))
    return s


def control(case, rng, n1=None, n2=None, ints=None):
    c = [field(case, rng, number(rng)) for _ in range(2)]
    l = [int(v) for v in rng.choice([0, 1, 2, 6, 99, 1234567, -7], 2)] if ints is None else list(ints)
    n = [int(rng.integers(0, 99999)) if x is None else int(x) for x in (n1, n2)]
    body = c[0] + c[1] + eg.i11(l[0]) + eg.i11(l[1]) + eg.i11(n[0]) + eg.i11(n[1])
    return body, [eg.value(c[0]), eg.value(c[1])] + l + n


def regions(rng, npairs):
    nr = int(rng.choice([1, 1, 2, 3, 4, 6, 7]))
    nr = min(nr, max(1, npairs - 1))
    nbt = sorted(int(v) for v in rng.choice(np.arange(2, npairs), nr - 1, replace=False)) + [npairs] if nr > 1 else [npairs]
    return nbt, [int(v) for v in rng.integers(1, 6, nr)]


def records(case):
    rng = case.rng
    text, want = '', []
    for _ in range(int(rng.integers(3, 11))):
        kind = str(rng.choice(['cont', 'skip', 'head', 'list', 'tab1', 'tab2', 'text']))
        lines = []
        if kind in ('cont', 'skip'):
            b, v = control(case, rng)
            if kind == 'skip':
                b = ' ' * 22 + b[22:]
                v = [None, None] + v[2:]
            lines, w = [b], v
        elif kind == 'head':
            za = int(rng.integers(1, 101)) * 1000 + int(rng.integers(0, 260))
            awr = field(case, rng, float(rng.uniform(0.9, 260)))
            l = [int(v) for v in rng.integers(0, 5, 4)]
            lines, w = [eg.f11(None, za) + awr + ''.join(eg.i11(v) for v in l)], [za, eg.value(awr)] + l
        elif kind == 'list':
            n = int(rng.choice([0, 1, 2, 5, 6, 7, 12, 13, 36, 40]))
            f = [field(case, rng, number(rng)) for _ in range(n)]
            b, v = control(case, rng, n1=n)
            lines, w = [b] + eg.rows(f), (v, [eg.value(x) for x in f])
            case.event('list')
            case.event('full_rows', int(n > 0 and n % 6 == 0))
        elif kind == 'tab1':
            n = int(rng.choice([2, 3, 4, 6, 7, 9, 20]))
            x = np.sort(rng.uniform(1, 9.9, n) * 10.0 ** np.arange(n) * 1e-5)
            fx = [field(case, rng, v) for v in x]
            fy = [field(case, rng, number(rng)) for _ in range(n)]
            nbt, law = regions(rng, n)
            b, v = control(case, rng, n1=len(nbt), n2=n)
            lines = [b] + eg.rows([t for p in zip(nbt, law) for t in (eg.i11(p[0]), eg.i11(p[1]))]) + eg.rows([t for p in zip(fx, fy) for t in p])
            w = (v[:4], [eg.value(t) for t in fx], [eg.value(t) for t in fy], nbt, law)
            case.event('tab1')
            case.event('full_rows', int(n % 3 == 0))
        elif kind == 'tab2':
            n = int(rng.integers(2, 12))
            nbt, law = regions(rng, n)
            b, v = control(case, rng, n1=len(nbt), n2=n)
            lines, w = [b] + eg.rows([t for p in zip(nbt, law) for t in (eg.i11(p[0]), eg.i11(p[1]))]), (v, nbt, law)
            case.event('tab2')
        else:
            t = ''.join(rng.choice(list('abc 0123.+-XYZ'), int(rng.integers(0, 67)))).ljust(66)
            lines, w = [t], t
        want.append((kind, w))
        text += ''.join(line(b, rng) for b in lines)
    case.input(text=text, kinds=[k for k, _ in want])
    for name, m in modules():
        f = io.StringIO(text)
        for i, (kind, w) in enumerate(want):
            what = f'{name}: record {i} ({kind})'
            if kind in ('cont', 'skip'):
                case.check(list(m.get_cont_record(f, skipC=True) if kind == 'skip' else m.get_cont_record(f)) == w, what, want=w)
            elif kind == 'head':
                case.check(list(m.get_head_record(f)) == w, what, want=w)
            elif kind == 'list':
                items, vals = m.get_list_record(f)
                case.check(list(items) == w[0] and list(vals) == w[1], what, got=[items, vals], want=w)
            elif kind == 'tab1':
                r = m.get_tab1_record(f)
                if len(r) == 2:
                    got = (list(r[0]), list(r[1].x), list(r[1].y), [int(v) for v in r[1].breakpoints], [int(v) for v in r[1].interpolation])
                else:
                    got = (list(r[0]), list(r[1]), list(r[2]), [int(v) for v in r[3]], [int(v) for v in r[4]])
                case.check(got == w, what, got=got, want=w)
            elif kind == 'tab2':
                p, t = m.get_tab2_record(f)
                case.check(list(p) == w[0] and [int(v) for v in t.breakpoints] == w[1] and [int(v) for v in t.interpolation] == w[2], what, got=[p, list(t.breakpoints), list(t.interpolation)], want=w)
            else:
                got = m.get_text_record(f)
                case.check(got == w, what, got=got, want=w)
            case.event('records')
        case.check(f.read() == '', f'{name}: records were left in the stream')
        for _ in range(10):
            v = number(rng)
            s = field(case, rng, v)
            case.check(m.float_endf(s) == eg.value(s), f'{name}: number', text=s, got=m.float_endf(s))
    case.sig(text)


def compact(case):
    from ASAPy.data import endf as data
    rng = case.rng
    nd = int(rng.choice([2, 3, 4, 5, 6]))
    per = {2: 18, 3: 13, 4: 11, 5: 9, 6: 8}[nd]
    if rng.random() < 0.1:
        per -= 1                             # shorter rows are allowed
    case.event(f'digits{nd}')
    n = int(rng.choice([2, 3, 5, 9, 20, 30]))
    k = np.tril(np.where(rng.random((n, n)) < 0.6, rng.integers(-10 ** nd + 1, 10 ** nd, (n, n)), 0), -1)
    lines = []
    for i in range(n):
        j = 0
        while j < i:
            if k[i, j] == 0:
                j += 1
                continue
            row = k[i, j:min(i, j + per)]
            cells = ''.join(f'{v:{nd + 1}d}' if v or rng.random() < 0.5 else ' ' * (nd + 1) for v in row)
            lines.append(f'{i + 1:5d}{j + 1:5d}' + (' ' if nd < 6 else '') + cells)
            j += per
    b = eg.f11(None, 0.0) * 2 + eg.i11(nd) + eg.i11(n) + eg.i11(len(lines)) + eg.i11(0)
    text = ''.join(line(v, rng) for v in [b] + lines) + line('the end', rng)
    case.input(text=text)
    f = io.StringIO(text)
    got = np.asarray(data.get_intg_record(f))
    want = np.identity(n)
    for i in range(n):
        for j in range(i):
            if k[i, j]:
                want[i, j] = want[j, i] = (k[i, j] + (0.5 if k[i, j] > 0 else -0.5)) / 10 ** nd
    case.close_to(got, want, 'compact correlation matrix', rtol=1e-12)
    case.check(f.readline().startswith('the end'), 'compact matrix: wrong number of lines read')
    case.event('intg')
    case.event('intg_negative', int((k < 0).any()))
    case.sig(text)


LIB = {0: 'ENDF/B', 1: 'ENDF/A', 2: 'JEFF', 3: 'EFF', 4: 'ENDF/B High Energy', 5: 'CENDL', 6: 'JENDL', 31: 'INDL/V', 32: 'INDL/A', 33: 'FENDL', 34: 'IRDF', 35: 'BROND', 36: 'INGDB-90', 37: 'FENDL/A', 41: 'BROND'}
NEW = {17: 'TENDL', 18: 'ROSFOND'}        # known to the reader of the data package
SUB = {0: 'Photo-nuclear data', 1: 'Photo-induced fission product yields', 3: 'Photo-atomic data', 4: 'Radioactive decay data', 5: 'Spontaneous fission product yields', 6: 'Atomic relaxation data', 10: 'Incident-neutron data',
       11: 'Neutron-induced fission product yields', 12: 'Thermal neutron scattering data', 19: 'Neutron standards', 113: 'Electro-atomic data', 10010: 'Incident-proton data', 10011: 'Proton-induced fission product yields',
       10020: 'Incident-deuteron data', 10030: 'Incident-triton data', 20030: 'Incident-helion (3He) data', 20040: 'Incident-alpha data'}


SYMBOL = {92: 'U', 1: 'H', 26: 'Fe', 95: 'Am', 8: 'O', 40: 'Zr', 72: 'Hf', 94: 'Pu'}


def evaluations(case):
    rng = case.rng
    mats = []
    n = int(rng.choice([1, 1, 2, 3, 4]))
    for _ in range(n):
        za = [(92, 235), (1, 1), (26, 56), (95, 242), (8, 16), (40, 0), (72, 178), (95, 244), (95, 241), (94, 242)][int(rng.integers(0, 10))]
        m = eg.simple(rng, z=za[0], a=za[1], mat=int(rng.integers(25, 9999)), cov_mts=[int(v) for v in rng.choice([2, 18, 102, 851], int(rng.integers(0, 4)), replace=False)],
                      liso=int(rng.random() < 0.2), nlib=int(rng.choice(list(LIB) + list(NEW) + [50])), other=[(int(f), int(t)) for f, t in zip(rng.choice([2, 3, 4, 12, 32, 40], 3), rng.choice([1, 2, 16, 151, 999], 3))])
        m.awi, m.emax, m.temp, m.elis = float(rng.choice([0.0, 1.0])), float(rng.choice([2e7, 1.5e8])), float(rng.choice([0.0, 293.6])), float(rng.choice([0.0, 48600.0]))
        m.sta, m.ldrv, m.nmod = float(rng.integers(0, 2)), int(rng.integers(0, 3)), int(rng.integers(0, 4))
        m.nsub = int(rng.choice([10] * 4 + list(SUB)))
        if rng.random() < 0.2:
            m.text = m.text[:int(rng.integers(0, 7))]
        if m.text and rng.random() < 0.6:
            m.text[:2] = [''.join(rng.choice(list('abcdEFG0123-/. '), 66)) for _ in m.text[:2]]
        for k in list(m.mods):
            m.mods[k] = int(rng.integers(0, 3))
        mats.append(m)
    blank = bool(rng.random() < 0.2)
    text = eg.tape(mats, **({} if rng.random() < 0.7 else {'tpid': ''}), blank_mod=blank, numbered=bool(rng.random() < 0.8))
    p = case.path('t.endf')
    with open(p, 'w') as f:
        f.write(text)
    case.input(text=text if len(text) < 6000 else text[:6000])
    for name, mod in modules():
        evs = []
        with quiet():
            evs = mod.get_evaluations(p)
        case.check(len(evs) == n, f'{name}: number of evaluations', got=len(evs), want=n)
        with quiet():
            evs.append(mod.Evaluation(p))
            with open(p) as f:
                evs.append(mod.Evaluation(f))
                case.event('open_file')
        for ev, m in zip(evs, mats + [mats[0], mats[0]]):
            what = f'{name}: material {m.mat}'
            head, _ = m.header(blank)
            secs = {(1, 451): head}
            secs.update(m.sections)
            case.check(ev.material == m.mat, what + ': number', got=ev.material)
            case.check(set(ev.section) == set(secs), what + ': sections', got=sorted(ev.section), want=sorted(secs))
            for k, lines in secs.items():
                got = [l[:66] for l in ev.section[k].split('\n')[:-1]]
                case.check(got == [f'{l:66.66s}' for l in lines], what + f': text of section {k}', got=got[:3], want=lines[:3])
                case.event('sections')
            case.check([tuple(v) for v in ev.reaction_list] == m.directory(), what + ': directory', got=list(ev.reaction_list), want=m.directory())
            z, a = divmod(m.za, 1000)
            state = 2 if (z, a, m.liso) == (95, 242, 1) else m.lis
            t = ev.target
            got = [t['atomic_number'], t['mass_number'], t['mass'], t['fissionable'], t['excitation_energy'], t['stable'], t['state'], t['isomeric_state'], t['temperature']]
            want = [z, a, m.awr, m.lfi == 1, m.elis, m.sta == 0, state, m.liso, m.temp]
            case.check(got == want, what + ': target', got=got, want=want)
            case.check(ev.projectile['mass'] == m.awi and ev.info['energy_max'] == m.emax, what + ': projectile', got=[ev.projectile, ev.info['energy_max']])
            case.check(ev.info['modification'] == m.nmod and ev.info['format'] == 6 and ev.info['derived'] == (m.ldrv > 0), what + ': information', got={k: v for k, v in ev.info.items() if k != 'description'})
            lib = {**LIB, **(NEW if name == 'ASAPy.data.endf' else {})}.get(m.nlib, 'Unknown')
            case.check(ev.info['sublibrary'] == (SUB[m.nsub] if name == 'ASAPy.data.endf' else m.nsub), what + ': sublibrary', got=ev.info['sublibrary'], want=m.nsub)
            case.check(tuple(ev.info['library']) == (lib, m.nver, m.lrel), what + ': library', got=ev.info['library'], want=[lib, m.nver, m.lrel])
            if len(m.text) >= 5:
                tt = [f'{l:66.66s}' for l in m.text]
                case.check(t['zsymam'] == tt[0][:11] and ev.info['laboratory'] == tt[0][11:22] and ev.info['author'] == tt[0][32:66] and list(ev.info['description']) == tt[5:] and list(ev.info['identifier']) == tt[2:5],
                           what + ': description', got=t.get('zsymam'))
                got = [ev.info[k] for k in ('date', 'reference', 'date_distribution', 'date_release', 'date_entry')]
                want = [tt[0][22:32], tt[1][1:22], tt[1][22:32], tt[1][33:43], tt[1][55:63]]
                case.check(got == want, what + ': dates and reference', got=got, want=want)
                case.event('described')
            if name == 'ASAPy.data.endf':
                case.check(ev.gnd_name == SYMBOL[z] + str(a) + (f'_m{m.liso}' if m.liso else ''), what + ': name', got=ev.gnd_name)
            case.event('evaluations')
            case.event('metastable', int(m.liso > 0))
        case.event('several_materials', int(n > 1))
        case.event('blank_mod', int(blank))
    case.sig(text)
    case.sample(materials=[m.mat for m in mats], sections=[len(m.sections) for m in mats])


WORKLOADS = [Workload('records', records, 250, 5000), Workload('compact', compact, 120, 2000), Workload('evaluations', evaluations, 80, 1500)]
