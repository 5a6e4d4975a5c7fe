"""C16: editing an ACE table in memory."""
import numpy as np

from ..core import Workload, quiet
from .. import acegen

ID = 'C16'
RULE = ('random neutron tables; random histories of 4-14 operations on the editor (read at own or other energies, read the unadjusted data, set, set again, set with a wrong '
        'length, set an absent reaction, change a returned array) over cross-sections, nu and fission spectrum, checked after every step against a model; '
        'non-trivial = at least one set; distinct by history')
EXPECT = {'opened': 150, 'sets': 300, 'set_again': 40, 'refused': 150, 'reads': 2000, 'at_energies': 100, 'unadjusted': 300, 'nu_set': 25, 'absent': 100, 'temperature': 60, 'no_fission': 30,
          'poly_refused': 5, 'set_back': 30, 'threshold': 60}
MEV = 1e6


def truth(a):
    """MT -> (energies eV, values) of what an editor must have, sums that the reader makes itself left out."""
    t = {1: (a.E * MEV, a.total), 2: (a.E * MEV, a.elastic)}
    if np.any(a.absorption != 0):
        t[101] = (a.E * MEV, a.absorption)
    for rx in a.reactions:
        if 200 < rx['mt'] < 219 or rx['mt'] == 444:
            continue
        s = rx['start'] - 1
        t[rx['mt']] = (a.E[s:s + len(rx['xs'])] * MEV, rx['xs'])
    return t


def lin(x, xs, ys):
    """Linear interpolation, zero below the first energy."""
    return np.interp(x, xs, ys, left=0.0)


def history(case):
    from ASAPy import AceIO
    rng = case.rng
    a = acegen.random_ace(rng, chi='18', nu='both')
    p = case.path('t.ace')
    with open(p, 'w') as f:
        f.write(a.text())
    kelvin = int(round(a.kT / 8.6173324e-11))
    how = int(rng.integers(0, 4))
    case.input(name=a.name, mts=[rx['mt'] for rx in a.reactions], how=how)
    with quiet():
        ed = AceIO.AceEditor(p) if how == 0 else AceIO.AceEditor(p, [None, f'{kelvin}K', kelvin, str(kelvin)][how])
    case.check(ed.temperature == f'{kelvin}K', 'temperature', got=ed.temperature, want=kelvin)
    for other in (kelvin + 7, kelvin // 10, f'{kelvin}0', str(kelvin)[1:], f'{kelvin - 1}K', f'{kelvin}.5'):
        case.raises(lambda: AceIO.AceEditor(p, other), f'a temperature the file does not have must be refused ({other})')
    case.event('temperature')
    cur = truth(a)
    if 18 in cur:
        cur[452] = (a.nu['total'][1].x * MEV, a.nu['total'][1].y)
        law = next(rx for rx in a.reactions if rx['mt'] == 18)['laws'][0]
    extra_sums = {m for m, parts in ((16, range(875, 892)), (103, range(600, 650)), (104, range(650, 700)), (105, range(700, 750)), (106, range(750, 800)), (107, range(800, 850)), (4, range(50, 92)))
                  if m not in cur and any(x in cur for x in parts)}
    got = set(ed.all_mts)
    want = set(cur) | ({1018} if 18 in cur else set())
    case.check(want <= got <= want | extra_sums, 'list of reactions', got=sorted(got), want=sorted(want))
    orig = {m: (x, y.copy()) for m, (x, y) in cur.items()}
    cur = {m: (x, y.copy()) for m, (x, y) in cur.items()}
    touched = set()
    ops = []
    case.event('opened')

    def verify(m):
        case.close_to(ed.get_energy(m), cur[m][0], f'MT {m}: energies', rtol=1e-12, ops=ops)
        case.close_to(ed.get_sigma(m), cur[m][1], f'MT {m}: values', rtol=1e-12, ops=ops)
        case.close_to(ed.get_sigma(m, unadjusted=True), orig[m][1], f'MT {m}: unadjusted values', rtol=1e-12, ops=ops)
        case.event('reads')
        case.event('unadjusted', int(m in touched))
    with quiet():
        for m in cur:
            verify(m)
        for _ in range(int(rng.integers(4, 15))):
            op = str(rng.choice(['set', 'set', 'at', 'short', 'absent', 'mutate']))
            m = int(rng.choice(list(cur)))
            ops.append((op, m))
            case.input(ops=list(ops))
            x, y = cur[m]
            if op == 'set':
                new = y * rng.uniform(0, 2, len(y)) if rng.random() < 0.6 else rng.uniform(0, 5, len(y))
                kind = rng.random()
                if kind < 0.15:         # differences of large numbers can be negative
                    new[int(rng.integers(0, len(new)))] *= -0.1
                elif kind < 0.3:        # back to what the file has
                    new = orig[m][1].copy()
                    case.event('set_back')
                given = new.copy()
                case.event('set_again', int(m in touched))
                ed.set_sigma(m, given)
                case.check(np.array_equal(given, new), 'the values given were changed')
                cur[m] = (x, new)
                touched.add(m)
                case.event('sets')
                case.event('nu_set', int(m == 452))
                case.event('threshold', int(x[0] > a.E[0] * MEV * 2))
            elif op == 'at' and m != 452:
                e = np.sort(np.concatenate([rng.choice(x, 3), rng.uniform(x[0], x[-1], 4), [x[0] * 0.5 if x[0] > 1 else x[0]]]))
                case.close_to(ed.get_sigma(m, at_energies=e), lin(e, *cur[m]), f'MT {m}: values at other energies', rtol=1e-4, atol=1e-12, ops=ops)
                case.close_to(ed.get_sigma(m, at_energies=x), cur[m][1], f'MT {m}: values at its own energies', rtol=1e-9, ops=ops)
                case.close_to(ed.get_sigma(m, at_energies=x, unadjusted=True), orig[m][1], f'MT {m}: unadjusted values at its own energies', rtol=1e-9, ops=ops)
                case.event('at_energies')
            elif op == 'short':
                bad = np.ones(max(0, len(y) + int(rng.choice([-1, 1, 5]))))
                case.raises(lambda: ed.set_sigma(m, bad), f'MT {m}: values of the wrong length must be refused')
                case.event('refused')
            elif op == 'absent':
                k = int(rng.choice([z for z in (5, 11, 30, 37, 109, 117, 810, 204, 444) if z not in got]))
                case.raises(lambda: ed.get_sigma(k), 'a reaction the table does not have must be refused', KeyError)
                case.raises(lambda: ed.set_sigma(k, np.ones(3)), 'a reaction the table does not have must be refused')
                case.event('absent')
                case.event('refused')
            elif op == 'mutate' and m != 452:
                v = ed.get_sigma(m)
                v *= 3.0
                v = ed.get_sigma(m, unadjusted=True)
                v += 1.0
            case.check(set(ed.adjusted_mts) == touched, 'the adjusted reactions are not the ones that were set', got=sorted(ed.adjusted_mts), want=sorted(touched), ops=ops)
            for k in {m} | {int(v) for v in rng.choice(list(cur), 3)}:
                verify(k)
            for k in touched:
                case.close_to(ed.original_sigma[k], orig[k][1], f'MT {k}: stored original values', rtol=1e-12, ops=ops)
        for m in cur:
            verify(m)
        if 18 in cur:
            ein, eo, pdf, cdf = ed.get_chi_distro()
            case.close_to(ein, law['e'] * MEV, 'incident energies of the fission spectrum', rtol=1e-12)
            for k, o in enumerate(law['out']):
                case.close_to(eo[k], o['x'] * MEV, 'energies of the fission spectrum', rtol=1e-12)
                case.close_to(pdf[k], o['p'] / MEV, 'fission spectrum', rtol=1e-12)
                case.close_to(cdf[k], o['c'], 'cumulative fission spectrum', rtol=1e-12)
            e, v = ed.get_nu_distro(unadjusted=True)
            case.close_to(v, orig[452][1], 'unadjusted nu', rtol=1e-12)
        else:
            case.raises(lambda: ed.get_nu_distro(), 'nu without fission must be refused')
            case.raises(lambda: ed.get_chi_distro(), 'a fission spectrum without fission must be refused')
            case.event('no_fission')
    case.sig(tuple(ops), case.index)
    case.sample(ops=ops)


def refuse(case):
    """Fissile tables the editor cannot change: nu given as a polynomial."""
    from ASAPy import AceIO
    rng = case.rng
    a = acegen.random_ace(rng, fissile=True, chi='18', nu='both')
    a.nu['total'] = ('poly', acegen.r([2.4, 0.1]))
    p = case.path('t.ace')
    with open(p, 'w') as f:
        f.write(a.text())
    case.input(name=a.name)
    with quiet():
        ed = AceIO.AceEditor(p)
    case.raises(lambda: ed.get_sigma(452), 'a polynomial nu must be refused', TypeError)
    case.raises(lambda: ed.set_sigma(452, np.ones(2)), 'a polynomial nu must be refused')
    case.check(not ed.adjusted_mts, 'a refused change is listed as adjusted')
    case.event('poly_refused')
    case.sig(case.index)


WORKLOADS = [Workload('history', history, 300, 4000), Workload('refuse', refuse, 8, 50)]
