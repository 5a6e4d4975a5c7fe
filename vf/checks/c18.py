"""C18: setting a fission spectrum."""
import numpy as np

from ..core import Workload, quiet
from .. import acegen

ID = 'C18'
RULE = ('random fissile tables with 2-4 spectra of 2-8 points, spectra set one or more times through both functions with densities scaled by group or at random, unchanged densities, '
        'zero densities in places, and lists or spectra of the wrong length; non-trivial = a changed spectrum; distinct by content')
EXPECT = {'later_spectrum_refused': 40, 'set': 200, 'set_again': 50, 'identity': 30, 'refused': 60, 'partial_fission': 15, 'zero_density': 20, 'others_unchanged': 100, 'not_quite_one': 30}
MEV = 1e6


def spectrum(case):
    from ASAPy import AceIO
    rng = case.rng
    while True:
        a = acegen.random_ace(rng, fissile=True, nu='both')
        if a.nu:
            break
    mt = next(rx['mt'] for rx in a.reactions if rx['ty'] == 19)
    law = next(rx for rx in a.reactions if rx['mt'] == mt)['laws'][0]
    if rng.random() < 0.25:
        # distributions of files do not always end at exactly one
        for o in law['out']:
            o['c'] = acegen.r(o['c'] * float(rng.choice([0.9998, 1.0003, 0.99])))
        case.event('not_quite_one')
    p = case.path('t.ace')
    with open(p, 'w') as f:
        f.write(a.text())
    with quiet():
        ed = AceIO.AceEditor(p)
    x = [o['x'] * MEV for o in law['out']]
    P = [o['p'] / MEV for o in law['out']]
    C = [o['c'] for o in law['out']]
    P0, C0 = [v.copy() for v in P], [v.copy() for v in C]
    before = {m: np.array(ed.get_sigma(m)) for m in ed.all_mts if m != 1018}
    steps = int(rng.choice([1, 1, 2, 3]))
    for k in range(steps):
        mode = str(rng.choice(['groups', 'random', 'identity', 'zero']))
        if mode == 'groups':
            cut = rng.uniform(0, max(v[-1] for v in x), 3)
            fac = rng.uniform(0.5, 1.5, 4)
            new = [v * fac[np.searchsorted(np.sort(cut), xx)] for v, xx in zip(P, x)]
        elif mode == 'random':
            new = [v * rng.uniform(0.2, 3, len(v)) for v in P]
        elif mode == 'identity':
            new = [v.copy() for v in P]
        else:
            new = [np.where(rng.random(len(v)) < 0.3, 0.0, v) for v in P]
        norm = []
        for i in range(len(P)):
            d = (new[i] - P[i]) * np.concatenate([[0.0], np.diff(x[i])])
            norm.append(C[i][-1] + d.sum())
        if min(norm) < 0.05:
            continue
        given = [v.copy() for v in new]
        case.input(mt=mt, mode=mode, step=k, x=x, p=P, new=new)
        with quiet():
            if mt == 18 and rng.random() < 0.5:
                ed.set_sigma(1018, given)
                case.check(1018 in ed.adjusted_mts, 'the spectrum is not listed as adjusted')
            else:
                ed.set_chi_distro(given, mt=mt)
            ein, eo, pdf, cdf = ed.get_chi_distro(mt=mt)
            ein0, eo0, pdf0, cdf0 = ed.get_chi_distro(mt=mt, unadjusted=True)
        case.close_to(ein, law['e'] * MEV, 'incident energies changed', rtol=1e-12)
        for i in range(len(P)):
            case.equal(given[i], new[i], 'the density given was changed')
            d = (new[i] - P[i]) * np.concatenate([[0.0], np.diff(x[i])])
            wc = (C[i] + np.cumsum(d)) / norm[i]
            wp = new[i] / norm[i]
            case.close_to(eo[i], x[i], 'energies changed', rtol=1e-12)
            case.close_to(pdf[i], wp, f'spectrum {i}: the density is not the one given, normalised', rtol=1e-9, atol=1e-25)
            case.close_to(cdf[i], wc, f'spectrum {i}: the cumulative distribution does not follow the density', rtol=1e-9, atol=1e-12)
            case.check(abs(cdf[i][-1] - 1) < 1e-12 and abs(cdf[i][0]) < 1e-12, f'spectrum {i}: the cumulative distribution must go from zero to one', got=[cdf[i][0], cdf[i][-1]])
            if mode == 'identity':
                case.close_to(pdf[i], P[i] / C[i][-1], 'setting the same density must not change it', rtol=1e-9)
            P[i], C[i] = wp, wc
            case.close_to(pdf0[i], P0[i], 'unadjusted density changed', rtol=1e-12)
            case.close_to(cdf0[i], C0[i], 'unadjusted cumulative distribution changed', rtol=1e-12)
        case.event('set')
        case.event('set_again', int(k > 0))
        case.event('identity', int(mode == 'identity'))
        case.event('zero_density', int(mode == 'zero'))
        case.event('partial_fission', int(mt != 18))
    # wrong shapes
    bad = [v.copy() for v in P]
    kind = str(rng.choice(['list', 'longer', 'shorter', 'one']))
    j = int(rng.integers(0, len(bad)))
    if kind == 'list':
        bad = bad[:-1]
    else:
        bad[j] = np.concatenate([bad[j], [0.0]]) if kind == 'longer' else bad[j][:-1] if kind == 'shorter' else bad[j][:1]
    listed = set(ed.adjusted_mts)
    case.input(bad=kind, spectrum=j)
    if mt == 18 and rng.random() < 0.5:
        case.raises(lambda: ed.set_sigma(1018, bad), f'a list of spectra of another shape must be refused ({kind})')
    else:
        case.raises(lambda: ed.set_chi_distro(bad, mt=mt), f'a list of spectra of another shape must be refused ({kind})')
    case.check(set(ed.adjusted_mts) == listed, 'a refused spectrum is listed as adjusted')
    case.event('later_spectrum_refused', int(kind != 'list' and j > 0))
    _, _, pdf, cdf = ed.get_chi_distro(mt=mt)
    for i in range(len(P)):
        case.close_to(pdf[i], P[i], 'a refused spectrum changed the data', rtol=1e-9, atol=1e-25)
        case.close_to(cdf[i], C[i], 'a refused spectrum changed the data', rtol=1e-9, atol=1e-12)
    case.event('refused')
    for m, v in before.items():
        case.check(np.array_equal(ed.get_sigma(m), v), f'MT {m} changed')
    case.event('others_unchanged')
    case.sig(mt, [v.tolist() for v in P])


WORKLOADS = [Workload('spectrum', spectrum, 250, 4000)]
