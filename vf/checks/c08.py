"""C08: mapping of group values on pointwise energies."""
import numpy as np

from ..core import Workload, quiet
from .. import gen

ID = 'C08'
RULE = ('random group structures (1-252 groups, incl. the standard ones) and energy grids with points on, next to and between the bounds, below and above the '
        'range, with and without explicit range ends and fill values; oracle: a loop over the groups written from the definition; non-trivial = points in at '
        'least two groups or outside; distinct by structure and options')
EXPECT = {'points': 5000, 'on_bound': 300, 'outside_low': 100, 'outside_high': 100, 'above_top_bin': 50, 'at_min': 30, 'default_min': 20, 'default_max': 50, 'refused': 20}


def reference(energies, highs, values, max_e, min_e, fill):
    """Group g (1 = highest) holds low < e <= high; the lowest group includes min_e, the highest reaches up to max_e."""
    n = len(highs)
    out = []
    for e in energies:
        if e < min_e or e > max_e:
            out.append(fill)
            continue
        for g in range(1, n + 1):
            high = max_e if g == 1 else highs[g - 1]
            low = highs[g] if g < n else min_e
            if low < e <= high or (g == n and e == min_e):
                out.append(values[g - 1])
                break
        else:
            raise AssertionError('energy in no group')
    return np.array(out, float)


def _structure(rng):
    from ASAPy import njoy
    m = rng.integers(0, 4)
    if m == 0:
        b = [njoy.energy_groups_3, njoy.energy_groups_44, njoy.energy_groups_56, njoy.energy_groups_238, njoy.energy_groups_252][int(rng.integers(0, 5))]
        return np.array(sorted(b, reverse=True), float)
    return gen.group_bounds(rng, int(rng.choice([1, 2, 3, 5, 10, 30])))


def mapping(case):
    import pandas as pd
    from ASAPy import XsecSampler as xs
    rng = case.rng
    b = _structure(rng)
    n = len(b) - 1
    highs, lowest = b[:-1], b[-1]
    values = rng.uniform(0.3, 1.7, n)
    # distinct values per group, so that a wrong group always shows
    top = highs[0]
    max_e = None if rng.random() < 0.6 else float(top * rng.choice([1.0, 1.0000001, 1.5, 10.0]))
    min_e = float(lowest) if rng.random() < 0.8 else (None if rng.random() < 0.5 else 0.0)
    fill = 1.0 if rng.random() < 0.5 else float(rng.choice([0.0, -3.0, 7.5]))
    eff_max = top if max_e is None else max_e
    eff_min = highs[-1] / 10 if min_e is None else min_e
    pts = [gen.log_uniform(rng, max(eff_min, 1e-7) / 3, eff_max * 2, int(rng.integers(5, 60)))]
    on = rng.choice(highs, int(rng.integers(1, 8)))
    pts.append(on)
    pts.append(np.nextafter(on, 0))
    pts.append(np.nextafter(on, np.inf))
    pts.append(np.array([eff_min, eff_max, np.nextafter(eff_max, np.inf), top]))
    if eff_min > 0:
        pts.append(np.array([np.nextafter(eff_min, 0), eff_min / 2]))
    else:
        pts.append(np.array([1e-11]))
    e = np.concatenate(pts)
    if rng.random() < 0.7:
        e = np.sort(e)
    else:
        e = rng.permutation(e)
    case.input(highs=highs, e=e, values=values, max_e=max_e, min_e=min_e, fill=fill)
    hs = pd.Series(highs, index=range(1, n + 1))
    vs = pd.Series(values, index=range(1, n + 1))
    kw = {}
    if max_e is not None:
        kw['max_e'] = max_e
    else:
        case.event('default_max')
    if min_e is not None:
        kw['min_e'] = min_e
    else:
        case.event('default_min')
    if fill != 1.0 or rng.random() < 0.3:
        kw['value_outside_of_range'] = fill
    given = list(e) if rng.random() < 0.2 else e.copy()
    with quiet():
        got = np.asarray(xs.map_groups_to_continuous(given, hs, vs, **kw), float)
    want = reference(e, highs, values, eff_max, eff_min, fill)
    case.check(got.shape == e.shape, 'one value per energy', got=list(got.shape), want=list(e.shape))
    bad = got != want
    i = int(np.argmax(bad))
    case.check(not bad.any(), 'an energy got the value of another group', energy=float(e[i]), got=got[i], want=want[i], bad=int(bad.sum()), groups=n, max_e=max_e, min_e=min_e)
    case.equal(hs.values, highs, 'mapping changed the group bounds')
    case.equal(vs.values, values, 'mapping changed the group values')
    case.equal(np.asarray(given), e, 'mapping changed the energies')
    case.event('points', len(e))
    case.event('on_bound', int(np.isin(e, highs).sum()))
    case.event('outside_low', int((e < eff_min).sum()))
    case.event('outside_high', int((e > eff_max).sum()))
    case.event('above_top_bin', int(((e > top) & (e <= eff_max)).sum()))
    case.event('at_min', int((e == eff_min).sum()))
    case.sig(n, max_e, min_e, fill, np.round(highs[:6], 6).tolist(), len(e))
    case.sample(groups=n, energies=len(e), max_e=max_e, min_e=min_e, fill=fill, e_head=e[:4], got_head=got[:4])


def refuse(case):
    import pandas as pd
    from ASAPy import XsecSampler as xs
    rng = case.rng
    n = int(rng.integers(2, 20))
    b = gen.group_bounds(rng, n)
    hs = pd.Series(b[:-1], index=range(1, n + 1))
    vs = pd.Series(rng.uniform(0.5, 1.5, n), index=range(1, n + 1))
    e = np.sort(gen.log_uniform(rng, b[-1], b[0], 20))
    case.raises(lambda: xs.map_groups_to_continuous(e, hs, vs, min_e=float(b[-2])), 'a lowest bound equal to the upper bound of the lowest group must be refused')
    case.raises(lambda: xs.map_groups_to_continuous(e, hs, vs, min_e=float(b[-1]), max_e=float(b[0] * rng.uniform(0.1, 0.999))),
                'a highest bound below the highest group must be refused')
    case.sig('refuse', n)


WORKLOADS = [Workload('mapping', mapping, 700, 12000), Workload('refuse', refuse, 30, 300)]
