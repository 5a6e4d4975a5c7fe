"""C25: functions of one variable: evaluation, integral, sum, piecewise, storage, linear grids."""
import math

import numpy as np

from ..core import Workload

ID = 'C25'
RULE = ('random tabulated functions of 2-40 points with 1-6 interpolation regions of all five laws, steps inside, evaluated at points, between, outside, as numbers, lists and '
        'arrays of both kinds; polynomials and sums of both; piecewise and combined functions; storage in HDF5; functions with sharp peaks made linear and point sets thinned with '
        'tolerances 1e-4 to 0.1; non-trivial = two laws or more than two points; distinct by content')
EXPECT = {'almost_flat': 40, 'evaluated': 5000, 'outside': 300, 'at_point': 500, 'step': 50, 'several_laws': 80, 'integer_arguments': 40, 'integrals': 150, 'sums': 60, 'mixed_sums': 15, 'refused': 15, 'stored': 100,
          'piecewise': 100, 'combined': 40, 'linear': 60, 'points_added': 500, 'thinned': 100, 'points_removed': 500, 'zero_kept': 20, **{f'law{k}': 60 for k in range(1, 6)}}


def table(rng, laws=(1, 2, 3, 4, 5), steps=True, n=None):
    n = n or int(rng.choice([2, 2, 3, 4, 6, 10, 20, 40]))
    x = np.cumprod(np.concatenate([[10.0 ** rng.uniform(-5, 3)], 1 + 10.0 ** rng.uniform(-2, 1, n - 1)]))
    y = 10.0 ** rng.uniform(-3, 3, n) if rng.random() < 0.7 else rng.uniform(0.5, 5, n)
    nr = min(int(rng.choice([1, 1, 2, 3, 6])), n - 1)
    nbt = sorted(int(v) for v in rng.choice(np.arange(2, n), nr - 1, replace=False)) + [n] if nr > 1 else [n]
    law = [int(v) for v in rng.choice(laws, nr)]
    if rng.random() < 0.1:
        x = x * 1e-3
    if steps and n > 4 and rng.random() < 0.3:
        k = int(rng.integers(2, n - 2))
        x[k] = x[k - 1]
        if rng.random() < 0.2:
            x[k + 1] = x[k]                              # two steps at one place
    if rng.random() < 0.15:
        y[int(rng.integers(0, n - 1)):] = y[-1]          # flat stretch
    if rng.random() < 0.15:
        k = int(rng.integers(0, n))
        y[k:k + int(rng.integers(1, 4))] = 0.0           # zeros, also where the logarithm is interpolated
    if set(law) <= {1, 2, 3} and rng.random() < 0.4:
        y = y * rng.choice([-1.0, 1.0, 0.0], n)
    return x, y, nbt, law


def lawof(i, nbt, law):
    """Law of the interval i, i+1."""
    return next(l for b, l in zip(nbt, law) if i + 1 < b)


def inside(x0, x1, y0, y1, law, v):
    if law == 1:
        return y0
    if law == 2:
        return y0 + (v - x0) * (y1 - y0) / (x1 - x0)
    if law == 3:
        return y0 + (math.log(v) - math.log(x0)) * (y1 - y0) / (math.log(x1) - math.log(x0))
    if y0 == 0 or y1 == 0:
        return y0 if v == x0 else 0.0
    if law == 4:
        return math.exp(math.log(y0) + (v - x0) / (x1 - x0) * (math.log(y1) - math.log(y0)))
    return math.exp(math.log(y0) + math.log(v / x0) / math.log(x1 / x0) * (math.log(y1) - math.log(y0)))


def near(v, e):
    return abs(v - e) <= 1.0001e-5 * abs(e) + 1.0001e-14


def value(x, y, nbt, law, v):
    if near(v, x[-1]):
        return y[-1]
    if near(v, x[0]):
        return y[0]
    if v < x[0] or v > x[-1]:
        return 0.0
    i = max(k for k in range(len(x)) if x[k] <= v)
    return inside(x[i], x[i + 1], y[i], y[i + 1], lawof(i, nbt, law), v)


def arguments(rng, x):
    v = [float(a) for a in rng.choice(x, min(len(x), 5))]
    v += [float(x[i] + (x[i + 1] - x[i]) * f) for i, f in zip(rng.integers(0, len(x) - 1, 8), rng.random(8))]
    v += [float(x[0] * (1 - rng.uniform(1e-4, 1))), float(x[-1] * (1 + rng.uniform(1e-4, 3)))]
    v += [float(x[0] * (1 + s * t)) for s, t in zip((1, -1), 10.0 ** rng.uniform(-4.9, -2, 2))] + [float(x[-1] * (1 + s * t)) for s, t in zip((1, -1), 10.0 ** rng.uniform(-4.9, -2, 2))]
    v = [a for a in v if not (near(a, x[0]) or near(a, x[-1])) or a in (x[0], x[-1])]
    return [v[i] for i in rng.permutation(len(v))]


def evaluate(case):
    from ASAPy.data.function import Tabulated1D
    rng = case.rng
    x, y, nbt, law = table(rng)
    case.input(x=list(x), y=list(y), nbt=nbt, law=law)
    if len(nbt) == 1 and law == [2] and rng.random() < 0.5:
        f = Tabulated1D(x, y)
    elif rng.random() < 0.5:
        f = Tabulated1D(list(x), list(y), nbt, law)
    else:
        f = Tabulated1D(x.copy(), y.copy(), np.array(nbt), np.array(law))
    case.check(len(f) == len(x) and f.n_pairs == len(x) and f.n_regions == len(nbt), 'sizes', got=[len(f), f.n_pairs, f.n_regions])
    v = arguments(rng, x)
    want = [value(x, y, nbt, law, a) for a in v]
    scale = float(np.max(np.abs(y))) * 1e-13
    case.close_to([f(a) for a in v], want, 'values one by one', rtol=1e-9, atol=scale)
    case.check(all(np.ndim(f(a)) == 0 for a in v[:3]), 'a number must give a number')
    case.close_to(f(v), want, 'values of a list', rtol=1e-9, atol=scale)
    arr = np.array(v)
    case.close_to(f(arr), want, 'values of an array', rtol=1e-9, atol=scale)
    case.check(arr.tolist() == v and list(f.x) == list(x) and list(f.y) == list(y), 'evaluation changed its arguments or the table')
    iv = [int(a) for a in np.unique(np.clip(rng.uniform(x[0], x[-1], 4), 0, 1e15).astype(np.int64)) if a > 0 and not near(a, x[0]) and not near(a, x[-1])]
    if iv:
        iw = [value(x, y, nbt, law, a) for a in iv]
        case.close_to(f(np.array(iv)), iw, 'values of an integer array', rtol=1e-9, atol=scale)
        case.close_to(f(iv[0]), iw[0], 'value of an integer', rtol=1e-9, atol=scale)
        case.event('integer_arguments')
    # the ends, also as the result of a conversion of units
    case.check(f(x[0]) == y[0] and f(x[-1]) == y[-1] and f(x[0] * (1 - 1e-12)) == y[0] and f(x[-1] * (1 + 1e-12)) == y[-1], 'values at the ends')
    case.event('evaluated', len(v))
    case.event('outside', sum(a < x[0] or a > x[-1] for a in v))
    case.event('at_point', sum(a in x for a in v))
    case.event('step', int((np.diff(x) == 0).any()))
    case.event('several_laws', int(len(set(law)) > 1))
    for l in set(law):
        case.event(f'law{l}')
    case.sig(list(x), list(y), nbt, law)
    case.sample(points=len(x), laws=law)


GX, GW = np.polynomial.legendre.leggauss(64)


def area(x0, x1, y0, y1, law):
    if x0 == x1:
        return 0.0
    if law in (1, 2, 4):
        u = (x0 + x1) / 2 + (x1 - x0) / 2 * GX
        return float(sum(w * inside(x0, x1, y0, y1, law, t) for w, t in zip(GW, u)) * (x1 - x0) / 2)
    l0, l1 = math.log(x0), math.log(x1)
    u = (l0 + l1) / 2 + (l1 - l0) / 2 * GX
    return float(sum(w * math.exp(t) * inside(x0, x1, y0, y1, law, math.exp(t)) for w, t in zip(GW, u)) * (l1 - l0) / 2)


def integrate(case):
    from ASAPy.data.function import Tabulated1D
    rng = case.rng
    x, y, nbt, law = table(rng)
    if rng.random() < 0.15:
        y = 1.0 / x                                   # log-log: the exponent -1
    elif rng.random() < 0.1:
        y = np.full(len(x), 2.0)
    if rng.random() < 0.3:                            # almost
        y = y * (1 + 10.0 ** rng.uniform(-6, -3) * rng.uniform(-1, 1, len(x)))
        if rng.random() < 0.6:
            y = (1.0 / x if rng.random() < 0.5 else np.full(len(x), 3.0)) * (1 + 10.0 ** rng.uniform(-6, -3) * rng.uniform(-1, 1, len(x)))
        case.event('almost_flat')
    case.input(x=list(x), y=list(y), nbt=nbt, law=law)
    with np.errstate(all='ignore'):
        got = Tabulated1D(x, y, nbt, law).integral()
    case.check(len(got) == len(x) and got[0] == 0, 'length or start of the integral', got=list(got)[:3])
    want, size = [0.0], [0.0]
    for i in range(len(x) - 1):
        want.append(want[-1] + area(x[i], x[i + 1], y[i], y[i + 1], lawof(i, nbt, law)))
        size.append(size[-1] + max(abs(y[i]), abs(y[i + 1])) * (x[i + 1] - x[i]))
    for i in range(len(x)):
        case.close_to(got[i], want[i], f'integral to point {i}', rtol=1e-8, atol=1e-9 * size[i])
    case.event('integrals')
    for l in set(law):
        case.event(f'law{l}')
    case.event('step', int((np.diff(x) == 0).any()))
    case.sig(list(x), list(y), nbt, law, 'i')


def poly(rng, n=None):
    n = n or int(rng.integers(1, 5))
    return [float(v) for v in rng.uniform(-2, 2, n)]


def combine(case):
    from ASAPy.data import function as fn
    rng = case.rng
    k = int(rng.choice([1, 2, 3, 4, 5, 7]))
    kinds = [str(v) for v in rng.choice(['tab', 'poly'], k)]
    if rng.random() < 0.3:
        kinds = ['poly'] * k
    grid = np.unique(np.round(rng.uniform(1, 100, 15), 1))
    truth, funcs = [], []
    for t in kinds:
        if t == 'poly':
            c = poly(rng)
            funcs.append(fn.Polynomial(c))
            truth.append(lambda v, c=c: sum(a * v ** i for i, a in enumerate(c)))
        else:
            x = np.sort(rng.choice(grid, int(rng.integers(2, 8)), replace=False))
            y = rng.uniform(-5, 5, len(x))
            nbt = [len(x)] if len(x) < 4 or rng.random() < 0.7 else [2, len(x)]
            law = [2] * len(nbt)
            funcs.append(fn.Tabulated1D(x, y, nbt, law))
            truth.append(lambda v, a=(x, y, nbt, law): value(*a, v))
    case.input(kinds=kinds)
    s = fn.sum_functions(iter(funcs) if rng.random() < 0.5 else funcs)
    if 'tab' in kinds:
        want = np.unique(np.concatenate([f.x for f, t in zip(funcs, kinds) if t == 'tab']))
        case.check(type(s).__name__ == 'Tabulated1D' and list(s.x) == list(want), 'sum: points', got=list(getattr(s, 'x', [])), want=list(want))
        case.close_to(s.y, [sum(f(v) for f in truth) for v in want], 'sum: values', rtol=1e-9, atol=1e-9)
        case.check(list(s.interpolation) == [2] and list(s.breakpoints) == [len(want)], 'sum: interpolation')
        case.event('mixed_sums', int('poly' in kinds))
        bad = fn.Tabulated1D([1.0, 2.0, 3.0], [1.0, 2.0, 3.0], [2, 3], [2, int(rng.choice([1, 3, 4, 5]))])
        case.raises(lambda: fn.sum_functions(funcs + [bad]), 'a sum with another law must be refused')
        case.event('refused')
    for v in rng.uniform(0.5, 120, 6):
        v = float(v)
        if 'tab' not in kinds:
            case.close_to(s(v), sum(f(v) for f in truth), 'sum of polynomials', rtol=1e-9, atol=1e-9)
        if any(near(v, f.x[j]) for f, t in zip(funcs, kinds) if t == 'tab' for j in (0, -1)):
            continue
        case.close_to(fn.Sum(funcs)(v), sum(f(v) for f in truth), 'Sum', rtol=1e-9, atol=1e-9)
        ops = [rng.choice([np.add, np.subtract, np.multiply]) for _ in funcs[1:]]
        w = truth[0](v)
        for o, f in zip(ops, truth[1:]):
            w = o(w, f(v))
        case.close_to(fn.Combination(funcs, ops)(v), w, 'Combination', rtol=1e-9, atol=1e-9)
        case.event('combined')
    case.raises(lambda: fn.Combination(funcs, [np.add] * len(funcs)), 'too many operations must be refused')
    case.event('sums')
    # piecewise
    m = int(rng.integers(1, 5))
    bp = sorted(float(v) for v in rng.choice(np.arange(5, 100), m, replace=False))
    parts = [poly(rng, 2) for _ in range(m + 1)]
    at = lambda a: parts[sum(a > b for b in bp)][0] + parts[sum(a > b for b in bp)][1] * a      # a breakpoint belongs to the part below
    r = fn.Regions1D([fn.Polynomial(c) for c in parts], bp)
    v = [float(a) for a in rng.uniform(0, 110, 8) if all(abs(a - b) > 1e-9 for b in bp)]
    want = [parts[sum(a > b for b in bp)][0] + parts[sum(a > b for b in bp)][1] * a for a in v]
    case.close_to(r(np.array(v)), want, 'piecewise values of an array', rtol=1e-12, atol=1e-12)
    case.close_to([r(a) for a in v], want, 'piecewise values', rtol=1e-12, atol=1e-12)
    iv = [a for a in range(1, 110, 17) if a not in bp]
    case.close_to(r(np.array(iv)), [parts[sum(a > b for b in bp)][0] + parts[sum(a > b for b in bp)][1] * a for a in iv], 'piecewise values of an integer array', rtol=1e-12, atol=1e-12)
    case.close_to(r(np.array(bp)), [at(a) for a in bp], 'piecewise values of the breakpoints', rtol=1e-12, atol=1e-12)
    case.close_to([r(a) for a in bp], [at(a) for a in bp], 'piecewise values at breakpoints', rtol=1e-12, atol=1e-12)
    case.close_to(r(v), want, 'piecewise values of a list', rtol=1e-12, atol=1e-12)
    case.event('piecewise', len(v))
    case.sig(kinds, [float(f(3.0)) for f in funcs], bp)


def store(case):
    import h5py
    from ASAPy.data import function as fn
    rng = case.rng
    with h5py.File(case.path('f.h5'), 'w') as h:
        items = {}
        for k in range(int(rng.integers(1, 5))):
            if rng.random() < 0.3:
                c = poly(rng)
                fn.Polynomial(c).to_hdf5(h, f'f{k}')
                items[f'f{k}'] = c
            else:
                t = table(rng)
                fn.Tabulated1D(*t).to_hdf5(h, f'f{k}')
                items[f'f{k}'] = t
    with h5py.File(case.path('f.h5'), 'r') as h:
        for k, t in items.items():
            f = fn.Function1D.from_hdf5(h[k])
            if isinstance(t, list):
                case.check(type(f).__name__ == 'Polynomial' and list(f.coef) == t, 'stored polynomial', got=list(f.coef), want=t)
                case.raises(lambda: fn.Tabulated1D.from_hdf5(h[k]), 'another kind must be refused')
                g = fn.Polynomial.from_hdf5(h[k])
            else:
                case.check(type(f).__name__ == 'Tabulated1D' and list(f.x) == list(t[0]) and list(f.y) == list(t[1]) and list(f.breakpoints) == t[2] and list(f.interpolation) == t[3], 'stored table')
                case.raises(lambda: fn.Polynomial.from_hdf5(h[k]), 'another kind must be refused')
                g = fn.Tabulated1D.from_hdf5(h[k])
            v = float(np.exp(rng.uniform(-5, 5)))
            case.check(f(v) == g(v), 'both ways to read differ')
            case.event('stored')
    case.sig([str(v) for v in items.values()])


def linear(case):
    from ASAPy.data.grid import linearize
    rng = case.rng
    kind = str(rng.choice(['peak', 'root', 'power', 'sum', 'flat', 'straight']))
    p = rng.uniform(0.5, 3, 3)
    w = 10.0 ** rng.uniform(-2, 0)
    f = {'peak': lambda v: p[0] + p[1] / (1 + ((v - 5) / w) ** 2), 'root': lambda v: p[0] / math.sqrt(v), 'power': lambda v: p[0] * v ** p[1], 'flat': lambda v: p[0],
         'straight': lambda v: p[0] + p[1] * v, 'sum': lambda v: p[0] / math.sqrt(v) + p[1] / (1 + ((v - 3) / w) ** 2) + p[2] / (1 + ((v - 7) / w) ** 2)}[kind]
    x = np.unique(np.concatenate([[1.0, 3.0, 5.0, 7.0, 10.0], rng.uniform(1, 10, int(rng.integers(0, 10)))]))
    tol = float(10.0 ** rng.uniform(-4, -1))
    calls = []

    def g(v):
        calls.append(v)
        return f(v)
    case.input(kind=kind, p=list(p), w=w, x=list(x), tol=tol)
    default = rng.random() < 0.2
    if default:
        tol = 0.001
    xo, yo = linearize(list(x) if rng.random() < 0.3 else x, g) if default else linearize(x, g, tol)
    case.check(np.all(np.diff(xo) > 0) and xo[0] == x[0] and xo[-1] == x[-1], 'grid must grow over the same range')
    case.check(set(x) <= set(xo), 'initial points were lost', lost=sorted(set(x) - set(xo)))
    case.check(all(a in calls for a in xo), 'points at which the function was not evaluated')
    case.close_to(yo, [f(a) for a in xo], 'values on the grid', rtol=1e-14)
    mid = (xo[1:] + xo[:-1]) / 2
    fm = np.array([f(a) for a in mid])
    err = np.abs((yo[1:] + yo[:-1]) / 2 - fm) / np.abs(fm)
    case.check(np.all(err <= tol * (1 + 1e-9) + 1e-13), 'interpolation error above the tolerance', err=float(err.max()), tol=tol)
    if kind in ('flat', 'straight'):
        case.check(len(xo) == len(x), 'straight lines need no points', got=len(xo), want=len(x))
    case.event('linear')
    case.event('points_added', len(xo) - len(x))
    case.sig(kind, list(p), tol)


def thinned(case):
    from ASAPy.data.grid import thin
    rng = case.rng
    n = int(rng.choice([2, 3, 4, 10, 50, 200]))
    x = np.cumsum(rng.uniform(0.1, 1, n))
    kind = str(rng.choice(['smooth', 'noise', 'straight', 'peak', 'zeros']))
    y = {'smooth': lambda: 2 + np.sin(x / rng.uniform(1, 20)), 'noise': lambda: rng.uniform(0.5, 2, n), 'straight': lambda: 1 + 2 * x, 'peak': lambda: 1 + 10 / (1 + (x - x[n // 2]) ** 2),
         'zeros': lambda: np.where(rng.random(n) < 0.3, 0.0, 2 + np.sin(x / 9)) * rng.choice([1, -1])}[kind]()
    tol = float(10.0 ** rng.uniform(-4, -1))
    case.input(x=list(x), y=list(y), tol=tol)
    x0, y0 = x.copy(), y.copy()
    default = rng.random() < 0.2
    if default:
        tol = 0.001
    xo, yo = thin(x, y) if default else thin(x, y, tol)
    case.check(np.array_equal(x, x0) and np.array_equal(y, y0), 'the arguments were changed')
    case.check(len(xo) == len(yo) and xo[0] == x[0] and xo[-1] == x[-1], 'ends must stay', got=[xo[0], xo[-1]], want=[x[0], x[-1]])
    d = dict(zip(x, y))
    case.check(all(a in d and d[a] == b for a, b in zip(xo, yo)) and np.all(np.diff(xo) > 0), 'points that were not there')
    back = np.interp(x, xo, yo)
    nz = y != 0
    err = np.abs(back[nz] - y[nz]) / np.abs(y[nz])
    case.check(err.size == 0 or err.max() <= tol * (1 + 1e-9) + 1e-13, 'error of a removed point above the tolerance', err=float(err.max(initial=0)), tol=tol)
    case.check(set(x[~nz]) <= set(xo), 'a zero was removed')
    if kind == 'straight':
        case.check(len(xo) == 2, 'a straight line needs its two ends only', got=len(xo))
    case.event('thinned')
    case.event('points_removed', len(x) - len(xo))
    case.event('zero_kept', int((~nz).sum()))
    case.sig(list(x), list(y), tol)


WORKLOADS = [Workload('evaluate', evaluate, 800, 20000), Workload('integrate', integrate, 300, 8000), Workload('combine', combine, 200, 5000), Workload('store', store, 100, 1500),
             Workload('linear', linear, 120, 2000), Workload('thinned', thinned, 300, 6000)]
