"""C32: windowed multipole data give the cross-sections of their poles and polynomials at any temperature."""
import math

import numpy as np

from ..core import Workload, quiet

ID = 'C32'
RULE = ('windowed multipole libraries with 1-40 windows, 0-400 poles in either half plane, fits of 3-14 terms, with and without fission, windows with and without poles or broadened fits; energies '
        'inside, at both ends of the library, outside of it (first, last, alone), at many temperatures from 0 to 20000 K, as numbers, integers, lists and arrays; against the pole sum and '
        'polynomials at 0 K and their Doppler integrals (Weideman expansion for the poles, Gauss-Legendre quadrature for the fits) above; again after HDF5; non-trivial = two or more '
        'poles; distinct by the data')
EXPECT = {'points': 6000, 'cold_points': 800, 'broadened_fit_points': 1500, 'unbroadened_fit_points': 1000, 'windows_without_poles': 30, 'upper_half_plane': 40, 'outside_first': 60, 'outside': 300, 'upper_end': 100,
          'lower_end': 100, 'low_beta_points': 300, 'fissionable': 40, 'reloaded': 60, 'refused': 60, 'integer_energies': 40, 'cold': 15, 'shaped': 40, 'zero_start': 8, 'many_poles': 8, 'long_windows': 3}
KB = 8.6173303e-5
_N = 64
_L = np.sqrt(_N / np.sqrt(2.0))


def _weideman():
    M = 2 * _N
    k = np.arange(-M + 1, M)
    theta = k * np.pi / M
    t = _L * np.tan(theta / 2)
    f = np.concatenate([[0.0], np.exp(-t ** 2) * (_L ** 2 + t ** 2)])
    a = np.real(np.fft.fft(np.fft.fftshift(f))) / (2 * M)
    return np.flipud(a[1:_N + 1])


_A = _weideman()


def faddeeva(z):
    """exp(-z^2) erfc(-iz) for Im z >= 0 (Weideman 1994)."""
    Z = (_L + 1j * z) / (_L - 1j * z)
    return 2 * np.polyval(_A, Z) / (_L - 1j * z) ** 2 + (1 / math.sqrt(math.pi)) / (_L - 1j * z)


_X, _W = np.polynomial.legendre.leggauss(160)


def broadened(E, beta, n):
    """Doppler integral of u^(k-2), k < n, u = sqrt(E)."""
    u = math.sqrt(E)
    lo, hi = max(0.0, u - 9.0 / beta), u + 9.0 / beta
    v = 0.5 * (hi - lo) * _X + 0.5 * (hi + lo)
    w = 0.5 * (hi - lo) * _W
    ker = np.exp(-(beta * (u - v)) ** 2) * -np.expm1(-4 * beta * beta * u * v)
    return np.array([beta / (math.sqrt(math.pi) * E) * np.sum(w * v ** k * ker) for k in range(n)])


def make(rng):
    nw = int(rng.integers(1, 41)) if rng.random() < 0.7 else int(rng.integers(1, 4))
    emin = float(rng.choice([1e-5, 1e-5, 0.0, 0.0253, 1.0, 10 ** rng.uniform(-4, 2)]))
    spacing = float(10 ** rng.uniform(-1.5, 1))
    emax = (math.sqrt(emin) + nw * spacing) ** 2
    if rng.random() < 0.4:
        emax = (math.sqrt(emin) + (nw - rng.uniform(0.01, 0.9)) * spacing) ** 2
    fis = bool(rng.random() < 0.5)
    npole = int(rng.integers(0, 31)) if rng.random() < 0.85 else int(rng.integers(130, 400))
    most = 6 if rng.random() < 0.8 else 70
    width = nw * spacing
    re = math.sqrt(emin) + rng.uniform(-0.2, 1.2, npole) * width
    if rng.random() < 0.7:
        re = np.sort(re)
    im = -10 ** rng.uniform(-5, -0.5, npole) * width
    up = rng.random(npole) < (0.3 if rng.random() < 0.4 else 0.0)
    im[up] *= -1
    cols = 4 if fis else 3
    data = np.empty((npole, cols), complex)
    data[:, 0] = re + 1j * im
    data[:, 1:] = (rng.normal(size=(npole, cols - 1)) + 1j * rng.normal(size=(npole, cols - 1))) * 10 ** rng.uniform(-2, 2, (npole, 1))
    if npole == 0:
        windows = np.tile([1, 0], (nw, 1))
    else:
        a = np.sort(rng.integers(1, npole + 1, nw))
        windows = np.array([[s, s - 1 + int(rng.integers(0, min(most, npole - s + 1) + 1))] for s in a])
    order = int(rng.integers(3, 10)) if rng.random() < 0.8 else int(rng.integers(10, 15))
    fit = rng.normal(size=(nw, order, cols - 1)) * (math.sqrt(emax) ** -np.arange(order))[None, :, None]
    return {'name': str(rng.choice(['U235', 'Fe56', 'Am242_m1', 'H1'])), 'spacing': spacing, 'sqrtAWR': float(math.sqrt(rng.uniform(1, 250))), 'E_min': emin, 'E_max': emax, 'data': data,
            'windows': windows.astype(int), 'broaden_poly': rng.random(nw) < 0.5, 'curvefit': fit, 'up': up}


def library(mp, d):
    w = mp.WindowedMultipole(d['name'])
    for k in ('spacing', 'sqrtAWR', 'E_min', 'E_max', 'data', 'windows', 'broaden_poly', 'curvefit'):
        setattr(w, k, d[k])
    return w


def evaluate(d, E, T, i):
    """Value and the sum of the magnitudes, for each channel, in window i."""
    n = d['data'].shape[1] - 1
    val, mag = np.zeros(3), np.zeros(3)
    u = math.sqrt(E)
    c = d['curvefit'][i]
    kt = KB * T
    if T > 0 and d['broaden_poly'][i]:
        f = broadened(E, d['sqrtAWR'] / math.sqrt(kt), len(c))
    else:
        f = np.array([u ** (k - 2) for k in range(len(c))])
    for k in range(n):
        val[k] += np.sum(c[:, k] * f)
        mag[k] += np.sum(np.abs(c[:, k] * f))
    a, b = d['windows'][i]
    for p in range(a - 1, b):
        pole = d['data'][p, 0]
        if T == 0:
            g = -1j / (pole - u) / E
        else:
            beta = d['sqrtAWR'] / math.sqrt(kt)
            z = (u - pole) * beta
            w = faddeeva(z) if z.imag > 0 else -np.conj(faddeeva(np.conj(z)))
            g = w * beta * math.sqrt(math.pi) / E
        for k in range(n):
            x = d['data'][p, 1 + k] * g
            val[k] += x.real
            mag[k] += abs(x)
    return val, mag


def windows_of(d, E):
    x = (math.sqrt(E) - math.sqrt(d['E_min'])) / d['spacing']
    n = len(d['windows'])
    return sorted({min(n - 1, max(0, int(math.floor(x + s)))) for s in (-1e-9, 0, 1e-9)})


def point(case, d, E, T, got, what):
    got = np.array([float(g) for g in got])
    if E < d['E_min'] or E > d['E_max']:
        case.check(not got.any(), f'{what}: a cross-section outside of the library', energy=E, got=got)
        case.event('outside')
        return
    ok = False
    for i in windows_of(d, E):
        val, mag = evaluate(d, E, T, i)
        ok = ok or bool(np.all(np.abs(got - val) <= 2e-9 * mag + 1e-300))
    case.check(ok, f'{what}: not the cross-sections of the poles and fits', energy=E, temperature=T, got=got, want=val, magnitude=mag)
    case.event('points')
    case.event('cold_points', int(T == 0))
    i = windows_of(d, E)[0]
    case.event('broadened_fit_points', int(T > 0 and d['broaden_poly'][i]))
    case.event('unbroadened_fit_points', int(not d['broaden_poly'][i]))
    case.event('windows_without_poles', int(d['windows'][i, 1] < d['windows'][i, 0]))
    case.event('low_beta_points', int(T > 0 and math.sqrt(E) * d['sqrtAWR'] / math.sqrt(KB * T) < 6))


def run(case):
    from ASAPy.data import multipole as mp
    import h5py
    rng = case.rng
    d = make(rng)
    case.input(**{k: v for k, v in d.items()})
    case.sig(d['data'].tolist(), d['curvefit'].tolist()[:2])
    w = library(mp, d)
    case.equal([bool(w.fissionable), int(w.fit_order), w.name], [d['data'].shape[1] == 4, d['curvefit'].shape[1] - 1, d['name']], 'description of the library')
    case.event('fissionable', int(d['data'].shape[1] == 4))
    case.event('upper_half_plane', int(d['up'].sum()))
    what = 'made'
    case.event('zero_start', int(d['E_min'] == 0))
    case.event('many_poles', int(len(d['data']) > 127))
    case.event('long_windows', int((d['windows'][:, 1] - d['windows'][:, 0]).max() >= 20))
    if rng.random() < 0.6:
        p = case.path('lib.h5')
        if rng.random() < 0.5:
            w.export_to_hdf5(p)
        else:
            w.export_to_hdf5(p, mode='w', libver='latest')
        if rng.random() < 0.5:
            w2 = mp.WindowedMultipole.from_hdf5(p)
        else:
            with h5py.File(p, 'r') as f:
                w2 = mp.WindowedMultipole.from_hdf5(f[d['name']])
        for k in ('name', 'spacing', 'sqrtAWR', 'E_min', 'E_max'):
            case.check(getattr(w2, k) == d[k], f'{k} is another one after HDF5', got=getattr(w2, k), want=d[k])
        for k in ('data', 'windows', 'broaden_poly', 'curvefit'):
            case.check(np.array_equal(getattr(w2, k), d[k]) and getattr(w2, k).shape == d[k].shape, f'{k} is another one after HDF5')
        w, what = w2, 'from HDF5'
        case.event('reloaded')
    s0, s1 = math.sqrt(d['E_min']), math.sqrt(d['E_max'])
    for T in [0.0] + [float(v) for v in 10 ** rng.uniform(0, 4.3, 2)] + [float(10 ** rng.uniform(-4, 0))] * int(rng.random() < 0.3):
        case.event('cold', int(0 < T < 1))
        low = max(d['E_min'], 1e-6)
        es = np.concatenate([rng.uniform(s0, s1, 8) ** 2, [d['E_min'], d['E_max'], d['E_max'] * 1.01, d['E_max'] * 1e3, d['E_min'] * 0.9], np.clip(np.abs(d['data'][:4, 0].real) ** 2, d['E_min'] * 0.5, d['E_max'] * 1.5),
                             10 ** rng.uniform(np.log10(low), np.log10(d['E_max']), 5), (s0 + d['spacing'] * (rng.integers(0, len(d['windows']) + 1, 3) + rng.choice([-1e-7, 1e-7, 3e-8], 3))) ** 2])
        es = np.maximum(es, 1e-9)
        rng.shuffle(es)
        if rng.random() < 0.5:
            es = np.concatenate([[d['E_max'] * 2 if rng.random() < 0.5 or d['E_min'] == 0 else d['E_min'] * 0.5], es])
            case.event('outside_first')
        out = w(es if rng.random() < 0.5 else list(es), T)
        case.equal(len(out), 3, 'scattering, absorption and fission')
        for i, E in enumerate(es):
            point(case, d, float(E), T, [o[i] for o in out], f'{what}, array')
        for E in (max(d['E_min'], 1e-9), d['E_max'], float(es[1]), float(es[2])):
            point(case, d, float(E), T, w(float(E), T), f'{what}, one energy')
        case.event('upper_end')
        case.event('lower_end')
        if rng.random() < 0.3:
            k = len(es) // 2
            out = w(es[:2 * k].reshape(2, k), T)
            for o in out:
                case.equal(np.shape(o), (2, k), f'{what}: shape of the cross-sections of a table of energies')
            for i, E in enumerate(es[:2 * k]):
                point(case, d, float(E), T, [o[i // k, i % k] for o in out], f'{what}, table of energies')
            case.event('shaped')
        ints = [int(v) for v in es if v >= 1][:3]
        if ints:
            o = w(ints, int(T) if rng.random() < 0.5 else T) if T == int(T) else w(ints, T)
            for i, E in enumerate(ints):
                point(case, d, float(E), T, [x[i] for x in o], f'{what}, integers')
            case.event('integer_energies')
    if case.index < 3:
        case.sample(poles=len(d['data']), windows=len(d['windows']), terms=d['curvefit'].shape[1])


def refuse(case):
    """Files and arrays that do not fit together are refused."""
    from ASAPy.data import multipole as mp
    import h5py
    rng = case.rng
    d = make(rng)
    case.sig('refuse', d['data'].tolist()[:2])
    kind = ['short', 'poly', 'fit', 'version', 'noversion', 'setters'][case.index % 6]
    case.input(kind=kind)
    p = case.path('lib.h5')
    if kind == 'setters':
        w = mp.WindowedMultipole('U238')
        for k, bad in (('spacing', -1.0), ('spacing', 0.0), ('sqrtAWR', -2.0), ('E_min', -1.0), ('E_max', 0.0), ('data', d['data'].real), ('data', np.zeros((3, 5), complex)), ('data', np.zeros(3, complex)),
                       ('windows', d['windows'].astype(float)), ('windows', np.array([1, 2])), ('broaden_poly', d['broaden_poly'].astype(int)), ('curvefit', np.zeros((2, 3))), ('curvefit', np.zeros((2, 3, 4))),
                       ('curvefit', np.zeros((2, 3, 2), int))):
            case.raises(lambda: setattr(w, k, bad), f'a bad value of {k} was taken', (ValueError, TypeError))
        case.event('refused')
        return
    if kind == 'short':
        d['curvefit'] = d['curvefit'][:, :2, :]
    if kind == 'poly':
        d['broaden_poly'] = np.append(d['broaden_poly'], True)
    if kind == 'fit':
        d['curvefit'] = np.concatenate([d['curvefit'], d['curvefit'][:1]])
    library(mp, d).export_to_hdf5(p)
    if kind in ('version', 'noversion'):
        with h5py.File(p, 'a') as f:
            if kind == 'version':
                f.attrs['version'] = np.array([int(rng.choice([0, 2, 7])), 1])
            else:
                del f.attrs['version']
        case.raises(lambda: mp.WindowedMultipole.from_hdf5(p), 'a file of another version was read', (IOError,))
    else:
        case.raises(lambda: mp.WindowedMultipole.from_hdf5(p), f'a file with inconsistent data was read ({kind})', (ValueError,))
    case.event('refused')


WORKLOADS = [Workload('run', run, 260, 5000), Workload('refuse', refuse, 66, 600)]
