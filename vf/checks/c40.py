"""C40: data objects take valid values as they are and refuse others."""
import copy
import warnings
from decimal import Decimal

import numpy as np
from uncertainties import ufloat

from ..core import Workload, quiet

ID = 'C40'
RULE = ('every attribute of the data classes that can be set, with valid values of every form (integers, floats, numpy numbers, lists, tuples, arrays, objects) and values of wrong kind, wrong kind of an element at any place, '
        'wrong depth, shape or sign, set on an object and given to the constructor; checked lists, numbers handed out for objects, XML of distributions; non-trivial = all; distinct by attribute and value')
EXPECT = {'set': 3000, 'refused_values': 5000, 'constructed': 600, 'refused_arguments': 1200, 'attributes': 110, 'lists': 60, 'xml': 100, 'ids': 60, 'fresh': 2000}


class Duck:
    """Looks like a number or a list but is none."""
    def __float__(self):
        return 1.0

    def __len__(self):
        return 2


def num(rng, lo=-50.0):
    v = float(rng.uniform(lo, 100.0)) or 1.0
    return [v, np.float64(v), int(abs(v)) + 1, np.int64(abs(v) + 1), np.float32(abs(v) + 1)][int(rng.integers(0, 5))]


def form(rng, values):
    k = int(rng.integers(0, 3))
    return [list(values), tuple(values), np.array(values)][k]


def spoiled(rng, values, bad):
    """One element anywhere is not what it should be."""
    v = list(values)
    v[int(rng.integers(0, len(v)))] = bad
    return v if rng.random() < 0.7 else tuple(v)


def floats(rng, lo=-50.0):
    return [float(rng.uniform(lo, 100.0)) for _ in range(int(rng.integers(1, 6)))]


def ints(rng):
    return [int(v) for v in rng.integers(1, 9, int(rng.integers(1, 5)))]


def pick(rng, options):
    return options[int(rng.integers(0, len(options)))]


class Kinds:
    """valid(kind) and wrong(kind) values."""
    def __init__(self, rng):
        from ASAPy.data import function, univariate
        self.rng, self.f, self.u = rng, function, univariate

    def tab(self):
        n = int(self.rng.integers(2, 5))
        return self.f.Tabulated1D(np.arange(n, dtype=float), self.rng.uniform(0, 5, n))

    def uni(self):
        u = self.u
        return pick(self.rng, [lambda: u.Uniform(-1.0, 1.0), lambda: u.Discrete([1.0], [1.0]), lambda: u.Tabular([0.0, 1.0], [1.0, 1.0]), lambda: u.Maxwell(2.0), lambda: u.Legendre([1.0, 0.5])])()

    def fun(self):
        return pick(self.rng, [self.tab, lambda: self.f.Polynomial([1.0, 2.0]), lambda: np.sin, lambda: (lambda x: x)])()

    def data(self, name):
        import importlib
        m, c = name.split('.')
        cls = getattr(importlib.import_module('ASAPy.data.' + m), c)
        if c == 'Resonances':
            return cls([])
        if c == 'ResonanceCovariances':
            return cls([])
        if c == 'FissionEnergyRelease':
            return cls(*[self.fun() for _ in range(7)])
        if c == 'AtomicRelaxation':
            return cls({'K': 1.0}, {'K': 2.0}, {})
        if c == 'ProbabilityTables':
            return cls([1.0], np.zeros((1, 6, 4)), 2)
        if c == 'AngleDistribution':
            return cls([1.0], [self.uni()])
        if c == 'EnergyDistribution':
            return importlib.import_module('ASAPy.data.energy_distribution').MaxwellEnergy(self.tab(), 1.0)
        if c == 'Product':
            return cls('neutron')
        if c == 'AngleEnergy':
            return importlib.import_module('ASAPy.data.nbody').NBodyPhaseSpace(2.0, 3, 1.0, -1.0)
        raise KeyError(name)

    def valid(self, kind):
        rng = self.rng
        if kind in ('real', 'real>0', 'real>=0'):
            if kind == 'real>=0' and rng.random() < 0.3:
                return pick(rng, [0, 0.0, np.float64(0.0)])
            if kind == 'real>0' and rng.random() < 0.2:
                return 1e-300
            return num(rng, 1e-3 if kind != 'real' else -50.0)
        if kind in ('int', 'int>0', 'int>=0'):
            v = 0 if kind == 'int>=0' and rng.random() < 0.3 else int(rng.integers(1, 200)) * (-1 if kind == 'int' and rng.random() < 0.3 else 1)
            return v if rng.random() < 0.6 else np.int64(v)
        if kind == 'str':
            return pick(rng, ['U235', 'x', '', 'K', 'Am242_m1'])
        if kind == 'bool':
            return pick(rng, [True, False, np.bool_(True), np.bool_(False)])
        if kind == 'purebool':
            return bool(rng.random() < 0.5)
        if kind == 'strs':
            return pick(rng, [['beta-'], ('alpha', 'n'), ['sf', 'beta-', 'n']])
        if kind in ('reals', 'reals>=0', 'reals/1'):
            if kind == 'reals/1' and rng.random() < 0.2:
                return num(rng)
            if kind == 'reals>=0':
                return form(rng, [0.0] * int(rng.random() < 0.4) + floats(rng, 0.0))
            return form(rng, ints(rng) if rng.random() < 0.3 else floats(rng))
        if kind == 'reals>=0/1':
            return abs(num(rng)) if rng.random() < 0.2 else self.valid('reals>=0')
        if kind == 'reallist':
            return floats(rng)
        if kind == 'ints':
            return form(rng, ints(rng))
        if kind == 'tab':
            return self.tab()
        if kind == 'fun':
            return self.fun()
        if kind == 'f1d':
            return pick(rng, [self.tab, lambda: self.f.Polynomial([1.0])])()
        if kind in ('tabs', 'funs', 'univ'):
            make = {'tabs': self.tab, 'funs': self.fun, 'univ': self.uni}[kind]
            v = [make() for _ in range(int(rng.integers(1, 4)))]
            return v if rng.random() < 0.6 else tuple(v)
        if kind == 'univ2':
            return [[self.uni() for _ in range(int(rng.integers(1, 4)))] for _ in range(int(rng.integers(1, 4)))]
        if kind.startswith('one of '):
            return pick(rng, eval(kind[7:]))
        if kind.startswith('is '):
            return self.data(kind[3:])
        if kind.startswith('are '):
            return [self.data(kind[4:]) for _ in range(int(rng.integers(0, 3)))]
        if kind == 'uf':
            return ufloat(float(rng.uniform(0.01, 1)), float(rng.uniform(0.0, 0.1)))
        if kind == 'tables':
            return {'294K': self.data('urr.ProbabilityTables')}
        if kind == 'xs':
            return {'294K': self.fun(), '0K': self.fun()}
        if kind == 'map':
            return {}
        if kind == 'shells':
            return {s: float(rng.uniform(0, 100)) for s in rng.choice(['K', 'L1', 'L2', 'M5', 'Q3'], 3, replace=False)}
        if kind == 'frames':
            import pandas as pd
            return {'K': pd.DataFrame({'a': [1.0]})}
        if kind == 'array':
            return rng.uniform(0, 1, (2, 6, 3))
        if kind == 'poles':
            return rng.uniform(0, 1, (int(rng.integers(0, 5)), int(rng.integers(3, 5)))) * (1 + 1j)
        if kind == 'windows':
            return rng.integers(0, 5, (3, 2))
        if kind == 'flags':
            return rng.random(4) < 0.5
        if kind == 'fits':
            return rng.uniform(0, 1, (3, 4, int(rng.integers(2, 4))))
        raise KeyError(kind)

    def wrong(self, kind):
        rng = self.rng
        junk = [None, 'x', 1j, {}, [], Duck(), object]
        if kind in ('real', 'real>0', 'real>=0'):
            opt = ['1.0', None, [1.0], 1j, np.array([1.0, 2.0]), {}, (2.0,), Duck(), np.array([2.0]), np.array(3.0), Decimal(2), ufloat(2.0, 0.1)]
            opt += {'real>0': [0, 0.0, -1e-300, -5.0, -3, -np.inf, np.float64(0.0)], 'real>=0': [-1e-300, -1, -5.0, np.float64(-2.0)]}.get(kind, [])
            return pick(rng, opt)
        if kind in ('int', 'int>0', 'int>=0'):
            opt = ['1', None, [1], np.array(2), Decimal(3), 1.0, 2.5, np.float64(3.0), 1j, Duck(), np.array([1, 2])]
            opt += {'int>0': [0, -1, np.int64(-3)], 'int>=0': [-1, np.int64(-2)]}.get(kind, [])
            return pick(rng, opt)
        if kind == 'str':
            return pick(rng, [None, 5, b'U235', ['U235'], 1.5, {}])
        if kind in ('bool', 'purebool'):
            return pick(rng, [None, 0, 1, 'True', 1.0, [True], np.int64(1)])
        if kind == 'strs':
            return pick(rng, [None, 5, [1], ['beta-', None], (b'n',), ['n', 2]])
        if kind in ('reals', 'reals/1', 'reals>=0', 'reals>=0/1', 'reallist'):
            good = floats(rng, 0.0)
            opt = [None, 'ab', spoiled(rng, good, 'a'), spoiled(rng, good, None), spoiled(rng, good, 1j), spoiled(rng, good, [1.0]), [[1.0, 2.0], [3.0]], Duck(), self.tab(), spoiled(rng, good, '1.0')]
            if kind != 'reallist':
                opt += [np.array(['a', 'b']), np.array([1j, 2.0]), np.array([1.0, None], dtype=object)]
            if kind in ('reals', 'reals>=0', 'reallist'):
                opt += [1.0, 3]
            if kind.startswith('reals>=0'):
                opt += [spoiled(rng, good, -1e-300), spoiled(rng, good, -2), np.array([0.5, -0.5]), (-1.0,)]
            return pick(rng, opt)
        if kind == 'ints':
            good = ints(rng)
            return pick(rng, [None, 3, 2.0, 'ab', spoiled(rng, good, 1.0), spoiled(rng, good, 'a'), spoiled(rng, good, None), np.array([1.0, 2.0]), spoiled(rng, good, [1]), spoiled(rng, good, np.float64(2.0)), Duck()])
        if kind == 'tab':
            return pick(rng, junk + [self.f.Polynomial([1.0]), np.sin, 1.0, [self.tab()], ([0.0, 1.0], [1.0, 1.0])])
        if kind == 'fun':
            return pick(rng, [None, 'x', 1.0, [self.tab()], {}, np.array([1.0, 2.0])])
        if kind == 'f1d':
            return pick(rng, junk + [np.sin, lambda x: x, 1.0, [self.tab()], np.polynomial.Polynomial([1.0])])
        if kind in ('tabs', 'funs', 'univ'):
            good = self.valid(kind)
            bad = {'tabs': [None, 1.0, 'x', self.f.Polynomial([1.0]), np.sin, self.uni()], 'funs': [None, 1.0, 'x', [self.tab()]], 'univ': [None, 1.0, 'x', self.tab(), [self.uni()], np.sin]}[kind]
            return pick(rng, [None, 5.0, 'ab', spoiled(rng, good, pick(rng, bad)), spoiled(rng, good, pick(rng, bad)), spoiled(rng, good, pick(rng, bad)), np.sin, np.array([1.0, 2.0]), self.uni() if kind != 'funs' else 1])
        if kind == 'univ2':
            good = self.valid('univ2')
            row = int(rng.integers(0, len(good)))
            flat, deep, other = copy.copy(good), copy.copy(good), copy.copy(good)
            flat[row] = self.uni()
            deep[row] = [good[row]]
            other[row] = spoiled(rng, good[row], pick(rng, [None, 1.0, self.tab()]))
            return pick(rng, [None, 5.0, flat, deep, other, [self.uni()], [[[self.uni()]]], [1.0]])
        if kind.startswith('one of '):
            return pick(rng, [None, 'x', -7, 3.5, '', 'Prompt', 'linear', ()])
        if kind.startswith('is '):
            return pick(rng, junk + [1.0, self.uni(), self.tab()])
        if kind.startswith('are '):
            good = [self.data(kind[4:]) for _ in range(int(rng.integers(1, 3)))]
            return pick(rng, [None, 5, 'ab', spoiled(rng, good, None), spoiled(rng, good, 'x'), spoiled(rng, good, self.uni()), spoiled(rng, good, [good[0]])])
        if kind == 'uf':
            return pick(rng, [None, 1.0, 'x', ufloat(-0.1, 0.01), (1.0, 0.1), ufloat(-1e-9, 0.0)])
        if kind == 'tables':
            t = self.data('urr.ProbabilityTables')
            return pick(rng, [None, [t], t, {'294K': None}, {294: t}, {'294K': t, '600K': np.zeros(3)}, {'0K': t, 5.0: t}])
        if kind == 'xs':
            return pick(rng, [None, self.fun(), [self.fun()], {'294K': None}, {294: self.fun()}, {'294K': self.fun(), '600K': [1.0]}, {'294K': self.fun(), 0: self.fun()}])
        if kind == 'map':
            return pick(rng, [None, [], 5, 'ab'])
        if kind == 'shells':
            g = self.valid('shells')
            return pick(rng, [None, [1.0], {**g, 'K9': 1.0}, {**g, 'K': -1.0}, {'K': 'a'}, {'L1': None}, {1: 1.0}, {**g, 'k': 1.0}, {**g, 'N7': -1e-9}])
        if kind == 'frames':
            import pandas as pd
            d = pd.DataFrame({'a': [1.0]})
            return pick(rng, [None, d, [d], {'K': None}, {'X': d}, {'K': d, 'L1': [1.0]}, {'K': d, 'L11': d}])
        if kind == 'array':
            return pick(rng, [None, [[1.0]], 5.0, 'x'])
        if kind == 'poles':
            return pick(rng, [[[1j, 1j, 1j]], np.ones((2, 3)), np.ones((2, 2)) * 1j, np.ones((2, 5)) * 1j, np.ones(3) * 1j, np.ones((2, 3, 1)) * 1j, np.ones((1, 4), dtype=int), 5])
        if kind == 'windows':
            return pick(rng, [[[1, 2]], np.ones((2, 2)), np.array([1, 2]), np.ones((1, 2, 2), dtype=int), np.array([['a', 'b']]), 5])
        if kind == 'flags':
            return pick(rng, [[True], np.array([1, 0]), np.array([1.0]), np.array([[True, False]]), True])
        if kind == 'fits':
            return pick(rng, [[[[1.0, 2.0]]], np.ones((2, 2)), np.ones((2, 2, 4)), np.ones((2, 2, 1)), np.ones((2, 2, 2), dtype=int), np.ones((2, 2, 2)) * 1j, 1.0])
        raise KeyError(kind)


# class -> (arguments of the constructor by name and kind, further attributes by kind); None: takes another way to be made
OPTIONAL = {'multipole.WindowedMultipole', 'uncorrelated.UncorrelatedAngleEnergy', 'function.Tabulated1D'}
INTERP = "one of ['histogram', 'linear-linear', 'linear-log', 'log-linear', 'log-log']"
CLASSES = {
    'univariate.Discrete': ({'x': 'reals/1', 'p': 'reals>=0/1'}, {}),
    'univariate.Uniform': ({'a': 'real', 'b': 'real'}, {}),
    'univariate.Maxwell': ({'theta': 'real>0'}, {}),
    'univariate.Watt': ({'a': 'real>0', 'b': 'real>0'}, {}),
    'univariate.Tabular': ({'x': 'reals', 'p': 'reals>=0', 'interpolation': INTERP}, {}),
    'univariate.Legendre': ({'coefficients': 'reallist'}, {}),
    'univariate.Mixture': ({'probability': 'reals>=0', 'distribution': 'univ'}, {}),
    'angle_distribution.AngleDistribution': ({'energy': 'reals', 'mu': 'univ'}, {}),
    'correlated.CorrelatedAngleEnergy': ({'breakpoints': 'ints', 'interpolation': 'ints', 'energy': 'reals', 'energy_out': 'univ', 'mu': 'univ2'}, {}),
    'kalbach_mann.KalbachMann': ({'breakpoints': 'ints', 'interpolation': 'ints', 'energy': 'reals', 'energy_out': 'univ', 'precompound': 'tabs', 'slope': 'tabs'}, {}),
    'laboratory.LaboratoryAngleEnergy': ({'breakpoints': 'ints', 'interpolation': 'ints', 'energy': 'reals', 'mu': 'univ', 'energy_out': 'univ2'}, {}),
    'energy_distribution.MaxwellEnergy': ({'theta': 'tab', 'u': 'real'}, {}),
    'energy_distribution.Evaporation': ({'theta': 'tab', 'u': 'real'}, {}),
    'energy_distribution.WattEnergy': ({'a': 'tab', 'b': 'tab', 'u': 'real'}, {}),
    'energy_distribution.MadlandNix': ({'efl': 'real>0', 'efh': 'real>0', 'tm': 'tab'}, {}),
    'energy_distribution.DiscretePhoton': ({'primary_flag': 'int', 'energy': 'real', 'atomic_weight_ratio': 'real'}, {}),
    'energy_distribution.LevelInelastic': ({'threshold': 'real', 'mass_ratio': 'real'}, {}),
    'energy_distribution.ContinuousTabular': ({'breakpoints': 'ints', 'interpolation': 'ints', 'energy': 'reals', 'energy_out': 'univ'}, {}),
    'nbody.NBodyPhaseSpace': ({'total_mass': 'real>0', 'n_particles': 'int>0', 'atomic_weight_ratio': 'real>0', 'q_value': 'real'}, {}),
    'fission_energy.FissionEnergyRelease': ({k: 'fun' for k in ('fragments', 'prompt_neutrons', 'delayed_neutrons', 'prompt_photons', 'delayed_photons', 'betas', 'neutrinos')}, {}),
    'function.Tabulated1D': ({'x': 'reals', 'y': 'reals', 'breakpoints': 'ints', 'interpolation': 'ints'}, {}),
    'function.Sum': ({'functions': 'funs'}, {}),
    'function.Regions1D': ({'functions': 'funs', 'breakpoints': 'reallist'}, {}),
    'function.ResonancesWithBackground': ({'resonances': 'is resonance.Resonances', 'background': 'fun', 'mt': 'int'}, {}),
    'thermal.CoherentElastic': ({'bragg_edges': 'reals', 'factors': 'reals'}, {}),
    'uncorrelated.UncorrelatedAngleEnergy': ({'angle': 'is angle_distribution.AngleDistribution', 'energy': 'is energy_distribution.EnergyDistribution'}, {}),
    'urr.ProbabilityTables': ({'energy': 'reals', 'table': 'array', 'interpolation': 'one of [2, 5]', 'inelastic_flag': 'int', 'absorption_flag': 'int', 'multiply_smooth': 'purebool'}, {}),
    'photon.AtomicRelaxation': ({'binding_energy': 'shells', 'num_electrons': 'shells', 'transitions': 'frames'}, {}),
    'photon.IncidentPhoton': ({'atomic_number': 'int>=0'}, {'atomic_relaxation': 'is photon.AtomicRelaxation'}),
    'photon.PhotonReaction': ({}, {'xs': 'fun', 'scattering_factor': 'fun', 'anomalous_real': 'fun', 'anomalous_imag': 'fun'}),
    'product.Product': ({'particle': 'str'}, {'applicability': 'tabs', 'decay_rate': 'real>=0', 'distribution': 'are angle_energy.AngleEnergy', 'emission_mode': "one of ['prompt', 'delayed', 'total']", 'yield_': 'f1d'}),
    'reaction.Reaction': ({}, {'center_of_mass': 'bool', 'redundant': 'bool', 'q_value': 'real', 'products': 'are product.Product', 'derived_products': 'are product.Product', 'xs': 'xs'}),
    'neutron.IncidentNeutron': ({'name': 'str', 'atomic_number': 'int>=0', 'mass_number': 'int>=0', 'metastable': 'int>=0', 'atomic_weight_ratio': 'real>0'},
                                {'fission_energy': 'is fission_energy.FissionEnergyRelease', 'reactions': 'map', 'resonances': 'is resonance.Resonances',
                                 'resonance_covariance': 'is resonance_covariance.ResonanceCovariances', 'urr': 'tables'}),
    'decay.DecayMode': ({'parent': 'str', 'modes': 'strs', 'daughter_state': None, 'energy': 'uf', 'branching_ratio': 'uf'}, {}),
    'multipole.WindowedMultipole': ({'name': 'str'}, {'spacing': 'real>0', 'sqrtAWR': 'real>0', 'E_min': 'real>=0', 'E_max': 'real>0', 'data': 'poles', 'windows': 'windows', 'broaden_poly': 'flags', 'curvefit': 'fits'}),
}


def arguments(k, name):
    args, attrs = CLASSES[name]
    d = {}
    for a, kind in args.items():
        d[a] = 0 if kind is None else k.valid(kind)
    if name == 'function.Tabulated1D':
        d['breakpoints'], d['interpolation'] = [len(d['x'])], [2]
    return d


def build(k, name, d):
    import importlib
    m, c = name.split('.')
    cls = getattr(importlib.import_module('ASAPy.data.' + m), c)
    if c == 'IncidentNeutron':
        return cls(*d.values(), [0.0253])
    if c == 'Reaction':
        return cls(102)
    if c == 'PhotonReaction':
        return cls(502)
    if c == 'ProbabilityTables' and k.rng.random() < 0.5:
        return cls(**d)
    return cls(*d.values())


def same(case, o, attr, v, what, kept=False):
    got = getattr(o, attr)
    if got is v:
        return
    if type(o).__name__ == 'Legendre':   # what it gives is made on demand
        case.close_to(got, v, what, rtol=1e-12)
        return
    if not kept and isinstance(v, (int, float, np.generic)) and isinstance(got, list):
        case.check(len(got) == 1 and got[0] is v, what, got=got, want=v)
        return
    def alike(a, b):
        if a is b:
            return True
        if isinstance(a, (list, tuple, np.ndarray)) and isinstance(b, (list, tuple, np.ndarray)):
            return len(a) == len(b) and all(map(alike, a, b))
        return isinstance(a, (int, float, np.generic)) and isinstance(b, (int, float, np.generic)) and a == b
    case.check(not kept and alike(got, v), what, got=repr(got)[:200], want=repr(v)[:200], attribute=attr)


def attributes(case):
    rng = case.rng
    k = Kinds(rng)
    names = sorted(CLASSES)
    name = names[case.index % len(names)]
    args, attrs = CLASSES[name]
    case.input(cls=name)

    def wrong(a):
        while True:
            w = k.wrong({**args, **attrs}[a])
            # some need not be given
            if w is not None or name not in OPTIONAL:
                return w
    with quiet(), warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        # made from valid arguments, refused if one of them is not
        for _ in range(4):
            d = arguments(k, name)
            o = build(k, name, d)
            for a in args:
                if args[a] is not None:
                    same(case, o, a, d[a], f'{name}: argument {a} is not what the object has')
            case.event('constructed')
            for a in args:
                if args[a] is None or name == 'function.Tabulated1D':   # which turns into arrays what it is made from
                    continue
                for _ in range(2):
                    w = wrong(a)
                    bad = dict(d, **{a: w})
                    try:
                        build(k, name, bad)
                    except (TypeError, ValueError):
                        case.event('refused_arguments')
                    else:
                        case.check(False, f'{name} was made from a value for {a} that is not valid', value=repr(w)[:200])
                    case.sig(name, a, repr(w)[:80])
        # set
        kinds = {a: v for a, v in {**args, **attrs}.items() if v is not None}
        for a, kind in kinds.items():
            o = build(k, name, arguments(k, name))
            for _ in range(int(rng.integers(6, 12))):
                if rng.random() < 0.45:
                    v = k.valid(kind)
                    setattr(o, a, v)
                    same(case, o, a, v, f'{name}.{a}: not what was set')
                    case.event('set')
                else:
                    before, store = getattr(o, a), {n: getattr(o, n) for n in kinds if n != a}
                    w = wrong(a)
                    try:
                        setattr(o, a, w)
                    except (TypeError, ValueError) as e:
                        case.check(str(e) != '', f'{name}.{a}: error without a message')
                    else:
                        case.check(False, f'{name}.{a} takes a value that is not valid', value=repr(w)[:200], kind=kind)
                    same(case, o, a, before, f'{name}.{a}: changed by a value that was refused', kept=True)
                    for n, v in store.items():
                        same(case, o, n, v, f'{name}.{n}: changed by setting {a}', kept=True)
                    case.event('refused_values')
                    case.sig(name, a, repr(w)[:80])
            case.event('attributes')
        if name == 'function.Sum':
            operations(case, k)
    case.sample(cls=name, attributes=list(kinds))


def operations(case, k):
    """One operation fewer than functions."""
    rng = case.rng
    f = k.f
    for _ in range(10):
        fs = [k.tab() for _ in range(int(rng.integers(1, 5)))]
        ops = [pick(rng, [np.add, np.multiply, np.subtract]) for _ in fs[1:]]
        c = f.Combination(fs, ops)
        case.check(c.functions is fs and list(c.operations) == ops, 'functions and operations of a combination')
        for w in (ops + [np.add], ops[:-1] if ops else [np.add], [lambda a, b: a] * len(ops) if ops else None, ['+'] * len(ops) if ops else 5):
            try:
                c.operations = w
            except (TypeError, ValueError):
                case.event('refused_values')
            else:
                case.check(False, 'operations that do not fit were taken', functions=len(fs), operations=repr(w))
            case.check(list(c.operations) == ops, 'operations were changed by values that were refused')
        try:
            f.Combination(fs, ops + [np.add])
        except (TypeError, ValueError):
            case.event('refused_arguments')
        else:
            case.check(False, 'combination with too many operations')
        try:
            c.functions = [1.0] * len(fs)
        except (TypeError, ValueError):
            case.event('refused_values')
        else:
            case.check(False, 'combination of numbers')
        case.check(c.functions is fs, 'functions were changed by values that were refused')


def lists(case):
    """Lists that check what is added, against a list that does not."""
    from ASAPy.data import checkvalue as cv
    rng = case.rng
    types = pick(rng, [int, str, float, (int, str), (float, str)])
    has = types if isinstance(types, tuple) else (types,)
    pool = [1, 2, -5, 'a', 'bc', 1.5, 2.5, None, [1], 1j]
    good = [v for v in pool if isinstance(v, has)]
    bad = [v for v in pool if not isinstance(v, has)]
    start = [pick(rng, good) for _ in range(int(rng.integers(0, 4)))]
    name = 'things'
    L = cv.CheckedList(types, name, start) if start or rng.random() < 0.5 else cv.CheckedList(types, name)
    model = list(start)
    case.sig('list', str(types), tuple(start))
    if start:
        case.raises(lambda: cv.CheckedList(types, name, spoiled(rng, start, pick(rng, bad))), 'a list was made with an element of wrong type', allowed=(TypeError,))
    for _ in range(12):
        op = pick(rng, ['append', 'insert', 'add', 'radd', 'iadd', 'copy', 'self'])
        v = pick(rng, good)
        more = [pick(rng, good) for _ in range(int(rng.integers(0, 3)))]
        if rng.random() < 0.4:
            w = pick(rng, bad)
            wrong = spoiled(rng, more + [v], w)

            def attempt():
                nonlocal L
                if op == 'append':
                    L.append(w)
                elif op == 'insert':
                    L.insert(int(rng.integers(0, len(model) + 1)), w)
                elif op == 'add':
                    return L + wrong
                elif op == 'radd':
                    return list(wrong) + L
                elif op == 'iadd':
                    L += wrong
                elif op == 'copy':
                    copy.copy(L).append(w)
                else:
                    L += 5
            case.raises(attempt, f'an element of wrong type was taken ({op})', allowed=(TypeError,))
        elif op == 'append':
            L.append(v)
            model.append(v)
        elif op == 'insert':
            i = int(rng.integers(-len(model) - 1, len(model) + 2))
            L.insert(i, v)
            model.insert(i, v)
        elif op == 'add':
            r = L + more
            case.check(list(r) == model + more and type(r) is cv.CheckedList and r.name == name and r.expected_type == types, 'sum of a checked list and a list', got=list(r), want=model + more)
            r.append(v)
        elif op == 'radd':
            r = more + L
            case.check(list(r) == more + model, 'sum of a list and a checked list', got=list(r), want=more + model)
            case.event('radd')
        elif op == 'iadd':
            L += more
            model += more
        elif op == 'copy':
            r = pick(rng, [copy.copy, copy.deepcopy])(L)
            r.append(v)
            case.check(list(r) == model + [v], 'copy of a checked list')
        else:
            L += L + []
            model += model
            if len(model) > 40:
                break
        case.check(list(L) == model and isinstance(L, cv.CheckedList), f'checked list after {op}', got=list(L), want=model)
    # other lists are not touched
    case.check(list(cv.CheckedList(types, name)) == [], 'a new list is not empty')
    case.event('lists')
    for n, lo, hi in ((len(model), 0, len(model) + 3), (len(model), len(model), None), (len(model), len(model), len(model))):
        cv.check_length('l', model, lo, hi)
        if hi is not None:
            case.raises(lambda: cv.check_length('l', [0] * (hi + 1), lo, hi), 'too long', allowed=(ValueError,))
        if lo:
            case.raises(lambda: cv.check_length('l', [0] * (lo - 1), lo, hi), 'too short', allowed=(ValueError,))
    x = float(rng.uniform(-5, 5))
    up, down = float(np.nextafter(x, 9)), float(np.nextafter(x, -9))
    for f, ok, no in ((cv.check_less_than, down, up), (cv.check_greater_than, up, down)):
        for eq in (False, True):
            f('v', ok, x, eq)
            case.raises(lambda: f('v', no, x, eq), 'comparison with a limit', allowed=(ValueError,))
        f('v', x, x, True)
        case.raises(lambda: f('v', x, x), 'limit itself', allowed=(ValueError,))


def versions(case):
    """Files of another type or another major version are refused."""
    import h5py
    from ASAPy.data import checkvalue as cv
    rng = case.rng
    kind = pick(rng, ['data_neutron', 'data_photon', 'data_thermal'])
    major, minor = int(rng.integers(0, 5)), int(rng.integers(0, 5))
    want, expected = pick(rng, [kind, kind, kind[:-1], kind + 's', 'other']), major + pick(rng, [0, 0, 0, 1, -1])
    with h5py.File(case.path('f.h5'), 'w') as h:
        if rng.random() < 0.8:
            h.attrs['filetype'] = np.bytes_(kind)
            h.attrs['version'] = [major, minor]
            if want == kind and expected == major:
                cv.check_filetype_version(h, want, expected)
                case.event('version_taken')
            else:
                case.raises(lambda: cv.check_filetype_version(h, want, expected), 'a file of another type or version was taken', allowed=(OSError,))
                case.event('version_refused')
        else:
            case.raises(lambda: cv.check_filetype_version(h, want, expected), 'a file without type and version was taken', allowed=(OSError, KeyError))
    case.sig('version', kind, want, major, minor, expected)


def xml(case):
    """Distributions as XML: what is written is what they are."""
    from ASAPy.data import univariate as u
    rng = case.rng
    n = int(rng.integers(1, 12))
    x = [float(v) for v in np.sort(10 ** rng.uniform(-12, 8, n))]
    p = [float(v) for v in rng.uniform(0, 1, n)]
    f = pick(rng, [list, tuple, np.array])
    a, b = float(rng.normal() * 1e6), float(rng.uniform(0.1, 5) * 1e-6)
    scheme = pick(rng, ['histogram', 'linear-linear', 'linear-log', 'log-linear', 'log-log'])
    tag = pick(rng, ['energy', 'angle', 'dist'])
    for d, typ, numbers, size in ((u.Discrete(f(x), f(p)), 'discrete', x + p, n), (u.Uniform(a, abs(a) + b), 'uniform', [a, abs(a) + b], 2), (u.Maxwell(b), 'maxwell', [b], 1), (u.Watt(abs(a), b), 'watt', [abs(a), b], 2),
                                  (u.Tabular(f(x), f(p), scheme), 'tabular', x + p, n), (u.Discrete(a, b), 'discrete', [a, b], 1), (u.Uniform(), 'uniform', [0.0, 1.0], 2), (u.Watt(), 'watt', [0.988e6, 2.249e-6], 2)):
        e = d.to_xml_element(tag)
        text = e.get('parameters') if e.get('parameters') is not None else e.find('parameters').text
        case.check(e.tag == tag and e.get('type') == typ, 'kind of distribution in XML', got=[e.tag, e.get('type')], want=[tag, typ])
        case.check([float(v) for v in text.split()] == numbers, f'{typ}: numbers in XML', got=text[:300], want=numbers)
        case.check((e.get('interpolation') == scheme) == (typ == 'tabular') and len(e.attrib) <= 2, 'interpolation in XML', got=dict(e.attrib))
        case.check(len(d) == size, f'{typ}: number of values', got=len(d), want=size)
        case.event('xml')
    case.check(u.Tabular([0.0, 1.0], [1.0, 1.0]).interpolation == 'linear-linear', 'interpolation if none is given')
    t = u.Uniform(a, abs(a) + b + 1).to_tabular()
    case.check([list(map(float, t.x)), t.interpolation] == [[a, abs(a) + b + 1], 'histogram'], 'uniform distribution as a table')
    case.close_to([t.p[0] * (abs(a) + b + 1 - a), t.p[1], t.c[0], t.c[1]], [1.0, t.p[0], 0.0, 1.0], 'uniform distribution as a table')
    neg = u.Tabular(f(x), f([-v for v in p]), ignore_negative=True)
    case.check(list(neg.p) == [-v for v in p], 'negative values that may be there')
    parts = [u.Discrete(f(x), f(p)), u.Uniform(), u.Tabular([0.0, 1.0, 2.0], [1.0, 1.0, 1.0])]
    case.check(len(u.Mixture([0.2, 0.3, 0.5], parts)) == n + 5, 'number of values of a mixture')
    c = [float(v) for v in rng.normal(size=int(rng.integers(1, 7)))]
    mu = float(rng.uniform(-1, 1))
    leg = u.Legendre(c)
    case.close_to(leg(mu), sum((2 * l + 1) / 2 * v * np.polynomial.legendre.legval(mu, [0] * l + [1]) for l, v in enumerate(c)), 'Legendre expansion', rtol=1e-9, atol=1e-12)
    case.check(len(leg) == len(c), 'number of coefficients')
    case.sig('xml', tuple(x), tuple(p))


def ids(case):
    """Numbers handed out for objects."""
    from ASAPy.data import mixin
    rng = case.rng

    class A(mixin.IDManagerMixin):
        next_id = 1
        used_ids = set()

    class B(A):
        pass

    class C(mixin.IDManagerMixin):
        next_id = 1
        used_ids = set()
    used = {A: set(), C: set()}
    for _ in range(25):
        cls = pick(rng, [A, B, C])
        home = A if cls is B else cls
        op = pick(rng, ['auto', 'auto', 'given', 'reserve', 'reserve_all', 'next', 'wrong', 'reset'])
        if op == 'auto':
            o = cls()
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter('always')
                o.id = None
            case.check(isinstance(o.id, int) and o.id > 0 and o.id not in used[home] and not w, 'number handed out is in use', got=o.id, used=sorted(used[home]))
            used[home].add(o.id)
        elif op == 'given':
            n = int(rng.integers(0, 12))
            o = cls()
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter('always')
                o.id = n
            case.check(o.id == n, 'number given')
            case.check(bool(w) == (n in used[home]), 'warning about a number in use', warned=len(w), used=n in used[home])
            used[home].add(n)
        elif op == 'reserve':
            r = [int(v) for v in rng.integers(1, 20, 3)]
            mixin.reserve_ids(r, home)
            used[home] |= set(r)
        elif op == 'reserve_all':
            r = [int(v) for v in rng.integers(1, 20, 2)]
            mixin.reserve_ids(r)
            for h in used:
                used[h] |= set(r)
        elif op == 'next':
            n = int(rng.integers(1, 30))
            mixin.set_auto_id(n)
            o = cls()
            o.id = None
            case.check(o.id >= n and o.id not in used[home] and all(v in used[home] for v in range(n, o.id)), 'next number', got=o.id, asked=n, used=sorted(used[home]))
            used[home].add(o.id)
        elif op == 'wrong':
            o = cls()
            case.raises(lambda: setattr(o, 'id', pick(rng, ['1', -1, 1.5, [1]])), 'number that is none', allowed=(TypeError, ValueError))
        else:
            mixin.reset_auto_ids()
            for h in used:
                used[h] = set()
            o = cls()
            o.id = None
            case.check(o.id == 1, 'first number after a reset', got=o.id)
            used[home].add(1)
        case.check(A.used_ids == used[A] and C.used_ids == used[C], 'numbers in use', op=op)
    case.event('ids')
    case.sig('ids', case.index)


# what an object has that was made without it
FRESH = {
    'product.Product': {'decay_rate': 0.0, 'emission_mode': 'prompt', 'distribution': [], 'applicability': []},
    'reaction.Reaction': {'center_of_mass': True, 'redundant': False, 'q_value': 0.0, 'xs': {}, 'products': [], 'derived_products': []},
    'neutron.IncidentNeutron': {'energy': {}, 'fission_energy': None, 'reactions': {}, 'urr': {}, 'resonances': None, 'resonance_covariance': None},
    'photon.IncidentPhoton': {'atomic_relaxation': None, 'reactions': {}, 'compton_profiles': {}, 'stopping_powers': {}, 'bremsstrahlung': {}},
    'photon.PhotonReaction': {'xs': None, 'scattering_factor': None, 'anomalous_real': None, 'anomalous_imag': None},
    'uncorrelated.UncorrelatedAngleEnergy': {'angle': None, 'energy': None},
    'urr.ProbabilityTables': {'inelastic_flag': -1, 'absorption_flag': -1, 'multiply_smooth': False},
    'thermal.ThermalScattering': {'secondary_mode': None, 'nuclides': [], 'elastic_xs': {}, 'elastic_mu_out': {}, 'inelastic_xs': {}, 'inelastic_e_out': {}, 'inelastic_mu_out': {}, 'inelastic_dist': {}},
    'data.DataLibrary': {'libraries': []},
}


def fresh(case):
    """Objects made anew have their defaults, whatever was done to others."""
    import importlib
    rng = case.rng
    k = Kinds(rng)
    made = []
    for _ in range(int(rng.integers(20, 40))):
        name = pick(rng, sorted(FRESH))
        m, c = name.split('.')
        cls = getattr(importlib.import_module('ASAPy.data.' + ('library' if m == 'data' else m)), c)
        with quiet(), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            if c == 'ThermalScattering':
                args = ('c_' + str(rng.integers(0, 99)), float(rng.uniform(0.5, 20)), [float(rng.uniform(0.01, 0.1))])
            elif c == 'IncidentNeutron':
                args = ('U235', 92, 235, int(rng.integers(0, 2)), 233.0, [0.0253])
            elif c == 'Reaction':
                args = (int(rng.integers(1, 120)),)
            elif c == 'PhotonReaction':
                args = (502,)
            elif c == 'IncidentPhoton':
                args = (int(rng.integers(1, 99)),)
            elif c == 'ProbabilityTables':
                args = tuple(k.valid(CLASSES[name][0][a]) for a in ('energy', 'table', 'interpolation'))
            elif c == 'Product':
                args = pick(rng, [(), ('photon',)])
            else:
                args = ()
            o = cls(*args)
        for a, want in FRESH[name].items():
            got = getattr(o, a)
            ok = got is want if want is None or isinstance(want, bool) else len(got) == 0 if isinstance(want, (list, dict)) else got == want
            case.check(ok, f'{name}: {a} of a new object', got=repr(got)[:200], want=want)
            case.event('fresh')
        if c == 'Product':
            case.check(o.particle == (args[0] if args else 'neutron') and all(float(o.yield_(e)) == 1.0 for e in (1e-5, 1.0, 2e7)), 'particle and yield of a new product', got=[o.particle, str(o.yield_)])
        # then it gets something of its own
        for a in FRESH[name]:
            v = getattr(o, a)
            if isinstance(v, list):
                list.append(v, 'x')
            elif isinstance(v, dict):
                dict.__setitem__(v, 'x', 'x')
        for p, n in made:
            for a in FRESH[n]:
                v = getattr(p, a)
                case.check(not isinstance(v, (list, dict)) or len(v) == 1, f'{n}: {a} of an older object changed with that of a new one', got=repr(v)[:200])
        made.append((o, name))
        case.sig('fresh', name, repr(args)[:60])
    case.sample(new_objects=len(made))


WORKLOADS = [Workload('attributes', attributes, 36 * 20, 36 * 250), Workload('lists', lists, 120, 3000), Workload('versions', versions, 60, 600), Workload('xml', xml, 60, 1500), Workload('ids', ids, 100, 2000), Workload('fresh', fresh, 40, 800)]
