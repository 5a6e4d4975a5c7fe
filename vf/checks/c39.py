"""C39: data objects compare by value."""
import collections
import copy
import io
import pathlib

import numpy as np

from ..core import Case, Inconclusive, Workload, quiet
from .. import acegen
from . import c15, c26, c28, c30, c31, c32, c33, c34

ID = 'C39'
RULE = ('the objects that readers return while the workloads of other checks run (neutron tables and evaluations with all laws, libraries and tables of ACE files, decay, yields, thermal, multipole and photon data, '
        'HDF5 files, lists of libraries): each read again and copied, and copies in which one number, text, flag, element, key, point or object somewhere inside is another one; every object inside with '
        'a class of its own likewise; non-trivial = all; distinct by class and place of the change')
EXPECT = {'objects': 1500, 'classes': 150, 'read_again': 120, 'copies': 1500, 'changes': 3000, 'changed_number': 300, 'changed_array': 500, 'changed_text': 60, 'changed_list': 150, 'changed_dict': 60, 'changed_object': 100,
          'changed_uncertainty': 40, 'other_types': 1500, 'extra': 100, 'of Decay': 6, 'of FissionProductYields': 5, 'of AtomicRelaxation': 3,  'of IncidentNeutron': 50, 'of IncidentPhoton': 3, 'of ThermalScattering': 10, 'of Library': 5, 'of Regions1D': 5, 'of Mixture': 40, 'of CorrelatedAngleEnergy': 10}
ASSUMPTIONS = ['resonance parameters have no comparison by value and compare as objects; objects that hold them are left out']
SOURCES = [(c15, 'read'), (c28, 'reactions'), (c26, 'parts'), (c30, 'decay'), (c34, 'evaluation'), (c28, 'fission'), (c31, 'tables'), (c26, 'stored'), (c30, 'yields'), (c32, 'run'), (c34, 'table'), (c15, 'read'),
           (c33, 'library'), (c30, 'by_hand'), (c15, 'temperatures'), (c28, 'fission')]
BASIC = (int, float, str, bool, np.generic)


class Mute(Case):
    """Runs the workload of another check for the objects it reads; what it would say is not of interest here."""
    def __init__(self, case, index):
        self.__dict__.update(case.__dict__)
        self.index, self.events, self.sigs, self.samples, self.inputs = index, {}, set(), [], {}

    def check(self, *a, **k):
        pass
    close_to = equal = check

    def raises(self, fn, message, allowed=()):
        try:
            with quiet():
                fn()
        except Exception:
            pass


def classes():
    """Everything that compares by value, found by what it inherits."""
    from ASAPy.data import mixin
    out, todo = [], [mixin.EqualityMixin]
    while todo:
        for k in todo.pop().__subclasses__():
            if k not in out:
                out.append(k)
                todo.append(k)
    return out


def by_hand(case):
    """Kinds of objects that come out of no reader, or inside of others only."""
    from ASAPy.data import ace, function, univariate as u
    rng = case.rng
    texts = [acegen.random_ace(rng).text() for _ in range(int(rng.integers(1, 3)))]
    with open(case.path('lib.ace'), 'w') as f:
        f.write(''.join(texts))
    x = np.sort(rng.uniform(0, 10, 5))

    def make():
        t = function.Tabulated1D(x, x ** 2, [3, 5], [2, 4])
        p = function.Polynomial([1.0, 2.5, -0.5])
        return [u.Mixture([0.25, 0.75], [u.Maxwell(1.5e6), u.Watt(1e6, 2e-6)]), u.Mixture([0.5, 0.5], [u.Discrete([1.0, 2.0], [0.5, 0.5]), u.Tabular([0.0, 1.0, 2.0], [0.1, 0.5, 0.4], 'histogram')]),
                function.Regions1D([t, function.Tabulated1D([10.0, 20.0], [3.0, 4.0])], [10.0]), function.Combination([t, p], [np.add]), function.Sum([p, t, function.Tabulated1D([0.0, 1.0], [1.0, 2.0])]),
                u.Legendre([1.0, 0.25, 0.1]), u.Uniform(-1.0, 1.0), ace.Library(case.path('lib.ace')), ace.get_table(case.path('lib.ace'))]
    with quiet():
        a, b = make(), make()
    return 'by hand', [(type(v).__name__, v, w) for v, w in zip(a, b)]


def collect(case):
    if case.index % 12 == 11:
        return by_hand(case)
    mod, name = SOURCES[case.index % len(SOURCES)]
    fn = next(w.fn for w in mod.WORKLOADS if w.name == name)
    found, depth, undo = [], [0], []

    def wrap(cls, attr):
        own = cls.__dict__[attr]

        def call(c, *a, **k):
            f = own.__get__(None, c)
            depth[0] += 1
            try:
                got = f(*a, **k)
            finally:
                depth[0] -= 1
            if depth[0] == 0 and len(found) < 6:
                again = None
                if all(isinstance(v, BASIC + (pathlib.Path, list, tuple, type(None))) for v in list(a) + list(k.values())):
                    depth[0] += 1
                    try:
                        again = f(*a, **k)
                    except Exception:
                        pass
                    finally:
                        depth[0] -= 1
                found.append((f'{cls.__name__}.{attr}', copy.deepcopy(got), again))
            return got
        undo.append((cls, attr, own))
        setattr(cls, attr, classmethod(call))
    for cls in classes():
        for attr in ('from_ace', 'from_endf', 'from_hdf5', 'from_xml'):
            if isinstance(cls.__dict__.get(attr), classmethod):
                wrap(cls, attr)
    def read(case, cls, text):
        depth[0] += 1
        try:
            got, again = own_read(case, cls, text), own_read(case, cls, text)
        finally:
            depth[0] -= 1
        found.append((f'{cls.__name__}', copy.deepcopy(got), again))
        return got
    own_read = c30.read
    undo.append((c30, 'read', own_read))
    c30.read = read
    try:
        with quiet(), np.errstate(all='ignore'):
            fn(Mute(case, case.index // len(SOURCES) * 7 + case.index))
    except Inconclusive:
        raise
    except Exception:
        pass
    finally:
        for cls, attr, own in undo:
            setattr(cls, attr, own)
    return f'{mod.ID} {name}', found


def is_data(o):
    from ASAPy.data import mixin
    return isinstance(o, mixin.EqualityMixin)


def is_uf(o):
    from uncertainties import UFloat
    return isinstance(o, UFloat)


def nothing_else(o, seen=None):
    """Only parts that compare by value, and no NaN (which differs from itself)."""
    seen = set() if seen is None else seen
    if id(o) in seen or o is None or isinstance(o, (str, bool, bytes)):
        return True
    seen.add(id(o))
    if is_uf(o):
        return o.n == o.n and o.s == o.s
    if isinstance(o, (int, float, np.generic)):
        return bool(o == o)
    if isinstance(o, np.ndarray):
        return o.dtype.kind in 'iufcbSU' and not (o.dtype.kind in 'fc' and np.isnan(o).any())
    if isinstance(o, np.polynomial.Polynomial):
        return not np.isnan(o.coef).any()
    if isinstance(o, (list, tuple)):
        return all(nothing_else(v, seen) for v in o)
    if isinstance(o, dict):
        return all(nothing_else(v, seen) for v in o.values())
    if is_data(o):
        return all(nothing_else(v, seen) for v in vars(o).values())
    if isinstance(o, np.polynomial.Legendre):
        return not np.isnan(o.coef).any()
    if type(o).__module__.startswith('pandas'):
        return all(nothing_else(v, seen) for v in np.ravel(o.values))
    return callable(o)


def inside(o, out, seen, path='', depth=0):
    """All objects with a comparison of their own in o."""
    if id(o) in seen or depth > 40:
        return
    seen.add(id(o))
    if is_data(o):
        out.append((path, o))
        for k, v in vars(o).items():
            inside(v, out, seen, f'{path}.{k}', depth + 1)
    elif isinstance(o, (list, tuple)):
        for i, v in enumerate(o):
            inside(v, out, seen, f'{path}[{i}]', depth + 1)
    elif isinstance(o, dict):
        for k, v in o.items():
            inside(v, out, seen, f'{path}[{k!r}]', depth + 1)


def places(o, out, path=(), depth=0):
    """Where something can be changed: (path, container, key)."""
    if depth > 40 or len(out) > 4000:
        return
    items = [('coef', o.coef)] if isinstance(o, np.polynomial.Polynomial) else vars(o).items() if is_data(o) else o.items() if isinstance(o, dict) else enumerate(o) if isinstance(o, list) else ()
    for k, v in list(items):
        if v is None or isinstance(v, bytes):
            continue
        if isinstance(v, BASIC) or isinstance(v, np.ndarray) and v.size or is_uf(v) or isinstance(v, (list, dict)) and len(v) or is_data(v) or isinstance(v, np.polynomial.Legendre):
            out.append((path + (k,), o, k))
        places(v, out, path + (k,), depth + 1)


def put(o, k, v):
    if isinstance(o, (list, dict)):
        o[k] = v
    else:
        vars(o)[k] = v


def change(rng, o, k):
    """Something else in the place of what is there; says what kind, or None."""
    from uncertainties import ufloat
    v = o[k] if isinstance(o, (list, dict)) else vars(o)[k]
    if isinstance(v, (bool, np.bool_)):
        put(o, k, not v)
        return 'number'
    if is_uf(v):
        if not (np.isfinite(v.n) and np.isfinite(v.s)):
            return None
        n, s = (v.n * 1.5 + 1, v.s) if rng.random() < 0.5 else (v.n, v.s * 1.5 + 1)
        put(o, k, ufloat(n, s))
        return 'uncertainty'
    if isinstance(v, str):
        put(o, k, v + 'x' if rng.random() < 0.5 or not v else v[:-1])
        return 'text'
    if isinstance(v, (int, np.integer)):
        put(o, k, v + 1)
        return 'number'
    if isinstance(v, (float, np.floating)):
        w = float(np.nextafter(v, np.inf)) if rng.random() < 0.3 else v * 1.5 + 1
        if not w != v:
            return None
        put(o, k, w)
        return 'number'
    if isinstance(v, np.ndarray):
        if v.dtype.kind not in 'iuf' or v.size == 0 or v.ndim == 0:
            return None
        u = rng.random() if not isinstance(o, np.polynomial.Polynomial) else 1.0
        if u < 0.15:
            put(o, k, v[:-1].copy())
        elif u < 0.25:
            put(o, k, np.concatenate([v, v[-1:]]))
        elif u < 0.3:
            put(o, k, v.reshape((1,) + v.shape).copy())
        else:
            w = v.copy()
            i = tuple(int(rng.integers(0, n)) for n in w.shape)
            w[i] = w[i] + 1 if w.dtype.kind in 'iu' else np.nextafter(w[i], np.inf) if rng.random() < 0.4 else w[i] * 1.5 + 1
            if np.array_equal(w, v):
                return None
            put(o, k, w)
        return 'array'
    if isinstance(v, np.polynomial.Legendre):
        w = v.copy()
        w.coef[int(rng.integers(0, len(w.coef)))] += 1
        put(o, k, w)
        return 'array'
    if is_data(v):
        if rng.random() < 0.5:
            put(o, k, None)
            return 'object'
        other = [c for c in classes() if c is not type(v) and not issubclass(c, type(v)) and not issubclass(type(v), c)]
        w = copy.copy(v)
        try:
            w.__class__ = other[int(rng.integers(0, len(other)))]
        except TypeError:
            return None
        put(o, k, w)
        return 'object'
    if isinstance(v, list):
        if rng.random() < 0.5:
            del v[int(rng.integers(0, len(v)))]
        else:
            v.append(copy.deepcopy(v[int(rng.integers(0, len(v)))]))
        return 'list'
    if isinstance(v, dict):
        ks = list(v)
        kk = ks[int(rng.integers(0, len(ks)))]
        if rng.random() < 0.5:
            del v[kk]
        else:
            new = kk + 'x' if isinstance(kk, str) else kk + 1000 if isinstance(kk, (int, np.integer)) else ('x', kk)
            if new in v:
                return None
            v[new] = v.pop(kk) if rng.random() < 0.6 else copy.deepcopy(v[kk])
        return 'dict'
    return None


def verdict(case, a, b, want, what, **info):
    got = []
    for f in (lambda: a == b, lambda: b == a, lambda: not a != b, lambda: not b != a):
        r = f()
        case.check(isinstance(r, (bool, np.bool_)), 'comparison does not give true or false', got=repr(r)[:200], **info)
        got.append(bool(r))
    case.check(got == [want] * 4, what, equal=got[0], equal_turned=got[1], **info)


def compare(case):
    rng = case.rng
    source, found = collect(case)
    case.input(source=source, found=[f[0] for f in found])
    seen = collections.Counter()
    for name, top, again in found:
        if not is_data(top):
            continue
        if not nothing_else(top):
            case.event('left_out')
        elif again is not None:
            verdict(case, top, again, True, 'the same data read twice differ', where=name)
            case.event('read_again')
        objs = []
        inside(top, objs, set())
        by = collections.defaultdict(list)
        for path, o in objs:
            by[type(o).__name__].append((path, o))
        for cls, lst in by.items():
            for j in rng.choice(len(lst), min(len(lst), 3), replace=False):
                path, o = lst[int(j)]
                if not nothing_else(o):
                    continue
                where = dict(where=name + path, cls=cls)
                c = copy.deepcopy(o)
                verdict(case, o, c, True, 'a copy differs from the object', **where)
                verdict(case, o, o, True, 'an object differs from itself', **where)
                case.event('copies')
                other = [None, 1, 'x', [], {}, object()][int(rng.integers(0, 6))]
                verdict(case, o, other, False, 'equal to something of another kind', **where)
                p2, o2 = objs[int(rng.integers(0, len(objs)))]
                if type(o2) is not type(o) and not isinstance(o, type(o2)) and not isinstance(o2, type(o)):
                    verdict(case, o, o2, False, 'equal to data of another kind', other=type(o2).__name__, **where)
                case.event('other_types')
                if type(o).__module__.startswith('ASAPy'):
                    spots = []
                    places(c, spots)
                    for t in rng.permutation(len(spots))[:4]:
                        c2 = copy.deepcopy(o)
                        spots2 = []
                        places(c2, spots2)
                        sp, cont, key = spots2[int(t)]
                        kind = change(rng, cont, key)
                        if kind is None:
                            continue
                        verdict(case, o, c2, False, 'equal although something inside is not', change=kind, at=[str(v) for v in sp], **where)
                        case.event('changes')
                        case.event('changed_' + kind)
                        case.sig(cls, tuple(str(v) for v in sp), kind)
                    if rng.random() < 0.2:
                        c3 = copy.deepcopy(o)
                        vars(c3)['extra_note'] = 1.0
                        r = bool(o == c3), bool(c3 == o)
                        case.check(r[0] == r[1], 'which one is compared with which makes a difference', got=r, **where)
                        case.event('extra')
                case.event('objects')
                seen[cls] += 1
    for cls, n in seen.items():
        case.event('of ' + cls, n)
    case.event('classes', len(seen))
    case.sample(source=source, objects=dict(seen))


WORKLOADS = [Workload('compare', compare, 320, 4000)]
