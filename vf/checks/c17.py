"""C17: sums follow their parts."""
import numpy as np

from ..core import Workload, quiet
from .. import acegen
from .c16 import truth, MEV

ID = 'C17'
RULE = ('random neutron tables with sums present or absent at every level (levels without MT 4 or 103-107, partial fissions with and without 18, MT 3, 27, 16 with its levels); '
        'random sets of reactions adjusted, one or more times, also sums themselves, then the sum rules applied one or more times; every reaction compared with an independent '
        'recursive model; also each sum with all its parts present and adjusted one by one; non-trivial = a part of a sum was adjusted; distinct by set of reactions')
EXPECT = {'single_parts': 500, 'complete_sums': 15, 'applied': 200, 'sum_changed': 400, 'absent_sum_expanded': 30, 'unchanged': 1000, 'level': 60, 'repeated': 40, 'sum_set': 30, 'mt3': 20, 'mt27': 20, 'mt18sum': 15, 'mt16sum': 10, 'first_or_last_level': 60}

NONEL = [4, 5, 11, 16, 17, 18, 22, 23, 24, 25, 26, 28, 29, 30, 32, 33, 34, 35, 36, 37, 41, 42, 44, 45] + list(range(102, 118))
RULES = {1: [2] + NONEL, 3: NONEL, 4: list(range(50, 92)), 16: list(range(875, 892)), 18: [19, 20, 21, 38], 27: [18, 101],
         101: [102, 103, 104, 105, 106, 107, 108, 109, 111, 112, 113, 114, 115, 116, 117, 155, 182, 191, 192, 193, 197],
         103: list(range(600, 650)), 104: list(range(650, 700)), 105: list(range(700, 750)), 106: list(range(750, 800)), 107: list(range(800, 850))}


EDGES = {50, 51, 91, 600, 649, 650, 699, 700, 749, 750, 799, 800, 849, 875, 891}


def members(s, present):
    """The parts of a sum as the table has them; a sum that is absent stands for its own parts."""
    out = []
    for m in RULES[s]:
        if m in present:
            out.append(m)
        elif m in RULES:
            out += members(m, present)
    return out


def model(energy, orig, cur, touched):
    present = set(orig)
    new = dict(cur)
    done = {}

    def value(m):
        if m in done:
            return done[m]
        v, ch = cur[m], m in touched
        if m in RULES:
            parts = [(k, value(k)) for k in members(m, present)]
            parts = [(k, p) for k, p in parts if p[1]]
            if parts:
                v = orig[m].copy()
                for k, p in parts:
                    d = p[0] - orig[k]
                    v = v + np.interp(energy[m], energy[k], d, left=0.0)
                ch = True
        done[m] = (v, ch)
        return done[m]
    for m in orig:
        new[m], ch = value(m)
    return new, {m for m in orig if done[m][1]}


def build(rng):
    a = acegen.random_ace(rng, chi='any', nu='both', zeros=bool(rng.random() < 0.7), photons=False)
    n = len(a.E)
    have = [rx['mt'] for rx in a.reactions]

    def rx(mt, start=None):
        s = int(rng.integers(n // 2, n - 3)) if start is None else start
        return dict(mt=mt, q=0.0, ty=0, start=s, xs=acegen.r(rng.uniform(0.01, 5, n - s + 1)))
    more = []
    if rng.random() < 0.3 and 16 not in have:
        more += [rx(875), rx(876)] + ([rx(16, 3)] if rng.random() < 0.5 else [])
    if rng.random() < 0.3:
        more.append(rx(27, 1))
    if rng.random() < 0.25:
        more.append(rx(3, 1))
    if rng.random() < 0.5 and any(m in have for m in (19, 20, 21, 38)) and 18 not in have:
        more.append(rx(18, 1))
    if rng.random() < 0.3:
        more += [rx(int(m)) for m in rng.choice([5, 11, 25, 37, 44, 109, 117], 2, replace=False) if int(m) not in have]
    if rng.random() < 0.7:                  # any part of any sum, first and last levels more often
        edge = [v for r_ in RULES.values() if len(r_) > 15 for v in (r_[0], r_[-1])]
        every = [v for r_ in RULES.values() for v in r_]
        lists = [edge, NONEL + RULES[101], every]
        pick = [int(rng.choice(lists[int(rng.integers(0, 3))])) for _ in range(int(rng.integers(1, 7)))]
        taken = set(have) | {x['mt'] for x in more} | {x['mt'] for x in a.reactions} | {1, 2, 18, 19, 20, 21, 38, 101}
        for m in pick:
            if m not in taken:
                more.append(rx(m))
                taken.add(m)
    a.reactions += more
    return a


def sums(case):
    from ASAPy import AceIO
    rng = case.rng
    a = build(rng)
    p = case.path('t.ace')
    with open(p, 'w') as f:
        f.write(a.text())
    with quiet():
        ed = AceIO.AceEditor(p)
    t = truth(a)
    present = [m for m in ed.all_mts if m not in (452, 1018)]
    energy = {m: np.array(ed.get_energy(m)) for m in present}
    orig = {m: np.array(ed.get_sigma(m)) for m in present}
    for m in t:
        case.close_to(orig[m], t[m][1], f'MT {m} before any change', rtol=1e-12)
    cur = {m: v.copy() for m, v in orig.items()}
    leaves = [m for m in present if m not in RULES]
    touched = set()
    history = []
    rounds = int(rng.choice([1, 1, 2, 3]))
    # a sum set directly that has no adjusted part keeps the value, so sums may be set only in the first round
    for k in range(rounds):
        ms = [int(m) for m in rng.choice(leaves, int(rng.integers(0 if k else 1, min(5, len(leaves)) + 1)), replace=False)]
        if k == 0 and rng.random() < 0.3:
            s = [m for m in present if m in RULES and m != 1]
            if s:
                ms.append(int(rng.choice(s)))
                case.event('sum_set')
        for m in ms:
            new = orig[m] * rng.uniform(0.2, 3, len(orig[m])) if rng.random() < 0.8 else rng.uniform(0, 4, len(orig[m]))
            with quiet():
                ed.set_sigma(m, new.copy())
            cur[m] = new
            touched.add(m)
        history.append(ms)
        case.input(history=history, present=sorted(present))
        times = int(rng.choice([1, 1, 2]))
        with quiet():
            for _ in range(times):
                ed.apply_sum_rules()
        case.event('repeated', int(times > 1 or k > 0))
        want, changed = model(energy, orig, cur, touched)
        for m in present:
            got = np.asarray(ed.get_sigma(m), float)
            tol = 1e-9 * (np.abs(want[m]) + np.abs(orig[m])) + 1e-12
            case.check(got.shape == want[m].shape and (np.abs(got - want[m]) <= tol).all(), f'MT {m} is not ' + ('the original sum with its adjusted parts exchanged' if m in RULES else 'as it was set'),
                       history=history, worst=float(np.abs(got - want[m]).max()) if got.shape == want[m].shape else None, members=members(m, set(present)) if m in RULES else None)
            case.check(np.array_equal(ed.get_energy(m), energy[m]), f'MT {m}: energies changed')
            case.check(np.array_equal(ed.get_sigma(m, unadjusted=True), orig[m]), f'MT {m}: unadjusted values changed', history=history)
            case.event('sum_changed' if m in changed and m in RULES else 'unchanged')
        case.check({m for m in ed.adjusted_mts} == changed, 'the adjusted reactions are not the ones set and the sums over them', got=sorted(ed.adjusted_mts), want=sorted(changed), history=history)
        # a sum that was set directly is from now on what the rules made of it
        case.event('applied')
        case.event('level', int(any(m >= 600 for m in ms)))
        case.event('first_or_last_level', sum(m in EDGES for m in ms))
        case.event('mt3', int(3 in present))
        case.event('mt27', int(27 in present))
        case.event('mt18sum', int(18 in present and 19 in ms))
        case.event('mt16sum', int(16 in present and (875 in ms or 876 in ms)))
        case.event('absent_sum_expanded', int(any(m in RULES[s] and s not in present for m in ms for s in RULES if s not in (3, 27))))
    case.sig(tuple(sorted(present)), tuple(map(tuple, history)))
    case.sample(history=history, present=sorted(present))


def every_part(case):
    """One sum with all the parts the rules name, adjusted one after the other."""
    from ASAPy import AceIO
    rng = case.rng
    s = sorted(RULES)[case.index % len(RULES)]
    a = acegen.random_ace(rng, chi='any', nu='both', photons=False)
    n = len(a.E)
    have = {x['mt'] for x in a.reactions} | {1, 2, 101}
    for m in [s] + RULES[s]:
        if m not in have:
            k = int(rng.integers(1, n - 3))
            a.reactions.append(dict(mt=m, q=0.0, ty=0, start=k, xs=acegen.r(rng.uniform(0.01, 5, n - k + 1))))
            have.add(m)
    if not np.count_nonzero(a.absorption):
        # an absorption of zero everywhere is not a reaction of the file
        a.absorption = acegen.r(rng.uniform(0.01, 5, n))
    p = case.path('t.ace')
    with open(p, 'w') as f:
        f.write(a.text())
    with quiet():
        ed = AceIO.AceEditor(p)
    present = [m for m in ed.all_mts if m not in (452, 1018)]
    case.check(set(RULES[s]) <= set(present) and s in present, f'reactions of the file are missing', sum=s)
    energy = {m: np.array(ed.get_energy(m)) for m in present}
    orig = {m: np.array(ed.get_sigma(m)) for m in present}
    cur, touched = {m: v.copy() for m, v in orig.items()}, set()
    order = list(RULES[s])
    rng.shuffle(order)
    case.input(sum=s, order=[int(m) for m in order])
    case.sig(s, tuple(order), n)
    for m in order:
        cur[m] = orig[m] * rng.uniform(0.2, 3, len(orig[m]))
        touched.add(m)
        with quiet():
            ed.set_sigma(m, cur[m].copy())
            ed.apply_sum_rules()
        want, changed = model(energy, orig, cur, touched)
        for k in (s, m, 1):
            got = np.asarray(ed.get_sigma(k), float)
            tol = 1e-9 * (np.abs(want[k]) + np.abs(orig[k])) + 1e-12
            case.check(got.shape == want[k].shape and (np.abs(got - want[k]) <= tol).all(), f'MT {k} after MT {m} was set: not the original value with its adjusted parts exchanged', order=[int(v) for v in order])
        case.event('single_parts')
    case.check(set(ed.adjusted_mts) == changed, 'the adjusted reactions are not the ones set and the sums over them', got=sorted(ed.adjusted_mts), want=sorted(changed))
    case.event('complete_sums')


WORKLOADS = [Workload('sums', sums, 1500, 15000), Workload('every_part', every_part, 24, 240)]
