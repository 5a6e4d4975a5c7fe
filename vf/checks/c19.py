"""C19: writing ACE files: what was not replaced stays as it is, to the byte."""
import os

import numpy as np

from ..core import Workload, quiet
from .. import acegen

ID = 'C19'
RULE = ('random neutron tables in the old and new header styles (any number of comment lines, any length of the data modulo 4, three digit exponents, zeros, integers) written unchanged, '
        'and with 1-6 arrays replaced one after another, arrays occurring several times with a limit on replacements, arrays that do not occur or have another length; '
        'every word of the file written is compared with a model; non-trivial = a replacement; distinct by content')
EXPECT = {'identical': 100, 'replaced': 200, 'not_found': 60, 'wrong_length': 60, 'new_header': 40, 'eless': 30, 'repeated': 30, 'chained': 40, 'tiny_new': 20, 'trailing_blanks': 50, 'few_changed': 30}


def parse(text, head):
    lines = text.split('\n')
    return lines[:head], ' '.join(lines[head:]).split()


def rewrite(case):
    from ASAPy import AceIO
    rng = case.rng
    a = acegen.random_ace(rng, tiny=0.3, nu='both')
    v2 = None if rng.random() < 0.6 else int(rng.integers(0, 7))
    head = 12 if v2 is None else 12 + v2
    text = a.text(v2=v2)
    if rng.random() < 0.5:
        # headers have fixed columns: names and comments are followed by blanks
        ls = text.split('\n')
        ls[:head] = [l.ljust(int(rng.choice([len(l), 70, 80, len(l) + 1]))) if l else l for l in ls[:head]]
        text = '\n'.join(ls)
        case.event('trailing_blanks')
    p, q = case.path('base.ace'), case.path('out.ace')
    with open(p, 'w') as f:
        f.write(text)
    case.input(name=a.name, v2=v2, text=text[:2000])
    with quiet():
        w = AceIO.WriteAce(p)
        w.write_ace(q)
    got = open(q).read()
    case.check(got == text, 'a file written without changes must be the same to the byte', first=next((i for i, (x, y) in enumerate(zip(got, text)) if x != y), min(len(got), len(text))),
               sizes=[len(got), len(text)])
    case.event('identical')
    case.event('new_header', int(v2 is not None))
    hl, words = parse(text, head)
    case.event('eless', int(any('E' not in t and '.' in t for t in words)))
    arrays = [('total', a.total), ('elastic', a.elastic), ('heating', a.heating), ('energy', a.E)] + [(f"MT {rx['mt']}", rx['xs']) for rx in a.reactions]
    if a.nu:
        arrays.append(('nu', a.nu['total'][1].y))
    arrays = [(n, v) for n, v in arrays if len(v) > 3 and np.count_nonzero(v) > 2]
    order = rng.permutation(len(arrays))[:int(rng.integers(1, 7))]
    model = list(words)
    ops = []
    for k in order:
        name, v = arrays[k]
        old = [acegen.token(float(x)).strip() for x in v]
        at = [i for i in range(len(model) - len(old) + 1) if model[i] == old[0] and model[i:i + len(old)] == old]
        if not at:
            continue
        new = v * rng.uniform(0, 3, len(v))
        if rng.random() < 0.3:
            # only some of the numbers change: the last ones, the first ones or one in between
            keep = np.ones(len(v), bool)
            keep[[slice(-2, None), slice(0, 2), slice(len(v) // 2, len(v) // 2 + 1)][int(rng.integers(0, 3))]] = False
            new = np.where(keep, v, new)
            case.event('few_changed')
        if rng.random() < 0.15:
            new[int(rng.integers(0, len(new)))] *= -1.0
        if rng.random() < 0.2:
            new[int(rng.integers(0, len(new)))] = float(rng.choice([0.0, 1.2345e-150, 3e-101, 2.5e120]))
            case.event('tiny_new')
        ops.append(name)
        case.input(ops=ops)
        lim = int(rng.choice([1, 9999]))
        ga, gn = (v.copy(), new.copy()) if rng.random() < 0.7 else (v.tolist(), new.tolist())
        with quiet():
            w.replace_array(ga, gn) if lim == 1 and rng.random() < 0.5 else w.replace_array(ga, gn, max_replaces=lim)
        repl = [acegen.token(float(x)).strip() for x in new]
        free = -1
        for i in at[:lim]:
            if i >= free:
                model[i:i + len(old)] = repl
                free = i + len(old)
        case.event('replaced')
        case.event('chained', int(len(ops) > 1))
    # things that must be refused and change nothing
    bad = rng.uniform(1, 2, 5)
    case.raises(lambda: w.replace_array(bad, bad * 2), 'an array the file does not have must be refused', ValueError)
    case.event('not_found')
    n0, v0 = arrays[0]
    case.raises(lambda: w.replace_array(v0, v0[:-1]), 'arrays of different lengths must be refused')
    case.raises(lambda: w.replace_array(v0, np.append(v0, 1.0)), 'arrays of different lengths must be refused')
    case.raises(lambda: w.replace_array(v0[:-1], v0), 'arrays of different lengths must be refused')
    case.event('wrong_length')
    with quiet():
        w.write_ace(q)
    got = open(q).read()
    gh, gw = parse(got, head)
    case.check(gh == hl, 'the header changed', got=gh, want=hl)
    case.check(len(gw) == len(model), 'the number of words changed', got=len(gw), want=len(model), ops=ops)
    diff = [i for i in range(len(model)) if gw[i] != model[i]]
    case.check(not diff, 'the file does not have exactly the replaced arrays changed', ops=ops, first=diff[:5], got=[gw[i] for i in diff[:5]], want=[model[i] for i in diff[:5]])
    want = '\n'.join(hl) + '\n' + ''.join(''.join(t.rjust(20) for t in model[i:i + 4]) + '\n' for i in range(0, len(model), 4))
    case.check(got == want, 'the layout changed: four numbers of 20 columns per line, no empty lines')
    case.check(open(p).read() == text, 'the base file was changed')
    case.sig(text, tuple(ops))
    case.sample(ops=ops, words=len(words))


def repeated(case):
    """An array that is in the file several times."""
    from ASAPy import AceIO
    rng = case.rng
    n = int(rng.integers(3, 9))
    v = acegen.r(rng.uniform(0.1, 9, n))
    times = int(rng.integers(2, 5))
    x, at = [], []
    for _ in range(times):
        x += acegen.r(rng.uniform(0.1, 9, int(rng.integers(1, 6)))).tolist()
        at.append(len(x))
        x += v.tolist()
    x += acegen.r(rng.uniform(0.1, 9, int(rng.integers(0, 6)))).tolist()
    x += [[], [-0.0], [0.0, -0.0, -1e-300], [-3.5, 1e300]][int(rng.integers(0, 4))]
    a = acegen.Ace()
    a.raw = ([len(x)] + [0] * 15, [0] * 32, x)
    p, q = case.path('base.ace'), case.path('out.ace')
    with open(p, 'w') as f:
        f.write(a.text())
    lim = int(rng.choice([1, 2, 9999]))
    new = acegen.r(v * rng.uniform(0.2, 3, n))
    case.input(times=times, lim=lim, v=v, new=new)
    with quiet():
        w = AceIO.WriteAce(p)
        w.replace_array(v, new, max_replaces=lim)
        w.write_ace(q)
    want = list(x)
    for i in at[:lim]:
        want[i:i + n] = new.tolist()
    a.raw = (a.raw[0], a.raw[1], want)
    case.check(open(q).read() == a.text(), 'not exactly the allowed number of occurrences, from the first, were replaced', lim=lim, times=times)
    case.event('repeated')
    case.sig(n, times, lim, case.index)


WORKLOADS = [Workload('rewrite', rewrite, 200, 3000), Workload('repeated', repeated, 60, 600)]
