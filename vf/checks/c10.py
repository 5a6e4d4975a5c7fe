"""C10: boxer2mat reconstructs exactly the matrices the compressed file stands for, or fails visibly."""
import os
import re

import numpy as np

from ..core import Workload, run_cmd, child_env, REPO
from .. import boxer

ID = 'C10'
RULE = ('files written by an independent BOXER encoder: 1-800 groups, symmetric and rectangular matrices, all value and control formats, random choice among the '
        'equivalent encodings (value runs, copies of the row above, runs over row ends), 1-many pages, other data sets in between; and files with one fault '
        '(oversized pages, inconsistent controls, truncation, illegal formats, missing data). Run under address and undefined-behaviour sanitizers with bounds checks; '
        'non-trivial = more than one run kind or page, or a fault; distinct by file content')
EXPECT = {'two_materials': 10, 'blocks': 100, 'multi_page': 20, 'copied_rows': 20, 'faults': 40, 'toc': 5, 'formats': 40, 'gold': 1, 'full_page': 2, 'large': 1, 'sanitized_runs': 60}
ASSUMPTIONS = ['the compiler is gfortran, as in the build script of the repository']


def prepare(scratch):
    return {'plain': boxer.build(REPO, scratch, False), 'san': boxer.build(REPO, scratch, True)}


def _env(case):
    return child_env(case.dir, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99', UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1')


def run_boxer(case, exe, lines, requests):
    d = case.path('run')
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(d):
        os.unlink(os.path.join(d, f))
    with open(os.path.join(d, 'fort.20'), 'w') as f:
        f.write('\n'.join(lines) + '\n')
    rc, out, err = run_cmd([exe], d, _env(case), stdin=requests, timeout=120)
    both = out + err
    case.check('Sanitizer' not in both and 'runtime error: ' not in both.replace('Fortran runtime error', ''), 'the sanitizer reports an error', rc=rc, err=err[-1500:])
    case.check(rc >= 0, 'boxer2mat was killed by a signal', rc=rc, err=err[-800:])
    p = os.path.join(d, 'fort.21')
    return rc, both, (open(p).read() if os.path.exists(p) else ''), d


def _bounds_trip(text):
    return 'Fortran runtime error' in text and re.search(r'bound|Index .* of dimension|outside of expected range', text) is not None


def _matrix(rng, n, c, symmetric, nvf, kind):
    if kind == 'dense':
        m = rng.normal(size=(n, c))
    elif kind == 'zeros':
        m = np.where(rng.random((n, c)) < 0.15, rng.normal(size=(n, c)), 0.0)
    elif kind == 'plateau':           # blocks of equal values, as real covariances have
        rb = np.sort(rng.integers(0, 5, n))
        cb = np.sort(rng.integers(0, 5, c))
        base = rng.normal(size=(5, 5))
        m = base[np.ix_(rb, cb)]
    elif kind == 'all_zero':
        m = np.zeros((n, c))
    else:
        m = np.full((n, c), rng.normal())
    if nvf >= 9:
        m = m * 10.0 ** rng.integers(-12, 8)
    elif nvf == 7:
        m = np.clip(m, -9.9, 99)
    else:
        m = np.clip(m, -9.9, 99)
    m = boxer.quantise(m, nvf)
    if symmetric:
        m = np.triu(m) + np.triu(m, 1).T
    return m + np.float32(0)


def _title(rng):
    t = ''.join(rng.choice(list('abcdefgHIJ 0123456789-.'), 34))
    if t[3:7] == '----':
        t = 'x' * 34
    return ' ' + t


def _compare_block(case, blk, itype, mat, mt, mat1, mt1, title, m, flip=True):
    h, rows = blk
    case.check(h['itype'] == itype and h['mat'] == mat and h['mt'] == mt and h['mat1'] == mat1 and h['mt1'] == mt1, 'the header of the block is not the one of the data asked for',
               got=h, want=[itype, mat, mt, mat1, mt1])
    case.check(h['title'].rstrip() == f'{title:35.35s}'.rstrip(), 'the title changed', got=h['title'], want=title)
    want = np.asarray(m, np.float64)
    if flip:
        want = want[::-1, ::-1]
    want = want.reshape(1, -1) if m.shape[1] == 1 else want
    got = []
    for w in want:                       # each matrix row starts on a new line of eight values
        need = -(-len(w) // 8)
        case.check(len(rows) >= need, 'values are missing', block=h)
        r = [v for line in rows[:need] for v in line]
        case.check(all(len(line) == 8 for line in rows[:need - 1]) and len(r) == len(w), 'a row of the matrix has the wrong number of values', got=len(r), want=len(w))
        rows = rows[need:]
        got.append(r)
    case.check(not rows, 'there are more values than the matrix has', extra=len(rows))
    got = np.array(got)
    tol = np.vectorize(boxer.printed)(want)
    bad = np.abs(got - want) > tol
    if bad.any():
        i = tuple(int(k) for k in np.argwhere(bad)[0])
        case.check(False, 'an element of the reconstructed matrix is wrong', index=list(i), got=got[i], want=want[i], bad=int(bad.sum()), shape=list(m.shape), itype=itype)
    case.event('blocks')
    case.event('elements', int(want.size))


def _sets(case, rng, big=False):
    """A file of several reactions, with truth per set, in file order."""
    if big:
        n = int(rng.choice([239, 252, 400, 799, 800]))
    else:
        n = int(rng.choice([1, 2, 3, 5, 8, 9, 17, 33, 44]))
    mat = int(rng.choice([125, 9228, 1, 9999]))
    mts = sorted(int(k) for k in rng.choice([1, 2, 4, 16, 18, 51, 102, 452], int(rng.integers(1, 2 if big else 4)), replace=False))
    sets, lines, pages_total = [], [], 0

    def put(itype, mt, mat1, mt1, m, symmetric=False):
        nonlocal pages_total
        title = _title(rng)
        dense_ncf = int(rng.choice([2, 3, 4, 5, 6]))
        style = str(rng.choice(['mixed', 'compact', 'single']))
        if big:
            style = 'compact'
        kw = {}
        if not big and rng.random() < 0.15:
            kw = dict(max_val=int(max(m.shape[1], rng.integers(1, 60))), max_con=int(max(2 * m.shape[1], rng.integers(1, 60))))
        ls, pages = boxer.data_set(rng, itype, title, mat, mt, mat1, mt1, m, nvf=nvf, ncf=dense_ncf, symmetric=symmetric,
                                   page_prob=0.5 if rng.random() < 0.5 else 0.0, style=style, **kw)
        lines.extend(ls)
        sets.append((itype, mt, mat1, mt1, title, m))
        pages_total += pages - 1
        if pages > 1:
            case.event('multi_page')
        case.event('formats')
        return pages

    nvf = int(rng.choice([9, 10, 10, 11, 12, 13, 14]))
    bounds = boxer.quantise(np.sort(np.exp(rng.uniform(-10, 16, n + 1)))[:, None], nvf)
    if n + 1 <= 800:
        put(0, mts[0], mat, mts[0], bounds)
    for mt in mts:
        nvf = int(rng.choice(list(boxer.VALUE_FORMATS)))
        put(1, mt, mat, mt, _matrix(rng, n, 1, False, nvf, str(rng.choice(['dense', 'plateau', 'zeros', 'const']))))
        put(2, mt, mat, mt, _matrix(rng, n, 1, False, nvf, str(rng.choice(['dense', 'plateau', 'zeros', 'all_zero']))))
        kind = str(rng.choice(['plateau', 'zeros', 'const', 'all_zero'] if big else ['dense', 'plateau', 'zeros', 'const', 'all_zero']))
        if big and kind == 'zeros':
            kind = 'plateau'
        nvf = int(rng.choice(list(boxer.VALUE_FORMATS)))
        ity = int(rng.choice([3, 3, 3, 4]))
        put(ity, mt, mat, mt, _matrix(rng, n, n, True, nvf, kind), symmetric=True)
        if kind in ('plateau', 'const'):
            case.event('copied_rows')
        if rng.random() < 0.4 and not big:
            c = int(rng.choice([n, 1, max(1, n - 1), n + 3]))
            nvf = int(rng.choice(list(boxer.VALUE_FORMATS)))
            other = [int(mat + 1), int(mat)] if rng.random() < 0.5 else [int(mat), int(mat + 1)]
            it2, mt2 = int(rng.choice([3, 4])), int(rng.choice([800, 801]))
            for mat1 in other[:int(rng.integers(1, 3))]:      # the same pair of reactions for two materials
                put(it2, mt, mat1, mt2, _matrix(rng, n, c, False, nvf, kind), symmetric=False)
            case.event('two_materials')
        if rng.random() < 0.1 and not big:                    # a kind of data nobody asks for
            nvf = 10
            put(int(rng.integers(5, 9)), mt, mat, mt, _matrix(rng, n, 1, False, nvf, 'dense'))
    if rng.random() < 0.15:
        nvf = 10
        put(4, mts[-1], mat, 0, _matrix(rng, n, n, False, nvf, 'dense' if not big else 'plateau'))
    return mat, mts, sets, lines, pages_total


def reconstruct(case, big=False):
    rng = case.rng
    mat, mts, sets, lines, pages = _sets(case, rng, big)
    take = [s for s in sets if rng.random() < 0.75] or [sets[-1]]
    # the same kind of data for the same reaction may be there once only for the request to be unambiguous
    seen, want = set(), []
    for s in take:
        key = (s[0],) if s[0] == 0 else (s[0], s[1]) if s[0] in (1, 2) else s[:4]
        first = next(q for q in sets if ((q[0],) if q[0] == 0 else (q[0], q[1]) if q[0] in (1, 2) else q[:4]) == key)
        if key in seen or first is not s:
            continue
        seen.add(key)
        want.append(s)
    if not want:
        want = [sets[0]]
    free = rng.random() < 0.5
    req = ''
    for s in want:
        req += (f'{s[0]},{mat},{s[1]},{s[2]},{s[3]}\n' if free else f'{s[0]:6d}{mat:6d}{s[1]:6d}{s[2]:6d}{s[3]:6d}\n')
    req += '0,0\n' if free else f'{0:6d}{0:6d}\n'
    case.input(lines='\n'.join(lines)[:6000], requests=req, groups=int(sets[-1][5].shape[0]))
    outs = []
    for exe in (['san', 'plain'] if rng.random() < 0.5 and not big else ['san']):
        rc, text, out, d = run_boxer(case, case.shared[exe], lines, req)
        if exe == 'san':
            case.event('sanitized_runs')
        case.check(not _bounds_trip(text), 'an array is used out of its bounds', err=text[-800:])
        case.check(rc == 0, 'boxer2mat fails on a valid file', rc=rc, err=text[-800:])
        case.check('ERROR' not in out, 'boxer2mat reports an error on a valid file', out=out[-400:])
        blocks = boxer.parse_output(out)
        case.check(len(blocks) == len(want), 'not every data set asked for was written', got=len(blocks), want=len(want))
        for blk, s in zip(blocks, want):
            _compare_block(case, blk, s[0], mat, s[1], s[2], s[3], s[4], s[5], flip=not (s[0] == 4 and s[3] == 0))
        outs.append(out)
    case.check(len(set(outs)) == 1, 'the result depends on how the program was compiled')
    if big:
        case.event('large')
    case.sig(tuple(lines))
    case.sample(groups=int(sets[-1][5].shape[0]), sets=len(sets), extra_pages=pages, asked=len(want))


def large(case):
    reconstruct(case, big=True)


def toc(case):
    rng = case.rng
    mat, mts, sets, lines, pages = _sets(case, rng)
    zero = rng.random() < 0.5            # group bounds that belong to no material
    if zero:
        lines = [l[:36] + f'{0:5d}' + l[41:] if len(l) >= 80 and l[0] == '0' and l[36:45] == f'{mat:5d}{mts[0]:4d}' else l for l in lines]
    if rng.random() < 0.3:
        lines = lines + [boxer.header(9, ' end', 0, 0, 0, 0, 0, 7, 0, 1, 0, 0, 0)]
    rc, text, out, d = run_boxer(case, case.shared['san'], lines, '    -1     0     0     0     0\n')
    case.check(rc == 0, 'boxer2mat fails to list a valid file', rc=rc, err=text[-800:])
    p = os.path.join(d, 'fort.22')
    got = [tuple(int(k) for k in l.split()) for l in open(p)] if os.path.exists(p) else []
    want = [(s[0], 1 if zero and k == 0 else mat, s[1], s[2], s[3]) for k, s in enumerate(sets)] + [(0, 0)]
    case.check(got == want, 'the table of contents is not the list of the data sets', got=got, want=want)
    # it has the form of a list of requests: asking for all of it gives everything
    rc, text, out, d = run_boxer(case, case.shared['san'], lines, open(p).read())
    case.check(rc == 0 and 'ERROR' not in out, 'asking for everything in the table of contents fails', rc=rc, err=text[-500:], out=out[-300:])
    blocks = boxer.parse_output(out)
    case.check(len(blocks) == len(sets), 'not everything in the table of contents was written', got=len(blocks), want=len(sets))
    for k, (blk, s) in enumerate(zip(blocks, sets)):
        _compare_block(case, blk, s[0], 0 if zero and k == 0 else mat, s[1], s[2], s[3], s[4], s[5], flip=not (s[0] == 4 and s[3] == 0))
    case.event('toc')
    case.sig('toc', tuple(want))


FAULTS = ['too_many_values', 'too_many_controls', 'too_many_values_cont', 'too_many_controls_cont', 'zero_control', 'values_run_out', 'too_many_elements',
          'too_few_elements', 'too_many_groups', 'missing', 'truncated', 'illegal_format', 'page_not_at_row_end', 'rect_too_many', 'wrong_mt1']


def faults(case):
    rng = case.rng
    f = FAULTS[case.index % len(FAULTS)]
    n = int(rng.choice([3, 5, 9, 20]))
    mat, mt, nvf, ncf = 125, 2, 10, 4
    m = _matrix(rng, n, n, True, nvf, 'dense')
    pages = boxer.encode_pages(rng, m, True, nvf, ncf, page_prob=1.0 if 'cont' in f or f == 'page_not_at_row_end' else 0.0)
    if len(pages) == 1 and ('cont' in f or f == 'page_not_at_row_end'):
        pages = boxer.encode_pages(rng, m, True, nvf, ncf, page_prob=1.0)
    pages = [[list(v), list(c), u] for v, c, u in pages]
    nrow, ncol, nvfh, ncfh = n, 0, nvf, ncf
    last = pages[-1]
    req_mt1 = mt
    if f in ('too_many_values', 'too_many_values_cont'):
        last[0] += [1.0] * (int(rng.integers(1881, 4000)) - len(last[0]))
    elif f in ('too_many_controls', 'too_many_controls_cont'):
        k = int(rng.integers(1901, 4000))
        last[1] = [1] * k
        if rng.random() < 0.5:          # a consistent matrix, just too long
            nrow = n = 400
            last[1] = [1] * k
    elif f == 'zero_control':
        last[1][int(rng.integers(0, len(last[1])))] = 0
    elif f == 'values_run_out':
        last[0] = last[0][:-1] if len(last[0]) > 1 else []
        if not last[0]:
            last[1] = [-1] * len(last[1])
    elif f == 'too_many_elements':
        last[1].append(int(rng.integers(1, 500)))
    elif f == 'too_few_elements':
        k = sum(abs(c) for c in last[1])
        last[1] = last[1][:-1]
        if not last[1]:
            last[1] = [-1]
            nrow = n = n + 1
    elif f == 'too_many_groups':
        nrow = int(rng.integers(801, 3000))
        tot = nrow * (nrow + 1) // 2
        last[1] = [9999] * (tot // 9999) + ([tot % 9999] if tot % 9999 else [])
        last[0] = [0.0]
    elif f == 'illegal_format':
        nvfh, ncfh = [(6, ncf), (15, ncf), (nvf, 7), (nvf, 0), (0, 3)][int(rng.integers(0, 5))]
    elif f == 'page_not_at_row_end':
        last = pages[0]
        if case.index % 2 or len(last[1]) < 2:
            last[1].append(-1)
            last[0].append(1.5)
        else:                # the last piece of the page moved to the next one: the number of elements is right
            con = last[1].pop()
            pages[1][1].insert(0, con)
            if con < 0:
                pages[1][0].insert(0, last[0].pop())
    elif f == 'rect_too_many':
        ncol = int(rng.choice([k for k in range(1, n) if 2 * k != n + 1]))
    elif f == 'wrong_mt1':
        req_mt1 = 3
    lines = []
    title = ' faulty'
    for p, (vals, cons, upto) in enumerate(pages):
        lines.append(boxer.header(3, title, mat, mt, mat, mt, len(vals), nvfh, len(cons), ncfh, 0 if p == len(pages) - 1 else 1, nrow, ncol))
        lines += boxer._lines([boxer.value_text(float(v), nvf) for v in vals], 8)
        lines += boxer._lines([f'{c:4d}' for c in cons], 20)
    if f == 'missing':
        req = f'3,{mat},{int(rng.choice([1, 3, 102]))},{mat},{mt}\n'
    elif f == 'truncated':
        lines = lines[:int(rng.integers(1, len(lines)))]
        req = f'3,{mat},{mt},{mat},{mt}\n'
    else:
        req = f'3,{mat},{mt},{mat},{req_mt1}\n'
    case.input(fault=f, lines='\n'.join(lines)[:4000], request=req)
    # what is there before the faulty set must still come out whole, and nothing that looks like the faulty set may
    good = _matrix(rng, 4, 1, False, 10, 'dense')
    gl, _ = boxer.data_set(rng, 1, ' good', mat, mt, mat, mt, good)
    rc, text, out, d = run_boxer(case, case.shared['san'], gl + lines, f'1,{mat},{mt},{mat},{mt}\n' + req + '0,0\n')
    case.event('sanitized_runs')
    case.check(not _bounds_trip(text), 'an array is used out of its bounds', err=text[-800:], fault=f)
    head = out.split('***ERROR')[0]
    blocks = boxer.parse_output(head)
    case.check(len(blocks) >= 1, 'the data set before the faulty one is missing', out=out[:400])
    _compare_block(case, blocks[0], 1, mat, mt, mat, mt, ' good', good)
    case.check(len(blocks) == 1, 'a matrix was written for a faulty data set', fault=f, rc=rc, block=blocks[-1][0])
    case.check(rc != 0 or '***ERROR' in out, 'the fault is not reported: neither an error text nor an exit code', fault=f, rc=rc, out=out[-300:])
    if f in ('missing', 'wrong_mt1', 'too_many_groups'):
        case.check('***ERROR IN BOXR***' in out, 'the error text the reader of the matrix file looks for is missing', out=out[-300:])
    case.event('faults')
    case.event('fault:' + f)
    case.sig(f, tuple(lines))


def limits(case):
    """Pages that are exactly as long as allowed."""
    rng = case.rng
    mat, mt, nvf, ncf = 9228, 18, int(rng.choice([10, 12, 14])), 3
    if case.index % 2 == 0:
        m = _matrix(rng, 47, 40, False, nvf, 'dense')
        vals, cons = [float(v) for v in m.ravel()], [-1] * 1880
    else:
        m = _matrix(rng, 50, 38, False, nvf, 'dense')
        m[:, :20] = m[0, :20]
        m[0, :20] = 0.0
        m[1:, :20] = 0.0
        cons = [1 if j < 20 else -1 for i in range(50) for j in range(38)]
        vals = [float(v) for i in range(50) for v in m[i, 20:]]
    nv, nc = len(vals), len(cons)
    lines = [boxer.header(3, ' full page', mat, mt, mat, 102, nv, nvf, nc, ncf, 0, m.shape[0], m.shape[1])]
    per = boxer.VALUE_FORMATS[nvf][0]
    lines += boxer._lines([boxer.value_text(v, nvf) for v in vals], per) + boxer._lines([f'{c:3d}' for c in cons], 26)
    case.input(values=nv, controls=nc)
    rc, text, out, d = run_boxer(case, case.shared['san'], lines, f'3,{mat},{mt},{mat},102\n0,0\n')
    case.event('sanitized_runs')
    case.check(rc == 0, 'a page as long as allowed was refused', rc=rc, err=text[-500:])
    _compare_block(case, boxer.parse_output(out)[0], 3, mat, mt, mat, 102, ' full page', m)
    case.event('full_page')
    case.sig('limits', tuple(lines))


def gold(case):
    """The real NJOY file in the repository, all reactions and temperatures."""
    base = os.path.join(REPO, 'test_data', 'gold_njoy_boxer_chain_test_out')
    for t in ('300', '2400'):
        src = os.path.join(base, f'covr_{t}.txt')
        for mt in (2, 102):
            ref = os.path.join(base, f'covr_{t}.txt_{mt}_matrix.txt')
            req = ''.join(f'{k},125,{mt},125,{mt}\n' for k in range(4)) + '0,0\n'
            rc, text, out, d = run_boxer(case, case.shared['san'], open(src).read().split('\n'), req)
            case.check(rc == 0 and 'ERROR' not in out, 'boxer2mat fails on a file of NJOY', rc=rc, err=text[-500:])
            a, b = boxer.parse_output(out), boxer.parse_output(open(ref).read())
            case.check([x[0] for x in a] == [x[0] for x in b], 'other data sets than in the reference')
            for x, y in zip(a, b):
                va, vb = np.array(sum(x[1], [])), np.array(sum(y[1], []))
                case.check(va.shape == vb.shape, 'other number of values than in the reference', got=va.shape, want=vb.shape)
                case.close_to(va, vb, 'values differ from the reference result', rtol=1.1e-3)
            case.event('gold')
            case.event('sanitized_runs')


WORKLOADS = [Workload('reconstruct', reconstruct, 120, 2500), Workload('large', large, 8, 80), Workload('toc', toc, 16, 200),
             Workload('faults', faults, 90, 1500), Workload('limits', limits, 4, 20), Workload('gold', gold, 1, 1)]
