"""C13: from an evaluation to matrix files: one file per temperature, kind and reaction with its own data; failures surface."""
import json
import os
import tempfile

import numpy as np

from ..core import Workload, quiet, REPO
from .. import boxer, chain, endfgen, gen

ID = 'C13'
RULE = ('the real chain with a stand-in for NJOY that interprets the deck and writes compressed files of known random data, and the real boxer2mat compiled from the '
        'repository: random reactions, 1-3 temperatures, group structures, nu and chi, temporary or given working folder; and one injected failure at each step of the chain; '
        'non-trivial = more than one matrix file or a failure; distinct by configuration')
EXPECT = {'chains': 20, 'matrix_files': 100, 'missing_reactions': 10, 'nu': 5, 'chi': 5, 'multi_temperature': 8, 'failures': 24, 'in_place': 5}


def prepare(scratch):
    return {'boxer': boxer.build(REPO, scratch, False)}


def _setup(case, rng, nu=False):
    mts = sorted(int(v) for v in rng.choice([2, 4, 16, 18, 51, 102], int(rng.integers(1, 4)), replace=False))
    m = endfgen.simple(rng, mat=int(rng.choice([125, 9228, 1325])), cov_mts=mts, fissionable=1)
    p = case.path('in.endf')
    with open(p, 'w') as f:
        f.write(endfgen.tape([m]))
    n = int(rng.choice([1, 2, 3, 7, 8, 20, 44]))
    bounds = [float(e) for e in gen.group_bounds(rng, n)[::-1]]
    temps = [int(t) for t in rng.choice([300, 600, 900, 2400], int(rng.choice([1, 1, 2, 3])), replace=False)]
    out = case.path('out')
    os.makedirs(out)
    return m, p, mts, bounds, temps, out


def _same(a, b):
    tol = np.array([boxer.printed(v) for v in np.ravel(b)]).reshape(np.shape(b))
    return a.shape == np.shape(b) and bool((np.abs(a - np.asarray(b, float)) <= tol).all())


def verify(case, path, seed, mf, t, mt, bounds):
    """The matrix file holds exactly the data of this reaction, from high to low energy."""
    from ASAPy import EndfToCov as ec
    blocks = boxer.parse_output(open(path).read())
    case.check([b[0]['itype'] for b in blocks] == [0, 1, 2, 3], 'a matrix file must have bounds, cross-sections, deviations and covariances', got=[b[0] for b in blocks], file=os.path.basename(path))
    case.check(all(b[0]['mt'] == mt for b in blocks[1:]), 'the matrix file is of another reaction', got=[b[0] for b in blocks], file=os.path.basename(path))
    xs, rel, cov = chain.truth(seed, mf, t, mt, bounds)
    n = len(xs)
    flat = [np.array(sum(b[1], [])) for b in blocks]
    what = dict(file=os.path.basename(path), mf=mf, temperature=t, mt=mt)
    qb = boxer.quantise(np.array(bounds), 10)
    case.check(_same(flat[0], qb[::-1]), 'group bounds in the matrix file', **what)
    case.check(_same(flat[1], xs[::-1]), 'cross-sections in the matrix file are not the ones of this temperature and reaction', got=flat[1][:4], want=xs[::-1][:4], **what)
    case.check(_same(flat[2], rel[::-1]), 'deviations in the matrix file are not the ones of this temperature and reaction', **what)
    case.check(flat[3].size == n * n and _same(flat[3].reshape(n, n), cov[::-1, ::-1]), 'covariances in the matrix file are not the ones of this temperature and reaction', **what)
    with quiet():
        gb, gx, gs, gc = ec.read_boxer_out_matrix(path).get_block_data()
    case.check(_same(gx, xs[::-1]) and _same(gc, cov[::-1, ::-1]) and _same(gb, qb[::-1]), 'the matrix file reads back differently', **what)
    case.event('matrix_files')


def run_chain(case):
    from ASAPy import EndfToCov as ec
    rng = case.rng
    m, p, mts, bounds, temps, out = _setup(case, rng)
    nu, chi = bool(rng.random() < 0.4), bool(rng.random() < 0.4)
    asked = list(mts)
    if rng.random() < 0.4:
        asked.append(103)                      # a reaction the evaluation has no covariance for
    if rng.random() < 0.3:
        asked.append(18) if 18 not in asked else None
    seed = int(rng.integers(0, 10 ** 9))
    stub = chain.make_stub(case.path('njoy_stub'), {'seed': seed, 'cov': {'33': mts, '31': [452], '35': [18]}, 'mode': 'noise' if rng.random() < 0.3 else 'ok'})
    temp_folder = bool(rng.random() < 0.6)
    given = list(asked)
    source = open(p).read()
    tmp = case.path('tmp')
    os.makedirs(tmp)
    tempfile.tempdir = tmp
    case.input(mts=mts, asked=asked, temps=temps, groups=len(bounds) - 1, nu=nu, chi=chi, temp_folder=temp_folder)
    os.chdir(case.dir)
    a = asked if len(asked) > 1 or rng.random() < 0.5 else asked[0]
    t = temps if len(temps) > 1 or rng.random() < 0.5 else temps[0]
    with quiet():
        ec.run_cover_chain(p, a, t, output_dir=out, cov_energy_groups=bounds, iwt_fluxweight=int(rng.choice([3, 6, 9])), nu=nu, chi=chi, use_temp_folder=temp_folder,
                           njoy_exec=stub, boxer_exec=case.shared['boxer'])
    case.check(asked == given, 'the list of reactions given was changed', got=asked, want=given)
    err = stub + '.json.error'
    case.check(not os.path.exists(err), 'NJOY cannot work with the deck', error=open(err).read() if os.path.exists(err) else '')
    decks = [json.loads(l) for l in open(stub + '.json.decks')]
    case.check(len(decks) == 1, 'NJOY must run once', runs=len(decks))
    case.check(os.path.exists(os.path.join(out, 'njoy_output.txt')), 'the output of NJOY was not saved')
    eff = list(asked) + ([18] if chi and 18 not in asked else [])
    eff_files = eff + ([452] if nu else []) + ([1018] if chi else [])
    tapes = [(f'covr_{x}.txt', 33, x, mts) for x in temps]
    if nu:
        tapes.append((f'covr_nu_{temps[-1]}.txt', 31, temps[-1], [452]))
    if chi:
        tapes.append((f'covr_chi_{temps[-1]}.txt', 35, temps[-1], [18]))
    want_files = set()
    for name, mf, x, have in tapes:
        for mt in eff_files:
            f = f'{name}_{mt}_matrix.txt'
            want_files.add(f)
            path = os.path.join(out, f)
            case.check(os.path.exists(path), 'a matrix file is missing', file=f, got=sorted(os.listdir(out)))
            real = 18 if mt == 1018 else mt
            if real in have:
                verify(case, path, seed, mf, x, real, bounds)
            else:
                case.raises(lambda: ec.read_boxer_out_matrix(path).get_block_data(), f'{f}: a reaction without data must not give a matrix')
                case.event('missing_reactions')
        saved = open(os.path.join(out, name)).read().split('\n')
        case.check([l.rstrip() for l in saved if l] == [l.rstrip() for l in chain.boxer_lines(seed, mf, float(x), have, bounds, m.mat)], 'the compressed file saved is not the one NJOY made', file=name)
    extra = {f for f in os.listdir(out) if f.endswith('_matrix.txt')} - want_files
    case.check(not extra, 'there are matrix files nobody asked for', extra=sorted(extra))
    if temp_folder:
        case.check(not [f for f in os.listdir(out) if f.startswith(('tape', 'fort.'))], 'intermediate files are left in the output folder', got=sorted(os.listdir(out)))
    else:
        case.event('in_place')
    case.check(open(p).read() == source, 'the evaluation was changed')
    case.check(not os.listdir(tmp), 'working files are left in the temporary folder', got=os.listdir(tmp))
    case.event('chains')
    case.event('nu', int(nu))
    case.event('chi', int(chi))
    case.event('multi_temperature', int(len(temps) > 1))
    case.sig(tuple(asked), tuple(temps), nu, chi, temp_folder, len(bounds))
    case.sample(asked=asked, temps=temps, nu=nu, chi=chi, files=len(want_files))


FAULTS = ['njoy_exit', 'njoy_missing', 'tape_missing', 'boxer_exit', 'boxer_missing', 'oversize', 'no_groups', 'no_endf', 'njoy_signal', 'njoy_late_exit', 'boxer_signal', 'boxer_late_exit']


def faults(case):
    """One failure in one step: it must be reported, and no matrix file may be there for data that were not made."""
    from ASAPy import EndfToCov as ec
    rng = case.rng
    f = FAULTS[case.index % len(FAULTS)]
    m, p, mts, bounds, temps, out = _setup(case, rng)
    seed = int(rng.integers(0, 10 ** 9))
    cfg = {'seed': seed, 'cov': {'33': mts, '31': [452], '35': [18]}}
    bx = case.shared['boxer']
    first_bad = temps[0]
    if f == 'njoy_exit':
        cfg.update(mode='exit', code=int(rng.choice([1, 2, 77, 255])))
    elif f == 'tape_missing':
        first_bad = temps[int(rng.integers(0, len(temps)))]
        cfg['skip'] = [33, float(first_bad)]
    elif f == 'oversize':
        cfg['mode'] = 'oversize'
    elif f in ('njoy_signal', 'njoy_late_exit'):
        # everything is written, then the program dies
        cfg.update(mode=f[5:], code=int(rng.choice([6, 9, 11, 15] if f == 'njoy_signal' else [1, 2, 77, 255])))
    stub = chain.make_stub(case.path('njoy_stub'), cfg)
    kw = dict(njoy_exec=stub, boxer_exec=bx, cov_energy_groups=bounds)
    if f == 'njoy_missing':
        kw['njoy_exec'] = case.path('no_such_njoy')
    if f == 'boxer_missing':
        kw['boxer_exec'] = case.path('no_such_boxer')
    if f == 'boxer_exit':
        b = case.path('bad_boxer')
        with open(b, 'w') as h:
            h.write('#!/bin/sh\nhead -c 20 >/dev/null\necho partial > fort.21\nexit %d\n' % int(rng.choice([1, 3, 12])))
        os.chmod(b, 0o755)
        kw['boxer_exec'] = b
    if f in ('boxer_signal', 'boxer_late_exit'):
        b = case.path('bad_boxer')
        with open(b, 'w') as h:
            h.write('#!/bin/bash\n%s\n%s\n' % (bx, 'kill -%d $$' % int(rng.choice([6, 9, 11])) if f == 'boxer_signal' else 'exit %d' % int(rng.choice([1, 3, 200]))))
        os.chmod(b, 0o755)
        kw['boxer_exec'] = b
    if f == 'no_groups':
        kw['cov_energy_groups'] = None
    if f == 'no_endf':
        os.unlink(p)
    temp_folder = bool(rng.random() < 0.5)
    tmp = case.path('tmp')
    os.makedirs(tmp)
    tempfile.tempdir = tmp
    case.input(fault=f, mts=mts, temps=temps, temp_folder=temp_folder)
    os.chdir(case.dir)
    case.raises(lambda: ec.run_cover_chain(p, mts, temps, output_dir=out, use_temp_folder=temp_folder, **kw), f'a failure ({f}) must be reported')
    case.check(not os.listdir(tmp), 'working files are left in the temporary folder after a failure', got=os.listdir(tmp), fault=f)
    done = [x for x in os.listdir(out) if x.endswith('_matrix.txt')]
    ok = temps[:temps.index(first_bad)] if f == 'tape_missing' else []
    for x in done:
        t = int(x[len('covr_'):].split('.')[0])
        case.check(t in ok, 'a matrix file was made although its data could not be', fault=f, file=x)
        verify(case, os.path.join(out, x), seed, 33, t, int(x.split('_')[-2]), bounds)
    case.event('failures')
    case.event('fault:' + f)
    case.sig(f, tuple(mts), tuple(temps), temp_folder)


WORKLOADS = [Workload('chain', run_chain, 40, 500), Workload('faults', faults, 48, 480)]
