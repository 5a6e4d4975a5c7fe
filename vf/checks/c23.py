"""C23: from an evaluation to a covariance store on the command line."""
import json
import os
import runpy
import sys
import tempfile

import numpy as np

from ..core import Workload, quiet, child_env, run_cmd, REPO
from .. import boxer, chain, endfgen
from .c11 import expected, COLS
from .c13 import verify

ID = 'C23'
RULE = ('the command with generated evaluations (fissionable or not, 1-4 reactions with covariances among other sections, sections of other files with the same numbers), all group '
        'structures and weights, temperatures, output folders and store names, one or two nuclides into one store, selections of reactions; reactions whose matrix cannot be made, '
        'requests that cannot be met and failures of the programs; a stand-in for NJOY with known data and the real boxer2mat; non-trivial = all; distinct by options and evaluation')
EXPECT = {'runs': 30, 'entries': 60, 'nu': 10, 'chi': 10, 'not_fissionable': 8, 'all_mts': 8, 'some_mts': 8, 'second_nuclide': 3, 'skipped_mt': 3, 'refused': 8, 'default_store': 8, 'given_store': 8,
          'given_path': 8, 'SCALE_3': 4, 'SCALE_44': 4, 'SCALE_56': 4}
GROUPS = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'data', 'groups.json')))
SYM = ('n H He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co Ni Cu Zn Ga Ge As Se Br Kr Rb Sr Y Zr Nb Mo Tc Ru Rh Pd Ag Cd In Sn Sb Te I Xe Cs Ba La Ce Pr Nd Pm '
       'Sm Eu Gd Tb Dy Ho Er Tm Yb Lu Hf Ta W Re Os Ir Pt Au Hg Tl Pb Bi Po At Rn Fr Ra Ac Th Pa U Np Pu Am Cm').split()


def prepare(scratch):
    return {'boxer': boxer.build(REPO, scratch, False)}


def command(case, args, work, process):
    if process:
        rc, o, e = run_cmd([sys.executable, '-m', 'ASAPy.EndfToCov'] + args, work, child_env(case.dir), timeout=200)
        return rc, o + e
    old, cwd = sys.argv, os.getcwd()
    sys.argv = ['EndfToCov'] + args
    os.chdir(work)
    err = None
    sys.modules.pop('ASAPy.EndfToCov', None)
    with quiet() as buf:
        try:
            runpy.run_module('ASAPy.EndfToCov', run_name='__main__', alter_sys=True)
            rc = 0
        except SystemExit as e:
            rc = 0 if e.code in (None, 0) else 1
        except Exception as e:
            err, rc = e, 1
        finally:
            sys.argv = old
            os.chdir(cwd)
    return rc, buf.getvalue() + (repr(err) if err else '')


def evaluation(rng, path, z, a, mat):
    mts = sorted(int(v) for v in rng.choice([1, 2, 4, 16, 18, 51, 52, 102, 103, 107, 851], int(rng.integers(1, 5)), replace=False))
    fiss = bool(rng.random() < 0.6)
    other = [(3, m) for m in (1, 2, 17, 105)] + [(34, 2), (32, 151)] + ([(31, 452), (35, 18)] if fiss else []) + ([(40, 22)] if rng.random() < 0.5 else [])
    m = endfgen.simple(rng, z=z, a=a, mat=mat, cov_mts=mts, fissionable=int(fiss), other=other, liso=int(rng.random() < 0.2))
    with open(path, 'w') as f:
        f.write(endfgen.tape([m]))
    return m, mts, fiss


def read_matrix(path):
    blocks = boxer.parse_output(open(path).read())
    flat = [np.array(sum(b[1], [])) for b in blocks]
    n = len(flat[1])
    return flat[0], flat[1], flat[2], flat[3].reshape(n, n)


def cli(case):
    import pandas as pd
    rng = case.rng
    tempfile.tempdir = case.dir
    g = str(rng.choice(['3', '3', '44', '44', '56', '56', '238', '252']))
    if case.index % 4 == 0:
        g = ['3', '44', '56'][case.index // 4 % 3]
    work, given = case.path('work'), case.path('given')
    os.makedirs(work)
    os.makedirs(given)
    store_name = str(rng.choice(['mystore_', 'st', 'all'])) if rng.random() < 0.5 else None
    use_path = bool(rng.random() < 0.5)
    out = given if use_path else work
    model = {}
    nuclides = [(92, 235, 9228), (1, 1, 125), (26, 56, 2631), (94, 239, 9437), (8, 16, 825), (95, 242, 9546), (72, 0, 7200), (4, 9, 425)]
    picks = [nuclides[i] for i in rng.choice(len(nuclides), 2 if (store_name or rng.random() < 0.2) and rng.random() < 0.6 else 1, replace=False)]
    for k, (z, a, mat) in enumerate(picks):
        p = case.path(f'in{k}.endf')
        m, mts, fiss = evaluation(rng, p, z, a, mat)
        source = open(p).read()
        asked = [int(v) for v in rng.choice(mts, int(rng.integers(1, len(mts) + 1)), replace=False)] if rng.random() < 0.5 else None
        use = asked or mts
        lost = [int(rng.choice(use))] if rng.random() < 0.2 and len(mts) > 1 else []
        temp = int(rng.choice([293, 300, 600, 1200]))
        iwt = int(rng.choice([2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12]))
        seed = int(rng.integers(0, 10 ** 9))
        stub = chain.make_stub(case.path(f'njoy_stub{k}'), {'seed': seed, 'cov': {'33': [v for v in mts if v not in lost], '31': [452], '35': [18]}})
        args = [p if rng.random() < 0.6 else os.path.relpath(p, work)]
        if g != '252' or rng.random() < 0.5:
            args += ['-energy_bin_structure', f'SCALE_{g}']
        if use_path:
            args += ['-output_path', given if rng.random() < 0.5 else os.path.relpath(given, work)]
        if store_name:
            args += ['-output_store', store_name]
        if asked:
            args += ['-mts'] + [str(v) for v in asked]
        if temp != 300 or rng.random() < 0.5:
            args += ['-temperature', str(temp)]
        if iwt != 6 or rng.random() < 0.5:
            args += ['-njoy_spectrum_weighting', str(iwt)]
        args += ['-njoy_exec', stub, '-boxer_exec', case.shared['boxer']]
        case.input(args=args, mts=mts, fissionable=fiss, lost=lost, groups=g, za=m.za)
        rc, text = command(case, args, work, case.index % 16 == 3 and k == 0)
        err = stub + '.json.error'
        case.check(not os.path.exists(err), 'NJOY cannot work with the deck', error=open(err).read() if os.path.exists(err) else '')
        case.check(rc == 0, 'the command failed', output=text[-1500:])
        tapes = [json.loads(l) for l in open(stub + '.json.tapes')]
        case.check(len(tapes) == 1, 'NJOY must run once', runs=len(tapes))
        case.check(all(t[1] == mat and float(t[3]) == temp and t[4] == iwt and t[5] == int(g) for t in tapes[0]), 'NJOY was not asked for the material, temperature, weight and groups given', tapes=tapes[0],
                   want=[mat, temp, iwt, int(g)])
        case.check(open(p).read() == source, 'the evaluation was changed')
        zaid = z * 1000 + a
        entries = [(mt, f'covr_{temp}.txt_{mt}_matrix.txt', 33, mt) for mt in use if mt not in lost]
        if fiss:
            entries += [(452, f'covr_nu_{temp}.txt_452_matrix.txt', 31, 452), (1018, f'covr_chi_{temp}.txt_1018_matrix.txt', 35, 18)]
        name = (store_name if store_name else f'{SYM[z]}{a}_') + f'{g}g.h5'
        for mt, f, mf, real in entries:
            path = os.path.join(out, f)
            case.check(os.path.exists(path), 'a matrix file is missing', file=f, got=sorted(os.listdir(out)))
            verify(case, path, seed, mf, temp, real, GROUPS[g])
            model.setdefault(name, {})[zaid, mt] = expected(*read_matrix(path))[:2]
        for mt in lost:
            case.check(str(mt) in text, 'a reaction that was left out must be named', mt=mt)
            case.event('skipped_mt')
        stores = {f for f in os.listdir(out) if f.endswith('.h5')}
        case.check(stores == set(model), 'not the stores asked for', got=sorted(stores), want=sorted(model))
        if use_path:
            case.check(set(os.listdir(work)) <= {'njoy_in.txt'}, 'files were left outside the output folder', got=os.listdir(work))
        for sname, entry in model.items():
            with pd.HDFStore(os.path.join(out, sname), 'r') as h:
                want = {f'/{zz}/{mm}/{zz}/{mm}/{w}' for zz, mm in entry for w in ('corr', 'std_dev')}
                case.check(set(h.keys()) == want, 'the store does not have exactly the reactions asked for', got=sorted(h.keys()), want=sorted(want))
                for (zz, mm), (corr, table) in entry.items():
                    case.close_to(np.asarray(h[f'/{zz}/{mm}/{zz}/{mm}/corr'].values, float), corr, 'stored correlation', rtol=1e-9, atol=1e-300, key=[zz, mm])
                    s = h[f'/{zz}/{mm}/{zz}/{mm}/std_dev']
                    for i, col in enumerate(COLS):
                        case.close_to(np.asarray(s[col].values, float), table[:, i], f'stored column {col!r}', rtol=1e-12, key=[zz, mm])
                    case.event('entries')
        case.event('runs')
        case.event('nu', int(fiss))
        case.event('chi', int(fiss))
        case.event('not_fissionable', int(not fiss))
        case.event('all_mts' if asked is None else 'some_mts')
        case.event('second_nuclide', int(k > 0))
        case.event('given_path', int(use_path))
        case.event('given_store' if store_name else 'default_store')
        case.event(f'SCALE_{g}')
        case.sample(args=args[1:], entries=[e[0] for e in entries])
        case.sig(tuple(args[1:-4]), tuple(mts), fiss, z, a)


def refuse(case):
    """Requests that cannot be met and programs that fail leave no store."""
    rng = case.rng
    tempfile.tempdir = case.dir
    kind = ['absent_mt', 'no_cov', 'njoy_exit', 'boxer_exit', 'bad_structure', 'njoy_missing'][case.index % 6]
    work = case.path('work')
    os.makedirs(work)
    p = case.path('in.endf')
    m, mts, fiss = evaluation(rng, p, 92, 235, 9228)
    if kind == 'no_cov':
        m = endfgen.simple(rng, z=92, a=235, mat=9228, cov_mts=(), fissionable=1, other=[(3, 1), (3, 2), (31, 452), (34, 2)])
        with open(p, 'w') as f:
            f.write(endfgen.tape([m]))
    cfg = {'seed': 1, 'cov': {'33': mts, '31': [452], '35': [18]}}
    if kind == 'njoy_exit':
        cfg.update(mode=str(rng.choice(['exit', 'late_exit', 'signal'])), code=9)
    stub = chain.make_stub(case.path('njoy_stub'), cfg)
    bx = case.shared['boxer']
    if kind == 'boxer_exit':
        bx = case.path('bad_boxer')
        with open(bx, 'w') as h:
            h.write('#!/bin/bash\n%s\nexit 3\n' % case.shared['boxer'])
        os.chmod(bx, 0o755)
    args = [p, '-energy_bin_structure', 'SCALE_3' if kind != 'bad_structure' else 'SCALE_5', '-njoy_exec', stub if kind != 'njoy_missing' else case.path('nope'), '-boxer_exec', bx]
    if kind == 'absent_mt':
        args += ['-mts'] + [str(v) for v in mts + [int(rng.choice([17, 105, 452]))]]
    case.input(kind=kind, args=args, mts=mts)
    stderr = sys.stderr
    with open(os.devnull, 'w') as n:
        sys.stderr = n
        try:
            rc, text = command(case, args, work, False)
        finally:
            sys.stderr = stderr
    case.check(rc != 0, f'the command must fail ({kind})', output=text[-600:])
    case.check(not [f for f in os.listdir(work) if f.endswith('.h5')], f'a store was made ({kind})', files=os.listdir(work))
    if kind in ('absent_mt', 'no_cov', 'bad_structure'):
        case.check(not os.path.exists(stub + '.json.decks'), 'NJOY was run although the request cannot be met')
    case.event('refused')
    case.sig(kind, tuple(mts), case.index)


WORKLOADS = [Workload('cli', cli, 40, 500, timeout=400, chunk=1), Workload('refuse', refuse, 18, 120)]
