"""C12: NJOY input decks: every module reads what it needs, every requested output is made from the right data."""
import os

import numpy as np

from ..core import Workload, quiet
from .. import chain, endfgen, gen, njoydeck

ID = 'C12'
RULE = ('decks for random combinations of modules, 1-5 temperatures, group structures (standard and random), weights incl. a user flux, reactions to plot, nu and chi, '
        'for random materials; each deck is read card by card by an abstract NJOY that follows the contents of every tape, and the saved tapes must hold what their '
        'names say; decks are also run through a stand-in program; non-trivial = more than reconr alone; distinct by option combination')
EXPECT = {'group_structures': 3, 'decks': 150, 'covariance_tapes': 100, 'nu_chi': 30, 'ace_tapes': 50, 'user_flux': 15, 'ran': 20, 'multi_temperature': 60, 'refused_input': 10, 'metastable': 3,
          'thermal': 50}
ASSUMPTIONS = ['the card layout of NJOY 2016, as in the deck stored with the tests of the repository']


def _material(case, rng, **kw):
    m = endfgen.simple(rng, mat=int(rng.choice([125, 9228, 1325, 25])), fissionable=int(rng.random() < 0.5), **kw)
    p = case.path('tape_in.endf')
    with open(p, 'w') as f:
        f.write(endfgen.tape([m]))
    return m, p


def _bounds(rng):
    from ASAPy import njoy
    m = rng.integers(0, 3)
    if m == 0:
        return [float(e) for e in [njoy.energy_groups_3, njoy.energy_groups_44, njoy.energy_groups_56, njoy.energy_groups_238, njoy.energy_groups_252][int(rng.integers(0, 5))]]
    return [float(e) for e in gen.group_bounds(rng, int(rng.integers(1, 30)))[::-1]]


def _temps(rng):
    k = int(rng.choice([1, 1, 2, 3, 5]))
    return [t if rng.random() < 0.5 else float(t) + 0.6 for t in [int(v) for v in rng.choice([293, 300, 600, 900, 1200, 2400], k, replace=False)]]


def same_t(a, b):
    return abs(float(a) - float(b)) < 1e-6


def check_deck(case, commands, tapein, tapeout, m, p, o):
    """Follow the deck, then compare every saved tape with what its file name promises."""
    case.check(list(tapein) == [20] and tapein[20] == p, 'the evaluation is not on tape 20', got=dict(tapein))
    try:
        nj = njoydeck.Njoy(commands, {20: njoydeck.Tape('endf', mat=m.mat)}).run()
    except njoydeck.DeckError as e:
        case.check(False, f'the deck is not consistent: {e}')
    mods = [e['module'] for e in nj.log]
    case.check(mods.count('reconr') == 1 and mods[0] == 'reconr', 'reconr must run once, first', got=mods)
    for name in ('broadr', 'heatr', 'purr'):
        case.check(mods.count(name) == int(o[name]), f'{name} must run exactly if asked for', got=mods)
    for e in nj.log:
        if e['module'] in ('reconr', 'broadr'):
            case.check(abs(e['err'] - o['error']) < 1e-12, 'another tolerance than asked for', got=e['err'], want=o['error'])
        if e['module'] == 'heatr':
            case.check(len(set(e['mts'])) == len(e['mts']), 'heatr quantities repeat')
    want = {}
    T = o['temps']
    if o['pendf']:
        want[o['pendf']] = ('pendf', None)
    if o['errorr']:
        for t in T:
            want[f'covr_{t}.txt'] = ('boxer', 33, t)
            if o['mts']:
                want[f'viewr_{t}.eps'] = ('ps', 33, t)
        if o['nu']:
            want[f'covr_nu_{T[-1]}.txt'] = ('boxer', 31, T[-1])
            want[f'viewr_nu_{T[-1]}.eps'] = ('ps', 31, T[-1])
        if o['chi']:
            want[f'covr_chi_{T[-1]}.txt'] = ('boxer', 35, T[-1])
            want[f'viewr_chi_{T[-1]}.eps'] = ('ps', 35, T[-1])
    if o['acer']:
        for t in T:
            want[f'{o["ace"]}_{t:.1f}'] = ('ace', t)
            want[f'{o["xsdir"]}_{t:.1f}'] = ('xsdir', t)
    got = {str(v): k for k, v in tapeout.items()}
    case.check(set(got) == set(want) and len(tapeout) == len(want), 'other files are saved than asked for', got=sorted(got), want=sorted(want))
    for name, w in want.items():
        n = got[name]
        case.check(n in nj.t, f'{name} is saved from tape {n}, on which nothing is written', tapes={k: repr(v) for k, v in nj.t.items()})
        t = nj.t[n]
        case.check(t.kind == w[0], f'{name} is saved from the wrong tape', tape=n, holds=repr(t))
        case.check(t.mat == m.mat, f'{name} is of another material', holds=repr(t))
        if w[0] == 'pendf':
            case.check(not t.parts and t.temps == [0.0], f'{name} must hold the point-wise data as reconstructed', holds=repr(t))
        if w[0] in ('boxer', 'ps'):
            case.check(t.mf == w[1] and same_t(t.temp, w[2]), f'{name} holds other covariances than its name says', holds=repr(t), want=w)
        if w[0] == 'boxer':
            case.check(t.matype == 3, f'{name} must hold covariances', holds=repr(t))
            case.check(np.array_equal(t.bounds, [float(e) for e in o['bounds']]), f'{name}: other energy groups than asked for', got=t.bounds[:4], want=o['bounds'][:4], ngot=len(t.bounds), nwant=len(o['bounds']))
            case.check(t.iwt == o['iwt'], f'{name}: another weight than asked for', got=t.iwt, want=o['iwt'])
            case.event('covariance_tapes')
        if w[0] == 'ps' and w[1] == 33:
            case.check(sorted(c[1] for c in t.cases) == sorted(o['mts']) and all(len(c) == 4 and c[1] == c[3] for c in t.cases), f'{name} does not plot the reactions asked for', got=t.cases, want=o['mts'])
        if w[0] == 'ace':
            case.check(same_t(t.temp, w[1]), f'{name} is at another temperature', holds=repr(t))
            need = [x for x in ('broadr', 'heatr', 'purr') if o[x]]
            case.check([x for x in t.parts if x in ('broadr', 'heatr', 'purr')] == need, f'{name} is not made from the data with everything asked for', has=t.parts, need=need)
            case.event('ace_tapes')
        if w[0] == 'xsdir':
            case.check(same_t(t.temp, w[1]), f'{name} is at another temperature', holds=repr(t))
    sufs = [t.suffix for t in nj.t.values() if t.kind == 'ace']
    case.check(len(set(sufs)) == len(sufs), 'two temperatures have the same table name', got=sufs)
    for t in nj.t.values():
        if t.kind == 'cov' and o['iwt'] == 1:
            case.check(t.flux is not None and np.allclose(t.flux[1], o['flux'], rtol=1e-12), 'another flux than given', got=t.flux)
        if t.kind == 'gendf':
            case.check('broadr' in t.parts or not o['broadr'], 'group data are not made from broadened cross-sections', tape=repr(t))
    # every covariance module sits on broadened data of its own temperature; the abstract NJOY checked the temperatures
    return nj


def _options(case, rng, p):
    broadr = bool(rng.random() < 0.85)
    o = dict(broadr=broadr, heatr=broadr and bool(rng.random() < 0.5), purr=broadr and bool(rng.random() < 0.5), acer=broadr and bool(rng.random() < 0.6),
             errorr=broadr and bool(rng.random() < 0.7), pendf=None if rng.random() < 0.6 else 'my_pendf', error=float(rng.choice([0.001, 0.01, 0.0005])))
    o['temps'] = _temps(rng)
    o['bounds'] = _bounds(rng) if o['errorr'] else None
    o['mts'] = sorted(int(v) for v in rng.choice([2, 4, 16, 18, 102, 51, 452], int(rng.integers(0, 5)), replace=False)) if o['errorr'] else []
    o['nu'] = o['errorr'] and bool(rng.random() < 0.4)
    o['chi'] = o['errorr'] and bool(rng.random() < 0.4)
    o['iwt'] = int(rng.choice([1, 2, 3, 6, 9, 9, 12]))
    o['flux'] = [float(v) for pair in zip(np.geomspace(1e-5, 2e7, int(rng.integers(2, 12))), rng.uniform(0, 5, 12)) for v in pair] if o['iwt'] == 1 else None
    o['ace'], o['xsdir'] = str(rng.choice(['ace', 'u235'])), str(rng.choice(['xsdir', 'dir']))
    return o


def _call(o, p, **kw):
    from ASAPy import njoy
    args = dict(temperatures=o['temps'], ace=o['ace'], xsdir=o['xsdir'], pendf=o['pendf'], error=o['error'], broadr=o['broadr'], heatr=o['heatr'], purr=o['purr'],
                acer=o['acer'], errorr=o['errorr'], cov_energy_groups=o['bounds'], covr_plot_mts=o['mts'], chi=o['chi'], nu=o['nu'], iwt_fluxweight=o['iwt'],
                user_flux_weight_vals=o['flux'])
    args.update(kw)
    return njoy.make_njoy_run(p, **args)


def deck(case):
    rng = case.rng
    m, p = _material(case, rng)
    o = _options(case, rng, p)
    case.input(options=o, mat=m.mat)
    os.chdir(case.dir)
    t0, b0 = list(o['temps']), list(o['bounds'] or [])
    with quiet():
        commands, tapein, tapeout = _call(o, p)
    case.check(open('njoy_in.txt').read() == commands, 'the deck written is not the deck returned')
    case.check(t0 == o['temps'] and b0 == (o['bounds'] or []), 'the arguments were changed')
    check_deck(case, commands, tapein, tapeout, m, p, o)
    case.event('decks')
    case.event('user_flux', int(bool(o['errorr'] and o['iwt'] == 1)))
    case.event('nu_chi', int(o['nu'] or o['chi']))
    case.event('multi_temperature', int(len(o['temps']) > 1))
    if o['errorr']:
        case.raises(lambda: _call(o, p, cov_energy_groups=None), 'covariances without energy groups must be refused')
        case.event('refused_input')
        if o['iwt'] == 1:
            case.raises(lambda: _call(o, p, user_flux_weight_vals=None), 'a user flux that is not given must be refused')
    case.sig(repr({k: v for k, v in o.items() if k not in ('flux',)}))
    case.sample(modules=[k for k in ('broadr', 'heatr', 'purr', 'acer', 'errorr', 'nu', 'chi') if o[k]], temps=o['temps'])


def run(case):
    """The same decks through a program that reads them; and the variants that make libraries."""
    from ASAPy import njoy
    from ASAPy.data import njoy as dnjoy
    rng = case.rng
    meta = bool(rng.random() < 0.4)
    z, a = [(95, 242), (47, 110), (3, 6), (72, 178), (100, 254)][int(rng.integers(0, 5))]
    m, p = _material(case, rng, z=z, a=a, liso=int(meta))
    temps = _temps(rng)
    stub = chain.make_stub(case.path('njoy_stub'), {'seed': 1, 'cov': {'33': [2], '31': [452], '35': [18]}, 'za': m.za})
    os.chdir(case.dir)
    os.mkdir('work')
    os.chdir('work')
    case.input(temps=temps, za=m.za, meta=meta)
    which = ['asapy', 'openmc', 'pendf', 'fail'][case.index % 4]
    kw = dict(temperatures=temps, njoy_exec=stub)
    with quiet():
        if which == 'asapy':
            o = dict(broadr=True, heatr=bool(rng.random() < 0.5), purr=bool(rng.random() < 0.5))
            njoy.make_njoy_run(p, acer=True, errorr=False, run=True, **o, **kw)
        elif which == 'openmc':
            o = dict(broadr=True, heatr=bool(rng.random() < 0.5), purr=bool(rng.random() < 0.5))
            dnjoy.make_ace(p, **o, **kw)
        elif which == 'pendf':
            dnjoy.make_ace(p, temperatures=temps, pendf='my_pendf', broadr=True, heatr=False, purr=False, acer=False, njoy_exec=stub)
        else:
            bad = chain.make_stub(case.path('bad_stub'), {'mode': 'exit', 'code': int(rng.choice([1, 77]))})
            f = [lambda: dnjoy.make_ace(p, temperatures=temps, njoy_exec=bad), lambda: njoy.make_njoy_run(p, errorr=False, run=True, temperatures=temps, njoy_exec=bad)][int(rng.integers(0, 2))]
            case.raises(f, 'a failing NJOY must be reported')
            case.check(not os.path.exists('ace') or not open('ace').read(), 'a library was made although NJOY failed')
            case.event('ran')
            return
    case.check(not os.path.exists(stub + '.json.error'), 'NJOY cannot work with the deck', error=open(stub + '.json.error').read() if os.path.exists(stub + '.json.error') else '')
    if which == 'pendf':
        case.check(open('my_pendf').read().startswith('pendf('), 'the pointwise file was not saved', files=os.listdir('.'))
    else:
        want = ''
        za = m.za
        for i, t in enumerate(temps):
            w = chain.ace_text(za, f'.{i + 1:02d}', float(t), m.mat)
            if meta and int(w[3]) <= 2:
                w = w[:3] + str(int(w[3]) + 4) + w[4:]
            want += w
        case.check(open('ace').read() == want, 'the library is not the tables of all temperatures, in order' + (' with 400 added to the mass number' if meta else ''), got=open('ace').read(), want=want)
        wx = ''.join(f'xsdir of mat {m.mat} at {float(t)} .{i + 1:02d}\n' for i, t in enumerate(temps))
        case.check(open('xsdir').read() == wx, 'the directory is not the one of all temperatures, in order', got=open('xsdir').read(), want=wx)
        left = sorted(f for f in os.listdir('.') if f not in ('ace', 'xsdir', 'njoy_in.txt'))
        case.check(not left, 'files per temperature are left over', left=left)
        if meta:
            case.event('metastable')
    case.event('ran')
    case.sig(which, temps, z, meta, case.index)


# material: table, nuclides (at most three fit on the card), kinds of atoms, name
THERMAL = {1: ('hh2o', [1001], 1, 'c_H_in_H2O'), 2: ('parah', [1001], 1, 'c_para_H'), 3: ('orthoh', [1001], 1, 'c_ortho_H'), 5: ('hyh2', [1001], 1, 'c_H_in_YH2'), 7: ('hzrh', [1001], 1, 'c_H_in_ZrH'),
           8: ('hcah2', [1001], 1, 'c_H_in_CaH2'), 10: ('hice', [1001], 1, 'c_H_in_H2O_solid'), 11: ('dd2o', [1002], 1, 'c_D_in_D2O'), 12: ('parad', [1002], 1, 'c_para_D'), 13: ('orthod', [1002], 1, 'c_ortho_D'),
           26: ('be', [4009], 1, 'c_Be'), 27: ('bebeo', [4009], 1, 'c_Be_in_BeO'), 31: ('graph', [6000, 6012, 6013], 1, 'c_Graphite'), 33: ('lch4', [1001], 1, 'c_H_in_CH4_liquid'), 34: ('sch4', [1001], 1, 'c_H_in_CH4_solid'),
           37: ('hch2', [1001], 1, 'c_H_in_CH2'), 39: ('lucite', [1001], 1, 'c_H_in_C5O2H8'), 40: ('benz', [1001, 6000, 6012], 2, 'c_C6H6'), 41: ('od2o', [8016, 8017, 8018], 1, 'c_O_in_D2O'),
           43: ('sisic', [14028, 14029, 14030], 1, 'c_Si_in_SiC'), 44: ('csic', [6000, 6012, 6013], 1, 'c_C_in_SiC'), 46: ('obeo', [8016, 8017, 8018], 1, 'c_O_in_BeO'), 47: ('sio2-a', [8016, 8017, 8018], 3, 'c_SiO2_alpha'),
           48: ('uuo2', [92238], 1, 'c_U_in_UO2'), 49: ('sio2-b', [8016, 8017, 8018], 3, 'c_SiO2_beta'), 50: ('oice', [8016, 8017, 8018], 1, 'c_O_in_H2O_ice'), 52: ('mg24', [12024], 1, 'c_Mg24'), 53: ('al27', [13027], 1, 'c_Al27'),
           55: ('yyh2', [39089], 1, 'c_Y_in_YH2'), 56: ('fe56', [26056], 1, 'c_Fe56'), 58: ('zrzrh', [40000, 40090, 40091], 1, 'c_Zr_in_ZrH'), 59: ('cacah2', [20040, 20042, 20043], 1, 'c_Ca_in_CaH2'),
           75: ('ouo2', [8016, 8017, 8018], 1, 'c_O_in_UO2')}


def thermal(case):
    """Thermal scattering libraries: the right temperatures, atoms and elastic options reach the cards."""
    from ASAPy import njoy
    from ASAPy.data import njoy as dnjoy
    rng = case.rng
    m, p = _material(case, rng, z=1, a=1)
    matt = sorted(THERMAL)[case.index // 2 % len(THERMAL)]
    th = endfgen.Material(mat=matt, za=100 + matt, awr=0.9992, nsub=12, nver=8, lrel=0)
    th.text = [' H(H2O)    LANL       EVAL-APR93 MACFARLANE'.ljust(66)] + ['' for _ in range(5)]
    natom, emax = int(rng.integers(1, 4)), float(rng.choice([9.15, 4.6, 1.855]))
    temps_file = sorted(float(t) for t in rng.choice([293.6, 350.0, 400.0, 500.0, 800.0], int(rng.integers(1, 4)), replace=False))
    b = [20.478, 389.8, 0.9992, emax, 0.0, float(natom)]
    lines = [endfgen.cont(rng, th.za, th.awr, 0, 0, 0, 0)] + endfgen.list_record(rng, 0, 0, 0, 0, 0, b)
    lines += endfgen.tab2_record(rng, 0, 0, 0, 0, [2], [4], 2)
    lines += endfgen.tab1_record(rng, temps_file[0], 0.0, len(temps_file) - 1, 0, [3], [4], [0.1, 0.2, 0.3], [1.0, 2.0, 3.0])
    for t in temps_file[1:]:
        lines += endfgen.list_record(rng, t, 0.0, 4, 0, 0, [1.0, 2.0, 3.0])
    th.add(7, 4, lines)
    elastic = str(rng.choice(['none', 'coherent', 'incoherent']))
    if elastic != 'none':
        th.add(7, 2, [endfgen.cont(rng, th.za, th.awr, 1 if elastic == 'coherent' else 2, 0, 0, 0)] + endfgen.rows([endfgen.f11(rng, 1.0)]))
    pt = case.path('thermal.endf')
    with open(pt, 'w') as f:
        f.write(endfgen.tape([th]))
    given = None if rng.random() < 0.5 else sorted(float(t) for t in rng.choice([293.6, 350.0, 400.0], 2, replace=False))
    temps = given or temps_file
    stub = chain.make_stub(case.path('njoy_stub'), {'seed': 1, 'cov': {}, 'za': 1001})
    os.chdir(case.dir)
    os.mkdir('work')
    os.chdir('work')
    case.input(matt=matt, natom=natom, emax=emax, temps=temps, elastic=elastic)
    mod = [njoy, dnjoy][case.index % 2]
    with quiet():
        mod.make_ace_thermal(p, pt, temperatures=given, njoy_exec=stub)
    case.check(not os.path.exists(stub + '.json.error'), 'NJOY cannot work with the deck', error=open(stub + '.json.error').read() if os.path.exists(stub + '.json.error') else '')
    import json
    deck = json.loads(open(stub + '.json.decks').read().split('\n')[0])['deck']
    nj = njoydeck.Njoy(deck, {20: njoydeck.Tape('endf', mat=m.mat), 21: njoydeck.Tape('endf', mat=matt)}).run()
    bound = [e for e in nj.log if e['module'] == 'thermr' and e['card'][0] == matt]
    free = [e for e in nj.log if e['module'] == 'thermr' and e['card'][0] == 0]
    case.check(len(bound) == 1 and len(free) == 1, 'free and bound scattering must each be added once', log=nj.log)
    c = bound[0]['card']
    case.check(c[7] == natom and abs(bound[0]['emax'] - emax) < 1e-9, 'number of principal atoms or highest energy are not the ones of the evaluation', card=c, emax=bound[0]['emax'], natom=natom, want=emax)
    case.check((c[5] != 0) == (elastic != 'none'), 'elastic scattering must be processed exactly if the evaluation has it', card=c, elastic=elastic)
    aces = [t for t in nj.t.values() if t.kind == 'ace']
    case.check([t.temp for t in aces] == [float(t) for t in temps], 'not one table per temperature', got=[t.temp for t in aces], want=temps)
    for t in aces:
        mt_el, el_type = int(t.card[2]), int(t.card[3])
        case.check(t.iopt == 2 and (mt_el != 0) == (elastic != 'none') and (elastic == 'none' or el_type == (0 if elastic == 'coherent' else 1)), 'elastic options of the table', card=t.card, elastic=elastic)
        case.check(t.name.strip("'") == THERMAL[matt][0] and list(t.zaids) == THERMAL[matt][1] and int(t.card[4]) == THERMAL[matt][2], 'name, nuclides and kinds of atoms of the table', got=[t.name, t.zaids, t.card], want=THERMAL[matt])
        case.check(any(x[0] == 'thermr' and x[1] == matt for x in t.parts if isinstance(x, tuple)), 'the table is not made from the data with bound scattering', parts=t.parts)
    if mod is dnjoy:
        case.check(open('ace').read() == ''.join(chain.ace_text(1001, f'.{i + 1:02d}', t, m.mat) for i, t in enumerate(temps)), 'the library is not the tables of all temperatures, in order')
    case.event('thermal')
    case.sig('thermal', matt, temps, elastic)


def groups(case):
    """The standard group structures: as many groups as the name says, ascending, and the bounds of the libraries they are named after."""
    import json
    from ASAPy import njoy
    from ..core import VERIF
    ref = json.load(open(os.path.join(VERIF, 'vf', 'data', 'groups.json')))
    g = {}
    for n in (3, 44, 56, 238, 252):
        b = g[n] = [float(e) for e in getattr(njoy, f'energy_groups_{n}')]
        case.check(len(b) == n + 1, f'the structure of {n} groups has another number of bounds', got=len(b))
        case.check(all(x < y for x, y in zip(b, b[1:])), f'the bounds of the {n} groups do not ascend')
        case.close_to(b, ref[str(n)], f'bounds of the {n} groups', rtol=1e-6)
        case.event('group_structures')
    for small, large in ((44, 238), (56, 252)):    # the coarse structures join groups of the fine ones
        for e in g[small]:
            case.check(min(abs(x / e - 1) for x in g[large]) < 1e-3, f'a bound of the {small} groups is none of the {large} groups', bound=e)
    case.sig('groups')


WORKLOADS = [Workload('groups', groups, 1, 1), Workload('deck', deck, 300, 5000), Workload('run', run, 48, 500), Workload('thermal', thermal, 66, 660)]
