"""C35: data made by running NJOY are those of the tables it writes."""
import contextlib
import copy
import glob
import io
import json
import os
import pathlib
import tempfile

import numpy as np

from ..core import Workload, quiet
from .. import acegen, chain, endfgen as eg, endfn, njoydeck
from .c15 import compare, MEV, NAMES
from .c28 import energy_release
from . import c31
from .c12 import THERMAL

ID = 'C35'
RULE = ('neutron and thermal scattering data made through a stand-in NJOY that reads the deck card by card and hands out prepared tables: 1-4 temperatures (also 0 K, also none given), ground and '
        'metastable states, with and without fission energy release, options for heating, probability tables and tolerance; a program that fails or is killed; everything against the tables handed out and '
        'the pointwise file; the current folder must stay as it was and no temporary files be left; non-trivial = at least one table; distinct by the text of the tables')
EXPECT = {'program': 60, 'program_failed': 15, 'tape_out': 30, 'said': 40, 'neutron': 30, 'several_temperatures': 12, 'zero_kelvin_given': 2, 'zero_kelvin_added': 20, 'metastable': 2, 'energy_release': 3, 'default_temperature': 2, 'thermal': 33, 'thermal_several': 8, 'thermal_all': 3,
          'failed': 6, 'options': 10, 'relative': 8, 'unsorted': 3}
ASSUMPTIONS = ['the card layout of NJOY 2016, as in C12; NJOY itself is replaced by a program that hands out prepared tables']
KB = 8.6173303e-5
SYM = {95: 'Am', 47: 'Ag', 72: 'Hf', 61: 'Pm', 27: 'Co'}


def error_of(stub):
    p = stub + '.json.error'
    return open(p).read() if os.path.exists(p) else ''


def asked(rng, temps):
    """The temperatures as a list, tuple or array, of integers if they are."""
    k = int(rng.integers(4))
    if k == 0:
        return tuple(temps)
    if k == 1:
        return np.array(temps)
    if k == 2:
        return [int(t) if t == int(t) else t for t in temps]
    return list(temps)


def temporary():
    return set(os.listdir(tempfile.gettempdir()))


def neutron(case):
    from ASAPy.data import neutron as mod
    rng = case.rng
    a = acegen.random_ace(rng)
    za = int(a.name.split('.')[0])
    meta = bool(rng.random() < 0.3)
    if meta:
        Z, A = [(47, 110), (72, 178), (61, 148), (95, 242), (95, 242), (27, 58)][int(rng.integers(6))]
        za = 1000 * Z + A
        want_name = (f'{SYM[Z]}{A}_m1', Z, A, 1)
    elif rng.random() < 0.12:
        za, want_name = 95242, ('Am242', 95, 242, 0)
        case.event('am242')
    else:
        want_name = (*NAMES[str(za)], 0)
    n = int(rng.choice([1, 1, 2, 3, 4]))
    temps = [float(v) for v in rng.choice([0.0, 293.6, 300.0, 600.0, 900.5, 1200.0, 2400.0], n, replace=False)]
    default = n == 1 and rng.random() < 0.4
    if default:
        temps = [293.6]
    tabs, files = [], []
    for k, t in enumerate(temps):
        b = copy.deepcopy(a)
        b.kT = float('%.5E' % (t * KB * 1e-6))
        b.name = f'{za}.{k + 1:02d}c'
        if k:
            b.E = acegen.r(np.concatenate([b.E[:1], b.E[1:-1] * (1 + 1e-6 * k), b.E[-1:]]))
            for f in ('total', 'absorption', 'elastic'):
                setattr(b, f, acegen.r(getattr(b, f) * rng.uniform(0.5, 2, len(b.E))))
            for rx in b.reactions:
                rx['xs'] = acegen.r(rx['xs'] * rng.uniform(0.5, 2, len(rx['xs'])))
        p = case.path(f't{k}.ace')
        with open(p, 'w') as f:
            f.write(b.text())
        tabs.append(b)
        files.append(p)
    # the evaluation and the pointwise file
    fissile = a.nu is not None
    m = eg.Material(mat=int(rng.integers(100, 9999)), za=za, awr=a.awr, lfi=int(fissile), liso=int(meta), lis=int(meta))
    t3 = endfn.tab(rng, n=6)
    m.add(3, 2, [eg.cont(rng, m.za, m.awr, 0, 0, 0, 0)] + endfn.tab1(rng, 0, 0, 0, 0, t3))
    fer = None
    if fissile and rng.random() < 0.7:
        while fer is None or fer['kind'] == 'sher-beck':
            m.sections.pop((1, 458), None)
            fer = energy_release(case, rng, m, None)
    p = case.path('eval.endf')
    with open(p, 'w') as f:
        f.write(eg.tape([m]))
    pm = eg.Material(mat=m.mat, za=za, awr=a.awr, liso=int(meta), lis=int(meta), lrp=2)
    pt = endfn.tab(rng, n=int(rng.integers(3, 60)), laws=(2,), regions=False)
    pm.add(3, 1, [eg.cont(rng, m.za, m.awr, 0, 0, 0, 0)] + endfn.tab1(rng, 0, 0, 0, 0, endfn.tab(rng, n=5, laws=(2,), regions=False)))
    pm.add(3, 2, [eg.cont(rng, m.za, m.awr, 0, 0, 0, 0)] + endfn.tab1(rng, 0, 0, 0, 0, pt))
    pp = case.path('made.pendf')
    with open(pp, 'w') as f:
        f.write(eg.tape([pm]))
    fail = case.index % 6 == 5
    cfg = {'seed': 1, 'cov': {}, 'za': za, 'ace_files': list(zip(temps, files)), 'pendf_file': pp}
    if fail:
        cfg.update(mode=str(rng.choice(['exit', 'late_exit', 'signal'])), code=9)
    stub = chain.make_stub(case.path('stub'), cfg)
    os.mkdir(case.path('cwd'))
    os.chdir(case.path('cwd'))
    tmp = case.path('tmp')
    os.mkdir(tmp)
    old = tempfile.tempdir
    tempfile.tempdir = tmp
    kw = {}
    if rng.random() < 0.5:
        kw = {k: v for k, v in dict(heatr=bool(rng.random() < 0.5), purr=bool(rng.random() < 0.5), error=float(rng.choice([0.001, 0.01]))).items() if rng.random() < 0.6}
    case.input(za=za, meta=meta, temps=temps, default=default, options=kw, fail=fail, mts=[rx['mt'] for rx in a.reactions])
    case.sig(tabs[0].text()[:4000], temps)
    try:
        with quiet():
            given, ways = asked(rng, temps), [p, os.path.relpath(p), pathlib.Path(p)]
            q = ways[int(rng.integers(len(ways)))]
            case.event('relative', int(q == ways[1]))
            out = rng.random() < 0.2
            if out:
                kw['stdout'] = True
            if rng.random() < 0.3:
                kw['input_filename'] = os.path.join(case.dir, 'deck.txt')
            call = (lambda: mod.IncidentNeutron.from_njoy(q, njoy_exec=stub, **kw)) if default else (lambda: mod.IncidentNeutron.from_njoy(q, given, njoy_exec=stub, **kw))
            if fail:
                case.raises(call, 'a failing NJOY gave data')
                case.event('failed')
                case.check(not os.listdir('.') and not os.listdir(tmp), 'files left behind', got=os.listdir('.') + os.listdir(tmp))
                return
            try:
                d = call()
            except Exception as e:
                case.check(False, f'the code raised on a valid input: {type(e).__name__}: {e}', deck_error=error_of(stub))
    finally:
        tempfile.tempdir = old
        os.chdir('/')
    case.check(not os.listdir(case.path('cwd')) and not os.listdir(tmp), 'files left behind', got=os.listdir(case.path('cwd')) + os.listdir(tmp))
    deck = json.loads(open(stub + '.json.decks').read().split('\n')[0])['deck']
    nj = njoydeck.Njoy(deck, {20: njoydeck.Tape('endf', mat=m.mat)}).run()
    mods = [e['module'] for e in nj.log]
    if 'input_filename' in kw:
        case.check(open(kw['input_filename']).read() == deck, 'the deck that was kept is not the one NJOY was given')
    for k in ('heatr', 'purr'):
        case.equal(mods.count(k), int(kw.get(k, True)), f'{k} runs if asked for')
    case.close_to([e['err'] for e in nj.log if e['module'] in ('reconr', 'broadr')], [kw.get('error', 0.001)] * 2, 'tolerance', rtol=1e-12)
    case.event('options', int(bool(kw)))
    keys = [f'{int(round(b.kT / KB * MEV))}K' for b in tabs]
    case.equal((d.name, int(d.atomic_number), int(d.mass_number), int(d.metastable)), want_name, 'nuclide')
    case.equal(sorted(d.temperatures), sorted(keys), 'temperatures')
    for key, b in zip(keys, tabs):
        case.close_to(d.energy[key], b.E * MEV, f'energies at {key}', rtol=1e-12)
        for rx in b.reactions:
            if rx['mt'] in d.reactions and key in d.reactions[rx['mt']].xs and hasattr(d.reactions[rx['mt']].xs[key], 'y'):
                g = d.reactions[rx['mt']].xs[key]
                case.close_to(np.asarray(g.y, float), rx['xs'], f'MT {rx["mt"]} at {key}', rtol=1e-12)
        case.close_to(np.asarray(d[2].xs[key].y, float), b.elastic, f'elastic scattering at {key}', rtol=1e-12)
    if '0K' in keys:
        case.event('zero_kelvin_given')
    else:
        case.check('0K' in d.energy and '0K' in d[2].xs, 'no elastic cross-section at 0 K')
        case.close_to(np.asarray(d.energy['0K'], float), pt['x'], 'energies at 0 K', rtol=1e-12)
        case.close_to(np.asarray(d[2].xs['0K'].y, float), pt['y'], 'elastic scattering at 0 K', rtol=1e-12)
        case.close_to(np.asarray(d[2].xs['0K'].x, float), pt['x'], 'energies of elastic scattering at 0 K', rtol=1e-12)
        case.event('zero_kelvin_added')
        d[2].xs.pop('0K')
        d.energy.pop('0K')
    if len(tabs) == 1 and not meta:
        compare(case, d, tabs[0], keys[0])
    case.check((d.fission_energy is not None) == (fer is not None), 'fission energy release if the evaluation has it')
    if fer is not None:
        e = np.array([1e-5, 1.0, 1e5, 2e6])
        for k in ('fragments', 'prompt_neutrons', 'delayed_neutrons', 'prompt_photons', 'delayed_photons', 'betas', 'neutrinos'):
            case.close_to(np.asarray(getattr(d.fission_energy, k)(e), float), fer['value'](k, e), f'fission energy release: {k}', rtol=1e-10)
        case.event('energy_release')
    case.event('neutron')
    case.event('several_temperatures', int(n > 1))
    case.event('metastable', int(meta))
    case.event('default_temperature', int(default))
    if case.index < 3:
        case.sample(nuclide=want_name[0], temperatures=temps, options=kw)



def thermal(case):
    from ASAPy.data import thermal as mod
    rng = case.rng
    matt = sorted(THERMAL)[case.index % len(THERMAL)]
    short, zas, nmix, name = THERMAL[matt]
    m = eg.Material(mat=int(rng.integers(200, 9999)), za=zas[0], awr=1.0)
    m.add(3, 2, [eg.cont(rng, m.za, m.awr, 0, 0, 0, 0)] + endfn.tab1(rng, 0, 0, 0, 0, endfn.tab(rng, n=6)))
    p = case.path('n.endf')
    with open(p, 'w') as f:
        f.write(eg.tape([m]))
    th = eg.Material(mat=matt, za=100 + matt, awr=1.0, nsub=12)
    tf = sorted(float(t) for t in rng.choice([77.0, 293.6, 350.0, 400.0, 500.0, 800.0], int(rng.integers(1, 4)), replace=False))
    emax, natom = float(rng.choice([4.6, 1.855, 9.15])), int(rng.integers(1, 5))
    lines = [eg.cont(rng, th.za, th.awr, 0, 0, 0, 0)] + eg.list_record(rng, 0, 0, 0, 0, 0, [20.478, 389.8, 0.9992, emax, 0.0, float(natom)])
    lines += eg.tab2_record(rng, 0, 0, 0, 0, [2], [4], 2)
    lines += eg.tab1_record(rng, tf[0], 0.0, len(tf) - 1, 0, [3], [4], [0.1, 0.2, 0.3], [1.0, 2.0, 3.0])
    for t in tf[1:]:
        lines += eg.list_record(rng, t, 0.0, 4, 0, 0, [1.0, 2.0, 3.0])
    th.add(7, 4, lines)
    elastic = str(rng.choice(['none', 'coherent', 'incoherent']))
    if elastic != 'none':
        th.add(7, 2, [eg.cont(rng, th.za, th.awr, 1 if elastic == 'coherent' else 2, 0, 0, 0)] + eg.rows([eg.f11(rng, 1.0)]))
    pt = case.path('t.endf')
    with open(pt, 'w') as f:
        f.write(eg.tape([th]))
    every = rng.random() < 0.5
    temps = tf if every else [float(t) for t in rng.choice([293.6, 350.0, 400.0, 1000.0], int(rng.integers(1, 4)), replace=False)]
    ts, files = [], []
    for k, t in enumerate(temps):
        b = c31.table(rng, f'{short}.{k + 1:02d}t', float('%.5E' % (t * KB * 1e-6)), ts[0] if ts else None)
        f = case.path(f'th{k}.ace')
        with open(f, 'w') as h:
            h.write(b.text())
        ts.append(b)
        files.append(f)
    stub = chain.make_stub(case.path('stub'), {'seed': 1, 'cov': {}, 'za': zas[0], 'ace_files': list(zip(temps, files))})
    os.mkdir(case.path('cwd'))
    os.chdir(case.path('cwd'))
    tmp = case.path('tmp')
    os.mkdir(tmp)
    old = tempfile.tempdir
    tempfile.tempdir = tmp
    case.input(mat=matt, temps=temps, every=every)
    case.sig(ts[0].text()[:4000])
    case.event('unsorted', int(list(temps) != sorted(temps)))
    try:
        with quiet():
            try:
                a, b = (os.path.relpath(p), pt) if rng.random() < 0.4 else (p, os.path.relpath(pt)) if rng.random() < 0.5 else (p, pt)
                d = mod.ThermalScattering.from_njoy(a, b, njoy_exec=stub) if every else mod.ThermalScattering.from_njoy(a, b, asked(rng, temps), njoy_exec=stub)
            except Exception as e:
                case.check(False, f'the code raised on a valid input: {type(e).__name__}: {e}', deck_error=error_of(stub))
    finally:
        tempfile.tempdir = old
        os.chdir('/')
    case.check(not os.listdir(case.path('cwd')) and not os.listdir(tmp), 'files left behind', got=os.listdir(case.path('cwd')) + os.listdir(tmp))
    deck = json.loads(open(stub + '.json.decks').read().split('\n')[0])['deck']
    nj = njoydeck.Njoy(deck, {20: njoydeck.Tape('endf', mat=m.mat), 21: njoydeck.Tape('endf', mat=matt)}).run()
    for t in (t for t in nj.t.values() if t.kind == 'ace'):
        case.check(t.name.strip("'") == short and list(t.zaids) == zas and int(t.card[4]) == nmix, 'name, nuclides and kinds of atoms NJOY is asked for', got=[t.name, t.zaids, t.card], want=[short, zas, nmix])
        case.check((int(t.card[2]) != 0) == (elastic != 'none') and (elastic == 'none' or int(t.card[3]) == (0 if elastic == 'coherent' else 1)), 'elastic scattering NJOY is asked for', got=t.card, want=elastic)
    for e in nj.log:
        if e['module'] == 'thermr' and e['card'][0] == matt:
            case.check(e['card'][7] == natom and abs(e['emax'] - emax) < 1e-9 and (e['card'][5] != 0) == (elastic != 'none'), 'atoms, highest energy and elastic scattering of the evaluation', card=e['card'], emax=e['emax'])
    c31.compare(case, d, name, ts, 'made by NJOY')
    case.event('thermal')
    case.event('thermal_several', int(len(temps) > 1))
    case.event('thermal_all', int(every))


PROGRAM = """#!/usr/bin/env python3
import json, os, sys
here = json.load(open(%r))
deck = ''
while not deck.endswith('stop\\n'):
    line = sys.stdin.readline()
    deck += line or 'stop\\n'
seen = {'deck': deck, 'files': {f: open(f, 'rb').read().decode('latin-1') for f in os.listdir('.')}, 'cwd': os.getcwd()}
json.dump(seen, open(%r, 'w'))
for stream, text in here['say']:
    f = sys.stderr if stream else sys.stdout
    f.write(text)
    f.flush()
for n, text in here['make'].items():
    open('tape' + n, 'wb').write(text.encode('latin-1'))
if here['signal']:
    os.kill(os.getpid(), here['signal'])
sys.exit(here['status'])
"""


def program(case):
    """Any program in place of NJOY: what it gets, what becomes of what it makes and says."""
    from subprocess import CalledProcessError
    from ASAPy.data import njoy
    rng = case.rng
    text = lambda n: ''.join(chr(int(v)) for v in rng.integers(32, 255, n)) + str(rng.choice(['', '\n', '\r\n']))
    numbers = [int(v) for v in rng.choice(np.arange(20, 99), 8, replace=False)]
    tapein, given = {}, {}
    for i, k in enumerate(numbers[:int(rng.integers(0, 4))]):
        f = case.path(f'in {i}.dat')
        given[k] = text(int(rng.choice([0, 10, 3000])))
        with open(f, 'wb') as h:
            h.write(given[k].encode('latin-1'))
        tapein[k] = f if rng.random() < 0.6 else pathlib.Path(f)
    tapeout, made = {}, {}
    for i, k in enumerate(numbers[4:4 + int(rng.integers(0, 5))]):
        f = case.path(f'out {i}.dat')
        old = rng.random() < 0.4
        if old:
            with open(f, 'wb') as h:
                h.write(b'old')
        if rng.random() < 0.7:
            made[k] = text(int(rng.choice([1, 10, 5000])))
        tapeout[k] = (f if rng.random() < 0.6 else pathlib.Path(f), old)
    if rng.random() < 0.3 and tapein:       # an input that is changed and given back
        k = next(iter(tapein))
        tapeout[k] = (case.path('back.dat'), False)
        if rng.random() < 0.6:
            made[k] = 'changed'
    extra = int(rng.choice([99, 98, 97]))
    if extra not in numbers:
        made[extra] = 'nobody asked for this'
    say = [[int(rng.random() < 0.4), str(rng.choice(['line %d\n', '%d end of file', '\n%d\n\n', '***error %d***\n'])) % i * int(rng.choice([1, 1, 1, 3000]))] for i in range(int(rng.integers(0, 6)))]
    status = int(rng.choice([0, 0, 0, 1, 77, 255]))
    sig = int(rng.choice([6, 9, 11])) if rng.random() < 0.15 else 0
    here, log, exe = case.path('here.json'), case.path('log.json'), case.path('njoy x.py')
    json.dump({'say': say, 'make': made, 'status': status, 'signal': sig}, open(here, 'w'))
    with open(exe, 'w') as f:
        f.write(PROGRAM % (here, log))
    os.chmod(exe, 0o755)
    deck = ''.join(f"{i} 'text' /\n" for i in range(int(rng.choice([1, 5, 5000])))) + ' stop\n'
    keep = case.path('deck.txt') if rng.random() < 0.5 else None
    show = bool(rng.random() < 0.5)
    case.sig(str(say), status, sig, sorted(tapein), sorted(tapeout), sorted(made))
    case.input(say=[[k, t[:60]] for k, t in say], status=status, signal=sig, tapein=sorted(tapein), tapeout=sorted(tapeout), made=sorted(made))
    tmp = case.path('tmp')
    os.mkdir(tmp)
    old, tempfile.tempdir = tempfile.tempdir, tmp
    cap, error = io.StringIO(), None
    before = os.getcwd(), sorted(os.listdir('.'))
    try:
        with contextlib.redirect_stdout(cap):
            njoy.run(deck, tapein, {k: f for k, (f, _) in tapeout.items()}, input_filename=keep, stdout=show, njoy_exec=exe)
    except CalledProcessError as e:
        error = e
    finally:
        tempfile.tempdir = old
    said = ''.join(t for _, t in say)
    seen = json.load(open(log))
    case.check(seen['deck'] == deck, 'the deck the program got is not the one given', got=len(seen['deck']), want=len(deck))
    case.check(seen['files'] == {f'tape{k}': v for k, v in given.items()}, 'the tapes the program got are not those given', got=sorted(seen['files']), want=sorted(given))
    case.check(keep is None or open(keep).read() == deck, 'the deck that was kept')
    case.check((os.getcwd(), sorted(os.listdir('.'))) == before and not os.listdir(tmp) and not os.path.exists(seen['cwd']), 'files left behind', got=os.listdir(tmp))
    for k, f in tapein.items():
        case.check(open(f, 'rb').read().decode('latin-1') == given[k], 'a file given was changed', tape=k)
    case.check(cap.getvalue() == (said if show else ''), 'what the program said', got=cap.getvalue()[-300:], want=said[-300:] if show else '')
    if status or sig:
        case.check(error is not None, 'no error for a program that failed', status=status, signal=sig)
        case.check(error.returncode == (-sig if sig else status) and error.output == said, 'status and output of the failure', got=[error.returncode, error.output[-300:]], want=[-sig if sig else status, said[-300:]])
        case.event('program_failed')
    else:
        case.check(error is None, 'error for a program that worked', error=error)
    for k, (f, was) in tapeout.items():
        new = not (status or sig) and (k in made or k in given)
        got = open(f, 'rb').read().decode('latin-1') if os.path.exists(f) else None
        want = (made.get(k, given.get(k))) if new else 'old' if was else None
        case.check(got == want, 'a tape that was asked for', tape=k, made=k in made, got=got and got[:80], want=want and want[:80])
        case.event('tape_out', int(new))
    case.event('program')
    case.event('said', int(bool(said)))


WORKLOADS = [Workload('program', program, 80, 1000), Workload('neutron', neutron, 56, 700), Workload('thermal', thermal, 33, 330)]
