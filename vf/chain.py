"""A stand-in for NJOY: interprets the deck it is given and writes tapes whose contents are known."""
import hashlib
import json
import os
import stat
import sys

import numpy as np

HERE = os.path.dirname(os.path.abspath(__file__))


def _rng(*key):
    h = hashlib.sha256(repr(key).encode()).digest()
    return np.random.default_rng([int.from_bytes(h[i:i + 4], 'little') for i in range(0, 32, 4)])


def truth(seed, mf, temp, mt, bounds):
    """Cross-sections, relative deviations and covariances (low to high energy) of one reaction at one temperature."""
    from . import boxer
    rng = _rng(seed, mf, round(float(temp), 3), mt)
    n = len(bounds) - 1
    xs = boxer.quantise(rng.uniform(0.5, 30, n), 10)
    if rng.random() < 0.4:
        xs[: int(rng.integers(0, n))] = 0
    rel = boxer.quantise(rng.uniform(0.01, 0.3, n), 10)
    k = np.sort(rng.integers(0, 6, n))
    f = rng.normal(size=(6, 4))
    c = f @ f.T + np.eye(6)
    cov = c[np.ix_(k, k)] + np.eye(n) * 0.5
    d = np.sqrt(np.diag(cov))
    cov = cov / np.outer(d, d) * np.outer(rel, rel)
    cov = boxer.quantise(cov, 10)
    cov = np.triu(cov) + np.triu(cov, 1).T
    return xs, rel, cov


def boxer_lines(seed, mf, temp, mts, bounds, mat):
    from . import boxer
    rng = _rng(seed, 'enc', mf, temp)
    b = boxer.quantise(np.array(bounds)[:, None], 10)
    lines, _ = boxer.data_set(rng, 0, ' cov  -a-test', mat, mts[0], mat, mts[0], b, style='compact')
    for mt in mts:
        xs, rel, cov = truth(seed, mf, temp, mt, bounds)
        for ity, m, sym in ((1, xs[:, None], False), (2, rel[:, None], False), (3, cov, True)):
            lines += boxer.data_set(rng, ity, ' cov  -a-test', mat, mt, mat, mt, m, symmetric=sym, style='compact', ncf=6 if sym else 3,
                                    page_prob=0.3)[0]
    return lines


def make_stub(path, config):
    """An executable that plays NJOY with the given configuration."""
    cfg = path + '.json'
    with open(cfg, 'w') as f:
        json.dump(config, f)
    with open(path, 'w') as f:
        f.write(f'#!/bin/sh\nexec {sys.executable} {os.path.join(HERE, "chain.py")} {cfg}\n')
    os.chmod(path, os.stat(path).st_mode | stat.S_IXUSR | stat.S_IXGRP | stat.S_IXOTH)
    return path


def ace_text(za, suffix, temp, mat):
    return f'{za:>6d}{suffix}c  {1.0:11.6f}  {temp * 8.617e-11:11.4E}   01/01/20\n ace of mat {mat} at {temp}\n'


def main(cfg_path):
    cfg = json.load(open(cfg_path))
    deck = []
    for line in sys.stdin:
        deck.append(line)
        if line.strip().startswith('stop'):
            break
    deck = ''.join(deck)
    with open(cfg_path + '.decks', 'a') as f:
        f.write(json.dumps({'deck': deck, 'cwd': os.getcwd(), 'files': sorted(os.listdir('.'))}) + '\n')
    mode = cfg.get('mode', 'ok')
    if mode == 'noise':
        print('x' * 200000)
    if mode == 'exit':
        print('error stop')
        sys.stdout.flush()
        sys.exit(int(cfg.get('code', 77)))
    from vf import njoydeck
    tapes = {}
    for f in os.listdir('.'):
        if f.startswith('tape') and f[4:].isdigit():
            head = open(f).read(20000).split('\n')
            if len(head) > 2 and len(head[1]) >= 75 and head[1][70:75] == ' 1451':
                tapes[int(f[4:])] = njoydeck.Tape('endf', mat=int(head[1][66:70]))
    try:
        nj = njoydeck.Njoy(deck, tapes).run()
    except njoydeck.DeckError as e:
        with open(cfg_path + '.error', 'a') as f:
            f.write(str(e) + '\n')
        print('deck error', e)
        sys.exit(78)
    open('output', 'w').write('njoy output\n')
    with open(cfg_path + '.tapes', 'a') as f:
        f.write(json.dumps([[n, t.mat, t.mf, t.temp, t.iwt, len(t.bounds) - 1] for n, t in nj.t.items() if t.kind == 'boxer']) + '\n')
    skip = cfg.get('skip')
    for n, t in nj.t.items():
        if t.kind == 'endf':
            continue
        name = f'tape{n}'
        if t.kind == 'boxer':
            if skip == [t.mf, t.temp]:
                if os.path.exists(name):
                    os.unlink(name)
                continue
            mts = cfg['cov'].get(f'{t.mat}/{t.mf}', cfg['cov'].get(str(t.mf)))
            lines = boxer_lines(cfg['seed'], t.mf, t.temp, mts, t.bounds, t.mat)
            if mode == 'oversize' and t.mf == 33:
                from vf import boxer
                k = [i for i, l in enumerate(lines) if l.startswith('2')][0]
                lines[k] = lines[k][:54] + f'{1999:4d}' + lines[k][58:]
            open(name, 'w').write('\n'.join(lines) + '\n')
        elif t.kind == 'ace':
            made = [v for u, v in cfg.get('ace_files', []) if abs(u - t.temp) < 1e-6]
            open(name, 'w').write(open(made[0]).read() if made else ace_text(cfg.get('za', 1001), t.suffix, t.temp, t.mat))
        elif t.kind == 'xsdir':
            open(name, 'w').write(f'xsdir of mat {t.mat} at {t.temp} {t.suffix}\n')
        elif 'pendf_file' in cfg and t.kind == 'pendf' and not t.parts:
            open(name, 'w').write(open(cfg['pendf_file']).read())
        else:
            open(name, 'w').write(f'{t!r}\n')
    print('njoy done')
    sys.stdout.flush()
    if mode == 'late_exit':
        sys.exit(int(cfg.get('code', 77)))
    if mode == 'signal':
        import signal
        os.kill(os.getpid(), int(cfg.get('code', signal.SIGKILL)))


if __name__ == '__main__':
    sys.path.insert(0, os.path.dirname(HERE))
    sys.dont_write_bytecode = True
    from vf import chain
    chain.main(sys.argv[1])
