"""Tries many changes at once: try_bugs.py FILE.py [name...]; FILE.py defines BUGS = {name: (checks, [(file, old, new)])}.
Each is applied to a scratch copy of /repo and the checks are run there; prints those that stay quiet."""
import concurrent.futures
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

TOP = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUGS = runpy.run_path(sys.argv[1])['BUGS']
names = sys.argv[2:] or list(BUGS)


def one(name):
    checks, edits = BUGS[name]
    with tempfile.TemporaryDirectory(prefix='bug.') as t:
        subprocess.run(['git', 'clone', '-q', os.environ.get('BUG_REPO', '/repo'), t + '/r'], check=True)
        for f, old, new, *times in edits:
            p = os.path.join(t, 'r', f)
            s = open(p).read()
            if s.count(old) != (times or [1])[0]:
                return name, f'edit does not fit ({s.count(old)})', ''
            open(p, 'w').write(s.replace(old, new))
        if all(e[0].endswith('.py') for e in edits):
            for f, *_ in edits:
                try:
                    compile(open(os.path.join(t, 'r', f)).read(), f, 'exec')
                except SyntaxError as e:
                    return name, f'syntax error {e}', ''
        out = []
        why = ''
        for c in checks.split(','):
            r = subprocess.run(['bash', os.path.join(TOP, 'run.sh'), c], env=dict(os.environ, VF_REPO=t + '/r', VF_EVIDENCE=t + '/ev'), capture_output=True, text=True)
            out.append(f'{c}={r.returncode}')
            for l in r.stdout.split('\n'):
                if r.returncode and (l.startswith('  ') or 'INCONC' in l):
                    why = why or l.strip()[:150]
        return name, ' '.join(out), why


with concurrent.futures.ThreadPoolExecutor(2) as ex:
    for name, res, why in ex.map(one, names):
        flag = 'MISSED' if '=1' not in res else 'caught'
        print(f'{flag} {name}: {res} {why}', flush=True)
