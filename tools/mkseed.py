"""Helper to plant a change: mk(id, property, [(file, old, new)], needs, breaks, demo) writes /verif/seeded/<id>/."""
import json
import os
import subprocess
import tempfile

TOP = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
export PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
export MPLCONFIGDIR=$W PYTHONPYCACHEPREFIX=$W/pyc REPO=$PWD
cd "$W" && /opt/venv/bin/python "$D/demo.py"
'''


def mk(sid, prop, edits, needs, breaks, demo, sh=DEMO, extra=None):
    d = os.path.join(TOP, 'seeded', sid)
    os.makedirs(d, exist_ok=True)
    with tempfile.TemporaryDirectory() as t:
        subprocess.run(['git', 'clone', '-q', '/repo', t + '/r'], check=True)
        for f, old, new in edits:
            p = os.path.join(t, 'r', f)
            s = open(p).read()
            assert s.count(old) == 1, (sid, f, s.count(old), old)
            # lines touched must be lines of the original repository
            n0 = s[:s.index(old)].count('\n') + 1
            ol = old.split('\n')
            nl = new.split('\n')
            for k, line in enumerate(ol):
                if line.strip() and line not in nl:
                    b = subprocess.run(['git', '-C', t + '/r', 'blame', '-s', '-L', f'{n0 + k},{n0 + k}', '--', f], capture_output=True, text=True).stdout
                    assert 'ba5aeed' in b, ('not an original line', b)
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.run(['git', '-C', t + '/r', 'diff'], capture_output=True, text=True, check=True).stdout
    assert diff
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    open(os.path.join(d, 'demo.sh'), 'w').write(sh)
    open(os.path.join(d, 'demo.py'), 'w').write(demo)
    for k, v in (extra or {}).items():
        open(os.path.join(d, k), 'w').write(v)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
