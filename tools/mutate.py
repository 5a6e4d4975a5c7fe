"""Mutation campaign: small syntactic changes of the sources, checks run against each in a scratch copy.
usage: mutate.py OUT.jsonl N SEED FILE CHECK[,CHECK...] [--only f1,f2] [--skip f1,f2]"""
import ast
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile

CMP = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!=', ast.In: 'in', ast.NotIn: 'not in', ast.Is: 'is', ast.IsNot: 'is not'}
SWAP = {'<': ['<=', '>'], '<=': ['<', '>='], '>': ['>=', '<'], '>=': ['>', '<='], '==': ['!='], '!=': ['=='], 'in': ['not in'], 'not in': ['in'], 'is': ['is not'], 'is not': ['is']}
BIN = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Pow: '**', ast.BitAnd: '&', ast.BitOr: '|'}
BSWAP = {'+': '-', '-': '+', '*': '/', '/': '*', '//': '/', '**': '*', '&': '|', '|': '&'}


def mutants(src, only, skip):
    tree = ast.parse(src)
    lines = src.split('\n')
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()) + 1)
    raw = src.encode()
    pos = lambda line, col: offs[line - 1] + col
    out = []

    def seg(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)

    def add(n, a, b, new, kind):
        out.append((n.lineno, a, b, new, kind))

    def visit(n, fn):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            fn = fn + [n.name]
        inside = (not only or any(f in only for f in fn)) and not any(f in skip for f in fn)
        if isinstance(n, ast.Raise) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            f = ast.unparse(n.value.func)
            if re.search(r'logg|print|warn|set_title|legend|plt\.|add_argument|check_type|check_value|check_', f):
                return
        if inside:
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                a, b = seg(n.left)[1], seg(n.comparators[0])[0]
                mid = raw[a:b].decode()
                op = CMP[type(n.ops[0])]
                for s in SWAP[op]:
                    add(n, a, b, mid.replace(op, s, 1), f'{op}->{s}')
            elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                a, b = seg(n.left)[1], seg(n.right)[0]
                mid = raw[a:b].decode()
                op = BIN[type(n.op)]
                add(n, a, b, mid.replace(op, BSWAP[op], 1), f'{op}->{BSWAP[op]}')
            elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
                add(n, *seg(n), str(not n.value), 'bool')
            elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
                a, b = seg(n)
                for v in ([n.value + 1, n.value - 1] if isinstance(n.value, int) else [n.value * 1.01 or 0.1]):
                    add(n, a, b, f'({v})' if v < 0 else str(v), f'{n.value}->{v}')
            elif isinstance(n, ast.BoolOp):
                a, b = seg(n.values[0])[1], seg(n.values[1])[0]
                mid = raw[a:b].decode()
                o, s = ('and', 'or') if isinstance(n.op, ast.And) else ('or', 'and')
                add(n, a, b, mid.replace(o, s, 1), f'{o}->{s}')
            elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
                a, b = seg(n.test)
                add(n, a, b, f'(not ({raw[a:b].decode()}))', 'negate')
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub) and not isinstance(n.operand, ast.Constant):
                a, b = seg(n)
                add(n, a, b, raw[seg(n.operand)[0]:b].decode(), 'drop -')
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
                a, b = seg(n)
                add(n, a, b, f'bool({raw[seg(n.operand)[0]:seg(n.operand)[1]].decode()})', 'drop not')
            elif isinstance(n, (ast.AugAssign,)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)) or isinstance(n, (ast.Continue, ast.Break)):
                a, b = seg(n)
                add(n, a, b, 'pass', 'drop statement')
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('copy', 'sort_values', 'sort_index', 'abs', 'transpose') or (isinstance(n, ast.Attribute) and n.attr == 'T'):
                a, b = seg(n)
                base = n.func.value if isinstance(n, ast.Call) else n.value
                if ast.unparse(base) not in ('np', 'copy', 'shutil', 'os'):
                    add(n, a, b, raw[seg(base)[0]:seg(base)[1]].decode(), 'drop call')
            if isinstance(n, ast.Call):
                for k in n.keywords:
                    if k.arg and len(n.args):
                        a, b = seg(k)
                        s = raw[a - 40:a].decode(errors='ignore')
                        m = re.search(r',\s*$', s)
                        if m:
                            add(n, a - len(m.group(0)), b, '', f'drop {k.arg}=')
        for c in ast.iter_child_nodes(n):
            visit(c, fn)
    visit(tree, [])
    return raw, out


def main():
    args = sys.argv[1:]
    only = skip = ()
    for o in ('--only', '--skip'):
        if o in args:
            i = args.index(o)
            v = args[i + 1].split(',')
            if o == '--only':
                only = v
            else:
                skip = v
            del args[i:i + 2]
    outp, n, seed, file, checks = args[0], int(args[1]), int(args[2]), args[3], args[4].split(',')
    src = open('/repo/' + file).read()
    raw, ms = mutants(src, only, skip)
    rnd = random.Random(seed)
    rnd.shuffle(ms)
    done = set()
    for line, a, b, new, kind in ms[:n]:
        text = raw[:a] + new.encode() + raw[b:]
        try:
            compile(text, file, 'exec')
        except SyntaxError:
            continue
        d = tempfile.mkdtemp(prefix='mut', dir='/tmp')
        try:
            shutil.copytree('/repo', d + '/repo', ignore=shutil.ignore_patterns('.git'))
            with open(d + '/repo/' + file, 'wb') as f:
                f.write(text)
            env = dict(os.environ, VF_REPO=d + '/repo', VF_EVIDENCE=d + '/ev')
            killed, notes = None, []
            for c in checks:
                try:
                    r = subprocess.run(['bash', '/verif/run.sh', c], env=env, capture_output=True, text=True, timeout=900)
                    rc = r.returncode
                except subprocess.TimeoutExpired:
                    rc = 'timeout'
                if rc == 1:
                    killed = c
                    break
                if rc != 0:
                    notes.append(f'{c}:{rc}')
            rec = {'file': file, 'line': line, 'kind': kind, 'text': src.split('\n')[line - 1].strip(), 'killed': killed, 'notes': notes}
            with open(outp, 'a') as f:
                f.write(json.dumps(rec) + '\n')
        finally:
            shutil.rmtree(d, ignore_errors=True)


main()
