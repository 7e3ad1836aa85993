#!/usr/bin/env python3
"""Mutation run in scratch copies: how many small changes that pass the tests are noticed by the contracts.

mutate.py gen OUT.jsonl            enumerate mutants of the package
mutate.py test IN OUT              keep those the existing tests pass
mutate.py nat IN OUT               run the contracts on inputs (first failing contract per mutant)
mutate.py sym IN OUT [which]       prove the contracts on those not noticed ('missed'), or only the failing contract ('caught':
                                   a contract with a failing input must not be proved)
"""
import ast
import concurrent.futures
import glob
import json
import os
import shutil
import subprocess
import sys
import threading

ROOT = '/tmp/mutants'
HERE = os.path.dirname(os.path.abspath(__file__))


def mutants():
    for f in sorted(glob.glob('/repo/sqlpuzzle/**/*.py', recursive=True)):
        src = open(f, encoding='utf-8').read()
        lines = src.splitlines(True)
        offs = [0]
        for ln in lines:
            offs.append(offs[-1] + len(ln.encode()))
        data = src.encode()
        tree = ast.parse(src)
        docs = set()
        for n in ast.walk(tree):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                docs.add(n.value)
        rel = os.path.relpath(f, '/repo')

        def span(n):
            return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

        def text(n):
            a, b = span(n)
            return data[a:b].decode()

        def mut(n, new, kind):
            a, b = span(n)
            old = data[a:b].decode()
            if old == new:
                return None
            return {'file': rel, 'a': a, 'b': b, 'new': new, 'kind': kind, 'line': n.lineno, 'old': old[:80]}

        out = []
        for n in ast.walk(tree):
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                l, r, op = text(n.left), text(n.comparators[0]), n.ops[0]
                for new in {ast.Eq: ['!='], ast.NotEq: ['=='], ast.Lt: ['<=', '>='], ast.LtE: ['<', '>'], ast.Gt: ['>=', '<='], ast.GtE: ['>', '<'],
                            ast.Is: ['is not', '=='], ast.IsNot: ['is', '!='], ast.In: ['not in'], ast.NotIn: ['in']}.get(type(op), []):
                    out.append(mut(n, '(%s %s %s)' % (l, new, r), 'compare'))
            if isinstance(n, ast.BoolOp):
                w = ' or ' if isinstance(n.op, ast.And) else ' and '
                out.append(mut(n, '(' + w.join('(%s)' % text(v) for v in n.values) + ')', 'boolop'))
                for i in range(len(n.values)):
                    rest = [text(v) for j, v in enumerate(n.values) if j != i]
                    out.append(mut(n, '(' + (' and ' if isinstance(n.op, ast.And) else ' or ').join('(%s)' % x for x in rest) + ')', 'drop operand'))
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
                out.append(mut(n, '(%s)' % text(n.operand), 'not'))
            if isinstance(n, (ast.If, ast.IfExp)):
                out.append(mut(n.test, 'True', 'if'))
                out.append(mut(n.test, 'False', 'if'))
            if isinstance(n, ast.Constant) and n not in docs:
                v = n.value
                if isinstance(v, bool):
                    out.append(mut(n, repr(not v), 'const'))
                elif isinstance(v, int):
                    out.append(mut(n, repr(v + 1), 'const'))
                    out.append(mut(n, repr(v - 1), 'const'))
                elif isinstance(v, str) and not text(n).startswith(('f', 'r')):
                    out.append(mut(n, repr(v + ' ') if v else repr('x'), 'const'))
                    if v:
                        out.append(mut(n, repr(''), 'const'))
                    if v.lower() != v:
                        out.append(mut(n, repr(v.lower()), 'const'))
                elif v is None:
                    out.append(mut(n, '0', 'const'))
            if isinstance(n, ast.Return) and n.value is not None:
                out.append(mut(n, 'return None', 'return'))
            if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Delete)) and not (isinstance(n, ast.Expr) and n.value in docs):
                out.append(mut(n, 'pass', 'drop statement'))
            if isinstance(n, ast.Call):
                if len(n.args) == 1 and not n.keywords and not isinstance(n.args[0], (ast.Starred, ast.GeneratorExp)):
                    out.append(mut(n, '(%s)' % text(n.args[0]), 'drop call'))
                if len(n.args) == 2 and not n.keywords and not any(isinstance(x, ast.Starred) for x in n.args):
                    out.append(mut(n, '%s(%s, %s)' % (text(n.func), text(n.args[1]), text(n.args[0])), 'swap'))
                if len(n.args) > 1 and not isinstance(n.args[-1], ast.Starred) and not n.keywords:
                    out.append(mut(n, '%s(%s)' % (text(n.func), ', '.join(text(x) for x in n.args[:-1])), 'drop argument'))
                for k in n.keywords:
                    out.append(mut(n, '%s(%s)' % (text(n.func), ', '.join([text(x) for x in n.args] + [text(x) for x in n.keywords if x is not k])), 'drop keyword'))
                if isinstance(n.func, ast.Attribute) and not n.args and not n.keywords:
                    out.append(mut(n, '(%s)' % text(n.func.value), 'drop method'))
                if isinstance(n.func, ast.Attribute) and n.func.attr in ('lower', 'upper', 'strip') and not n.args:
                    out.append(mut(n, '(%s)' % text(n.func.value), 'drop method'))
                if isinstance(n.func, ast.Name) and n.func.id == 'isinstance' and isinstance(n.args[1], ast.Tuple):
                    es = n.args[1].elts
                    for i in range(len(es)):
                        out.append(mut(n.args[1], '(%s,)' % ', '.join(text(x) for j, x in enumerate(es) if j != i), 'drop type'))
                if isinstance(n.func, ast.Name) and n.func.id == 'isinstance':
                    out.append(mut(n, '(type(%s) is %s)' % (text(n.args[0]), text(n.args[1])), 'exact type'))
            if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
                out.append(mut(n, '(%s)' % text(n.left), 'drop right'))
                out.append(mut(n, '(%s)' % text(n.right), 'drop left'))
            if isinstance(n, ast.Continue):
                out.append(mut(n, 'break', 'break'))
            if isinstance(n, ast.Break):
                out.append(mut(n, 'continue', 'continue'))
            if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
                for g in n.generators:
                    for c in g.ifs:
                        out.append(mut(c, 'True', 'drop filter'))
            if isinstance(n, (ast.Tuple, ast.List)) and isinstance(getattr(n, 'ctx', None), ast.Load) and len(n.elts) > 1:
                for i in range(len(n.elts)):
                    el = [text(x) for j, x in enumerate(n.elts) if j != i]
                    o, c = ('[', ']') if isinstance(n, ast.List) else ('(', ')')
                    out.append(mut(n, o + ', '.join(el) + (',' if o == '(' and len(el) == 1 else '') + c, 'drop element'))
            if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
                out.append(mut(n, '(%s)' % text(n.value), 'drop slice'))
            if isinstance(n, (ast.For,)):
                out.append(mut(n.iter, '(%s)[:1]' % text(n.iter), 'first only'))
                out.append(mut(n.iter, 'list(reversed(list(%s)))' % text(n.iter), 'reversed'))
            if isinstance(n, ast.FunctionDef) and n.decorator_list:
                pass
        yield from (m for m in out if m is not None)


local = threading.local()
count = [0]
lock = threading.Lock()


def copy():
    if not hasattr(local, 'd'):
        with lock:
            count[0] += 1
            local.d = '%s/w%d' % (ROOT, count[0])
        shutil.rmtree(local.d, ignore_errors=True)
        os.makedirs(ROOT, exist_ok=True)
        subprocess.run(['cp', '-a', '/repo', local.d], check=True)
        subprocess.run(['git', 'checkout', '-q', '--', '.'], cwd=local.d, check=True)
    return local.d


class Applied:
    def __init__(self, m):
        self.d = copy()
        self.path = os.path.join(self.d, m['file'])
        self.m = m

    def __enter__(self):
        self.data = open(self.path, 'rb').read()
        open(self.path, 'wb').write(self.data[:self.m['a']] + self.m['new'].encode() + self.data[self.m['b']:])
        return self.d

    def __exit__(self, *_):
        open(self.path, 'wb').write(self.data)


ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX='/nonexistent/pycache', PYTHONHASHSEED='0')
STABLE = None


def test(m):
    with Applied(m) as d:
        try:
            r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-x', '-q', '-p', 'no:cacheprovider', '--timeout=60', 'tests'], cwd=d, env=ENV,
                               capture_output=True, timeout=120)
        except subprocess.TimeoutExpired:
            return None
    return m if r.returncode == 0 else None


def run(m, code, *args):
    with Applied(m) as d:
        try:
            r = subprocess.run(['timeout', '-k', '5', '1500', 'python3-vt', '-c', code, *args], cwd=os.path.join(HERE, '..'), env=dict(ENV, VERIF_REPO=d),
                               capture_output=True, text=True)
        except subprocess.TimeoutExpired:
            return {'error': 'timeout'}
    try:
        return json.loads(r.stdout.strip().splitlines()[-1])
    except (ValueError, IndexError):
        return {'error': (r.stdout + r.stderr)[-500:]}


NAT = r'''
import sys, json, os, time
sys.path.insert(0, '.')
sys.setrecursionlimit(20000)
import check
try:
    vlib = check.load()
except BaseException as ex:
    print(json.dumps({'error': 'load %r' % (ex,)})); sys.exit()
import native
cfg = check.TIERS['quick']
found = []
order = sorted(vlib.HARNESSES)
for runs, cap in ((60, 3), (600, 8), (4000, 25))[:int(os.environ.get('DEPTH', '3'))]:
    for n in order:
        r = native.run_harness(n, 1 if runs == 4000 else 'm%d' % runs, cap, int(runs * vlib.HARNESSES[n].opts.get('native', 1)) or 1)
        if r.get('failure'):
            print(json.dumps({'caught': n, 'label': r['failure']['label'], 'detail': str(r['failure']['detail'])[:300], 'runs': runs}))
            sys.stdout.flush()
            os._exit(0)
print(json.dumps({'caught': None}))
sys.stdout.flush()
os._exit(0)
'''

SYM = r'''
import sys, json, os, time
sys.path.insert(0, '.')
sys.setrecursionlimit(20000)
import check
try:
    vlib = check.load()
except BaseException as ex:
    print(json.dumps({'error': 'load %r' % (ex,)})); sys.exit()
from pyvc import runner
names = sys.argv[1:] or sorted(vlib.HARNESSES)
out = {}
for n in names:
    h = vlib.HARNESSES[n]
    if h.opts.get('sym') is False:
        out[n] = 'bounded'
        continue
    _, _, r = check.task(('sym', n, 1, check.TIERS['quick']))
    out[n] = check.status_of(r)
    if out[n] == 'undecided':
        out[n] += ' ' + str(r.get('error'))[:80]
if len(names) > 1:
    out = {n: s for n, s in out.items() if s not in ('proved', 'bounded')}
print(json.dumps({'sym': out}))
sys.stdout.flush()
os._exit(0)
'''


def main():
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == 'gen':
        ms = list(mutants())
        with open(args[0], 'w') as f:
            for i, m in enumerate(ms):
                m['id'] = i
                f.write(json.dumps(m) + '\n')
        print(len(ms))
        return
    ms = [json.loads(x) for x in open(args[0])]
    workers = int(os.environ.get('WORKERS', '8'))
    which = args[2] if len(args) > 2 else 'missed'
    if cmd == 'sym':
        ms = [m for m in ms if (m.get('caught') is not None) == (which == 'caught') and 'error' not in m]
    with open(args[1], 'w') as f, concurrent.futures.ThreadPoolExecutor(workers) as ex:
        def go(m):
            if cmd == 'test':
                return test(m)
            if cmd == 'nat':
                return dict(m, **run(m, NAT))
            return dict(m, **run(m, SYM, *([m['caught']] if which == 'caught' else [])))
        for r in ex.map(go, ms):
            if r is not None:
                f.write(json.dumps(r) + '\n')
                f.flush()
    shutil.rmtree(ROOT, ignore_errors=True)


main()
