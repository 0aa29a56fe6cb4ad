#!/usr/bin/env python
"""Mutation campaign (development aid; no check uses it).

  mutate.py gen OUT.json                       small syntactic changes of every bitforge source file
  mutate.py run MUTANTS.json OUT.jsonl [RUNS]  for each: the repository's tests, then every scenario until one reports a violation

Works on scratch copies under /tmp; /repo is only read."""
import ast
import copy
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
SKIP = ('compat.py', '__init__.py')


def sources():
    for d, _, fs in os.walk('/repo/bitforge'):
        for f in sorted(fs):
            if f.endswith('.py') and f not in SKIP:
                yield os.path.relpath(os.path.join(d, f), '/repo')


CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.GtE], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.LtE], ast.Eq: [ast.NotEq],
       ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Add], ast.Div: [ast.Mult], ast.Mod: [ast.Mult], ast.BitAnd: [ast.BitOr],
       ast.BitOr: [ast.BitAnd], ast.LShift: [ast.RShift], ast.RShift: [ast.LShift]}


def variants(node):
    """[(description, function changing a copy of the node in place or returning a replacement)]"""
    out = []
    if isinstance(node, ast.Compare):
        for k, op in enumerate(node.ops):
            for new in CMP.get(type(op), []):
                out.append(('cmp %s->%s' % (type(op).__name__, new.__name__), lambda n, k=k, new=new: n.ops.__setitem__(k, new())))
    if isinstance(node, (ast.BinOp, ast.AugAssign)):
        for new in BIN.get(type(node.op), []):
            out.append(('op %s->%s' % (type(node.op).__name__, new.__name__), lambda n, new=new: setattr(n, 'op', new())))
    if isinstance(node, ast.BoolOp):
        out.append(('bool', lambda n: setattr(n, 'op', ast.And() if isinstance(n.op, ast.Or) else ast.Or())))
        for k in range(len(node.values)):
            out.append(('drop operand %d' % k, lambda n, k=k: n.values.pop(k)))
    if isinstance(node, ast.Constant):
        v = node.value
        if isinstance(v, bool):
            out.append(('const %r' % (not v), lambda n: setattr(n, 'value', not n.value)))
        elif isinstance(v, int):
            for d in (1, -1):
                out.append(('const %r' % (v + d), lambda n, d=d: setattr(n, 'value', n.value + d)))
        elif isinstance(v, bytes):
            out.append(('const bytes', lambda n: setattr(n, 'value', n.value[:-1] if n.value else b'\0')))
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
        out.append(('drop not', lambda n: n.operand))
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub):
        out.append(('drop minus', lambda n: n.operand))
    if isinstance(node, ast.IfExp):
        out.append(('ifexp then', lambda n: n.body))
        out.append(('ifexp else', lambda n: n.orelse))
    if isinstance(node, ast.If):
        out.append(('if False', lambda n: setattr(n, 'test', ast.Constant(False))))
        out.append(('if True', lambda n: setattr(n, 'test', ast.Constant(True))))
    if isinstance(node, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise, ast.Delete)) and not (isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant)):
        out.append(('delete statement', lambda n: ast.Pass()))
    if isinstance(node, ast.Call):
        if node.keywords:
            for k in range(len(node.keywords)):
                out.append(('drop keyword %s' % node.keywords[k].arg, lambda n, k=k: n.keywords.pop(k)))
        if len(node.args) == 1 and not node.keywords and isinstance(node.func, (ast.Name, ast.Attribute)):
            out.append(('unwrap call', lambda n: n.args[0]))
        if len(node.args) >= 2:
            out.append(('swap args', lambda n: n.args.__setitem__(slice(0, 2), [n.args[1], n.args[0]])))
            out.append(('drop last arg', lambda n: n.args.pop()))
    if isinstance(node, ast.Slice):
        for a in ('lower', 'upper', 'step'):
            if getattr(node, a) is not None:
                out.append(('slice drop ' + a, lambda n, a=a: setattr(n, a, None)))
    if isinstance(node, ast.Return) and node.value is not None:
        out.append(('return None', lambda n: setattr(n, 'value', ast.Constant(None))))
    if isinstance(node, ast.ExceptHandler) and node.type is not None and isinstance(node.type, ast.Tuple):
        for k in range(len(node.type.elts)):
            out.append(('except drop %d' % k, lambda n, k=k: n.type.elts.pop(k)))
    if isinstance(node, (ast.Tuple, ast.List)) and isinstance(getattr(node, 'ctx', None), ast.Load) and 2 <= len(node.elts) <= 20:
        for k in range(len(node.elts)):
            out.append(('drop element %d' % k, lambda n, k=k: n.elts.pop(k)))
        out.append(('swap elements', lambda n: n.elts.__setitem__(slice(0, 2), [n.elts[1], n.elts[0]])))
    if isinstance(node, ast.For):
        out.append(('loop once', lambda n: n.body.append(ast.Break())))
    if isinstance(node, ast.While):
        out.append(('while once', lambda n: n.body.append(ast.Break())))
    return out


def gen():
    out = []
    for f in sources():
        with open(os.path.join('/repo', f)) as fh:
            src = fh.read()
        tree = ast.parse(src)
        base = ast.unparse(tree)
        nodes = list(ast.walk(tree))
        for i, node in enumerate(nodes):
            for d, fn in variants(node):
                t = copy.deepcopy(tree)
                ns = list(ast.walk(t))
                n = ns[i]
                r = fn(n)
                if isinstance(r, ast.AST):
                    for p in ns:
                        for name, val in ast.iter_fields(p):
                            if val is n:
                                setattr(p, name, r)
                            elif isinstance(val, list):
                                for k, x in enumerate(val):
                                    if x is n:
                                        val[k] = r
                try:
                    new = ast.unparse(ast.fix_missing_locations(t))
                    compile(new, f, 'exec')
                except Exception:
                    continue
                if new != base:
                    out.append({'file': f, 'line': getattr(node, 'lineno', 0), 'what': d, 'code': ast.unparse(node)[:100]})
                    out[-1]['new'] = new
    return out


# the properties most likely to notice a change of a file, tried first and only
AREA = [(f, p.split()) for f, p in [
    ('interpreter.py', 'C08'), ('instruction.py', 'C13 C02 C08 C01'), ('opcode.py', 'C13 C02 C08 C12'), ('script/script.py', 'C13 C07 C02 C12 C08'),
    ('transaction/', 'C01 C07 C12 C02'), ('hdp', 'C11 C05 C03'), ('privkey.py', 'C03 C05 C06 C07'), ('pubkey.py', 'C03 C06 C11 C07'),
    ('address.py', 'C03 C04 C12'), ('uri.py', 'C04'), ('unit.py', 'C04'), ('networks.py', 'C03 C11 C04'), ('signature.py', 'C06 C07'),
    ('utils/ecdsa', 'C14'), ('utils/ellip', 'C14'), ('utils/number', 'C14'), ('utils/secp', 'C14'), ('utils/', 'C14 C11 C03 C06'),
    ('bitforge/encoding.py', 'C01 C03 C08 C11 C13 C04'), ('tools.py', 'C01 C02 C03 C12'), ('errors.py', 'C02 C03 C13')]]

DRIVER = r'''
import sys, json, os, resource
sys.dont_write_bytecode = True
resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
sys.path.insert(0, %r)
from sim import runner, core
from sim.worker import limits
limits()
runs = int(sys.argv[1])
order = sys.argv[2].split(',')
step = 10
for lo in range(0, runs, step):
    for p in order:
        for i in range(lo, lo + step):
            s = runner.seed_for(7, p, i)
            r = runner.run_plan(runner.make_plan(p, s))
            if r['violation'] or r.get('error'):
                print(json.dumps({'prop': p, 'i': i, 'cls': (r['violation'] or {'cls': 'ERROR'})['cls'], 'detail': str((r['violation'] or r)['detail' if r['violation'] else 'error'])[:200]}))
                sys.exit(0)
print(json.dumps({'prop': None}))
'''


def run_one(m, runs, k):
    d = tempfile.mkdtemp(prefix='mut', dir='/tmp')
    try:
        c = os.path.join(d, 'repo')
        shutil.copytree('/repo', c, ignore=shutil.ignore_patterns('.git', '__pycache__'))
        with open(os.path.join(c, m['file']), 'w') as f:
            f.write(m['new'])
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
        try:
            p = subprocess.run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests'], cwd=c, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
        except subprocess.TimeoutExpired:
            return {'tests': 'timeout'}
        if p.returncode:
            return {'tests': 'killed'}
        env['BITFORGE_REPO'] = c
        order = next((v for k, v in AREA if k in m['file']), None) or ['C%02d' % i for i in range(1, 15)]
        try:
            p = subprocess.run([PY, '-c', DRIVER % HERE, str(runs), ','.join(order)], cwd=HERE, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=1500, text=True)
        except subprocess.TimeoutExpired:
            return {'tests': 'ok', 'prop': 'timeout'}
        try:
            return dict(json.loads(p.stdout.strip().splitlines()[-1]), tests='ok')
        except Exception:
            return {'tests': 'ok', 'prop': 'died', 'detail': p.stderr[-300:]}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    if sys.argv[1] == 'gen':
        ms = gen()
        json.dump(ms, open(sys.argv[2], 'w'))
        print(len(ms), 'mutants')
        return
    ms = json.load(open(sys.argv[2]))
    runs = int(sys.argv[4]) if len(sys.argv) > 4 else 100
    done = {json.loads(l)['id'] for l in open(sys.argv[3])} if os.path.exists(sys.argv[3]) else set()
    with ThreadPoolExecutor(int(os.environ.get('JOBS', '8'))) as ex, open(sys.argv[3], 'a') as out:
        def job(i):
            r = run_one(ms[i], runs, i)
            r.update(id=i, file=ms[i]['file'], line=ms[i]['line'], what=ms[i]['what'], code=ms[i]['code'])
            out.write(json.dumps(r) + '\n')
            out.flush()
        list(ex.map(job, [i for i in range(len(ms)) if i not in done]))


if __name__ == '__main__':
    main()
