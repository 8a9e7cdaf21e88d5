"""the verifier against the bounded legs, on mutants of one source file

  tools/mutants.py FILE PROPERTY... [--n 60] [--only FUNCTION] [--cases 3000]

For each mutant: do the proof units of the properties fail, do their bounded legs fail?
'UNSOUND?' marks a mutant that the proofs accept although a bounded leg breaks (in the same property).
Works on scratch copies of /repo, which it removes.
"""
import argparse
import ast
import copy
import json
import multiprocessing
import os
import random
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def points(tree, only):
    """-> [(description, function that changes a copy)]"""
    out = []

    def walk(node, path, fn):
        for field, val in ast.iter_fields(node):
            if isinstance(val, list):
                for i, x in enumerate(val):
                    if isinstance(x, ast.AST):
                        visit(x, path + [(field, i)], fn)
            elif isinstance(val, ast.AST):
                visit(val, path + [(field, None)], fn)

    def visit(node, path, fn):
        if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
            fn = fn + '.' + node.name if fn else node.name
        if only is None or fn and only in fn.split('.'):
            for name, new in changes(node):
                out.append(('%s:%s %s' % (fn, getattr(node, 'lineno', 0), name), path, new))
        walk(node, path, fn)

    walk(tree, [], '')
    return out


def changes(n):
    if isinstance(n, ast.Constant) and isinstance(n.value, str) and len(n.value) < 40:
        yield 'string %r' % n.value, ast.Constant(n.value + 'x')
    if isinstance(n, ast.Constant) and isinstance(n.value, bool):
        yield 'bool', ast.Constant(not n.value)
    elif isinstance(n, ast.Constant) and isinstance(n.value, int):
        yield 'int %d' % n.value, ast.Constant(n.value + 1)
    if isinstance(n, ast.Constant) and n.value is None:
        yield 'None', ast.Constant('')
    if isinstance(n, ast.If):
        x = copy.deepcopy(n)
        x.test = ast.UnaryOp(ast.Not(), x.test)
        yield 'negated if', x
        x = copy.deepcopy(n)
        x.test = ast.Constant(True)
        yield 'if True', x
        x = copy.deepcopy(n)
        x.test = ast.Constant(False)
        yield 'if False', x
    if isinstance(n, ast.IfExp):
        yield 'then only', n.body
        yield 'else only', n.orelse
    if isinstance(n, ast.BoolOp):
        x = copy.deepcopy(n)
        x.op = ast.And() if isinstance(n.op, ast.Or) else ast.Or()
        yield 'and/or', x
        for i, v in enumerate(n.values):
            yield 'operand %d' % i, v
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
        yield 'not dropped', n.operand
    if isinstance(n, ast.Compare):
        new = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot,
               ast.IsNot: ast.Is, ast.Lt: ast.LtE, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.LtE: ast.Lt}.get(type(n.ops[0]))
        if new:
            x = copy.deepcopy(n)
            x.ops[0] = new()
            yield 'comparison', x
    if isinstance(n, (ast.Assign, ast.AugAssign)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
        yield 'statement dropped', ast.Pass()
    if isinstance(n, (ast.Break, ast.Continue)):
        yield 'dropped', ast.Pass()
    if isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
        x = copy.deepcopy(n)
        x.args[0], x.args[1] = x.args[1], x.args[0]
        yield 'arguments swapped', x
    if isinstance(n, (ast.List, ast.Tuple)) and len(n.elts) >= 2 and isinstance(n.ctx, ast.Load):
        for i in (0, len(n.elts) - 1):
            x = copy.deepcopy(n)
            del x.elts[i]
            yield 'element %d dropped' % i, x
    if isinstance(n, ast.Return) and n.value is not None:
        yield 'return None', ast.Return(ast.Constant(None))


def mutate(src, path, new):
    tree = ast.parse(src)
    node = tree
    for field, i in path[:-1]:
        node = getattr(node, field)
        if i is not None:
            node = node[i]
    field, i = path[-1]
    if i is None:
        setattr(node, field, new)
    else:
        getattr(node, field)[i] = new
    return ast.unparse(ast.fix_missing_locations(tree))


JUDGE = r'''
import json, sys, multiprocessing
sys.path.insert(0, %(here)r)
from lib import impl, bounded
from lib.undecided import Undecided
import random
res = {}
for prop in %(props)r:
    from proof import obligations
    bad, und = [], []
    us = obligations.units(prop)
    for i in range(len(us)):
        o = obligations._run((prop, i, False))
        if o['status'] == 'failed':
            bad.append([x['name'] for x in o['obs'] if x['status'] != 'proved'][0])
        elif o['status'] == 'undecided':
            und.append(o['unit'] + ': ' + o['why'][-150:])
    leg = bounded.LEGS[prop][0]
    msg = None
    import importlib, signal
    mod = importlib.import_module(leg[1])
    for i in range(%(cases)d):
        rng = random.Random('7:%%s:%%d' %% (leg[0], i))
        try:
            case = getattr(mod, leg[2])(rng)
            msg = bounded.run_one(leg[1], case)
        except Undecided:
            continue
        except Exception as e:
            msg = 'generator: %%r' %% e
        if msg:
            break
    res[prop] = [bad, und, msg[:300] if msg else None]
print('RESULT ' + json.dumps(res))
'''


def one(args):
    rel, src, (name, path, new), props, cases = args
    d = tempfile.mkdtemp(prefix='mutant')
    try:
        repo = os.path.join(d, 'repo')
        shutil.copytree('/repo', repo, ignore=shutil.ignore_patterns('.git', '.venv', 'tests', 'docs'))
        try:
            text = mutate(src, path, new)
            compile(text, rel, 'exec')
        except Exception as e:
            return name, 'invalid', str(e)
        if text == ast.unparse(ast.parse(src)):
            return name, 'same', None
        with open(os.path.join(repo, rel), 'w') as f:
            f.write(text)
        env = dict(os.environ, VERIF_REPO=repo, PYTHONDONTWRITEBYTECODE='1', VERIF_JOBS='1')
        try:
            p = subprocess.run(['python3-vt', '-c', JUDGE % {'here': HERE, 'props': props, 'cases': cases}],
                               capture_output=True, text=True, env=env, timeout=900)
        except subprocess.TimeoutExpired:
            return name, 'timeout', None
        for line in p.stdout.splitlines():
            if line.startswith('RESULT '):
                return name, 'ok', json.loads(line[7:])
        return name, 'crash', p.stderr[-300:]
    finally:
        shutil.rmtree(d)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('file')
    ap.add_argument('props', nargs='+')
    ap.add_argument('--n', type=int, default=60)
    ap.add_argument('--only')
    ap.add_argument('--cases', type=int, default=3000)
    ap.add_argument('--seed', type=int, default=1)
    a = ap.parse_args()
    src = open(os.path.join('/repo', a.file)).read()
    ps = points(ast.parse(src), a.only)
    random.Random(a.seed).shuffle(ps)
    ps = ps[:a.n]
    count = {}
    with multiprocessing.Pool(8) as pool:
        for name, status, res in pool.imap_unordered(one, [(a.file, src, p, a.props, a.cases) for p in ps]):
            if status != 'ok':
                print('%-60s %s %s' % (name, status, ' '.join(str(res).split())[-120:]))
                continue
            words = []
            for prop in sorted(res):
                bad, und, msg = res[prop]
                v = 'F' if bad else 'U' if und else 'P'
                b = 'b' if msg else '-'
                words.append('%s:%s%s' % (prop, v, b))
                count[v + b] = count.get(v + b, 0) + 1
                if v == 'P' and b == 'b':
                    words.append('UNSOUND? ' + msg.replace('\n', ' ')[:250])
                elif v == 'F' and b == '-':
                    words.append('only proof: ' + bad[0])
                elif v == 'U':
                    words.append('undecided: ' + und[0].replace('\n', ' ')[:150])
            print('%-60s %s' % (name, ' '.join(words)))
            sys.stdout.flush()
    print(count)


if __name__ == '__main__':
    main()
