"""which mutants of a source file escape the bounded legs?

  tools/survey.py FILE [--props C01,C02] [--n 60] [--only FUNCTION] [--cases 1500] [--seed 1]

Prints the mutants that no leg reports, with '(tests)' when the test suite of the repository fails on them.
Works on scratch copies of /repo, which it removes.
"""
import argparse
import ast
import json
import multiprocessing
import os
import random
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from tools.mutants import mutate, points  # noqa

JUDGE = r'''
import sys, random, importlib, signal
sys.path.insert(0, %(here)r)
try:
    from lib import impl, bounded
    from lib.undecided import Undecided
except BaseException as e:
    print('RESULT import'); sys.exit()
for step in (%(cases)d // 10, %(cases)d):
  for prop in %(props)r:
    for leg in bounded.LEGS[prop]:
        mod = importlib.import_module(leg[1])
        for i in range(step if step < %(cases)d else min(step, leg[3])):
            rng = random.Random('7:%%s:%%d' %% (leg[0], i))
            msg = None
            try:
                signal.alarm(30)
                case = getattr(mod, leg[2])(rng)
                msg = bounded.run_one(leg[1], case)
            except Undecided:
                continue
            except Exception as e:
                msg = 'generator'
            if msg:
                print('RESULT ' + prop); sys.exit()
print('RESULT none')
'''


def one(args):
    rel, src, (name, path, new), props, cases = args
    d = tempfile.mkdtemp(prefix='survey')
    try:
        repo = os.path.join(d, 'repo')
        shutil.copytree('/repo', repo, ignore=shutil.ignore_patterns('.git', '.venv', 'docs'))
        try:
            text = mutate(src, path, new)
            compile(text, rel, 'exec')
        except Exception:
            return name, 'invalid'
        if text == ast.unparse(ast.parse(src)):
            return name, 'same'
        with open(os.path.join(repo, rel), 'w') as f:
            f.write(text)
        env = dict(os.environ, VERIF_REPO=repo, PYTHONDONTWRITEBYTECODE='1', VERIF_JOBS='1')
        try:
            p = subprocess.run(['python3-vt', '-c', JUDGE % {'here': HERE, 'props': props, 'cases': cases}],
                               capture_output=True, text=True, env=env, timeout=1500)
        except subprocess.TimeoutExpired:
            return name, 'timeout'
        word = [x[7:] for x in p.stdout.splitlines() if x.startswith('RESULT ')]
        if not word:
            return name, 'died'
        if word[0] != 'none':
            return name, word[0]
        env['PYTHONPATH'] = repo
        q = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--disable-warnings',
                            'pyopenapi/tests'], cwd=repo, env=env, capture_output=True, text=True)
        tail = q.stdout.strip().splitlines()[-1:] or ['']
        return name, 'ESCAPES (tests)' if 'failed' in tail[0] or 'error' in tail[0] else 'ESCAPES'
    finally:
        shutil.rmtree(d)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('file')
    ap.add_argument('--props', default=','.join('C%02d' % i for i in range(1, 18)))
    ap.add_argument('--n', type=int, default=60)
    ap.add_argument('--only')
    ap.add_argument('--cases', type=int, default=1500)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--jobs', type=int, default=6)
    a = ap.parse_args()
    src = open(os.path.join('/repo', a.file)).read()
    ps = points(ast.parse(src), a.only)
    random.Random(a.seed).shuffle(ps)
    ps = ps[:a.n]
    count = {}
    with multiprocessing.Pool(a.jobs) as pool:
        for name, word in pool.imap_unordered(one, [(a.file, src, p, a.props.split(','), a.cases) for p in ps]):
            count[word] = count.get(word, 0) + 1
            if word.startswith('ESC') or word in ('died', 'timeout'):
                print(word, name, flush=True)
    print(a.file, count)


if __name__ == '__main__':
    main()
