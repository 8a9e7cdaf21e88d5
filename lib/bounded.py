"""the bounded legs: seeded generation of cases, judged against the specification"""
import hashlib
import importlib
import json
import multiprocessing
import multiprocessing.connection
import os
import random
import signal
import sys
import time
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from lib.undecided import Undecided  # noqa

# property -> legs: (name, module, generator, cases in the quick tier, cases in the thorough tier)
LEGS = {
    'C01': [('tokens', 'checks.c01', 'generate', 60000, 600000)],
    'C02': [('references', 'checks.c02', 'generate', 60000, 600000)],
    'C03': [('relocation', 'checks.c03', 'generate', 40000, 400000)],
    'C04': [('store', 'checks.c04', 'generate', 40000, 400000)],
    'C05': [('objects', 'checks.c05', 'generate', 40000, 400000)],
    'C06': [('traversal', 'checks.c06', 'generate', 30000, 300000)],
    'C07': [('comparison', 'checks.c07', 'generate', 30000, 300000)],
    'C08': [('upgrade', 'checks.conv12_leg', 'generate', 16000, 160000)],
    'C09': [('single', 'checks.conv', 'gen_single', 40000, 400000)],
    'C10': [('operation', 'checks.conv', 'gen_operation', 12000, 100000)],
    'C11': [('document', 'checks.conv', 'gen_document', 6000, 60000)],
    'C12': [('linking', 'checks.c12', 'generate', 12000, 100000)],
    'C13': [('merging', 'checks.c13', 'generate', 8000, 80000)],
    'C14': [('histories', 'checks.c14', 'generate', 12000, 100000)],
    'C15': [('retrieval', 'checks.c15', 'generate', 20000, 200000)],
    'C16': [('scopes', 'checks.c16', 'generate', 60000, 600000)],
    'C17': [('purity', 'checks.c17', 'generate', 4000, 40000)],
}
CHUNK = 50
RULE = ('cases are drawn from a random generator seeded by (VERIF_SEED, leg, index); distinct by their JSON text; '
        'non-trivial when that text is at least 60 characters long and the case was judged')


def run_one(module, case):
    """None: the property holds on this case; text: what is broken.  Raises Undecided."""
    try:
        return importlib.import_module(module).judge(case)
    except Undecided:
        raise
    except Exception as e:
        from lib.case import inside, misuse
        if misuse(e) and not inside(e):
            raise Undecided('%s: %s' % (type(e).__name__, e))
        return 'unexpected %s\n%s' % (type(e).__name__, traceback.format_exc()[-1500:])


def _chunk(args):
    name, module, gen, seed, start, n, deadline = args
    out = {'n': 0, 'keys': [], 'undecided': 0, 'errors': [], 'bad': [], 'reasons': [], 'sample': None}
    mod = importlib.import_module(module)
    signal.signal(signal.SIGALRM, _alarm)
    for i in range(start, start + n):
        if time.time() > deadline:
            break
        rng = random.Random('%s:%s:%d' % (seed, name, i))
        signal.alarm(60)
        try:
            try:
                case = getattr(mod, gen)(rng)
            except Exception as e:
                out['errors'].append('generating %d: %s' % (i, traceback.format_exc()[-600:]))
                continue
            text = json.dumps(case, sort_keys=True)
            out['n'] += 1
            try:
                msg = run_one(module, case)
            except Undecided as e:
                out['undecided'] += 1
                out['reasons'].append(str(e)[:200])
                continue
            except _Timeout:
                msg = 'does not end within 60 s'
        finally:
            signal.alarm(0)
        if len(text) >= 60:
            out['keys'].append(hashlib.md5(text.encode()).digest()[:8])
        if out['sample'] is None:
            out['sample'] = text[:1500]
        if msg:
            out['bad'].append((i, text, msg))
            break
    out['reasons'] = sorted(set(out['reasons']))[:3]
    return out


class _Timeout(BaseException):
    pass


def _alarm(*_a):
    raise _Timeout()


def _worker(pipe, jobs):
    try:
        for job in jobs:
            pipe.send(_chunk(job))
        pipe.close()
    finally:
        os._exit(0)


def outputs(jobs, deadline):
    """what each chunk gives; processes are ended when nobody asks for more, or after the deadline"""
    ctx = multiprocessing.get_context('fork')
    n = max(1, min(int(os.environ.get('VERIF_JOBS', '8')), len(jobs)))
    running = []
    try:
        for w in range(n):
            here, there = ctx.Pipe(False)
            p = ctx.Process(target=_worker, args=(there, jobs[w::n]))
            p.start()
            there.close()
            running.append((p, here))
        live = [c for _, c in running]
        while live and time.time() < deadline + 90:
            for c in multiprocessing.connection.wait(live, 1):
                try:
                    yield c.recv()
                except (EOFError, OSError):
                    live.remove(c)
    finally:
        for p, _ in running:
            p.kill()
        for p, c in running:
            p.join()
            c.close()


def run(leg, seed, thorough, limit):
    """-> summary of one leg"""
    name, module, gen, quick, deep = leg
    total = deep if thorough else quick
    deadline = time.time() + limit
    jobs = [(name, module, gen, seed, k, min(CHUNK, total - k), deadline) for k in range(0, total, CHUNK)]
    keys, samples = set(), []
    ret = {'leg': name, 'planned': total, 'evaluations': 0, 'undecided': 0, 'errors': [], 'bad': [], 'reasons': set()}
    for out in outputs(jobs, deadline):
        ret['evaluations'] += out['n']
        ret['undecided'] += out['undecided']
        ret['reasons'].update(out['reasons'])
        ret['errors'] += out['errors'][:2]
        ret['bad'] += out['bad']
        keys.update(out['keys'])
        if out['sample'] and len(samples) < 2:
            samples.append(out['sample'])
        if ret['bad']:
            break
    ret['distinct_nontrivial'] = len(keys)
    ret['samples'] = samples
    ret['reasons'] = sorted(ret['reasons'])[:5]
    ret['bad'].sort()
    return ret
