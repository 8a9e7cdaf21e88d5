"""the proof obligations of each property: generated from the current source and discharged, on every run

A unit is a function of /repo (or one instance of it) with its contract.  It ends
  proved       every obligation is discharged
  failed       an obligation has a counterexample
  undecided    the verifier cannot take the source as it is now, or gives up on an obligation
"""
import inspect
import multiprocessing
import multiprocessing.connection
import os
import signal
import subprocess
import sys
import tempfile
import time
import traceback

from proof.values import Unsupported

LIMIT = 240         # seconds for one unit
ALL = 450           # seconds for all units of a property


def conv_unit(name, only=None):
    def run(keep):
        from proof import conv
        e, obs, log = conv.BY_NAME[name].verify(keep)
        if only is not None:
            obs = [o for o in obs if getattr(o, 'kind', None) == only]
        return e, obs, log
    return run


def conv12_unit(name, only=None):
    def run(keep):
        from proof import conv12
        e, obs, log = conv12.BY_NAME[name].verify(keep)
        if only is not None:
            obs = [o for o in obs if getattr(o, 'kind', None) == only]
        return e, obs, log
    return run


def units(prop):
    """-> [(name, function)]"""
    from proof import registry
    return registry.units(prop)


class Limit(BaseException):
    pass


def _alarm(*_a):
    raise Limit()


def _run(args):
    prop, i, keep = args
    name, fn = units(prop)[i]
    out = {'unit': name, 'status': 'proved', 'obs': [], 'used': [], 'assumed': [], 'why': '', 'log': []}
    start = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(LIMIT * (5 if keep else 1))
    sys.setrecursionlimit(20000)
    try:
        e, obs, log = fn(keep)
        out['log'] = list(log)
        out['used'] = sorted(e.used, key=str)
        out['assumed'] = sorted(str(x) for x in e.assumed)
        for o in obs:
            out['obs'].append({'name': o.name, 'status': o.status, 'output': o.output, 'time': o.time, 'backend': getattr(o, 'backend', 'z3'),
                               'smt2': o.smt2 if keep else None})
        if not obs:
            out['status'], out['why'] = 'undecided', 'no obligation was generated'
        elif any(o.status == 'failed' for o in obs):
            out['status'] = 'failed'
        elif any(o.status != 'proved' for o in obs):
            out['status'], out['why'] = 'undecided', 'the solver gives up'
    except Unsupported as e:
        out['status'], out['why'] = 'undecided', 'outside of what the verifier takes: %s' % e
    except Limit:
        out['status'], out['why'] = 'undecided', 'time'
    except Exception:
        out['status'], out['why'] = 'undecided', traceback.format_exc()[-1500:]
    finally:
        signal.alarm(0)
    out['time'] = time.time() - start
    return out


def _child(pipe, job):
    try:
        out = _run(job)
        pipe.send(out)
    finally:
        pipe.close()
        os._exit(0)


def schedule(prop, names, thorough):
    """each unit in a process of its own, which is ended when its time is up"""
    ctx = multiprocessing.get_context('fork')
    jobs = int(os.environ.get('VERIF_JOBS', '8'))
    factor = 5 if thorough else 1
    limit, deadline = (LIMIT + 20) * factor, time.time() + ALL * factor
    waiting, running, outs = list(range(len(names))), {}, {}

    def undecided(i, why):
        outs[i] = {'unit': names[i], 'status': 'undecided', 'obs': [], 'used': [], 'assumed': [], 'why': why, 'log': [], 'time': 0}
    while waiting or running:
        while waiting and len(running) < jobs and time.time() < deadline:
            i = waiting.pop(0)
            here, there = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(there, (prop, i, thorough)))
            p.start()
            there.close()
            running[i] = p, here, time.time()
        if time.time() >= deadline:
            for i in waiting:
                undecided(i, 'time for all units')
            waiting = []
        ready = multiprocessing.connection.wait([c for _, c, _ in running.values()], 1) if running else []
        for i, (p, c, t) in list(running.items()):
            if c in ready:
                try:
                    outs[i] = c.recv()
                except (EOFError, OSError):
                    undecided(i, 'its process ended')
            elif time.time() - t > limit or time.time() > deadline:
                undecided(i, 'time')
            else:
                continue
            p.kill()
            p.join()
            c.close()
            del running[i]
    return [outs[i] for i in range(len(names))]


def recheck(jobs):
    """every discharged obligation once more, with cvc5"""
    with multiprocessing.get_context('fork').Pool(int(os.environ.get('VERIF_JOBS', '8'))) as pool:
        return list(pool.imap(_cvc5, jobs, chunksize=4))


def _cvc5(text):
    with tempfile.NamedTemporaryFile('w', suffix='.smt2') as f:
        f.write('(set-logic ALL)\n' + text)
        f.flush()
        try:
            p = subprocess.run(['cvc5', '--lang', 'smt2', '--tlimit', '60000', f.name], capture_output=True, text=True, timeout=90)
        except subprocess.TimeoutExpired:
            return 'timeout'
        word = p.stdout.strip().split('\n')[0] if p.stdout.strip() else (p.stderr.strip()[:200] or 'timeout')
        return word


def full(unit, name):
    return name if name.startswith(unit) else '%s: %s' % (unit, name)


def run(prop, thorough):
    us = units(prop)
    if not us:
        return None
    start = time.time()
    outs = schedule(prop, [n for n, _ in us], thorough)
    failed, lines, not_discharged = [], [], []
    total = done = 0
    undecided = []
    for o in outs:
        n = len(o['obs'])
        k = sum(1 for x in o['obs'] if x['status'] == 'proved')
        if o['status'] != 'undecided':
            total += n
            done += k
        else:
            undecided.append({'unit': o['unit'], 'why': o['why']})
            not_discharged += ['%s: %s' % (o['unit'], x['name']) for x in o['obs'] if x['status'] != 'proved'] or ['%s: %s' % (
                o['unit'], ' '.join(o['why'].split())[-200:])]
            lines.append('%s undecided by the verifier: %s (%s): the bounded leg decides' % (
                prop, o['unit'], ' '.join(o['why'].split())[-200:]))
        for x in o['obs']:
            if x['status'] == 'failed' and o['status'] == 'failed':
                failed.append({'name': full(o['unit'], x['name']), 'output': x['output'] + '\n' + '\n'.join(o['log']), 'unit': o['unit']})
    lines.insert(0, '%s proof: %d units, %d obligations, %d discharged, %d units undecided, %.1fs' % (
        prop, len(outs), total, done, len(undecided), time.time() - start))
    from proof import registry
    cov = {'obligations': total, 'discharged': done,
           'checker_cmd': './check %s --tier %s (pyvc, in /verif/proof, with z3%s)' % (
               prop, 'thorough' if thorough else 'quick', '; each obligation again with cvc5' if thorough else ''),
           'trusted_base': registry.TRUSTED,
           'units': [{'unit': o['unit'], 'status': o['status'], 'obligations': len(o['obs']),
                      'seconds': round(o['time'], 2)} for o in outs],
           'functions_executed_symbolically': sorted(set(str(f) for o in outs for f in o['used'])),
           'contracts_relied_on': sorted(set(x for o in outs for x in o['assumed'])),
           'solver_seconds': round(sum(x['time'] for o in outs for x in o['obs']), 2),
           'undecided_units': undecided, 'backend': 'z3',
           'discharged_by': dict((b, sum(1 for o in outs for x in o['obs'] if x['status'] == 'proved' and o['status'] != 'undecided' and x[
               'backend'] == b)) for b in ('z3', 'cvc5'))}
    if thorough:
        jobs = [x['smt2'] for o in outs for x in o['obs'] if x['smt2']]
        names = [x['name'] for o in outs for x in o['obs'] if x['smt2']]
        t = time.time()
        words = recheck(jobs)
        cov['cvc5'] = {'obligations': len(jobs), 'unsat': sum(1 for w in words if w == 'unsat'),
                       'other': [(n, w) for n, w in zip(names, words) if w != 'unsat'][:20],
                       'seconds': round(time.time() - t, 1)}
        for n, w in zip(names, words):
            if w == 'sat':
                failed.append({'name': n, 'output': 'z3: unsat, cvc5: sat', 'unit': n.split(':')[0]})
        lines.append('%s cvc5: %d of %d confirmed' % (prop, cov['cvc5']['unsat'], len(jobs)))
    return {'failed': failed, 'lines': lines, 'coverage': cov, 'assumptions': registry.assumptions(prop),
            'not_discharged': not_discharged, 'decided': total > 0 and not undecided}
