"""decides one property: proof obligations over the current source, then the bounded legs"""
import hashlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from lib import bounded, findings  # noqa
from lib.undecided import Undecided  # noqa

EVIDENCE = os.path.join(HERE, 'evidence')


def seed():
    try:
        return int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        return 1


def write_json(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path + '.tmp', 'w') as f:
        json.dump(data, f, indent=1, sort_keys=True)
        f.write('\n')
    os.replace(path + '.tmp', path)


def violation(prop, replay, found):
    path = os.path.join(EVIDENCE, 'replay', '%s-%s.json' % (
        prop, hashlib.md5(json.dumps(replay, sort_keys=True).encode()).hexdigest()[:10]))
    write_json(path, replay)
    print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if found else ' no-failing-input-found'))
    return path


def run_proof(prop, thorough):
    try:
        from proof import obligations
    except ImportError:
        return None
    return obligations.run(prop, thorough)


def main(prop, tier):
    start = time.time()
    thorough = tier == 'thorough'
    violations = 0
    try:
        from lib import impl  # noqa
    except Exception:
        replay = {'property': prop, 'error': traceback.format_exc()}
        print(replay['error'])
        violation(prop, replay, False)
        write_json(os.path.join(EVIDENCE, prop + '.json'), {
            'property': prop, 'tier': tier, 'seed': seed(), 'level': 'other', 'wall_s': time.time() - start,
            'coverage': {'explanation': 'the package cannot be imported'}, 'violations': 1})
        return 1

    for key, text in findings.report(prop):
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, key, text))

    proof = run_proof(prop, thorough)
    legs = []
    for leg in bounded.LEGS[prop]:
        out = bounded.run(leg, seed(), thorough, 3600 if thorough else 300)
        legs.append(out)
        for e in out['errors'][:2]:
            print('harness error in %s: %s' % (out['leg'], e), file=sys.stderr)
        print('%s bounded leg %s: %d cases, %d distinct non-trivial, %d not decided' % (
            prop, out['leg'], out['evaluations'], out['distinct_nontrivial'], out['undecided']))
        if out['bad']:
            i, text, msg = out['bad'][0]
            violations += 1
            print('broken: ' + msg[:3000])
            violation(prop, {'property': prop, 'leg': out['leg'], 'index': i, 'seed': seed(), 'case': json.loads(text),
                             'message': msg,
                             'failed_obligations': [o['name'] for o in proof['failed']] if proof else [],
                             'obligations_not_discharged': proof['not_discharged'][:40] if proof else []}, True)
    if proof:
        for line in proof['lines']:
            print(line)
        if proof['failed'] and not violations:
            o = proof['failed'][0]
            violations += 1
            print('failed obligation: ' + o['name'])
            if o.get('case') is not None:
                violation(prop, {'property': prop, 'obligation': o['name'], 'case': o['case'], 'leg': o['leg'],
                                 'message': o.get('message', ''), 'verifier': o['output'],
                                 'failed_obligations': [x['name'] for x in proof['failed']]}, True)
            else:
                violation(prop, {'property': prop, 'obligation': o['name'], 'verifier': o['output'],
                                 'failed_obligations': [x['name'] for x in proof['failed']]}, False)
    evidence(prop, tier, start, proof, legs, violations)
    return 1 if violations else 0


def evidence(prop, tier, start, proof, legs, violations):
    cov = {'evaluations': sum(x['evaluations'] for x in legs),
           'distinct_nontrivial': sum(x['distinct_nontrivial'] for x in legs),
           'rule': bounded.RULE,
           'samples': [s for x in legs for s in x['samples']],
           'bounded': [dict((k, x[k]) for k in ('leg', 'planned', 'evaluations', 'undecided', 'reasons', 'distinct_nontrivial'))
                       for x in legs]}
    level, assumptions = 'exploration', []
    if proof:
        level = 'proof'
        cov.update(proof['coverage'])
        assumptions = proof['assumptions']
    write_json(os.path.join(EVIDENCE, prop + '.json'), {
        'property': prop, 'tier': tier, 'seed': seed(), 'level': level, 'coverage': cov,
        'assumptions': assumptions, 'wall_s': round(time.time() - start, 2), 'violations': violations})


def replay(prop, path):
    with open(path) as f:
        data = json.load(f)
    if 'case' not in data:
        print('no failing input; failed obligation: %s' % data.get('obligation'))
        print(data.get('verifier') or data.get('error'))
        return 1
    module = [m for n, m, _g, _q, _t in bounded.LEGS[prop] if n == data['leg']][0]
    try:
        msg = bounded.run_one(module, data['case'])
    except Undecided as e:
        print('not decided: %s' % e)
        return 0
    print(msg or 'the property holds on this case')
    return 1 if msg else 0
