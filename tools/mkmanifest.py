"""write MANIFEST.json"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from tools import levels  # noqa

checks = []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)['id']
    technique, level, note = levels.LEVELS[p]
    checks.append({'property': p, 'quick_cmd': './check %s --tier quick' % p,
                   'thorough_cmd': './check %s --tier thorough' % p,
                   'technique': technique, 'level': level, 'level_note': note})
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': 'python3-vt -m compileall -q contracts >/dev/null; true', 'checks': checks,
               'not_applicable': []}, f, indent=1)
    f.write('\n')
