"""Write MANIFEST.json from properties.jsonl and the registered plans."""
import json
import os
import sys
sys.dont_write_bytecode = True
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from checks import registry  # noqa
PY = '/opt/venv/bin/python'
checks, na = [], []
for ln in open(os.path.join(H, 'properties.jsonl')):
    p = json.loads(ln)
    i = p['id']
    if i not in registry.PLANS:
        na.append(dict(property=i, reason=registry.NA.get(i, 'no check built yet')))
        continue
    pl = registry.PLANS[i]
    checks.append(dict(property=i, quick_cmd='%s check.py %s --tier quick' % (PY, i),
                       thorough_cmd='%s check.py %s --tier thorough' % (PY, i),
                       technique='symbolic execution of the real Python source, claims discharged by z3 (bounded)',
                       level='other',
                       level_note='Every claim holds for all values of the symbolic inputs within these bounds: %s. Exact real '
                                  'arithmetic instead of IEEE doubles (rounding to >= 4 decimals read as exact); trusts the symbolic '
                                  'pandas/numpy layer, which each run replays path witnesses against on the real code.' % pl['bounds']))
json.dump(dict(version=1, setup_cmd=PY + ' tools/validate.py 1', checks=checks, not_applicable=na,
               notes='No hooks in /repo: the current source is loaded against symbolic libraries at run time. See DESIGN.md.'),
          open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
