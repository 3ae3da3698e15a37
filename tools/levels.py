"""tools/levels.json from the properties that have discharged contracts (levels and notes of MANIFEST.json)"""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, root)
from lcpv import env
env.setup()
import importlib
PART = {}
exec(open(os.path.join(root, 'tools', 'partial.py')).read())
out = {}
for l in open(os.path.join(root, 'properties.jsonl')):
    p = json.loads(l)['id']
    if not os.path.exists(os.path.join(root, 'lcpv', 'proofs', p.lower() + '.py')): continue
    m = importlib.import_module('lcpv.proofs.' + p.lower())
    note = 'All obligations of %d contracts are generated from the current source and discharged for all inputs on every run; reals for floats. Assumes: %s.' % (sum(len(c.dtypes) for c in m.CONTRACTS), '; '.join(getattr(m, 'ASSUMES', [])) or 'nothing further')
    if getattr(m, 'BOUNDED', None): note += ' Bounded, not counted as proved: %s.' % '; '.join(m.BOUNDED)
    note += ' Trusted: the executor in lcpv/eng, the stubs for torch, math and ODE, z3. Run-time contracts on sampled inputs replay failures and cover rounding (bounded stand-in).'
    d = dict(level='proof', technique='contract-based deductive verification of the real Python source (contracts, loop invariants, path-wise verification conditions; ring normal forms + z3)', note=note)
    if p in PART: d['level'] = 'exploration'; d['note'] = PART[p] + ' ' + note.replace('All obligations of', 'Partly proved: obligations of')
    out[p] = d
json.dump(out, open(os.path.join(root, 'tools', 'levels.json'), 'w'), indent=1, sort_keys=True)
