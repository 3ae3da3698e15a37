import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'))]
lv = json.load(open(os.path.join(root, 'tools', 'levels.json'))) if os.path.exists(os.path.join(root, 'tools', 'levels.json')) else {}
checks = []
for p in props:
    l = lv.get(p['id'], {})
    checks.append(dict(property=p['id'], quick_cmd='./check ' + p['id'], thorough_cmd='VERIF_TIER=thorough ./check ' + p['id'],
        technique=l.get('technique', 'run-time contract checking of the real functions (bounded stand-in)'),
        level=l.get('level', 'exploration'), level_note=l.get('note', 'Contracts evaluated on the real code for generated inputs; nothing is proved.')))
m = dict(version=1, setup_cmd='./setup.sh', hooks=dict(guard='LCPV_UNUSED', enable='no hooks are needed: the checks read and load /repo\'s source directly', source_commits=[]), checks=checks, not_applicable=[], notes='See DESIGN.md. Repairs made in /repo are listed in known_findings.txt.')
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
