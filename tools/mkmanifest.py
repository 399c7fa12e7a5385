"""Writes /verif/MANIFEST.json from the contracts present (run by hand)."""
import glob, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'contracts on the real functions discharged by symbolic execution of /repo source + z3/cvc5 (deductive), same contracts executed at run time for replay and bounded stand-ins'
notes = json.load(open(os.path.join(ROOT, 'tools', 'levels.json')))
props = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
have = {os.path.basename(f)[:3].upper() for f in glob.glob(os.path.join(ROOT, 'contracts', 'c[0-9][0-9]*.py'))}
m = dict(version=1, setup_cmd='true', checks=[], not_applicable=[])
for p in props:
    n = notes.get(p, {})
    if p in have:
        m['checks'].append(dict(property=p, quick_cmd=f'./check {p}', thorough_cmd=f'./check {p} --tier thorough',
                                technique=n.get('technique', TECH), level=n.get('level', 'proof'),
                                level_note=n.get('note', '')))
    else:
        m['not_applicable'].append(dict(property=p, reason=n.get('reason', 'no contract has been built for it yet')))
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
