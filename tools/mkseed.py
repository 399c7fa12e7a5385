"""Plant a bug: `python3 tools/mkseed.py SPEC.py`.

SPEC.py defines ID, PROPERTY, EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO
(Python source, run with cwd /repo).  The edit is applied to /repo, the demo and the stable
tests are run with and without it, the check is run, and /repo is restored.
"""
import json, os, runpy, subprocess, sys
V = '/verif'
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def tests():
    sh('bash /opt/vp/test.sh /tmp/seedout.json')
    b = set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o = json.load(open('/tmp/seedout.json'))
    p = set(o['passed']) if isinstance(o.get('passed'), list) else {k for k, v in o.items() if v == 'passed'}
    return sorted(b - p)
for path in sys.argv[1:]:
    if path.startswith('--'):
        continue
    S = runpy.run_path(path)
    d = f"{V}/seeded/{S['ID']}"
    assert not sh('git -C /repo status --porcelain').stdout.strip(), 'dirty repo'
    try:
        for f, old, new in S['EDITS']:
            p = f'/repo/src/goats/{f}'
            t = open(p).read()
            assert t.count(old) == 1, (S['ID'], f, t.count(old), old)
            open(p, 'w').write(t.replace(old, new))
        os.makedirs(d, exist_ok=True)
        open(f'{d}/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
        open(f'{d}/demo.py', 'w').write(S['DEMO'].lstrip())
        open(f'{d}/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(f'{d}/demo.sh', 0o755)
        json.dump(dict(property=S['PROPERTY'], needs=S['NEEDS'], what_it_breaks=S['BREAKS']), open(f'{d}/meta.json', 'w'), indent=1)
        bad = sh(f'bash {d}/demo.sh', cwd='/repo')
        missing = tests() if '--notest' not in sys.argv else '?'
        props = [S['PROPERTY']]
        chk = sh(f'cd {V} && ./check {S["PROPERTY"]}')
    finally:
        sh('git -C /repo checkout -- .')
    good = sh(f'bash {d}/demo.sh', cwd='/repo')
    ok = bad.returncode != 0 and good.returncode == 0 and not missing
    v = [l for l in chk.stdout.splitlines() if 'VIOLATION' in l or 'obligation' in l]
    print(S['ID'], 'OK' if ok else f'BAD demo_bad={bad.returncode} demo_good={good.returncode} {good.stderr[-300:]} {good.stdout[-200:]} missing={missing}',
          f'check exit {chk.returncode}', '\n   '.join(x[:200] for x in v[:3]))
