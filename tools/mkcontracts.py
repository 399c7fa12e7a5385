"""Regenerate CONTRACTS.md: every contract with its kind, bound, targets and stubs.

usage: /opt/venv/bin/python tools/mkcontracts.py
"""
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import pv.core  # noqa: E402,F401
from pv import worker  # noqa: E402

KIND = {'proof': 'proof', 'finite': 'finite (enumerated)', 'bounded': 'bounded (run-time)'}
out = ['# Contracts', '',
       'Generated by `tools/mkcontracts.py`.  `proof`: obligations discharged for all values of the',
       'symbolic inputs within the stated structure; `finite`: finite domain enumerated completely;',
       '`bounded`: run-time stand-in, never counted as proved.', '']
for n in range(1, 19):
    p = f'C{n:02d}'
    us = worker.load(p)
    out += [f'## {p}', '']
    for u in us.values():
        doc = ' '.join((u.fn.__doc__ or '').split())
        line = f'- **{u.name}** [{KIND[u.kind]}]'
        if u.bound:
            line += f' ({u.bound})'
        line += ' — ' + ', '.join(t.replace('core.', '', 1) if t.startswith('core.') else t for t in u.targets)
        if doc:
            line += f'. {doc}'
        if u.stubs:
            line += ' *Callees by contract:* ' + ', '.join(u.stubs) + '.'
        if u.loops:
            line += ' *Loop invariants:* ' + ', '.join(u.loops) + '.'
        out.append(line)
    out.append('')
with open(os.path.join(ROOT, 'CONTRACTS.md'), 'w') as fp:
    fp.write('\n'.join(out))
