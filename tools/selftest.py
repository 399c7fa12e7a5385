"""Self-test of the verifier: `/opt/venv/bin/python tools/selftest.py`.

Each case is a small function, in a correct and in a broken version, with one contract.  The
engine must prove the contract of the correct version and refute that of the broken one with an
input on which the broken version really fails (except where a sum over any number of elements
is an opaque constant of the countermodel).  Cases cover the engine's own rules: branches,
loops and comprehensions over symbolic numbers, arrays of any length, integer arithmetic,
exceptions, aliasing of mutable values, strings as atoms, sorting, numpy, powers and roots.
"""
import os
import pathlib
import subprocess
import sys
import tempfile

CASES = [
    # name, right, wrong, contract
    ('branch', 'def f(x):\n    return x if x > 0 else -x', 'def f(x):\n    return x if x > -1 else -x',
     "x = v.real('x')\nv.prove(f(x) >= 0, 'p')"),
    ('narrow', 'def f(x):\n    return x', 'def f(x):\n    return x if x != 1234567 else 0',
     "x = v.real('x')\nv.eq(f(x), x, 'p')"),
    ('loop', 'def f(xs):\n    s = 0\n    for x in xs:\n        s += x\n    return s', 'def f(xs):\n    s = 0\n    for x in xs:\n        if s != 10:\n            s += x\n    return s',
     "xs = v.reals('x', 3)\nv.eq(f(xs), xs[0] + xs[1] + xs[2], 'p')"),
    ('filter', 'def f(xs):\n    return [x for x in xs if x >= 0]', 'def f(xs):\n    return [x for x in xs if x > 0]',
     "xs = v.reals('x', 3)\nv.prove(len(f(xs)) == sum(1 for x in xs if x >= 0), 'p')"),
    ('dict', 'def f(xs):\n    return {x: i for i, x in enumerate(xs)}', 'def f(xs):\n    return {x: i for i, x in enumerate(xs) if i < 2}',
     "xs = [v.atom('a'), v.atom('b'), v.atom('c')]\nd = f(xs)\nv.prove(d[xs[2]] == 2, 'p')"),
    ('atoms', "def f(a, b):\n    return a == b", "def f(a, b):\n    return a == b or a == 'm'",
     "a, b = v.atom('a'), v.atom('b')\nv.prove(bool(f(a, b)) == (a == b), 'p')"),
    ('integer', 'def f(n):\n    return n // 2', 'def f(n):\n    return int(n / 2)',
     "n = v.int('n')\nr = f(n)\nv.prove(v.and_(2 * r <= n, n < 2 * r + 2), 'p')"),
    ('modulo', 'def f(i, n):\n    return i % n', 'def f(i, n):\n    return i + n if i < 0 else i',
     "i, n = v.int('i', lo=-9, hi=9), v.int('n', lo=1, hi=4)\nr = f(i, n)\nv.prove(v.and_(r >= 0, r < n), 'p')"),
    ('round', 'def f(x):\n    return round(x)', 'def f(x):\n    return int(x)',
     "x = v.real('x')\nr = f(x)\nv.prove(v.and_(2 * r - 2 * x <= 1, 2 * x - 2 * r <= 1), 'p')"),
    ('error', "def f(x):\n    if x < 0:\n        raise ValueError(x)\n    return x", "def f(x):\n    if x <= -1:\n        raise ValueError(x)\n    return x",
     "x = v.real('x')\nv.assume(x < 0)\nv.raises(ValueError, lambda: f(x), 'p')"),
    ('noerror', 'def f(x):\n    return 1 / x if x else 0', 'def f(x):\n    return 1 / (x - 3) if x else 0',
     "x = v.real('x')\nr = f(x)\nv.prove(v.or_(x == 0, r * x == 1), 'p')"),
    ('alias', 'def f(d):\n    return dict(d)', 'def f(d):\n    return d',
     "x, y = v.real('x'), v.real('y')\nd = {'a': x}\ne = f(d)\ne['a'] = y\nv.eq(d['a'], x, 'p')"),
    ('default', 'def f(x, s=None):\n    s = [] if s is None else s\n    s.append(x)\n    return s', 'def f(x, s=[]):\n    s.append(x)\n    return s',
     "x, y = v.real('x'), v.real('y')\nf(x)\nv.prove(len(f(y)) == 1, 'p')"),
    ('sort', 'def f(xs):\n    return sorted(xs)', 'def f(xs):\n    return [min(xs[:2]), max(xs[:2]), xs[2]]',
     "xs = v.reals('x', 3)\nr = f(xs)\nv.prove(v.and_(r[0] <= r[1], r[1] <= r[2]), 'p')"),
    ('minimum', 'def f(a, b):\n    return min(a, b, key=abs)', 'def f(a, b):\n    return min(a, b)',
     "a, b = v.real('a'), v.real('b')\nv.prove(abs(f(a, b)) <= abs(a), 'p')"),
    ('numpy', 'import numpy\ndef f(a, b):\n    return numpy.add.outer(a, b)', 'import numpy\ndef f(a, b):\n    return numpy.add.outer(b, a)',
     "import numpy\na, b = v.reals('a', 2), v.reals('b', 2)\nr = f(numpy.array(a, dtype=object), numpy.array(b, dtype=object))\nv.eq(r[0, 1], a[0] + b[1], 'p')"),
    ('inplace', 'import numpy\ndef f(a):\n    b = a * 2\n    b += 1\n    return b', 'import numpy\ndef f(a):\n    b = a\n    b *= 2\n    b += 1\n    return b',
     "import numpy\nx = v.reals('a', 2)\na = numpy.array(x, dtype=object)\nf(a)\nv.eq(a[1], x[1], 'p')"),
    ('power', 'def f(x):\n    return x ** 3', 'def f(x):\n    return x ** 2 * abs(x)',
     "x = v.real('x')\nv.eq(f(x), x * x * x, 'p')"),
    ('root', 'import numpy\ndef f(x):\n    return numpy.sqrt(x * x)', 'import numpy\ndef f(x):\n    return x',
     "x = v.real('x')\nv.prove(f(x) >= 0, 'p')"),
    ('fraction', 'import fractions\ndef f(x, y):\n    return x / y', 'import fractions\ndef f(x, y):\n    return x / y if y > 0 else -x / y',
     "x, y = v.real('x'), v.real('y', nonzero=True)\nv.eq(f(x, y) * y, x, 'p')"),
    ('while', 'def f(n):\n    i = 0\n    while i < n:\n        i += 1\n    return i', 'def f(n):\n    i = 0\n    while i < n and i < 3:\n        i += 1\n    return i',
     "n = v.int('n', lo=0, hi=4)\nv.prove(f(n) == n, 'p')"),
    ('cache', 'class C:\n    def __init__(self): self.c = {}\n    def g(self, k, x):\n        self.c[k] = x\n        return self.c[k]\ndef f(x, y):\n    o = C()\n    o.g("a", x)\n    return o.g("a", y)',
     'class C:\n    def __init__(self): self.c = {}\n    def g(self, k, x):\n        if k not in self.c:\n            self.c[k] = x\n        return self.c[k]\ndef f(x, y):\n    o = C()\n    o.g("a", x)\n    return o.g("a", y)',
     "x, y = v.real('x'), v.real('y')\nv.eq(f(x, y), y, 'p')"),
    ('generator', 'def f(xs):\n    return list(x * 2 for x in xs)', 'def f(xs):\n    return list(x * 2 for x in xs[::-1])',
     "xs = v.reals('x', 2)\nv.eq(f(xs)[0], 2 * xs[0], 'p')"),
    ('any length', 'import numpy\ndef f(a, x):\n    i = int(numpy.argmin(numpy.abs(a - x)))\n    return i', 'import numpy\ndef f(a, x):\n    i = int(numpy.argmin(a - x))\n    return i',
     "a, x = v.array('a', low=1), v.real('x')\ni = f(a, x)\nv.prove(v.forall(v.length(a), lambda j: abs(v.at(a, i) - x) <= abs(v.at(a, j) - x)), 'p')"),
    ('reduce', 'import functools\ndef f(xs):\n    return functools.reduce(lambda a, b: a * b, xs)', 'import functools\ndef f(xs):\n    return functools.reduce(lambda a, b: a * b, xs, 0)',
     "xs = v.reals('x', 2)\nv.eq(f(xs), xs[0] * xs[1], 'p')"),
    ('zip', 'def f(a, b):\n    return sum(x * y for x, y in zip(a, b))', 'def f(a, b):\n    return sum(x * y for x, y in zip(a, b[:-1]))',
     "a, b = v.reals('a', 2), v.reals('b', 2)\nv.eq(f(a, b), a[0] * b[0] + a[1] * b[1], 'p')"),
    ('set', 'def f(a, b):\n    return len(set(a) | set(b))', 'def f(a, b):\n    return len(a) + len(b)',
     "a, b = v.atom('a'), v.atom('b')\nv.prove(f([a], [b]) == (1 if a == b else 2), 'p')"),
    ('recursion', 'def f(xs):\n    return xs[0] + f(xs[1:]) if xs else 0', 'def f(xs):\n    return xs[0] + f(xs[2:]) if xs else 0',
     "xs = v.reals('x', 3)\nv.eq(f(xs), sum(xs), 'p')"),
    ('match', 'def f(x):\n    try:\n        return 1 / x\n    except ZeroDivisionError:\n        return 0', 'def f(x):\n    try:\n        return 1 / (x * x - 2 * x)\n    except ZeroDivisionError:\n        return 0',
     "x = v.real('x')\nr = f(x)\nv.prove(v.or_(x == 0, r * x == 1), 'p')"),
    # Arrays of any size along each axis.
    ('tensor elementwise', 'def f(a, b):\n    return a * b + 1', 'def f(a, b):\n    return a * b + (a != 7.5)',
     "n = (v.size('n'), v.size('m'))\na, b = v.tensor('a', n), v.tensor('b', n)\nr = f(a, b)\nfor i in v.indices(n):\n    v.eq(v.element(r, i), v.element(a, i) * v.element(b, i) + 1, 'p')"),
    ('tensor alias', 'def f(a):\n    b = a.copy()\n    b *= 2\n    return b', 'def f(a):\n    b = a\n    b *= 2\n    return b',
     "n = (v.size('n'),)\na = v.tensor('a', n)\nold = [(i, v.element(a, i)) for i in v.indices(n)]\nf(a)\nv.prove(v.and_(*[v.element(a, i) == x for i, x in old]), 'p')"),
    ('tensor transpose', 'def f(a):\n    return a.T', 'def f(a):\n    return a',
     "n, m = v.size('n'), v.size('m')\na = v.tensor('a', (n, m))\nr = f(a)\nv.shape(r, (m, n), 'p')\nfor j, i in v.indices((m, n)):\n    v.eq(v.element(r, (j, i)), v.element(a, (i, j)), 'p')"),
    ('tensor broadcast', 'def f(a, b):\n    return a[:, None] * b[None, :]', 'def f(a, b):\n    return b[:, None] * a[None, :]',
     "n, m = v.size('n', low=1), v.size('m', low=1)\na, b = v.tensor('a', (n,)), v.tensor('b', (m,))\nr = f(a, b)\nv.shape(r, (n, m), 'p')\nfor i, j in v.indices((n, m)):\n    v.eq(v.element(r, (i, j)), v.element(a, (i,)) * v.element(b, (j,)), 'p')"),
    ('tensor sum', 'def f(a, b):\n    return (2 * a + b).sum(axis=1)', 'def f(a, b):\n    return (2 * a + b).sum(axis=1) + (b.sum(axis=1) > 9)',
     "n = (v.size('n', low=1), v.size('m', low=1))\na, b = v.tensor('a', n), v.tensor('b', n)\nr = f(a, b)\nfor i in v.indices(n[:1]):\n    v.eq(v.element(r, i), v.total(n[1], lambda k: 2 * v.element(a, (*i, k)) + v.element(b, (*i, k))), 'p')"),
    ('tensor mean', 'def f(a):\n    return a.mean(axis=0)', 'def f(a):\n    return a.mean(axis=0) * (len(a) != 3)',
     "n = (v.size('n', low=1), v.size('m', low=1))\na = v.tensor('a', n, positive=True)\nr = f(a)\nfor i in v.indices(n[1:]):\n    v.eq(v.element(r, i) * n[0], v.total(n[0], lambda k: v.element(a, (k, *i))), 'p')"),
    ('tensor slice', 'def f(a):\n    return a[1:]', 'def f(a):\n    return a[:-1]',
     "n = v.size('n', low=2)\na = v.tensor('a', (n,))\nr = f(a)\nfor i in v.indices((n - 1,)):\n    v.eq(v.element(r, i), v.element(a, (i[0] + 1,)), 'p')"),
    ('tensor last', 'def f(a):\n    return a[-1]', 'def f(a):\n    return a[2]',
     "n = v.size('n', low=3)\na = v.tensor('a', (n,))\nv.eq(f(a), v.element(a, (n - 1,)), 'p')"),
    ('tensor where', 'import numpy\ndef f(a, b):\n    return numpy.where(a > b, a, b)', 'import numpy\ndef f(a, b):\n    return numpy.where(a > 2, a, b)',
     "n = (v.size('n'),)\na, b = v.tensor('a', n), v.tensor('b', n)\nr = f(a, b)\nfor i in v.indices(n):\n    v.prove(v.and_(v.element(r, i) >= v.element(a, i), v.element(r, i) >= v.element(b, i)), 'p')"),
    ('tensor size', 'def f(a):\n    return a / a.shape[0]', 'def f(a):\n    return a / a.shape[1]',
     "n = (v.size('n', low=1), v.size('m', low=1))\na = v.tensor('a', n)\nr = f(a)\nfor i in v.indices(n):\n    v.eq(v.element(r, i) * n[0], v.element(a, i), 'p')"),
]

RUN = '''
import sys, json
sys.path.insert(0, {root!r})
from pv import core, loader as ld, symbolic, api
from pv.worker import one
def fn(v):
    f = v.mod('core.case').f
{body}
L = ld.Loader()
u = api.Unit.__new__(api.Unit)
u.stubs, u.loops, u.fn = {{}}, {{}}, fn
L.configure(u)
r = symbolic.explore(fn, L, budget=60)
print(json.dumps([r.status, r.reason, [dict(label=x.label, inputs={{k: str(w) for k, w in x.inputs.items()}}, detail=str(x.detail)[:200], kind=x.kind) for x in r.failures]]))
if r.failures:
    sys.meta_path.remove(L.finder)
    for m in [m for m in sys.modules if m == 'goats' or m.startswith('goats.')]:
        del sys.modules[m]
    sys.path.insert(0, {src!r})
    v = api.Concrete(inputs=r.failures[0].inputs)
    print(json.dumps(str(one(u, v))[:300] if one(u, v) else None))
'''


def run(text, contract):
    root = str(pathlib.Path(__file__).resolve().parent.parent)
    with tempfile.TemporaryDirectory(prefix='pv-self-') as d:
        p = pathlib.Path(d) / 'goats' / 'core'
        p.mkdir(parents=True)
        for x in (p.parent, p):
            (x / '__init__.py').write_text('')
        (p / 'case.py').write_text(text + '\n')
        body = '\n'.join('    ' + x for x in contract.splitlines())
        (pathlib.Path(d) / 'run.py').write_text(RUN.format(root=root, src=d, body=body))
        r = subprocess.run([sys.executable, '-B', f'{d}/run.py'], capture_output=True, text=True, env=dict(os.environ, PV_SRC=d))
        import json
        lines = [json.loads(x) for x in r.stdout.splitlines()]
        return lines or [['crashed', r.stderr[-500:], []]]


def main():
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as pool:
        right = list(pool.map(lambda c: run(c[1], c[3]), CASES))
        wrong = list(pool.map(lambda c: run(c[2], c[3]), CASES))
    bad = 0
    for (name, *_), r, w in zip(CASES, right, wrong):
        ok = r[0][0] == 'proved' and w[0][0] == 'refuted' and len(w) > 1 and (w[1] or w[0][2][0]['kind'] == 'abstract')
        bad += not ok
        print('ok ' if ok else 'BAD', name, '' if ok else f'{r} {w}')
    print(f'{len(CASES) - bad}/{len(CASES)}')
    return bad


if __name__ == '__main__':
    sys.exit(1 if main() else 0)
