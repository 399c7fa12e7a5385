"""C05: sequences of operations, mixed kinds, unusual operands (run time)."""
import fractions
import operator

from pv.api import unit
from . import util_ghost as G
from .c05_arithmetic import build, flat as values, reject, frozen, unchanged, BINARY, INPLACE, ORDER, SCALARS, ARRAYS

Q = fractions.Fraction


def np():
    import numpy
    return numpy


class Model:
    """Values and unit of one quantity, the oracle's side."""
    def __init__(self, data, u):
        self.data, self.u = np().array(data, dtype=float), u

    def unit(self):
        return self.u


def near(v, q, m, label):
    got = np().array([float(i) for i in values(v, q)])
    want = m.data.ravel()
    v.prove(got.shape == want.shape, f'{label}: shape', lambda: f'{got.shape} {want.shape}')
    v.prove(bool(np().allclose(got, want, rtol=1e-9, atol=0, equal_nan=True)), f'{label}: values',
            lambda: f'{got} != {want}')
    G.check(v, q.unit, m.u, f'{label}: unit')


@unit('C05', 'history', ['core.measurable.Quantified.implement', 'core.physical.Array.__array_ufunc__',
                         'core.variable.Array.__array_ufunc__'], kind='bounded',
      bound='random histories of 8 operations on 3 quantities of one kind (scalars, vectors, arrays and variables of '
            '1-3 dimensions), starting from converted, sliced or copied quantities', samples=160, weight=4)
def history(v):
    N = np()
    kind = v.choice('kind', SCALARS + ARRAYS + ARRAYS)
    mod, cls = kind.split('.')
    c = v.attr(v.mod(f'core.{mod}'), cls)
    shape = () if kind in SCALARS else (v.choice('n', [1, 2, 3]),) if kind == 'physical.Vector' else \
        v.choice('shape', [(2,), (3,), (2, 3), (1, 2), (2, 1, 2)])
    rng = v.rng
    pool = []
    base = G.make(v, 'base')
    for i in range(3):
        u = base if rng.random() < .6 else G.make(v, f'u{i}', like=base if rng.random() < .6 else None)
        x = N.array([rng.choice([1.5, 2.0, -1.0, 3.0, 0.25, 7.0, -2.5, 4.0]) for _ in range(int(N.prod(shape)) or 1)])
        x = x.reshape(shape) if shape else float(x[0])
        raw = N.array(x)
        if kind in SCALARS:
            q = c(x, unit=G.arg(v, u))
        elif kind == 'variable.Quantity':
            q = c(x if rng.random() < .5 else x.tolist(), unit=G.arg(v, u), dimensions=[f'd{k}' for k in range(len(shape))])
        else:
            q = c(x if rng.random() < .5 else x.tolist(), unit=G.arg(v, u))
        if rng.random() < .3:
            q = c(q)
        pool.append((q, Model(raw, G.meaning(u))))
        v.prove(bool(N.array_equal(raw, N.array(x))), 'construction leaves the data alone')
    for step in range(8):
        i, j = rng.randrange(3), rng.randrange(3)
        (a, ma), (b, mb) = pool[i], pool[j]
        op = rng.choice(['add', 'sub', 'mul', 'truediv', 'num', 'pow', 'unary', 'convert', 'order', 'iadd', 'isub',
                         'imul', 'itruediv', 'inum', 'equal'])
        label = f'{kind} step {step} {op}'
        new = None
        same = G.equal(v, ma.u, mb.u)
        if op in BINARY or op[1:] in BINARY and op[0] == 'i':
            name = op if op in BINARY else op[1:]
            f = BINARY[name] if op in BINARY else INPLACE[name]
            if name in ('add', 'sub') and not same:
                reject(v, lambda: f(a, b), f'{label}: different units are rejected')
            elif max(abs(ma.u.a), abs(mb.u.a), abs(ma.u.b), abs(mb.u.b)) > 4:
                continue
            else:
                with N.errstate(all='ignore'):
                    r = v.call(lambda: f(a, b), label)
                    d = BINARY[name](ma.data, mb.data)
                u = ma.u if name in ('add', 'sub') else G.mul(ma.u, mb.u) if name == 'mul' else G.div(ma.u, mb.u)
                if not N.all(N.isfinite(d)) or N.any(N.abs(d) > 1e9) or N.any(d == 0) or N.any(N.abs(d) < 1e-9):
                    return
                new = (r, Model(d, u))
                if op in INPLACE and op not in BINARY or op[0] == 'i' and op not in BINARY:
                    pool[i] = new
                    if j == i:
                        b, mb = new
        elif op in ('num', 'inum'):
            n = rng.choice([2, 3.0, -1, 0.5, N.float64(4.0), True])
            if op == 'num':
                f, d = rng.choice([(lambda: a * n, ma.data * n), (lambda: n * a, n * ma.data), (lambda: a / n, ma.data / n)])
            else:
                f, d = rng.choice([(lambda: operator.imul(a, n), ma.data * n), (lambda: operator.itruediv(a, n), ma.data / n)])
            if isinstance(n, N.float64) and op == 'num' and kind in ('physical.Vector',):
                continue     # numpy scalars distribute over any sequence
            if isinstance(n, N.float64) and kind in SCALARS:
                n = float(n)
            r = v.call(f, label)
            new = (r, Model(d, ma.u))
            if op == 'inum':
                pool[i] = new
        elif op == 'pow':
            p = rng.choice([1, 2, -1, 3])
            if abs(ma.u.a * p) > 4 or abs(ma.u.b * p) > 4:
                continue
            r = v.call(lambda: a ** p, label)
            new = (r, Model(ma.data ** float(p), G.power(v, ma.u, Q(p))))
        elif op == 'unary':
            f = rng.choice([abs, operator.neg, operator.pos])
            new = (v.call(lambda: f(a), label), Model(f(ma.data), ma.u))
        elif op == 'convert':
            if ma.u.a in (0,) or ma.u.a != base.a or ma.u.b != base.b:
                continue
            w = G.make(v, f'w{step}', like=base)
            r = v.call(lambda: a[G.arg(v, w)], label)
            new = (r, Model(ma.data * (ma.u.k / w.k), G.meaning(w)))
        elif op == 'order':
            f = ORDER[rng.choice(list(ORDER))]
            if same:
                r = v.call(lambda: f(a, b), label)
                v.prove(bool(N.array_equal(N.array(r), f(ma.data, mb.data))), f'{label}: values')
            else:
                reject(v, lambda: f(a, b), f'{label}: different units are rejected')
        else:
            e = v.call(lambda: a == b, label)
            v.prove(bool(e) == bool(same and N.array_equal(ma.data, mb.data)) or
                    bool(N.allclose(ma.data, mb.data)), f'{label}: same values and unit')
        if new is not None:
            near(v, new[0], new[1], label)
            if op == 'convert' and new[0] is a:
                continue     # already in that unit: the same object, as documented
            pool[rng.randrange(3) if op[0] != 'i' else i] = new
        for k, (q, m) in enumerate(pool):
            near(v, q, m, f'{label}: bystander')


@unit('C05', 'mixed', ['core.metadata.Operation.supports', 'core.measurable.Quantified.implement'], kind='bounded',
      bound='every pair of kinds and every operator, random values and units', samples=400, weight=2)
def mixed(v):
    """Different kinds together: an error, or the right values and unit."""
    N = np()
    k1, k2 = v.choice('k1', SCALARS + ARRAYS), v.choice('k2', SCALARS + ARRAYS)
    u = G.make(v, 'u')
    w = u if v.choice('same', [0, 1]) else G.make(v, 'w', like=u if v.choice('dim', [0, 1]) else None)
    x, y = v.reals('x', 2, nonzero=True), v.reals('y', 2, nonzero=True)
    a, b = build(v, k1, x, u), build(v, k2, y, w)
    fa, fb = frozen(v, a), frozen(v, b)
    dx = N.array(x if k1 in ARRAYS else x[0])
    dy = N.array(y if k2 in ARRAYS else y[0])
    op = v.choice('op', list(BINARY) + list(ORDER) + ['pow'])
    label = f'{k1} {op} {k2}'
    f = BINARY.get(op) or ORDER.get(op) or operator.pow
    same = G.equal(v, G.meaning(u), G.meaning(w))
    try:
        r = f(a, b)
    except Exception:
        r = None
    if r is not None:
        if op == 'pow':
            v.prove(False, f'{label}: a quantity to a quantity is rejected')
        if op in ('add', 'sub') or op in ORDER:
            v.prove(same, f'{label}: different units are rejected', lambda: f'{u} {w} gave {r!r}')
        want = f(dx, dy)
        if op in ORDER:
            v.prove(bool(N.array_equal(N.array(r), want)), f'{label}: values', lambda: f'{r} {want}')
        else:
            got = N.array([float(i) for i in values(v, r)])
            v.prove(bool(N.allclose(got, N.array(want).ravel(), rtol=1e-9, atol=0)), f'{label}: values', lambda: f'{got} {want}')
            mu, mw = G.meaning(u), G.meaning(w)
            G.check(v, r.unit, {'mul': G.mul(mu, mw), 'truediv': G.div(mu, mw)}.get(op, mu), f'{label}: unit')
    unchanged(v, a, fa, label)
    unchanged(v, b, fb, label)
