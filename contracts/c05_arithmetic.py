"""C05: arithmetic on measured values carries data and units together."""
import fractions
import math
import operator

from pv.api import unit
from . import util_ghost as G

Q = fractions.Fraction
GHOST = {'core.metadata:Unit': G.factory}
ASSUMED = ['metadata.Unit obeys the contract of util_ghost (C04 checks the unit algebra, C03 the factors)']
TARGETS = ['core.measurable.Quantified.implement', 'core.algebraic.Quantity', 'core.metadata.Operation.apply',
           'core.metadata.Operation.supports', 'core.metadata.Operator.__call__', 'core.metadata.Operands.getall',
           'core.metadata.OperatorFactory.operations', 'core.metadata.OperatorFactory.check', 'core.metadata.consistent',
           'core.utilities.getattrval']
SCALARS = ['measurable.Quantity', 'measurable.Scalar', 'physical.Scalar']
ARRAYS = ['physical.Vector', 'physical.Array', 'variable.Quantity']
NUM = ('int', 'float')


class Rejected(Exception):
    pass


def numpy():
    import numpy
    return numpy


SIZED = ['physical.Array', 'variable.Quantity']    # arrays of any size


def values(v, q):
    """The values of a quantity, in its current unit."""
    name = type(q).__module__.split('.')[-1] + '.' + type(q).__name__
    if name in ('measurable.Quantity', 'measurable.Scalar', 'physical.Scalar'):
        d = q.data
        return list(d) if getattr(d, '__iter__', None) else [d]
    if name == 'physical.Vector':
        return list(q.data)
    return v.values(q)


def shape(x):
    return (len(x),) if isinstance(x, list) else tuple(x.shape)


def every(v, x):
    """All positions in the values x (an arbitrary one of an array of any size)."""
    return list(range(len(x))) if isinstance(x, list) else v.indices(x.shape)


def at(v, x, i):
    return x[i] if isinstance(x, list) else v.element(x, i)


def sizes(v, kind):
    if kind not in SIZED:
        return None
    return [v.size(f'n{k}') for k in range(v.choice('rank', [1, 2]))]


def build(v, kind, data, u):
    mod, cls = kind.split('.')
    c = v.attr(v.mod(f'core.{mod}'), cls)
    a = G.arg(v, u) if u is not None else None
    k = {} if u is None else {'unit': a}
    if kind in SCALARS:
        return c(data[0], **k)
    if kind == 'variable.Quantity':
        return c(copied(v, data), dimensions=['t', 'r'][:1 if isinstance(data, (list, tuple)) else len(data.shape)], **k)
    if kind == 'physical.Vector':
        return c(list(data), **k)
    return c(copied(v, data), **k)


def copied(v, data):
    return numpy().array(list(data)) if isinstance(data, (list, tuple)) else data.copy()


def flat(v, q):
    """The values of a quantity of known size, as a list."""
    if type(q).__name__ in ('Array', 'Quantity') and hasattr(q, '__array__'):
        return list(numpy().asarray(q).ravel())
    return values(v, q)


def draw(v, kind, tag, size=None, nonzero=False, positive=False):
    if kind in SIZED:
        return v.tensor(tag, size, nonzero=nonzero, positive=positive)
    n = 1 if kind in SCALARS else 2
    return v.reals(tag, n, nonzero=nonzero, positive=positive)


def frozen(v, q):
    x = values(v, q)
    return list(x) if isinstance(x, list) else x.copy(), G.read(v, q.unit)


def fits(v, got, want, label):
    if isinstance(got, list):
        v.prove(len(got) == shape(want)[0], label)
    else:
        v.shape(got, shape(want), label)


def unchanged(v, q, before, label):
    now = values(v, q)
    fits(v, now, before[0], f'{label}: same values')
    for i in every(v, before[0]):
        v.eq(at(v, now, i), at(v, before[0], i), f'{label}: same values')
    v.prove(G.equal(v, G.read(v, q.unit), before[1]), f'{label}: same unit')


def result(v, r, kind, x, want, wantunit, label):
    """A result like x with the values want(i)."""
    v.prove(type(r).__name__ == kind.split('.')[1], f'{label}: kind of result', lambda: f'{type(r)}')
    got = values(v, r)
    fits(v, got, x, f'{label}: shape')
    for i in every(v, x):
        v.eq(at(v, got, i), want(i), f'{label}: values')
    G.check(v, r.unit, wantunit, f'{label}: unit')


def reject(v, fn, label):
    """The operation must raise; whichever of the documented errors."""
    try:
        r = fn()
    except Exception as err:
        v.prove(True, label)
        return err
    v.prove(False, label, lambda: f'gave {r!r}')


BINARY = {'add': operator.add, 'sub': operator.sub, 'mul': operator.mul, 'truediv': operator.truediv}
INPLACE = {'add': operator.iadd, 'sub': operator.isub, 'mul': operator.imul, 'truediv': operator.itruediv}
ORDER = {'lt': operator.lt, 'le': operator.le, 'gt': operator.gt, 'ge': operator.ge}


def second(v, u):
    """A unit that is often the same as u."""
    if v.symbolic:
        return G.make(v, 'w')
    return u if v.choice('same unit', [1, 0]) else G.make(v, 'w', like=u if v.choice('same dimension', [1, 0]) else None)


def spec_binary(v, kind, name, inplace=False):
    u = G.make(v, 'u')
    w = second(v, u)
    n = sizes(v, kind)
    x = draw(v, kind, 'x', n)
    y = draw(v, kind, 'y', n, nonzero=name == 'truediv')
    a, b = build(v, kind, x, u), build(v, kind, y, w)
    fa, fb = frozen(v, a), frozen(v, b)
    f = BINARY[name]
    g = INPLACE[name] if inplace else f
    label = f'{kind} {name}' + (' in place' if inplace else '')
    mu, mw = G.meaning(u), G.meaning(w)
    if name in ('add', 'sub') and not G.equal(v, mu, mw):
        reject(v, lambda: g(a, b), f'{label}: different units are rejected')
        unchanged(v, a, fa, label)
        unchanged(v, b, fb, label)
        return
    r = v.call(lambda: g(a, b), f'{label}: is supported')
    want = {'add': mu, 'sub': mu, 'mul': G.mul(mu, mw), 'truediv': G.div(mu, mw)}[name]
    result(v, r, kind, x, lambda i: f(at(v, x, i), at(v, y, i)), want, label)
    if not inplace:
        unchanged(v, a, fa, f'{label}: left operand')
    unchanged(v, b, fb, f'{label}: right operand')


def spec_number(v, kind, name):
    """A quantity and a number."""
    u = G.make(v, 'u')
    x = draw(v, kind, 'x', sizes(v, kind), nonzero=True)
    n = v.real('n', nonzero=True)
    a = build(v, kind, x, u)
    fa = frozen(v, a)
    mu = G.meaning(u)
    label = f'{kind} {name}'
    if name == 'mul':
        r = v.call(lambda: a * n, label)
        result(v, r, kind, x, lambda i: at(v, x, i) * n, mu, label)
    elif name == 'rmul':
        r = v.call(lambda: n * a, label)
        result(v, r, kind, x, lambda i: n * at(v, x, i), mu, label)
    elif name == 'truediv':
        r = v.call(lambda: a / n, label)
        result(v, r, kind, x, lambda i: at(v, x, i) / n, mu, label)
    elif name == 'imul':
        r = v.call(lambda: operator.imul(a, n), label)
        return result(v, r, kind, x, lambda i: at(v, x, i) * n, mu, label)
    elif name == 'itruediv':
        r = v.call(lambda: operator.itruediv(a, n), label)
        return result(v, r, kind, x, lambda i: at(v, x, i) / n, mu, label)
    elif name in ('add', 'sub'):
        reject(v, lambda: BINARY[name](a, n), f'{label}: a quantity and a number')
        unchanged(v, a, fa, label)
        reject(v, lambda: INPLACE[name](a, n), f'{label}: a quantity and a number in place')
        unchanged(v, a, fa, label)
        reject(v, lambda: BINARY[name](n, a), f'{label}: a number and a quantity')
    elif name == 'rtruediv':
        reject(v, lambda: n / a, f'{label}: a number over a quantity')
    elif name == 'rpow':
        reject(v, lambda: 2.0 ** a, f'{label}: a number to a quantity')
    unchanged(v, a, fa, label)


def spec_power(v, kind):
    u = G.make(v, 'u')
    x = draw(v, kind, 'x', sizes(v, kind), positive=True)
    p = v.choice('p', [1, 2, -1, 3, 0.5, 2.0, -2])
    a = build(v, kind, x, u)
    fa = frozen(v, a)
    r = v.call(lambda: a ** p, f'{kind} power')
    q = Q(p)
    result(v, r, kind, x, lambda i: v.pow(at(v, x, i), p), G.power(v, G.meaning(u), q), f'{kind} power')
    unchanged(v, a, fa, f'{kind} power')
    b = build(v, kind, x, u)
    reject(v, lambda: a ** b, f'{kind} power: a quantity to a quantity')
    unchanged(v, a, fa, f'{kind} power')
    r = v.call(lambda: operator.ipow(a, p), f'{kind} power in place')
    result(v, r, kind, x, lambda i: v.pow(at(v, x, i), p), G.power(v, G.meaning(u), q), f'{kind} power in place')


def spec_unary(v, kind):
    u = G.make(v, 'u')
    x = draw(v, kind, 'x', sizes(v, kind))
    a = build(v, kind, x, u)
    fa = frozen(v, a)
    mu = G.meaning(u)
    for name, f in (('neg', operator.neg), ('pos', operator.pos), ('abs', abs)):
        r = v.call(lambda: f(a), f'{kind} {name}')
        result(v, r, kind, x, lambda i: f(at(v, x, i)), mu, f'{kind} {name}')
        unchanged(v, a, fa, f'{kind} {name}')
    if kind in ('measurable.Scalar', 'physical.Scalar'):
        for name, f in (('floor', math.floor), ('ceil', math.ceil), ('trunc', math.trunc)) if not v.symbolic else ():
            r = v.call(lambda: f(a), f'{kind} {name}')
            result(v, r, kind, x, lambda i: f(at(v, x, i)), mu, f'{kind} {name}')
        if not v.symbolic:
            r = v.call(lambda: round(a), f'{kind} round')
            result(v, r, kind, x, lambda i: round(at(v, x, i)), mu, f'{kind} round')
            v.eq(v.call(lambda: float(a), 'float'), x[0], f'{kind} float')
            v.eq(v.call(lambda: int(a), 'int'), int(x[0]), f'{kind} int')
            unchanged(v, a, fa, f'{kind} casts')


def nudge(y, f):
    """Change the last of the given values."""
    if hasattr(y, 'flat'):
        y.flat[-1] = f(float(y.flat[-1]))
    else:
        y[-1] = f(y[-1])


def spec_order(v, kind, name):
    u = G.make(v, 'u')
    w = second(v, u)
    n = sizes(v, kind)
    x, y = draw(v, kind, 'x', n), draw(v, kind, 'y', n)
    if not v.symbolic and (tie := v.choice('tie', [0, 0, 1, 2, 3])):
        y = x.copy()
        if tie > 1:
            nudge(y, lambda t: math.nextafter(t, math.inf if tie == 2 else -math.inf))
    a, b = build(v, kind, x, u), build(v, kind, y, w)
    fa, fb = frozen(v, a), frozen(v, b)
    f = ORDER[name]
    label = f'{kind} {name}'
    same = G.equal(v, G.meaning(u), G.meaning(w))
    if same:
        r = v.call(lambda: f(a, b), label)
        got = v.values(r) if kind in SIZED else list(r) if getattr(r, '__iter__', None) else [r]
        fits(v, got, x, f'{label}: shape')
        for i in every(v, x):
            v.prove(at(v, got, i) == f(at(v, x, i), at(v, y, i)), f'{label}: values')
    else:
        reject(v, lambda: f(a, b), f'{label}: different units are rejected')
    unchanged(v, a, fa, label)
    unchanged(v, b, fb, label)


def spec_equal(v, kind):
    u = G.make(v, 'u')
    w = second(v, u)
    n = sizes(v, kind)
    x, y = draw(v, kind, 'x', n), draw(v, kind, 'y', n)
    if not v.symbolic and v.choice('tie', [0, 1]):
        y = x.copy()
        # Nearly equal is not equal.
        if tail := v.choice('tail', [0, 0, 1, 1e-9, 1e-15]):
            nudge(y, lambda t: max(t + tail, math.nextafter(t, math.inf)))
    a, b = build(v, kind, x, u), build(v, kind, y, w)
    equal = v.and_(*[i == j for i, j in zip(x, y)]) if kind not in SIZED else v.every(x, y)
    same = v.and_(G.equal(v, G.meaning(u), G.meaning(w)), equal)
    e = v.call(lambda: a == b, f'{kind} equality')
    v.prove(same if e else v.not_(same), f'{kind} equality: same values and unit')
    n = v.call(lambda: a != b, f'{kind} inequality')
    v.prove(bool(n) != bool(e), f'{kind} inequality: the opposite of equality')


def _register():
    for kind in SCALARS + ARRAYS:
        k = kind.replace('.', '_')
        scalar = kind in SCALARS
        bound = 'none: all values and all units' if scalar else \
            'one or two axes of any size; all values and all units' if kind in SIZED else 'two elements; all values and all units'
        t = TARGETS + {'physical.Array': ['core.physical.Array.__array_ufunc__', 'core.physical.Array._ufunc_hook',
                                          'core.physical.Array._check_comparable', 'core.physical.Array._copy_with'],
                       'variable.Quantity': ['core.variable.Array.__array_ufunc__', 'core.variable.Quantity._ufunc_hook',
                                             'core.variable.Array._check_comparable', 'core.variable.Array._copy_with'],
                       }.get(kind, [f'core.{kind}'])
        kw = dict(stubs=GHOST, assumes=ASSUMED, bound=bound, weight=1, samples=60)
        for name in BINARY:
            unit('C05', f'{k}_{name}', t, **kw)(lambda v, kind=kind, name=name: spec_binary(v, kind, name))
            unit('C05', f'{k}_i{name}', t, **kw)(lambda v, kind=kind, name=name: spec_binary(v, kind, name, True))
        for name in ('mul', 'rmul', 'truediv', 'imul', 'itruediv', 'add', 'sub', 'rtruediv', 'rpow'):
            unit('C05', f'{k}_number_{name}', t, **kw)(lambda v, kind=kind, name=name: spec_number(v, kind, name))
        unit('C05', f'{k}_pow', t, **kw)(lambda v, kind=kind: spec_power(v, kind))
        unit('C05', f'{k}_unary', t, **kw)(lambda v, kind=kind: spec_unary(v, kind))
        for name in ORDER:
            unit('C05', f'{k}_{name}', t, **kw)(lambda v, kind=kind, name=name: spec_order(v, kind, name))
        unit('C05', f'{k}_eq', t, **kw)(lambda v, kind=kind: spec_equal(v, kind))


_register()
