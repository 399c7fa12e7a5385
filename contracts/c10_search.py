"""C10: nearest and bounding searches return the true extremum."""
import decimal
import fractions
import itertools
import math

from pv.api import unit

NEAR = ['core.numerical.find_nearest']
BOUNDS = ['core.numerical.get_bounding_indices', 'core.numerical.find_1d_indices']


def distance(v, x, t):
    return v.ite(x >= t, x - t, t - x)


# -- nearest value: arrays of any length --------------------------------------
def nearest_spec(v, bound):
    N = v.mod('core.numerical')
    a = v.array('values', low=1)
    n = v.length(a)
    t = v.real('target')
    r = v.call(lambda: N.find_nearest(a, t, bound=bound), 'a search of a non-empty array succeeds')
    i = r.index
    v.prove(v.and_(i >= 0, i < n), 'the index is one of the array', lambda: f'{r}')
    v.prove(v.at(a, i) == r.value, 'the value is the one at the index', lambda: f'{list(a)} {t} -> {r}')
    say = lambda: f'{list(a)} {t} {bound!r} -> {r}'
    if bound is None:
        ok = lambda x: True
    elif bound == 'lower':
        ok = lambda x: x >= t
    else:
        ok = lambda x: x <= t
    best = distance(v, r.value, t)
    if bound is None:
        v.prove(v.forall(n, lambda j: best <= distance(v, v.at(a, j), t)), 'no value is nearer', say)
        v.prove(v.forall(i, lambda j: best < distance(v, v.at(a, j), t)), 'the first of the nearest', say)
        return
    possible = v.exists(n, lambda j: ok(v.at(a, j)))
    v.prove(v.implies(possible, ok(r.value)), 'the value satisfies the bound if one does', say)
    v.prove(v.forall(n, lambda j: v.implies(v.and_(possible, ok(v.at(a, j))), best <= distance(v, v.at(a, j), t))), 'no value within the bound is nearer', say)
    v.prove(v.forall(i, lambda j: v.implies(v.and_(possible, ok(v.at(a, j))), best < distance(v, v.at(a, j), t))), 'the first of the nearest within the bound', say)
    v.prove(v.implies(v.not_(possible), v.forall(n, lambda j: best <= distance(v, v.at(a, j), t))), 'no value within the bound: the nearest of all', say)


for b in (None, 'lower', 'upper'):
    unit('C10', f'nearest_{b}', NEAR, samples=300)(lambda v, b=b: nearest_spec(v, b))


@unit('C10', 'nearest_empty', NEAR, kind='bounded', bound='empty arrays', samples=3)
def nearest_empty(v):
    N = v.mod('core.numerical')
    for e in ([], ()):
        for b in (None, 'lower', 'upper'):
            v.raises(Exception, lambda: N.find_nearest(e, 1.0, bound=b), 'nothing is nearest in an empty array')


# -- bounding indices: non-decreasing arrays of any length --------------------
def bounding_spec(v, increasing, direct):
    N = v.mod('core.numerical')
    a = v.array('values', low=1, increasing=increasing)
    n = v.length(a)
    t = v.real('target')
    if direct:
        f = v.attr(N, 'find_1d_indices')
        lower, upper = v.call(lambda: f(a, t), 'a search of a non-empty array succeeds')
    else:
        lower, upper = v.call(lambda: N.get_bounding_indices(a, t), 'a search of a non-empty array succeeds')
    if not v.symbolic:
        lower, upper = int(lower), int(upper)
    say = lambda: f'{list(a)} {t} -> {lower}, {upper}'
    v.prove(v.and_(lower >= 0, lower < n, upper >= 0, upper < n), 'the indices are ones of the array', say)
    x, y = v.at(a, lower), v.at(a, upper)
    below = v.exists(n, lambda j: v.at(a, j) <= t)
    above = v.exists(n, lambda j: v.at(a, j) >= t)
    v.prove(v.implies(below, x <= t), 'the lower value is not above the target', say)
    v.prove(v.implies(above, y >= t), 'the upper value is not below the target', say)
    v.prove(v.forall(n, lambda j: v.implies(v.and_(below, v.at(a, j) <= t), v.at(a, j) <= x)), 'the lower value is the greatest such', say)
    v.prove(v.forall(n, lambda j: v.implies(v.and_(above, v.at(a, j) >= t), v.at(a, j) >= y)), 'the upper value is the least such', say)
    v.prove(v.implies(v.not_(below), v.and_(lower == 0, upper == 0)), 'a target below the array is bounded by its first element', say)
    v.prove(v.implies(v.not_(above), v.and_(lower == n - 1, upper == n - 1)), 'a target above the array is bounded by its last element', say)
    if increasing == 'strictly':
        v.prove(v.or_(upper == lower, upper == lower + 1), 'the indices are equal or adjacent', say)


for inc in ('weakly', 'strictly'):
    unit('C10', f'bounding_{inc}', BOUNDS, samples=250)(lambda v, i=inc: bounding_spec(v, i, False))
    unit('C10', f'bounding_1d_{inc}', BOUNDS[1:], samples=100)(lambda v, i=inc: bounding_spec(v, i, True))


# -- the rest of the domain: any shape, type and axis ---------------------------
def exact(x):
    return fractions.Fraction(x.item() if hasattr(x, 'item') else x)


@unit('C10', 'nearest_any', NEAR, kind='bounded', bound='shapes of up to 4 axes and 24 elements; signed, unsigned and floating types; nested sequences', samples=1500)
def nearest_any(v):
    import numpy
    N = v.mod('core.numerical')
    shape = v.choice('shape', [(1,), (2,), (5,), (12,), (1, 1), (2, 3), (3, 2), (4, 1), (1, 4), (2, 2, 2), (2, 3, 4), (3, 1, 2), (2, 1, 2, 3)])
    dtype = v.choice('dtype', ['f8', 'f4', 'i8', 'i4', 'i2', 'i1', 'u1', 'u2', 'u4', 'u8', 'list', 'nested'])
    spread = v.choice('spread', [2, 10, 100])
    size = int(numpy.prod(shape))
    xs = [v.rng.randint(0 if dtype[0] == 'u' else -spread, spread) for _ in range(size)]
    if dtype == 'f8' and v.bool('scaled'):
        s = v.choice('scale', [10.0 ** v.rng.randint(-20, 20), 1e18])
        xs = [x * s + v.rng.choice([0, 0, s / 3]) for x in xs]
    a = numpy.array(xs, dtype=dtype if dtype[0] in 'fiu' else None).reshape(shape)
    given = a if dtype[0] in 'fiu' else a.tolist()
    if dtype == 'list' and v.bool('tuple'):
        given = tuple(given)
    kind = v.choice('target', ['member', 'between', 'beyond', 'random'])
    flat = a.ravel()
    if kind == 'member':
        t = flat[v.rng.randrange(size)].item()
    elif kind == 'between':
        t = (flat[v.rng.randrange(size)].item() + flat[v.rng.randrange(size)].item()) / 2
    elif kind == 'beyond':
        t = max(flat.tolist()) + 5 if v.bool('up') else min(flat.tolist()) - 5
    else:
        t = v.rng.uniform(-spread, spread)
    bound = v.choice('bound', [None, 'lower', 'upper'])
    before = a.copy()
    r = v.call(lambda: N.find_nearest(given, t, bound) if v.bool('positional') else N.find_nearest(given, t, bound=bound), 'a search succeeds')
    v.prove((numpy.asarray(given) == before).all(), 'the array is unchanged')
    index = r.index
    say = lambda: f'{a!r} {t!r} {bound!r} -> {r}'
    if len(shape) == 1:
        v.prove(isinstance(index, (int, numpy.integer)), 'the index into one dimension is an integer', say)
        position = (int(index),)
    else:
        v.prove(isinstance(index, tuple) and len(index) == len(shape), 'the index has one entry per dimension', say)
        position = tuple(int(i) for i in index)
    v.prove(all(0 <= i < n for i, n in zip(position, shape)), 'the index is one of the array', say)
    v.prove(a[position] == r.value, 'the value is the one at the index', say)
    v.prove(r == (r.index, r.value) and tuple(r._fields) == ('index', 'value'), 'a named pair')
    ok = [bound is None or (exact(x) >= exact(t) if bound == 'lower' else exact(x) <= exact(t)) for x in flat]
    if not any(ok):
        ok = [True] * size
    at = int(numpy.ravel_multi_index(position, shape))
    v.prove(ok[at], 'the value satisfies the bound if one does', say)
    d = [abs(exact(x) - exact(t)) for x in flat]
    least = min(d[i] for i in range(size) if ok[i])
    slack = exact(1e-12) * max(map(abs, [exact(t)] + [exact(x) for x in flat])) if dtype[0] != 'i' or not isinstance(t, int) else 0
    if dtype == 'f4':
        slack *= 10 ** 6
    v.prove(d[at] - least <= slack, 'no value within the bound is nearer', say)
    if slack == 0 or sum(1 for i in range(size) if ok[i] and d[i] - least <= slack) == 1 or len({xs[i] for i in range(size) if ok[i] and d[i] - least <= slack}) == 1:
        v.prove(at == next(i for i in range(size) if ok[i] and d[i] == least) or slack and d[at] != least, 'the first of the nearest', say)


@unit('C10', 'nearest_large', NEAR, kind='bounded', bound='integers near the limits of their type', samples=200)
def nearest_large(v):
    import numpy
    N = v.mod('core.numerical')
    dtype = v.choice('dtype', ['i1', 'i2', 'i4', 'u1', 'u2', 'u4'])
    info = numpy.iinfo(dtype)
    pool = [info.min, info.max, info.min + 1, info.max - 1, info.min // 2, info.max // 2, 0, 1]
    xs = [v.rng.choice(pool) for _ in range(v.int('n', 1, 5))]
    a = numpy.array(xs, dtype=dtype)
    t = v.rng.choice(pool)
    t = v.choice('as', [int, float, a.dtype.type])(t)
    r = v.call(lambda: N.find_nearest(a, t), 'a search succeeds')
    d = [abs(x - int(t)) for x in xs]
    v.prove(int(r.index) == d.index(min(d)) and int(r.value) == xs[int(r.index)], 'the first of the nearest', lambda: f'{a!r} {t!r} -> {r}')


@unit('C10', 'bounding_any', BOUNDS, kind='bounded', bound='shapes of up to 4 axes, each axis; sorted along the axis', samples=800)
def bounding_any(v):
    import numpy
    N = v.mod('core.numerical')
    shape = v.choice('shape', [(1,), (4,), (7,), (1, 1), (2, 3), (3, 2), (4, 1), (2, 2, 2), (2, 3, 4), (3, 1, 2), (2, 1, 2, 3)])
    size = int(numpy.prod(shape))
    spread = v.choice('spread', [3, 10, 1000])
    whole = v.bool('whole')
    xs = [v.rng.randint(-spread, spread) if whole else v.rng.uniform(-spread, spread) for _ in range(size)]
    axis = v.choice('axis', [None] + list(range(-len(shape), len(shape))))
    along = -1 if axis is None else axis
    a = numpy.sort(numpy.array(xs).reshape(shape), axis=along)
    t = v.rng.choice([v.rng.choice(xs), v.rng.uniform(-spread, spread), -spread - 1, spread + 1])
    given = v.choice('as', [lambda x: x, lambda x: x.tolist(), lambda x: x.copy(order='F')])(a)
    args = {} if axis is None and v.bool('omit') else {'axis': axis if axis is None else v.choice('axis type', [int, numpy.int64])(axis)}
    if v.bool('whole target'):
        t = int(t)
    r = v.call(lambda: N.get_bounding_indices(given, t, **args), 'a search succeeds')
    want = list(shape)
    want[along] = 2
    v.prove(r.shape == tuple(want), 'the axis holds two indices, others are kept', lambda: f'{r.shape} {shape} {axis}')
    lines = numpy.moveaxis(a, along, -1).reshape(-1, shape[along])
    pairs = numpy.moveaxis(r, along, -1).reshape(-1, 2)
    for line, (lower, upper) in zip(lines, pairs):
        v.prove(lower == int(lower) and upper == int(upper), 'indices are whole')
        lower, upper = int(lower), int(upper)
        say = lambda: f'{line} {t} -> {lower}, {upper}'
        below = [x for x in line if x <= t]
        above = [x for x in line if x >= t]
        if not below:
            v.prove((lower, upper) == (0, 0), 'a target below the array is bounded by its first element', say)
        elif not above:
            v.prove((lower, upper) == (len(line) - 1,) * 2, 'a target above the array is bounded by its last element', say)
        else:
            v.prove(line[lower] == max(below) and line[upper] == min(above), 'the bounding values', say)
            if len(set(line.tolist())) == len(line):
                v.prove(upper - lower == (0 if t in line else 1), 'equal or adjacent', say)


# -- conversion to a number ---------------------------------------------------
CAST = ['core.numerical.cast']


class Opaque:
    pass


def read(text):
    """The number that a text denotes, independently of the code."""
    for t in (int, float, complex):
        try:
            return t(text)
        except ValueError:
            pass
    return None


@unit('C10', 'cast', CAST, kind='bounded', bound='numbers of every type, texts of up to 8 characters, other objects', samples=800)
def cast(v):
    import numpy
    N = v.mod('core.numerical')
    case = v.choice('case', ['number', 'int', 'float', 'complex', 'text', 'other'])
    strict = v.choice('strict', [None, True, False])
    k = {} if strict is None else {'strict': strict}
    if case == 'number':
        x = v.choice('x', [0, 1, -5, 0.0, 1.5, -2e300, 1j, 2 + 3j, True, False, float('inf'), fractions.Fraction(1, 3), decimal.Decimal('1.5'),
                           numpy.float64(2.5), numpy.int32(4), numpy.uint8(7), numpy.complex64(1j), 10 ** 30])
        v.prove(v.call(lambda: N.cast(x, **k), 'a number is accepted') is x, 'a number is returned as it is')
        return
    if case == 'int':
        n = v.rng.choice([0, 1, -1, 7, 12345, -99, 10 ** 25])
        x, want = v.rng.choice(['', ' ']) + v.rng.choice([str(n), f'{n:+d}']) + v.rng.choice(['', ' ', '\n']), n
    elif case == 'float':
        f = v.rng.choice([0.0, 1.5, -2.25, 1e10, -3e-7, 0.1, 123456.789])
        x, want = v.rng.choice(['', ' ']) + v.rng.choice([repr(f), f'{f:e}', f'{f:+}']) + v.rng.choice(['', ' ']), None
        want = float(x)
    elif case == 'complex':
        c = v.rng.choice([1j, 1 + 2j, -0.5 - 3j, 1e3 + 1e-3j])
        x, want = v.rng.choice([repr(c), str(c).strip('()'), f' {c} ']), c
    elif case == 'text':
        x = ''.join(v.rng.choice('0123456789.+-ejab _xn') for _ in range(v.rng.randint(0, 8)))
        want = read(x)
    else:
        x = v.choice('x', [None, [], [1], (1,), {}, {'a': 1}, Opaque(), object, 'cm', '1 cm', '', ' ', '1/2', '0x10', 'one', '--1', '1,5', slice(1)])
        want = None
    if want is None:
        if strict is False:
            v.prove(v.call(lambda: N.cast(x, **k), 'not strict: no error') is None, 'not strict: nothing for what is not a number', lambda: f'{x!r}')
        else:
            v.raises(TypeError, lambda: N.cast(x, **k), 'what is not a number is an error')
        return
    r = v.call(lambda: N.cast(x, **k), 'a numeric text is accepted')
    v.prove(type(r) is type(want) and (r == want or r != r and want != want), 'the number that the text denotes', lambda: f'{x!r} -> {r!r}, not {want!r}')
