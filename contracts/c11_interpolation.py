"""C11: interpolation is exact at samples and linear between them."""
import itertools

from pv.api import unit

APPLY = ['core.interpolation.apply', 'core.interpolation._apply_interp1d', 'core.interpolation.Restriction', 'core.interpolation.restrict_coordinate']
ASSUMES = ['scipy.interpolate.interp1d(x, y, axis=0)(t) is the linear interpolant between the neighbours of t among distinct x, and a ValueError outside them or for fewer than two']


# -- the assumed contract of scipy's interp1d -----------------------------------
def stub(v):
    import numpy
    from pv import core, seq
    import z3

    def linear(t, x0, x1, y0, y1):
        return y0 + (y1 - y0) * ((t - x0) / (x1 - x0))

    class interp1d:
        def __init__(self, x, y, kind='linear', axis=-1, **k):
            if kind != 'linear' or k.get('fill_value') is not None or k.get('bounds_error') is False:
                raise core.OutOfReach('interp1d options')
            self.x, self.y, self.axis = x, y, axis

        def __call__(self, t):
            x, y = self.x, self.y
            if isinstance(x, seq.Abstract):
                return self.unbounded(x, y, t)
            n = len(x)
            if n < 2:
                raise ValueError('too few values')
            y = numpy.moveaxis(numpy.asarray(y, dtype=object), self.axis, 0)
            if y.shape[0] != n:
                raise ValueError('x and y arrays must be equal in length along interpolation axis.')
            for i in range(1, n):
                if not x[i - 1] < x[i]:
                    raise core.OutOfReach('interp1d of values out of order')
            if t < x[0] or t > x[n - 1]:
                raise ValueError('beyond the interpolation range')
            for i in range(1, n):
                if i == n - 1 or t <= x[i]:
                    flat = [linear(t, x[i - 1], x[i], a, b) for a, b in zip(y[i - 1].ravel(), y[i].ravel())] if y.ndim > 1 \
                        else [linear(t, x[i - 1], x[i], y[i - 1], y[i])]
                    if y.ndim == 1:
                        return flat[0]
                    out = numpy.empty(len(flat), dtype=object)
                    out[:] = flat
                    return out.reshape(y.shape[1:])

        def unbounded(self, x, y, t):
            c = core.ctx()
            if c.branch(x.n != y.n) or c.branch(x.n < 2):
                raise ValueError('too few values')
            z = core.real(core.toz(t))
            if c.branch(z3.Or(z < x.at(0), z > x.at(x.n - 1))):
                raise ValueError('beyond the interpolation range')
            k = z3.Int(c.name('k'))
            c.add(z3.And(k >= 0, k + 1 < x.n, x.at(k) <= z, z <= x.at(k + 1), x.at(k) < x.at(k + 1)))
            r = z3.Real(c.name('interpolated'))
            c.add((r - y.at(k)) * (x.at(k + 1) - x.at(k)) == (y.at(k + 1) - y.at(k)) * (z - x.at(k)))
            return core.wrap(r)
    return interp1d


def use(v):
    if v.symbolic:
        v.patch('core.interpolation:interp1d', stub(v))


def increasing(v, name, n):
    """n real numbers in strictly increasing order."""
    xs = [v.real(f'{name}0')]
    for i in range(1, n):
        xs.append(xs[-1] + v.real(f'{name} step{i}', lo=1e-3 if not v.symbolic else None, positive=True))
    return xs


def array(v, xs, shape):
    import numpy
    a = numpy.empty(len(xs), dtype=object if v.symbolic else float)
    a[:] = xs
    return a.reshape(shape)


def expected(v, x, y, t, edges):
    """The value at t of the samples y at x: None if t is outside and has none."""
    n = len(x)
    if t < x[0]:
        return y[0] if edges else None
    if t > x[n - 1]:
        return y[n - 1] if edges else None
    for i in range(n):
        if t == x[i]:
            return y[i]
    for i in range(n - 1):
        if t < x[i + 1]:
            return y[i] + (y[i + 1] - y[i]) * ((t - x[i]) / (x[i + 1] - x[i]))


def compare(v, r, want, label, scale=1.0):
    v.eq(r, want, label, rel=1e-7, abs_=1e-7 * scale)


# -- any number of samples ------------------------------------------------------
@unit('C11', 'samples_any_number', APPLY, assumes=ASSUMES, samples=200)
def any_number(v):
    use(v)
    I = v.mod('core.interpolation')
    x = v.array('reference', low=1, increasing='strictly')
    n = v.length(x)
    y = v.array('array', low=1)
    if v.symbolic:
        v.assume(v.length(y) == n)
    else:
        import numpy
        m = min(n, v.length(y))
        x, y, n = x[:m], y[:m], m
    t = v.real('target')
    r = v.call(lambda: I.apply(y, x, [t], axis=0), 'interpolation to one coordinate succeeds')
    v.prove(len(r) == 1, 'one value per coordinate')
    r = r[0]
    last = n - 1
    at = lambda a, i: v.at(a, i)
    say = lambda: f'{list(x)} {list(y)} {t} -> {r}'
    tiny = (lambda a, b: a == b) if v.symbolic else (lambda a, b: abs(a - b) <= 1e-7 * max([1.0] + [abs(float(q)) for q in y]))
    v.prove(v.forall(n, lambda j: v.implies(at(x, j) == t, tiny(r, at(y, j)))), 'a sampled coordinate gives its sample', say)
    if v.symbolic:
        v.prove(v.forall(n - 1, lambda j: v.implies(v.and_(at(x, j) < t, t < at(x, j + 1)),
                                                    (r - at(y, j)) * (at(x, j + 1) - at(x, j)) == (at(y, j + 1) - at(y, j)) * (t - at(x, j)))),
                'between two samples: the straight line', say)
    else:
        for j in range(n - 1):
            if x[j] < t < x[j + 1]:
                v.prove(tiny(r, y[j] + (y[j + 1] - y[j]) * ((t - x[j]) / (x[j + 1] - x[j]))), 'between two samples: the straight line', say)
    v.prove(v.implies(t < at(x, 0), tiny(r, at(y, 0))), 'before the first sample: the first', say)
    v.prove(v.implies(t > at(x, last), tiny(r, at(y, last))), 'after the last sample: the last', say)


# -- one-dimensional reference, any dimensions of the data -----------------------
def flat_spec(v, n, rest, k, axis):
    import numpy
    use(v)
    I = v.mod('core.interpolation')
    x = increasing(v, 'x', n)
    size = n * int(numpy.prod(rest, dtype=int))
    ys = v.reals('y', size)
    a = array(v, ys, (n,) + rest)
    ref = array(v, x, (n,))
    ts = [v.real(f't{i}') for i in range(k)]
    if not v.symbolic and n > 1 and v.bool('inside'):
        ts = [x[0] + (x[-1] - x[0]) * v.rng.random() for _ in ts]
    outside = any(t < x[0] or t > x[n - 1] for t in ts)
    run = lambda: I.apply(a, ref, ts, axis=axis)
    if outside and axis is None:
        if n > 1:
            v.raises(ValueError, run, 'nothing is known outside the samples')
        return
    r = v.call(run, 'interpolation succeeds')
    v.prove(tuple(r.shape) == (k,) + rest, 'the axis holds the requested coordinates, others are kept', lambda: f'{r.shape}')
    for i, t in enumerate(ts):
        for where in itertools.product(*map(range, rest)):
            want = expected(v, x, [a[(j,) + where] for j in range(n)], t, axis is not None)
            compare(v, r[(i,) + where], want, 'the value at the coordinate, of the same position', 100.0)
    v.prove(all(p is q for p, q in zip(a.ravel(), ys)) if v.symbolic else bool((a.ravel() == ys).all()), 'the data are unchanged')


for n, rest, k in [(1, (), 1), (2, (), 1), (3, (), 1), (3, (), 2), (4, (), 1), (2, (2,), 1), (3, (2,), 1), (2, (2, 2), 1), (2, (1,), 2), (3, (1, 2), 1)]:
    for axis in (0, None):
        name = 'x'.join(map(str, (n,) + rest))
        unit('C11', f'flat_{name}_to_{k}' + ('' if axis == 0 else '_whole'), APPLY, bound=f'{n} samples of shape {rest}, {k} coordinates; all values', assumes=ASSUMES,
             samples=25)(lambda v, n=n, rest=rest, k=k, axis=axis: flat_spec(v, n, rest, k, axis))


# -- two-dimensional reference: each row has coordinates of its own --------------
def rows_spec(v, m, n, rest, k, axis):
    import numpy
    use(v)
    I = v.mod('core.interpolation')
    xs = [increasing(v, f'x{i}_', n) for i in range(m)]
    ref = array(v, [x for row in xs for x in row], (m, n))
    size = m * n * int(numpy.prod(rest, dtype=int))
    ys = v.reals('y', size)
    a = array(v, ys, (m, n) + rest)
    ts = [v.real(f't{i}') for i in range(k)]
    if not v.symbolic:
        lo, hi = max(x[0] for x in xs), min(x[-1] for x in xs)
        how = v.choice('where', ['as is', 'inside', 'sample'])
        if how == 'inside' and lo < hi:
            ts = [lo + (hi - lo) * v.rng.random() for _ in ts]
        elif how == 'sample':
            ts = [v.rng.choice(v.rng.choice(xs)) for _ in ts]
    run = lambda: I.apply(a, ref, ts, axis=axis)
    out = [t for t in ts if any(t < x[0] or t > x[n - 1] for x in xs)]
    if out and n > 1:
        # Some row has no neighbours on both sides: an error, or the end of the row.
        try:
            r = run()
        except ValueError:
            return
    else:
        r = v.call(run, 'interpolation succeeds')
    v.prove(tuple(r.shape) == (m, k) + rest, 'the axis holds the requested coordinates, others are kept', lambda: f'{r.shape}')
    for i in range(m):
        for j, t in enumerate(ts):
            for where in itertools.product(*map(range, rest)):
                want = expected(v, xs[i], [a[(i, l) + where] for l in range(n)], t, True)
                compare(v, r[(i, j) + where], want, 'the value at the coordinate of the same row', 100.0)


for m, n, rest, k in [(1, 1, (), 1), (1, 2, (), 1), (2, 2, (), 1), (2, 2, (2,), 1), (1, 3, (), 1), (2, 2, (), 2), (2, 3, (), 1), (3, 2, (), 1)]:
    for axis in (1, None):
        name = 'x'.join(map(str, (m, n) + rest))
        unit('C11', f'rows_{name}_to_{k}' + ('' if axis == 1 else '_whole'), APPLY, bound=f'{m} rows of {n} samples of shape {rest}, {k} coordinates; all values', assumes=ASSUMES,
             samples=25)(lambda v, m=m, n=n, rest=rest, k=k, axis=axis: rows_spec(v, m, n, rest, k, axis))


# -- larger data ------------------------------------------------------------------
@unit('C11', 'large', APPLY, kind='bounded', bound='up to 12 samples, 4 rows, 3 further axes and 6 coordinates', samples=600)
def large(v):
    import numpy
    I = v.mod('core.interpolation')
    g = numpy.random.RandomState(v.rng.randrange(2 ** 31))
    n = v.int('n', 2, 12)
    m = v.int('m', 1, 4) if v.bool('rows') else 0
    rest = v.choice('rest', [(), (1,), (3,), (2, 3), (1, 2, 2), (n,)])
    scale = 10.0 ** v.rng.randint(-8, 12)
    shape = (m, n) if m else (n,)
    ref = numpy.cumsum(g.uniform(0.1, 2, shape), axis=-1) * scale
    if v.bool('negative'):
        ref = ref - 5 * scale
    a = g.uniform(-1, 1, shape + rest) * 10.0 ** v.rng.randint(-5, 5)
    lo, hi = (ref[:, 0].max(), ref[:, -1].min()) if m else (ref[0], ref[-1])
    if lo > hi:
        return
    k = v.int('k', 1, 6)
    ts = []
    for _ in range(k):
        t = g.uniform(lo, hi)
        if v.rng.random() < .4:
            s = ref.ravel()[g.randint(ref.size)]
            t = s if lo <= s <= hi else t
        elif v.rng.random() < .2:
            t = v.rng.choice([lo, hi])
        ts.append(float(t))
    given = v.choice('as', [list, tuple, numpy.array])(ts)
    axis = v.choice('axis', [None, 1 if m else 0] + ([] if rest else [-1]))
    before = (a.copy(), ref.copy())
    r = v.call(lambda: I.apply(a, ref, given, axis=axis) if axis is not None or v.bool('explicit') else I.apply(a, ref, given), 'interpolation succeeds')
    v.prove((a == before[0]).all() and (ref == before[1]).all() and list(given) == ts, 'the arguments are unchanged')
    want = (m, k) + rest if m else (k,) + rest
    v.prove(r.shape == want, 'the axis holds the requested coordinates, others are kept', lambda: f'{r.shape} {want}')
    size = numpy.abs(a).max()
    for j, t in enumerate(ts):
        for i in range(m or 1):
            x = ref[i] if m else ref
            y = (a[i] if m else a).reshape(n, -1)
            got = (r[i, j] if m else r[j]).reshape(-1)
            for c in range(y.shape[1]):
                good = numpy.interp(t, x, y[:, c])
                v.prove(abs(got[c] - good) <= 1e-9 * size, 'the linear interpolant at the coordinate', lambda: f'{got[c]} {good} {t}')
                if t in x:
                    v.prove(abs(got[c] - y[list(x).index(t), c]) <= 1e-12 * size, 'a sampled coordinate gives its sample')


@unit('C11', 'beyond', APPLY, kind='bounded', bound='up to 8 samples; one coordinate outside the samples', samples=150)
def beyond(v):
    import numpy
    I = v.mod('core.interpolation')
    g = numpy.random.RandomState(v.rng.randrange(2 ** 31))
    n = v.int('n', 1, 8)
    ref = numpy.cumsum(g.uniform(0.1, 2, n))
    a = g.uniform(-1, 1, (n, 2, 1))
    up = v.bool('up')
    t = ref[-1] + 1 if up else ref[0] - 1
    r = v.call(lambda: I.apply(a, ref, [t], axis=0), 'interpolation succeeds')
    v.prove(r.shape == (1, 2, 1) and (r[0] == a[-1 if up else 0]).all(), 'outside the samples: the nearest end')
    rows = numpy.stack([ref, ref * 1.0])
    b = numpy.stack([a, a + 1])
    r = v.call(lambda: I.apply(b, rows, [t], axis=1), 'interpolation succeeds')
    v.prove(r.shape == (2, 1, 2, 1) and (r[:, 0] == b[:, -1 if up else 0]).all(), 'outside the samples of every row: the nearest end')
    if n > 1:
        v.raises(ValueError, lambda: I.apply(a, ref, [t]), 'without a restriction: an error')


# -- restriction -------------------------------------------------------------------
@unit('C11', 'restriction', ['core.interpolation.Restriction'], kind='bounded', bound='arrays of up to 4 axes', samples=150)
def restriction(v):
    import numpy
    I = v.mod('core.interpolation')
    shape = v.choice('shape', [(5,), (3, 4), (4, 3), (2, 3, 4), (3, 2, 2, 3)])
    a = numpy.arange(int(numpy.prod(shape))).reshape(shape)
    axis = v.choice('axis', [None] + list(range(-len(shape), len(shape))))
    along = -1 if axis is None else axis
    n = shape[along]
    lo = v.rng.randrange(n)
    picks = v.choice('picks', [range(lo, v.rng.randint(lo + 1, n)), [v.rng.randrange(n) for _ in range(v.rng.randint(1, 3))]])
    R = I.Restriction(lambda p, q=0: p, picks, q=1)
    r = v.call(lambda: R.apply(a, axis=axis) if axis is not None else R.apply(a), 'a restriction applies')
    v.prove(numpy.array_equal(r, numpy.take(a, list(picks), axis=along)), 'the elements of the restricted indices')
