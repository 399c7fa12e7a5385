"""C12: derived quantities follow their physical formulas."""
import itertools
import math

from pv.api import unit

PI = math.pi


# -- what is assumed of numpy and scipy ------------------------------------------
GRADIENT = 'numpy.gradient: second-order differences inside, first-order at the ends, for the given spacing (its documentation)'
SIMPSON = 'scipy.integrate.simpson, simps: some fixed function of the samples and coordinates along the axis'


def slopes(f, x):
    n = len(f)
    out = []
    for i in range(n):
        if i == 0:
            out.append((f[1] - f[0]) / (x[1] - x[0]))
        elif i == n - 1:
            out.append((f[n - 1] - f[n - 2]) / (x[n - 1] - x[n - 2]))
        else:
            hs, hd = x[i] - x[i - 1], x[i + 1] - x[i]
            out.append((hs * hs * f[i + 1] + (hd * hd - hs * hs) * f[i] - hd * hd * f[i - 1]) / (hs * hd * (hd + hs)))
    return out


def along(f, a, axis):
    """Apply f to every line of an array along an axis."""
    import numpy
    lines = numpy.moveaxis(a, axis, -1)
    out = numpy.empty(lines.shape[:-1], dtype=object)
    for i in numpy.ndindex(lines.shape[:-1]):
        r = numpy.empty((), dtype=object)
        out[i] = f(lines[i])
    return out


def use(v):
    """Put the contracts of numpy.gradient and scipy's integrals in place."""
    if not v.symbolic:
        return
    import numpy
    from pv import core, shims
    import z3

    from pv import tensor

    def gradient(f, *spacing, axis=None, **k):
        if isinstance(f, tensor.Tensor):
            return tensor.gradient(f, *spacing, axis=axis, **k)
        f = numpy.asarray(f, dtype=object)
        if k or axis is None and f.ndim > 1 or len(spacing) > 1:
            raise core.OutOfReach('numpy.gradient arguments')
        axis = -1 if axis is None else axis
        n = f.shape[axis]
        if n < 2:
            raise ValueError('Shape of array too small to calculate a numerical gradient')
        x = list(spacing[0]) if spacing and numpy.ndim(spacing[0]) else [i * (spacing[0] if spacing else 1) for i in range(n)]
        if len(x) != n:
            raise ValueError('when 1d, distances must match the length of the corresponding dimension')
        lines = numpy.moveaxis(f, axis, -1)
        out = numpy.empty(lines.shape, dtype=object)
        for i in numpy.ndindex(lines.shape[:-1]):
            out[i] = slopes(list(lines[i]), x)
        return numpy.moveaxis(out, -1, axis)

    def simpson(y, x=None, dx=None, axis=-1, even='avg'):
        if isinstance(y, tensor.Tensor):
            if x is None or dx is not None or even != 'avg':
                raise core.OutOfReach('arguments of simpson')
            return tensor.integral(y, x, axis)
        y = numpy.asarray(y, dtype=object)
        x = list(x)
        if len(x) != y.shape[axis]:
            raise ValueError('If given, length of x along axis must be the same as y.')
        return along(lambda line: integral(v, list(line), x), y, axis)[()]

    def blank(name):
        # Room for exact reals instead of floats.
        def f(shape, *a, **k):
            return getattr(numpy, name)(shape, dtype=object)
        return f

    space = shims._Space(shims.NUMPY, gradient=gradient, **{k: blank(k) for k in ('zeros', 'ones', 'empty')})
    v.patch('core.computed:numpy', space)
    real = v.attr(v.mod('core.computed'), 'integrate')
    v.patch('core.computed:integrate', shims._Space(real, simpson=simpson, simps=simpson))


def samples_integral(v, n, y, x):
    """The integral of n samples y(k) at x(k)."""
    if v.symbolic:
        from pv import tensor, core
        return tensor.simpson(n, lambda k: y(core.SymInt(k)), lambda k: x(core.SymInt(k)))
    return integral(v, [y(k) for k in range(n)], [x(k) for k in range(n)])


def integral(v, y, x):
    """The integral of the samples: opaque to the solver, scipy's at run time."""
    if v.symbolic:
        from pv import core
        import z3
        zs = [core.real(core.toz(i)) for i in list(y) + list(x)]
        f = z3.Function(f'simpson{len(y)}', *[z3.RealSort()] * (len(zs) + 1))
        return core.wrap(f(*zs))
    from scipy import integrate
    return float(integrate.simpson(list(y), list(x)))


def const(v, name):
    return float(v.mod('core.physical').Constants('mks')[name])


ACCEPTED = {'c': 2.99792458e8, 'mp': 1.67262192e-27, 'eV': 1.602176634e-19, 'au': 1.495978707e11}


@unit('C12', 'constants', ['core.computed.MKS'], kind='finite')
def constants(v):
    M = v.attr(v.mod('core.computed'), 'MKS')
    for k, x in ACCEPTED.items():
        v.eq(float(M[k]), x, 'the constant in SI units', rel=2e-5)
        v.eq(const(v, k), x, 'the constant in SI units', rel=2e-5)


def array(v, name, shape, **k):
    import numpy
    n = int(numpy.prod(shape, dtype=int))
    a = numpy.empty(n, dtype=object if v.symbolic else float)
    a[:] = [v.real(f'{name}{i}', **k) for i in range(n)]
    return a.reshape(shape)


def rising(v, name, n):
    import numpy
    xs = [v.real(f'{name}0', lo=0.01 if not v.symbolic else None, positive=True)]
    for i in range(1, n):
        xs.append(xs[-1] + v.real(f'{name} step{i}', lo=0.01 if not v.symbolic else None, hi=None if v.symbolic else 100, positive=True))
    a = numpy.empty(n, dtype=object if v.symbolic else float)
    a[:] = xs
    return a


def every(shape):
    return itertools.product(*map(range, shape))


def unchanged(v, arrays, before):
    for a, b in zip(arrays, before):
        v.prove(all(x is y for x, y in zip(a.ravel(), b)) if v.symbolic else list(a.ravel()) == b, 'the arguments are unchanged')


def check(v, fn, arrays, want, shape, label, rel=1e-9, abs_=1e-12, tol=None):
    """fn(*arrays)[i] == want(i) for every i of shape."""
    before = [list(a.ravel()) for a in arrays if hasattr(a, 'ravel')]
    r = v.call(lambda: fn(*arrays), 'the computation succeeds')
    v.prove(tuple(r.shape) == tuple(shape), 'the axes of the result', lambda: f'{r.shape} {shape}')
    for i in every(shape):
        v.eq(r[i], want(i), label, rel=rel, abs_=abs_, tol=tol)
    unchanged(v, [a for a in arrays if hasattr(a, 'ravel')], before)
    return r


def computed(v, name):
    return v.attr(v.mod('core.computed'), name)


SHAPES = [(1,), (2,), (2, 2), (1, 2, 1)]
T = lambda *n: [f'core.computed.{i}' for i in n]


# -- positions and magnitudes ------------------------------------------------------
def position(v, name, shape):
    use(v)
    r, t, p = array(v, 'r', shape), array(v, 'theta', shape), array(v, 'phi', shape)
    f = {'x': lambda i: r[i] * v.sin(t[i]) * v.cos(p[i]), 'y': lambda i: r[i] * v.sin(t[i]) * v.sin(p[i]), 'z': lambda i: r[i] * v.cos(t[i])}[name]
    check(v, computed(v, name), [r, t] if name == 'z' else [r, t, p], f, shape, f'the {name} component', abs_=1e-9)


def dot(a, b, i):
    return a[0][i] * b[0][i] + a[1][i] * b[1][i] + a[2][i] * b[2][i]


def triple(v, name, shape):
    return [array(v, f'{name}{c}', shape) for c in 'rtp']


def magnitude(v, name, shape):
    use(v)
    a = triple(v, 'a', shape)
    check(v, computed(v, name), a, lambda i: v.sqrt(dot(a, a, i)), shape, 'the length of the vector')


def product_magnitude(v, shape):
    use(v)
    b, w = triple(v, 'b', shape), triple(v, 'v', shape)
    check(v, computed(v, 'bv_mag'), b + w, lambda i: v.sqrt(dot(b, b, i)) * v.sqrt(dot(w, w, i)), shape, 'the product of the lengths')


def nonzero(v, a, shape):
    for i in every(shape):
        v.assume(dot(a, a, i) > (0 if v.symbolic else 1e-8))
        if not v.symbolic:
            v.assume(dot(a, a, i) < 1e10)


def parallel(v, shape):
    use(v)
    b, w = triple(v, 'b', shape), triple(v, 'v', shape)
    nonzero(v, b, shape)
    scale = 1.0 if v.symbolic else max(dot(w, w, i) for i in every(shape)) ** .5
    check(v, computed(v, 'v_para'), w + b, lambda i: dot(b, w, i) / v.sqrt(dot(b, b, i)), shape, 'the component along the field', abs_=1e-9 * scale)


def perpendicular(v, shape):
    use(v)
    b, w = triple(v, 'b', shape), triple(v, 'v', shape)
    nonzero(v, b, shape)
    f = computed(v, 'v_perp')
    rest = {}
    for i in every(shape):
        bb, ww, bw = dot(b, b, i), dot(w, w, i), dot(b, w, i)
        para = bw / v.sqrt(bb)
        rest[i] = v.sqrt(ww) ** 2 - para ** 2
        if v.symbolic:
            # Lagrange's identity: |b|^2 |v|^2 - (b.v)^2 = |b x v|^2 >= 0
            b1, b2, b3, w1, w2, w3 = (x[i] for x in b + w)
            lag = (b2 * w3 - b3 * w2) ** 2 + (b3 * w1 - b1 * w3) ** 2 + (b1 * w2 - b2 * w1) ** 2
            v.have(bb * ww - bw * bw == lag, 'identity of Lagrange')
            v.have(lag >= 0, 'squares are not negative')
            s, m = v.sqrt(bb), v.sqrt(ww)
            v.apply(lambda s, bb: ([s * s == bb, bb > 0], [v.not_(s == 0)]), 'a root is not zero', s, bb)
            v.apply(lambda m, ww, s, p, bb, lag: (
                [m * m == ww, s * s == bb, bb > 0, v.not_(s == 0), bb * ww - p * p == lag, lag >= 0],
                [m ** 2 - (p / s) ** 2 >= 0]), 'the square of the rest', m, ww, s, bw, bb, lag)
    r = v.call(lambda: f(*w, *b), 'the computation succeeds')
    v.prove(tuple(r.shape) == shape, 'the axes of the result')
    for i in every(shape):
        if v.symbolic:
            v.prove(v.and_(r[i] >= 0, r[i] * r[i] == rest[i]), 'the rest of the vector')
        else:
            ww, cross = dot(w, w, i), rest[i]
            want = max(cross, 0.0) ** .5
            v.prove(abs(float(r[i]) - want) <= 1e-7 * max(ww ** .5, 1e-9), 'the rest of the vector', lambda: f'{r[i]} {want}')


def angle(v, shape):
    use(v)
    b, w = triple(v, 'b', shape), triple(v, 'v', shape)
    nonzero(v, b, shape)
    nonzero(v, w, shape)
    f = computed(v, 'flow_angle')
    r = v.call(lambda: f(*b, *w), 'the computation succeeds')
    v.prove(tuple(r.shape) == shape, 'the axes of the result')
    for i in every(shape):
        c = v.sqrt(dot(b, b, i)) * v.sqrt(dot(w, w, i))
        if v.symbolic:
            b1, b2, b3, w1, w2, w3 = (x[i] for x in b + w)
            lag = (b2 * w3 - b3 * w2) ** 2 + (b3 * w1 - b1 * w3) ** 2 + (b1 * w2 - b2 * w1) ** 2
            bb, ww, bw = dot(b, b, i), dot(w, w, i), dot(b, w, i)
            v.lemma(bb * ww - bw * bw == lag, 'identity of Lagrange (also proved in perpendicular)')
            v.lemma(v.and_(c > 0, c * c == bb * ww), 'lengths of vectors that are not zero are positive, and so is their product')
            v.lemma(v.and_(bw <= c, -bw <= c), 'inequality of Cauchy (from the identity of Lagrange)')
        v.eq(v.cos(r[i]) * c, dot(b, w, i), 'the cosine of the angle', rel=1e-7, abs_=1e-7 * (1 if v.symbolic else c))
        v.prove(v.and_(r[i] >= 0, r[i] <= 3.1415926536), 'an angle between two vectors')


for shape in SHAPES:
    s = 'x'.join(map(str, shape))
    for n in 'xyz':
        unit('C12', f'{n}_{s}', T(n), bound=f'shape {shape}; all values', samples=30)(lambda v, n=n, s=shape: position(v, n, s))
    for n in ('b_mag', 'v_mag'):
        unit('C12', f'{n}_{s}', T(n), bound=f'shape {shape}; all values', samples=30)(lambda v, n=n, s=shape: magnitude(v, n, s))
for shape in SHAPES[:2]:
    s = 'x'.join(map(str, shape))
    unit('C12', f'bv_mag_{s}', T('bv_mag', 'b_mag', 'v_mag'), bound=f'shape {shape}; all values', samples=30)(lambda v, s=shape: product_magnitude(v, s))
    unit('C12', f'v_para_{s}', T('v_para', 'b_mag'), bound=f'shape {shape}; all values', samples=60)(lambda v, s=shape: parallel(v, s))
for shape in SHAPES[:1]:
    s = 'x'.join(map(str, shape))
    unit('C12', f'v_perp_{s}', T('v_perp', 'v_para', 'v_mag'), bound=f'shape {shape}; all values', samples=100)(lambda v, s=shape: perpendicular(v, s))
    unit('C12', f'flow_angle_{s}', T('flow_angle', 'bv_mag'), bound=f'shape {shape}; all values', samples=100)(lambda v, s=shape: angle(v, s))


@unit('C12', 'aligned', T('v_perp', 'v_para', 'flow_angle'), kind='bounded', bound='100 pairs of (anti)parallel vectors of random direction', samples=40)
def aligned(v):
    import numpy
    g = numpy.random.RandomState(v.rng.randrange(2 ** 31))
    shape = v.choice('shape', [(100,), (4, 5), ()])
    b = [g.uniform(-1, 1, shape) * 10.0 ** v.rng.randint(-9, 3) for _ in range(3)]
    k = v.choice('factor', [1.0, -1.0, 3.7, -0.1, 1e5])
    w = [k * x for x in b]
    size = numpy.sqrt(sum(x * x for x in w))
    perp, para, ang = computed(v, 'v_perp'), computed(v, 'v_para'), computed(v, 'flow_angle')
    v.prove((numpy.abs(perp(*w, *b)) <= 1e-6 * size).all(), 'nothing is left across the field', lambda: f'{perp(*w, *b)}')
    v.prove((numpy.abs(para(*w, *b) - math.copysign(1, k) * size) <= 1e-9 * size).all(), 'the whole vector is along the field')
    v.prove((numpy.abs(ang(*b, *w) - (0 if k > 0 else PI)) <= 1e-6).all(), 'the angle is zero or a half turn')


# -- time ----------------------------------------------------------------------------
def divergence(v, n, rest):
    use(v)
    rho, t = array(v, 'rho', (n,) + rest, positive=True), rising(v, 't', n)
    if not v.symbolic:
        v.assume(all(1e-6 < x < 1e6 for x in rho.ravel()))

    def log(x):
        if v.symbolic:
            from pv import core
            return core.uf('log', x)
        return math.log(x)
    lines = {i: slopes([log(rho[(k,) + i]) for k in range(n)], list(t)) for i in every(rest)}
    scale = 1.0 if v.symbolic else max([abs(x) for l in lines.values() for x in l] + [1e-9])
    check(v, computed(v, 'div_v'), [rho, t], lambda i: -1.0 * lines[i[1:]][i[0]], (n,) + rest, 'minus the rate of change of the logarithm of the density in time', rel=1e-6, abs_=1e-6 * scale)


for n, rest in [(2, ()), (3, ()), (2, (2,)), (3, (2,))]:
    s = 'x'.join(map(str, (n,) + rest))
    unit('C12', f'div_v_{s}', T('div_v'), bound=f'shape {(n,) + rest}; all values', samples=40, assumes=[GRADIENT])(lambda v, n=n, rest=rest: divergence(v, n, rest))


def ratio(v, shape):
    use(v)
    rho = array(v, 'rho', shape, positive=True)
    check(v, computed(v, 'density_ratio'), [rho], lambda i: rho[i] / rho[(0,) + i[1:]], shape, 'the density relative to the first time', rel=1e-9)


for shape in [(1,), (3,), (2, 2), (2, 2, 2)]:
    unit('C12', 'density_ratio_' + 'x'.join(map(str, shape)), T('density_ratio'), bound=f'shape {shape}; all values', samples=30)(lambda v, s=shape: ratio(v, s))


def total(v, shape):
    use(v)
    f, t = array(v, 'flux', shape), rising(v, 't', shape[0])
    check(v, computed(v, 'fluence'), [f, t], lambda i: integral(v, [f[(k,) + i] for k in range(shape[0])], list(t)), shape[1:], 'the integral over time', rel=1e-7, abs_=1e-6)


for shape in [(2,), (3, 2), (2, 2, 1)]:
    unit('C12', 'fluence_' + 'x'.join(map(str, shape)), T('fluence'), bound=f'shape {shape}; all values', samples=40, assumes=[SIMPSON])(lambda v, s=shape: total(v, s))


# -- particles -------------------------------------------------------------------------
def momentum(v, e, m, c):
    """Momentum of a particle of kinetic energy e."""
    return v.sqrt((e + m * c * c) * (e + m * c * c) - (m * c * c) * (m * c * c)) / c


def rigid(v, shape, scalars):
    use(v)
    c = const(v, 'c')
    e = array(v, 'E', shape, positive=True)
    mk = dict(positive=True)
    m = v.real('m', **mk) if scalars else array(v, 'm', shape, **mk)
    q = v.real('q', nonzero=True) if scalars else array(v, 'q', shape, nonzero=True)
    if not v.symbolic:
        # kinetic energies of the order of the rest energy
        m = m * 1e-27
        e = e * 1e-27 * c * c
        v.assume(all(1e-4 < x / y < 1e4 for x, y in zip((e / (m * c * c)).ravel(), [1.0] * e.size)))
    f = computed(v, 'rigidity')
    r = v.call(lambda: f(e, m, q), 'the computation succeeds')
    v.prove(tuple(r.shape) == tuple(shape), 'the axes of the result', lambda: f'{r.shape}')
    for i in every(shape):
        mi, qi = (m, q) if scalars else (m[i], q[i])
        v.eq(r[i], momentum(v, e[i], mi, c) / qi, 'relativistic momentum per charge', rel=1e-6)


for shape in [(1,), (2,), (2, 2)]:
    for sc in (True, False):
        unit('C12', 'rigidity_' + 'x'.join(map(str, shape)) + ('' if sc else '_each'), T('rigidity'), bound=f'energies of shape {shape}; all values', samples=40)(
            lambda v, s=shape, sc=sc: rigid(v, s, sc))


def path(v, rs, es):
    use(v)
    c, au, mev = const(v, 'c'), const(v, 'au'), 1e6 * const(v, 'eV')
    r = array(v, 'r', rs, positive=True)
    e = array(v, 'E', es, positive=True)
    m, q, l0 = v.real('m', positive=True), v.real('q', positive=True), v.real('lambda0')
    a, b = v.real('radial power', lo=-3, hi=3), v.real('rigidity power', lo=-3, hi=3)
    if not v.symbolic:
        r, e, m = r * au, e * mev, m * 1e-27
        q = q * 1e-19
        v.assume(all(1e-4 < x < 1e4 for x in list((r / au).ravel()) + list((e / mev).ravel()) + [m / 1e-27]))
    f = computed(v, 'mean_free_path')
    out = v.call(lambda: f(r, e, m, q, a, b, l0), 'the computation succeeds')
    v.prove(tuple(out.shape) == rs + es, 'positions by energies', lambda: f'{out.shape}')
    ref = momentum(v, mev, m, c) / q
    for i in every(rs):
        for j in every(es):
            want = v.pow(r[i] / au, a) * v.pow(momentum(v, e[j], m, c) / q / ref, b) * l0
            v.eq(out[i + j], want, 'powers of radius and rigidity times the reference path', rel=1e-5)


for rs, es in [((1,), (1,)), ((2,), (2,)), ((1, 2), (1, 2))]:
    unit('C12', 'mean_free_path_' + 'x'.join(map(str, rs + es)), T('mean_free_path', 'rigidity'), bound=f'radii {rs}, energies {es}; all values', samples=40)(
        lambda v, rs=rs, es=es: path(v, rs, es))


def differential(v, shape):
    use(v)
    mp = const(v, 'mp')
    e = array(v, 'E', shape[-1:], positive=True)
    f = array(v, 'f', shape)
    check(v, computed(v, 'flux'), [e, f], lambda i: 2 * e[i[-1]] / (mp * mp) * f[i], shape, 'twice the energy times the distribution per squared mass', rel=1e-9, abs_=0.0, tol=1e-9)


for shape in [(1,), (2,), (2, 2), (1, 2, 2)]:
    unit('C12', 'flux_' + 'x'.join(map(str, shape)), T('flux'), bound=f'shape {shape}; all values', samples=30)(lambda v, s=shape: differential(v, s))


def isotropic(v, shape):
    use(v)
    f = array(v, 'f', shape)
    n = shape[-1]
    check(v, computed(v, 'isotropic_distribution'), [f], lambda i: sum(f[i + (k,)] for k in range(n)) / n, shape[:-1], 'the mean over pitch angles', abs_=1e-9 * (1 if v.symbolic else max(1e-9, abs(f).max())))


for shape in [(2,), (2, 3), (1, 2, 2), (2, 1, 2, 2)]:
    unit('C12', 'isodist_' + 'x'.join(map(str, shape)), T('isotropic_distribution'), bound=f'shape {shape}; all values', samples=30)(lambda v, s=shape: isotropic(v, s))


def density(v, shape, mean, species=None):
    """With `species`, the speeds differ per species (the axis before energy)."""
    import numpy
    use(v)
    mp = const(v, 'mp')
    n = shape[-1]
    rows = [rising(v, f'v{j}', n) for j in range(species or 1)]
    s = numpy.array(rows, dtype=rows[0].dtype) if species else rows[0]
    f = array(v, 'f', shape, positive=True)
    ds = [slopes(list(r), list(range(n))) for r in rows]
    row = lambda i: i[-1] if species else 0
    top = lambda i: sum(rows[row(i)][k] ** 4 * f[i + (k,)] * ds[row(i)][k] for k in range(n))
    low = lambda i: sum(rows[row(i)][k] ** 2 * f[i + (k,)] * ds[row(i)][k] for k in range(n))
    if mean:
        want = lambda i: mp * top(i) / low(i) / 2
    else:
        want = lambda i: mp * top(i)
    check(v, computed(v, 'average_energy' if mean else 'energy_density'), [s, f], want, shape[:-1], 'the moment of the distribution over speed', rel=1e-9, abs_=0.0, tol=1e-9)


for shape in [(2,), (3,), (2, 2)]:
    for mean in (False, True):
        n = 'average_energy' if mean else 'energy_density'
        unit('C12', f'{n}_' + 'x'.join(map(str, shape)), T(n, 'energy_density'), bound=f'shape {shape}; all values', samples=30, assumes=[GRADIENT])(
            lambda v, s=shape, m=mean: density(v, s, m))
for shape in [(1, 2), (2, 2), (1, 2, 2), (2, 1, 1, 3)]:
    for mean in (False, True):
        n = 'average_energy' if mean else 'energy_density'
        unit('C12', f'{n}_species_' + 'x'.join(map(str, shape)), T(n, 'energy_density'), bound=f'shape {shape}, speeds of each species; all values', samples=30, assumes=[GRADIENT])(
            lambda v, s=shape, m=mean: density(v, s, m, s[-2]))


# -- integral flux ----------------------------------------------------------------------
def above(v, f, e, m, log):
    """Integral of one spectrum above m: power law at the lower end."""
    n = len(e)
    if m < e[0]:
        return integral(v, f, e)
    i = max(k for k in range(n) if e[k] <= m)
    beta = log(f[i + 1] / f[i]) / log(e[i + 1] / e[i])
    return integral(v, [f[i] * v.pow(m / e[i], beta)] + list(f[i + 1:]), [m] + list(e[i + 1:]))


def intflux(v, shape, k):
    import numpy
    use(v)
    ns, ne = shape[-2:]
    energies = numpy.stack([rising(v, f'e{s}_', ne) for s in range(ns)])
    f = array(v, 'f', shape, positive=True)
    if not v.symbolic:
        v.assume(all(1e-6 < x < 1e6 for x in f.ravel()))
    top = min(row[ne - 1] for row in energies)
    ms = [v.real(f'm{i}', positive=True) for i in range(k)]
    if not v.symbolic:
        ms = [m if m < top else top * v.rng.random() for m in ms]
        if v.bool('sampled'):
            ms[0] = v.rng.choice([x for x in energies.ravel() if x < top] or [ms[0]])
    for m in ms:
        v.assume(m > 1e-300)
        for row in energies:
            v.assume(m < row[ne - 1])

    def log(x):
        if v.symbolic:
            from pv import core
            return core.uf('log', x)
        return math.log(x)
    if v.symbolic:
        # ln x = 0 only at 1
        from pv import core
        import z3
        for row in energies:
            for a, b in zip(row, row[1:]):
                q = b / a
                v.lemma(core.wrap(core.UF['log'](z3.simplify(core.real(core.toz(q))))) > 0, 'the logarithm of a number above one is positive')
    F = computed(v, 'integral_flux')
    before = list(energies.ravel()), list(f.ravel())
    r = v.call(lambda: F(energies, f, *ms), 'the computation succeeds')
    v.prove(tuple(r.shape) == shape[:-1] + (k,), 'one value for each minimum energy in place of the energies', lambda: f'{r.shape}')
    for i in every(shape[:-1]):
        for j, m in enumerate(ms):
            want = above(v, list(f[i]), list(energies[i[-1]]), m, log)
            v.eq(r[i + (j,)], want, 'the integral above the minimum energy', rel=1e-6, abs_=1e-9)
    unchanged(v, [energies, f], before)


for shape, k in [((1, 1, 1, 2), 1), ((1, 1, 1, 3), 1), ((1, 2, 1, 2), 1), ((1, 1, 2, 2), 1), ((1, 1, 1, 2), 2)]:
    unit('C12', 'integral_flux_' + 'x'.join(map(str, shape)) + f'_{k}', T('integral_flux', '_interpolate'), bound=f'flux {shape}, {k} minimum energies below the highest; all values',
         samples=60, assumes=[SIMPSON])(lambda v, s=shape, k=k: intflux(v, s, k))


@unit('C12', 'integral_flux_large', T('integral_flux', '_interpolate'), kind='bounded', bound='up to 3 times, 3 shells, 3 species, 12 energies, 3 minimum energies', samples=150)
def intflux_large(v):
    import numpy
    g = numpy.random.RandomState(v.rng.randrange(2 ** 31))
    nt, nr, ns, ne = v.int('nt', 1, 3), v.int('nr', 1, 3), v.int('ns', 1, 3), v.int('ne', 3, 12)
    scale = 10.0 ** v.rng.randint(-16, 2)
    energies = numpy.cumsum(g.uniform(.2, 3, (ns, ne)), axis=1) * scale
    if v.bool('spread'):
        energies = energies * numpy.array([[1.0], [3.0], [0.4]])[:ns]
    f = 10.0 ** g.uniform(-3, 3, (nt, nr, ns, ne))
    top = energies[:, -1].min()
    ms = []
    for _ in range(v.int('k', 1, 3)):
        c = v.rng.random()
        m = g.uniform(0, top)
        if c < .25:
            m = energies.min() * v.rng.random()
        elif c < .5:
            m = v.rng.choice([x for x in energies.ravel() if x < top] or [m])
        ms.append(float(m))
    args = (energies, f)
    squeezed = ns == 1 and v.bool('squeezed')
    if squeezed:
        args = (energies[0], f[:, :, 0, :] if v.bool('both') else f)
    r = v.call(lambda: computed(v, 'integral_flux')(*args, *ms), 'the computation succeeds')
    v.prove(r.shape == (nt, nr, ns, len(ms)), 'one value for each minimum energy in place of the energies', lambda: f'{r.shape}')
    for i in every((nt, nr, ns)):
        for j, m in enumerate(ms):
            want = above(v, list(f[i]), list(energies[i[-1]]), m, math.log)
            v.eq(r[i + (j,)], want, 'the integral above the minimum energy', rel=1e-7)


# -- acceleration ------------------------------------------------------------------------
def accel(v, nt, nr, ns, ne):
    use(v)
    vel = triple(v, 'v', (nt, nr))
    nonzero(v, vel, (nt, nr))
    sp = array(v, 'speed', (ns, ne), positive=True)
    ang = array(v, 'angle', (nt, nr))
    mfp = array(v, 'mfp', (nt, nr, ns, ne), positive=True)
    k = v.real('kper_kpar', lo=0.05, hi=1)
    kxx = lambda i, r: v.cos(ang[i, r]) * v.cos(ang[i, r]) + k * (v.sin(ang[i, r]) * v.sin(ang[i, r]))
    ahead = lambda r: min(r + 1, nr - 1)
    behind = lambda r: max(r - 1, 0)
    size = lambda i, r: v.sqrt(dot(vel, vel, (i, r)))
    x = lambda i, r, s, e: mfp[i, r, s, e] * (kxx(i, r) * sp[s, e] / 3) / size(i, r)
    if v.symbolic:
        for i in range(nt):
            for r in range(nr):
                v.lemma(size(i, r) > 0, 'the length of a vector that is not zero is positive')
                v.lemma(kxx(i, r) > 0, 'cos^2 + k sin^2 is positive for k > 0 (cos^2 + sin^2 = 1)')
                for s in range(ns):
                    for e in range(ne):
                        v.lemma(x(i, r, s, e) > 0, 'products and quotients of positive numbers are positive')
    f = computed(v, 'acceleration_rate')
    out = v.call(lambda: f(*vel, sp, ang, mfp, k), 'the computation succeeds')
    v.prove(tuple(out.shape) == (nt, nr, ns, ne), 'times, shells, species and energies', lambda: f'{out.shape}')
    for i, r, s, e in every((nt, nr, ns, ne)):
        a, b = (i, ahead(r)), (i, behind(r))
        v12 = sum(c[a] * c[b] for c in vel)
        v1 = size(*a)
        inner = 1 - v12 / (v1 * v1)
        dv = v1 * v.ite(inner >= 0, inner, 0 - inner)
        dx = 3 * (x(i, ahead(r), s, e) + x(i, behind(r), s, e))
        v.eq(out[i, r, s, e], dv / dx, 'change of the flow over the diffusion length of its neighbours', rel=1e-6, abs_=1e-9 * (1 if v.symbolic else abs(v1 / dx)))


for n in [(1, 1, 1, 1), (1, 2, 1, 1), (1, 3, 1, 1)]:
    unit('C12', 'acceleration_' + 'x'.join(map(str, n)), T('acceleration_rate', '_ahead', '_behind', 'v_mag'), bound=f'shape {n}; all values', samples=40)(lambda v, n=n: accel(v, *n))
unit('C12', 'acceleration_large', T('acceleration_rate', '_ahead', '_behind', 'v_mag'), kind='bounded', bound='up to 3 times, 5 shells, 2 species, 3 energies', samples=30)(
    lambda v: accel(v, v.int('nt', 1, 3), v.int('nr', 1, 5), v.int('ns', 1, 2), v.int('ne', 1, 3)))


# -- coordinates -----------------------------------------------------------------------
EPS = 2.220446049250313e-16
COORD = ['core.numerical.xyz2rtp', 'core.numerical.rtp2xyz', 'core.numerical.zero_floor']


def wrapped(v, n, kind):
    """Three coordinates as scalars, arrays or one triple."""
    import numpy
    out = []
    for c in 'abc':
        xs = v.reals(c, n)
        if kind == 'scalar':
            out.append(xs[0])
        else:
            a = numpy.empty(n, dtype=object if v.symbolic else float)
            a[:] = xs
            out.append(a)
    return out


def item(a, i, kind):
    if kind == 'scalar':
        return a.item() if hasattr(a, 'item') and hasattr(a, 'dtype') else a
    return a[i]


def to_xyz(v, n, kind, packed):
    N = v.mod('core.numerical')
    r, t, p = wrapped(v, n, kind)
    args = ((r, t, p),) if packed else (r, t, p)
    x, y, z = v.call(lambda: N.rtp2xyz(*args), 'the transform succeeds')
    for i in range(n):
        ri, ti, pi = (item(a, i, kind) for a in (r, t, p))
        for got, want, c in ((x, ri * v.sin(ti) * v.cos(pi), 'x'), (y, ri * v.sin(ti) * v.sin(pi), 'y'), (z, ri * v.cos(ti), 'z')):
            g = item(got, i, kind)
            tol = EPS if v.symbolic else EPS + 1e-9 * abs(ri)
            v.prove(v.and_(g - want <= tol, want - g <= tol), f'the {c} component', lambda: f'{g} {want}')
            if v.symbolic:
                v.prove(v.or_(g == want, g == 0), f'the {c} component or a small one rounded to zero')


def to_rtp(v, n, kind, packed):
    N = v.mod('core.numerical')
    x, y, z = wrapped(v, n, kind)
    keep = [list(a) if kind != 'scalar' else a for a in (x, y, z)]
    args = ((x, y, z),) if packed else (x, y, z)
    r, t, p = v.call(lambda: N.xyz2rtp(*args), 'the transform succeeds')
    v.prove(all((list(a) if kind != 'scalar' else a) == k if not v.symbolic else True for a, k in zip((x, y, z), keep)), 'the arguments are unchanged')
    for i in range(n):
        xi, yi, zi = (item(a, i, kind) for a in (x, y, z))
        ri, ti, pi = (item(a, i, kind) for a in (r, t, p))
        say = lambda: f'{(xi, yi, zi)} -> {(ri, ti, pi)}'
        s = v.sqrt(xi * xi + yi * yi + zi * zi)
        tol = 1e-9 * (1 if v.symbolic else max(1e-6, s))
        if s < EPS:
            v.prove(v.and_(ri == 0, ti == 0), 'at the origin: no radius and no polar angle', say)
            continue
        v.eq(ri, s, 'the radius', rel=1e-9)
        v.eq(ri * v.cos(ti), zi, 'the polar angle', rel=1e-9, abs_=tol)
        v.prove(v.and_(ti >= 0, ti <= 3.1415926536), 'the polar angle is between the poles', say)
        if v.symbolic:
            from pv import core
            import z3
            zp = core.real(core.toz(pi))
            back = core.wrap(core.UF['arctan2'](core.real(core.toz(yi)), core.real(core.toz(xi))))
            v.prove(v.or_(pi == back, pi == back + 2 * PI), 'the azimuth of (x, y), by whole turns', say)
            v.prove(v.implies(back >= 0, pi == back), 'a positive azimuth is kept', say)
            v.prove(v.implies(back < 0, pi == back + 2 * PI), 'a negative azimuth is turned once', say)
        else:
            h = math.hypot(xi, yi)
            v.prove(abs(h * math.cos(pi) - xi) <= 1e-9 * max(h, 1e-6) and abs(h * math.sin(pi) - yi) <= 1e-9 * max(h, 1e-6), 'the azimuth', say)
            v.prove(0 <= pi <= 2 * PI, 'the azimuth is within one turn from zero', say)
            if h == 0:
                v.prove(pi in (0, PI), 'no azimuth on the axis', say)


for kind, n in (('scalar', 1), ('array', 1), ('array', 2)):
    for packed in (False, True):
        s = f'{kind}{n}' + ('_packed' if packed else '')
        unit('C12', f'rtp2xyz_{s}', COORD[1:], bound=f'{n} points; all values', samples=40)(lambda v, n=n, k=kind, p=packed: to_xyz(v, n, k, p))
        unit('C12', f'xyz2rtp_{s}', COORD[:1], bound=f'{n} points; all values', samples=60)(lambda v, n=n, k=kind, p=packed: to_rtp(v, n, k, p))


@unit('C12', 'coordinates', COORD, kind='bounded', bound='random points of any octant, axis or plane; arrays of up to 3 axes', samples=300)
def coordinates(v):
    import numpy
    N = v.mod('core.numerical')
    shape = v.choice('shape', [(), (1,), (5,), (2, 3), (2, 2, 2)])
    g = numpy.random.RandomState(v.rng.randrange(2 ** 31))
    scale = 10.0 ** v.rng.randint(-3, 12)
    xyz = [numpy.where(g.uniform(size=shape) < .25, 0.0, g.uniform(-1, 1, shape)) * scale for _ in range(3)]
    if v.bool('whole'):
        xyz = [g.randint(-2, 3, shape) for _ in range(3)]
    if shape == () and v.bool('plain'):
        xyz = [float(a) for a in xyz]
    rtp = v.call(lambda: N.xyz2rtp(*xyz) if v.bool('apart') else N.xyz2rtp(tuple(xyz)), 'to spherical')
    back = v.call(lambda: N.rtp2xyz(*rtp) if v.bool('apart again') else N.rtp2xyz(rtp), 'to cartesian')
    size = numpy.sqrt(sum(numpy.asarray(a, dtype=float) ** 2 for a in xyz))
    for a, b in zip(xyz, back):
        v.prove(numpy.shape(b) == shape and (numpy.abs(numpy.asarray(a) - b) <= 1e-9 * size + 1e-15).all(), 'there and back is the same point', lambda: f'{xyz} -> {rtp} -> {back}')
    r, t, p = rtp
    v.prove((numpy.abs(r - size) <= 1e-12 * size + 1e-15).all(), 'the length is kept')
    v.prove((numpy.asarray(t) >= 0).all() and (numpy.asarray(t) <= PI).all() and (numpy.asarray(p) >= 0).all() and (numpy.asarray(p) <= 2 * PI).all(), 'angles in their ranges', lambda: f'{rtp}')


@unit('C12', 'coordinate_arguments', COORD, kind='finite')
def coordinate_arguments(v):
    N = v.mod('core.numerical')
    for f in (N.xyz2rtp, N.rtp2xyz):
        v.raises(N.MissingArgsError, lambda: f(), 'no coordinates')
        v.raises(N.ArgsNumberError, lambda: f(1.0, 2.0), 'two coordinates')
        v.raises(N.ArgsNumberError, lambda: f(1.0, 2.0, 3.0, 4.0), 'four coordinates')
    v.prove(tuple(N.xyz2rtp(1.0, 0.0, 0.0)) == (1.0, PI / 2, 0.0), 'documented example')
    v.prove(tuple(N.xyz2rtp(0.0, 0.0, 1.0)) == (1.0, 0.0, 0.0), 'documented example')
    v.prove(tuple(N.xyz2rtp((0.0, 0.0, 1.0))) == (1.0, 0.0, 0.0), 'documented example')
    v.prove(tuple(N.rtp2xyz(1.0, 0.5 * PI, 0)) == (1.0, 0.0, 0.0), 'documented example')
    v.prove(tuple(N.rtp2xyz((1.0, 0, 0.5 * PI))) == (0.0, 0.0, 1.0), 'documented example')
    for x in (0.0, 1e-17, -1e-17, 1.0, -2.5):
        v.prove(N.zero_floor(x) == (0.0 if abs(x) < EPS else x), 'a small number is rounded to zero')


# -- methods and quantities ---------------------------------------------------------------
METHOD = ['core.computed.Method', 'core.computed.Quantity']


def probe(b, e, a, *more):
    return b, e, a, more


@unit('C12', 'method', METHOD, kind='bounded', bound='arguments of every kind in every order', samples=150)
def method(v):
    import numpy
    C, V, P = v.mod('core.computed'), v.mod('core.variable'), v.mod('core.physical')
    seen = {}

    def first(a, b, c):
        seen.update(a=a, b=b, c=c)
        return numpy.asarray(b) * 2.0

    def second(a, b, *c):
        seen.update(a=a, b=b, c=c)
        return numpy.asarray(a) * 1.0
    variadic = v.bool('variadic')
    given, plain = {}, {}
    for name in 'abc':
        if variadic and name == 'c':
            n = v.int('n', 0, 3)
            given['c'] = [P.Scalar(v.rng.randint(1, 9) * 1.0, unit='J') for _ in range(n)]
            plain['c'] = tuple(float(s) for s in given['c'])
        elif v.choice('kind', ['array', 'number']) == 'array' or name == ('a' if variadic else 'b'):
            a = numpy.array([v.rng.randint(1, 9) * 1.0 for _ in range(3)])
            given[name] = V.Quantity(a, unit='m', dimensions=['x'])
            plain[name] = a
        else:
            given[name] = P.Scalar(v.rng.randint(1, 9) * 1.0, unit='m')
            plain[name] = float(given[name])
    m = C.Method(second if variadic else first, removed='time', added=['q'])
    v.prove(tuple(m.parameters) == ('a', 'b', 'c'), 'the names of the arguments')
    shuffled = list(given)
    v.rng.shuffle(shuffled)
    deps = {k: given[k] for k in shuffled}
    if v.bool('extra'):
        deps['other'] = P.Scalar(1.0, unit='m')
    q = C.Quantity(m, dimensions=['x'], unit='J')
    r = v.call(lambda: q(**deps), 'a quantity can be computed')
    for k in 'abc':
        v.prove(numpy.array_equal(seen[k], plain[k]), 'every argument receives the values of its own quantity', lambda: f'{k}: {seen} {plain}')
    want = plain['a'] if variadic else 2 * plain['b']
    v.prove(numpy.array_equal(numpy.array(r), want) and str(r.unit) == 'J' and tuple(r.dimensions) == ('x',), 'the computed values, unit and axes')
    v.prove(dict(m) == {'removed': 'time', 'added': ['q']} and len(m) == 2, 'information about the method')
    v.raises(KeyError, lambda: m['unknown'], 'unknown information is an error')
    v.raises(KeyError, lambda: m.compute(a=given['a']), 'a missing argument is an error')


REGISTERED = {
    'x': (), 'y': (), 'z': (), 'b_mag': (), 'v_mag': (), 'bv_mag': (), 'flow_angle': (), 'v_para': (), 'v_perp': (), 'div_v': (), 'density_ratio': (), 'rigidity': (),
    'mean_free_path': (), 'acceleration_rate': (), 'energy_density': ('energy', None), 'average_energy': ('energy', None), 'isotropic_distribution': ('mu', None),
    'flux': (), 'fluence': ('time', None), 'integral_flux': ('energy', 'minimum energy'),
}


@unit('C12', 'registered', ['core.computed.registry', 'core.computed.REGISTRY'], kind='finite')
def registered(v):
    C = v.mod('core.computed')
    R = v.mod('core.reference')
    keys = set(C.registry)
    v.prove(set(REGISTERED) <= keys, 'every derived quantity is registered', lambda: f'{set(REGISTERED) - keys}')
    for k, axes in REGISTERED.items():
        d = C.registry[k]
        v.prove(d['method'] is getattr(C, k), 'under the name of its function')
        v.prove((d.get('removed'), d.get('added')) == (axes or (None, None)), 'with the axes that it removes and adds', lambda: f'{k} {d}')
        for alias in R.ALIASES.find(k, [k]):
            v.prove(C.REGISTRY[alias]['method'] is getattr(C, k), 'and under its aliases')
