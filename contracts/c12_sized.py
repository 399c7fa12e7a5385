"""C12: derived quantities of arrays of any size along each axis."""
import math

from pv.api import unit

from contracts.c12_formulas import GRADIENT, SIMPSON, T, computed, const, momentum, samples_integral, use


def sizes(v, *names, low=1):
    return tuple(v.size(n, low=low, hi=4) for n in names)


def run(v, fn, arrays, others, shape, want, label, rel=1e-9, abs_=1e-12, tol=None, order=None):
    """fn(*arrays, *others)[i] == want(i) for every index i; the arrays stay as they are."""
    probes = [(a, [(i, v.element(a, i)) for i in v.indices(a.shape)]) for a in arrays]
    args = list(arrays) + list(others)
    r = v.call(lambda: fn(*[args[k] for k in order] if order else args), 'the computation succeeds')
    v.shape(r, shape, 'the axes of the result')
    for i in v.indices(shape):
        v.eq(v.element(r, i), want(i), label, rel=rel, abs_=abs_, tol=tol)
    for a, before in probes:
        v.prove(v.and_(*[v.element(a, i) == x for i, x in before]), 'the arguments are unchanged')
    return r


def known(v, x):
    """A denominator: the formula is defined where it is not zero."""
    if v.symbolic:
        v.assume(v.not_(x == 0))
    return x


def position(v, name, rank):
    use(v)
    n = sizes(v, *'abc'[:rank])
    r, t, p = (v.tensor(k, n) for k in ('r', 'theta', 'phi'))
    e = lambda a, i: v.element(a, i)
    want = {'x': lambda i: e(r, i) * v.sin(e(t, i)) * v.cos(e(p, i)), 'y': lambda i: e(r, i) * v.sin(e(t, i)) * v.sin(e(p, i)), 'z': lambda i: e(r, i) * v.cos(e(t, i))}[name]
    run(v, computed(v, name), [r, t] if name == 'z' else [r, t, p], [], n, want, f'the {name} component', abs_=1e-9)


def dot(v, a, b, i):
    x = [v.element(c, i) for c in a]
    y = [v.element(c, i) for c in b]
    return x[0] * y[0] + x[1] * y[1] + x[2] * y[2]


def triple(v, name, n):
    return [v.tensor(f'{name}{c}', n) for c in 'rtp']


def magnitude(v, name, rank):
    use(v)
    n = sizes(v, *'abc'[:rank])
    a = triple(v, 'a', n)
    run(v, computed(v, name), a, [], n, lambda i: v.sqrt(dot(v, a, a, i)), 'the length of the vector')


def vectors(v, name, rank):
    use(v)
    n = sizes(v, *'abc'[:rank])
    b, w = triple(v, 'b', n), triple(v, 'v', n)
    if not v.symbolic and name != 'bv_mag':
        v.assume(all(1e-8 < dot(v, b, b, i) < 1e10 and (name == 'v_para' or 1e-8 < dot(v, w, w, i) < 1e10) for i in v.indices(n)))
    if name == 'bv_mag':
        run(v, computed(v, name), b + w, [], n, lambda i: v.sqrt(dot(v, b, b, i)) * v.sqrt(dot(v, w, w, i)), 'the product of the lengths')
    elif name == 'v_para':
        scale = 1.0 if v.symbolic else max([dot(v, w, w, i) for i in v.indices(n)] + [0]) ** .5
        run(v, computed(v, name), w + b, [], n, lambda i: dot(v, b, w, i) / known(v, v.sqrt(dot(v, b, b, i))), 'the component along the field', abs_=1e-9 * scale)
    elif name == 'v_perp':
        scale = 1.0 if v.symbolic else max([dot(v, w, w, i) for i in v.indices(n)] + [0]) ** .5

        def want(i):
            para = dot(v, b, w, i) / known(v, v.sqrt(dot(v, b, b, i)))
            rest = v.sqrt(dot(v, w, w, i)) ** 2 - para ** 2
            return v.sqrt(v.ite(rest >= 0, rest, 0.0))
        run(v, computed(v, name), w + b, [], n, want, 'the rest of the vector', rel=1e-6, abs_=1e-6 * scale)
    else:
        def want(i):
            c = dot(v, b, w, i) / known(v, v.sqrt(dot(v, b, b, i)) * v.sqrt(dot(v, w, w, i)))
            c = v.ite(c < -1, -1.0, v.ite(c > 1, 1.0, c))
            if v.symbolic:
                from pv import core
                return core.uf('arccos', c)
            return math.acos(c)
        run(v, computed(v, name), b + w, [], n, want, 'the angle whose cosine is the projection', rel=1e-6, abs_=1e-6)


def log(v, x):
    if v.symbolic:
        from pv import core
        return core.uf('log', x)
    return math.log(x)


def rising(v, name, n):
    """Coordinates in increasing order, of any number."""
    t = v.tensor(name, (n,), positive=True)
    if not v.symbolic:
        import numpy
        t = numpy.cumsum(t)
        v.assume(all(1e-4 < b - a < 1e5 for a, b in zip(t, t[1:])))
    return t


def slope(v, f, x, j, n):
    first = (f(1) - f(0)) / (x(1) - x(0))
    last = (f(n - 1) - f(n - 2)) / (x(n - 1) - x(n - 2))
    if not v.symbolic and (j == 0 or j == n - 1):
        return first if j == 0 else last
    hs, hd = x(j) - x(j - 1), x(j + 1) - x(j)
    inner = (hs * hs * f(j + 1) + (hd * hd - hs * hs) * f(j) - hd * hd * f(j - 1)) / (hs * hd * (hd + hs))
    return v.ite(j == 0, first, v.ite(j == n - 1, last, inner)) if v.symbolic else inner


def divergence(v, rank):
    use(v)
    n = (v.size('time', low=2, hi=5),) + sizes(v, *'ab'[:rank - 1])
    rho, t = v.tensor('rho', n, positive=True), rising(v, 't', n[0])
    if not v.symbolic:
        v.assume(all(1e-6 < x < 1e6 for x in rho.ravel()))
    if v.symbolic:
        # No two times are equal.
        v.assume(v.forall(n[0], lambda j: v.forall(n[0], lambda k: v.implies(j < k, v.element(t, (j,)) < v.element(t, (k,))))))

    def want(i):
        def total(f):
            if not v.symbolic:
                return f()
            from pv import tensor
            return tensor._total(f)
        return total(lambda: -1.0 * slope(v, lambda k: log(v, v.element(rho, (k,) + i[1:])), lambda k: v.element(t, (k,)), i[0], n[0]))
    scale = 1.0 if v.symbolic else max([abs(want(i)) for i in v.indices(n)] + [1e-9])
    run(v, computed(v, 'div_v'), [rho, t], [], n, want, 'minus the rate of change of the logarithm of the density in time', rel=1e-6, abs_=1e-6 * scale)


def ratio(v, rank):
    use(v)
    n = sizes(v, *'abc'[:rank])
    rho = v.tensor('rho', n, positive=True)
    first = (lambda i: (0,) + i[1:])
    run(v, computed(v, 'density_ratio'), [rho], [], n, lambda i: v.element(rho, i) / v.element(rho, first(i)), 'the density relative to the first time')


def fluence(v, rank):
    use(v)
    n = (v.size('time', low=2, hi=5),) + sizes(v, *'ab'[:rank - 1])
    f, t = v.tensor('flux', n), rising(v, 't', n[0])
    run(v, computed(v, 'fluence'), [f, t], [], n[1:], lambda i: samples_integral(v, n[0], lambda k: v.element(f, (k,) + i), lambda k: v.element(t, (k,))),
        'the integral over time', rel=1e-7, abs_=1e-6)


def rigidity(v, rank, each):
    use(v)
    c = const(v, 'c')
    n = sizes(v, *'ab'[:rank])
    e = v.tensor('E', n, positive=True)
    ms = n[:1] if each else ()
    if each:
        m, q = v.tensor('m', ms, positive=True), v.tensor('q', ms, nonzero=True)
    else:
        m, q = v.real('m', positive=True), v.real('q', nonzero=True)
    if not v.symbolic:
        m, e = m * 1e-27, e * 1e-27 * c * c
        v.assume((abs(q) > 1e-6).all() if each else abs(q) > 1e-6)
        for i in v.indices(n):
            mi = m[i[0]] if each else m
            v.assume(1e-4 < e[i] / (mi * c * c) < 1e4)
    run(v, computed(v, 'rigidity'), [e] + ([m, q] if each else []), [] if each else [m, q], n,
        lambda i: momentum(v, v.element(e, i), v.element(m, i[:1]) if each else m, c) / (v.element(q, i[:1]) if each else q),
        'relativistic momentum per charge', rel=1e-5)


def path(v, ranks, each):
    use(v)
    c, au, mev = const(v, 'c'), const(v, 'au'), 1e6 * const(v, 'eV')
    rs, es = sizes(v, *'ab'[:ranks[0]]), sizes(v, *'cd'[:ranks[1]])
    r, e = v.tensor('r', rs, positive=True), v.tensor('E', es, positive=True)
    l0, a, b = v.real('lambda0'), v.real('radial power', lo=-3, hi=3), v.real('rigidity power', lo=-3, hi=3)
    if each:
        m, q = v.tensor('m', es[:1], positive=True), v.tensor('q', es[:1], positive=True)
    else:
        m, q = v.real('m', positive=True), v.real('q', positive=True)
    if not v.symbolic:
        r, e, m, q = r * au, e * mev, m * 1e-27, q * 1e-19
        for x in (r / au, e / mev, m / 1e-27, q / 1e-19):
            v.assume(((x > 1e-4) & (x < 1e4)).all() if hasattr(x, 'all') else 1e-4 < x < 1e4)
    pick = lambda x, j: v.element(x, j[:1]) if each else x

    def want(i):
        i, j = i[:ranks[0]], i[ranks[0]:]
        mj, qj = pick(m, j), pick(q, j)
        ref = momentum(v, mev, mj, c) / qj
        return v.pow(v.element(r, i) / au, a) * v.pow(momentum(v, v.element(e, j), mj, c) / qj / ref, b) * l0
    run(v, computed(v, 'mean_free_path'), [r, e] + ([m, q] if each else []), ([] if each else [m, q]) + [a, b, l0], rs + es, want,
        'powers of radius and rigidity times the reference path', rel=1e-5)


def flux(v, rank):
    use(v)
    mp = const(v, 'mp')
    n = sizes(v, *'abc'[:rank])
    e, f = v.tensor('E', n[-1:], positive=True), v.tensor('f', n)
    run(v, computed(v, 'flux'), [e, f], [], n, lambda i: 2 * v.element(e, i[-1:]) / (mp * mp) * v.element(f, i), 'twice the energy times the distribution per squared mass', abs_=0.0, tol=1e-9)


def isotropic(v, rank):
    use(v)
    n = sizes(v, *'abcd'[:rank])
    f = v.tensor('f', n)
    run(v, computed(v, 'isotropic_distribution'), [f], [], n[:-1], lambda i: v.total(n[-1], lambda k: v.element(f, i + (k,))) / n[-1], 'the mean over pitch angles',
        abs_=1e-9 * (1 if v.symbolic else max(1e-9, abs(f).max())))


def moments(v, rank, mean, species):
    use(v)
    mp = const(v, 'mp')
    n = sizes(v, *'ab'[:rank - 1]) + (v.size('energy', low=2, hi=5),)
    s = v.tensor('v', n[-2:] if species else n[-1:], positive=True)
    f = v.tensor('f', n, positive=True)
    if not v.symbolic:
        import numpy
        s = numpy.cumsum(s, axis=-1)
        v.assume(s.max() < 1e4 and 1e-4 < f.min() and f.max() < 1e4)
    row = lambda i, k: (i[-1:] if species else ()) + (k,)

    def moment(i, p):
        x = lambda k: v.element(s, row(i, k))
        step = lambda k: slope(v, x, lambda j: j * 1.0, k, n[-1])
        return v.total(n[-1], lambda k: x(k) ** p * v.element(f, i + (k,)) * step(k))
    if mean:
        if rank == 1:
            known(v, moment((), 2))
        want = lambda i: 0.5 * (mp * moment(i, 4)) / known(v, moment(i, 2))
    else:
        want = lambda i: mp * moment(i, 4)
    run(v, computed(v, 'average_energy' if mean else 'energy_density'), [s, f], [], n[:-1], want, 'the moment of the distribution over speed', abs_=0.0, tol=1e-9)


def acceleration(v):
    use(v)
    n = sizes(v, 'time', 'shell', 'species', 'energy')
    vel = triple(v, 'v', n[:2])
    sp, ang, mfp = v.tensor('speed', n[2:], positive=True), v.tensor('angle', n[:2]), v.tensor('mfp', n, positive=True)
    k = v.real('kper_kpar', lo=0.05, hi=1)
    if not v.symbolic:
        v.assume(all(1e-6 < dot(v, vel, vel, i) < 1e8 for i in v.indices(n[:2])))
    e = v.element
    size = lambda i: known(v, v.sqrt(dot(v, vel, vel, i)))

    def length(i, s):
        c, d = v.cos(e(ang, i)), v.sin(e(ang, i))
        return e(mfp, i + s) * ((c * c + k * (d * d)) * e(sp, s) / 3.0) / size(i)

    def want(i):
        t, r, s = i[0], i[1], i[2:]
        ahead, behind = (t, v.ite(r == n[1] - 1, r, r + 1)), (t, v.ite(r == 0, r, r - 1))
        inner = 1 - (sum(e(c, ahead) * e(c, behind) for c in vel)) / known(v, size(ahead) * size(ahead))
        dv = size(ahead) * v.ite(inner >= 0, inner, 0 - inner)
        dx = known(v, 3.0 * (length(ahead, s) + length(behind, s)))
        return dv / dx
    scale = 1.0 if v.symbolic else max(abs(want(i)) for i in v.indices(n))
    run(v, computed(v, 'acceleration_rate'), vel + [sp, ang, mfp], [k], n, want, 'change of the flow over the diffusion length of its neighbours', rel=1e-6, abs_=1e-6 * scale)


def reg(name, targets, f, rank, **k):
    unit('C12', f'sized_{name}', T(*targets), bound=f'arrays with {rank}, each of any size; all values', samples=20, **k)(f)


AXES = {1: '1 axis', 2: '2 axes', 3: '3 axes', 4: '4 axes'}
for rank in (1, 2, 3):
    for name in 'xyz':
        reg(f'{name}_{rank}d', [name], lambda v, n=name, r=rank: position(v, n, r), AXES[rank])
    for name in ('b_mag', 'v_mag'):
        reg(f'{name}_{rank}d', [name], lambda v, n=name, r=rank: magnitude(v, n, r), AXES[rank])
    reg(f'density_ratio_{rank}d', ['density_ratio'], lambda v, r=rank: ratio(v, r), AXES[rank])
    reg(f'fluence_{rank}d', ['fluence'], lambda v, r=rank: fluence(v, r), AXES[rank], assumes=[SIMPSON])
    reg(f'flux_{rank}d', ['flux'], lambda v, r=rank: flux(v, r), AXES[rank])
    reg(f'isotropic_{rank + 1}d', ['isotropic_distribution'], lambda v, r=rank + 1: isotropic(v, r), AXES[rank + 1])
    reg(f'div_v_{rank}d', ['div_v'], lambda v, r=rank: divergence(v, r), AXES[rank], assumes=[GRADIENT])
    for name in ('bv_mag', 'v_para', 'v_perp', 'flow_angle'):
        reg(f'{name}_{rank}d', [name, 'b_mag', 'v_mag'], lambda v, n=name, r=rank: vectors(v, n, r), AXES[rank])
for rank in (1, 2):
    for each in (False, True):
        reg(f'rigidity_{rank}d' + ('_each' if each else ''), ['rigidity', '_by_species'], lambda v, r=rank, e=each: rigidity(v, r, e), AXES[rank])
for ranks in ((1, 1), (2, 1), (2, 2)):
    for each in (False, True):
        reg(f'mean_free_path_{ranks[0]}d{ranks[1]}d' + ('_each' if each else ''), ['mean_free_path', 'rigidity', '_by_species'], lambda v, r=ranks, e=each: path(v, r, e), f'{ranks[0]} + {ranks[1]} axes')
for rank, species in ((1, False), (2, False), (3, False), (2, True), (3, True)):
    for mean in (False, True):
        name = 'average_energy' if mean else 'energy_density'
        reg(f'{name}_{rank}d' + ('_species' if species else ''), [name, 'energy_density'], lambda v, r=rank, m=mean, s=species: moments(v, r, m, s), AXES[rank], assumes=[GRADIENT])
reg('acceleration', ['acceleration_rate', '_ahead', '_behind', 'v_mag'], acceleration, '4 axes')
