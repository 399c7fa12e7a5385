"""C14: observations apply exactly the user's constraints."""
import contextlib
import itertools

from pv.api import unit
from contracts.c11_interpolation import use as use_interp, ASSUMES as INTERP

EPREM = ['eprem.Context.observe', 'eprem.Context._observe', 'eprem.Context._build', 'eprem.Context._subscript', 'eprem.Context._compute_interpolants',
         'eprem.Context._on_grid', 'eprem.Context.interpolate', 'eprem.Context._interpolate_coordinate', 'eprem.Context.get_index', 'eprem.Context.compute_index',
         'eprem.Context.get_observable', 'eprem.Context.get_value', 'eprem.Context.compute_value', 'eprem.Context.coordinates',
         'eprem.Axes._build_coordinate', 'eprem.Axes.time', 'eprem.Axes.shell', 'eprem.Axes.mu', 'eprem.Axes.energy', 'eprem.Axes.species', 'eprem.Variables.build',
         'core.observing.Context.constrain', 'core.observing.Context.constraints', 'core.observing.Observable.observe', 'core.observing.Target.apply', 'core.observing.Observation']
READS = 'the data set is read by its contract: each named variable has its array, unit and dimensions (core.datafile)'
AXES = ['time', 'shell', 'species', 'energy', 'mu']


# -- a data set of arbitrary values ---------------------------------------------
class Dataset:
    """What an observer reads: named arrays with units and dimensions."""

    def __init__(self, v, members, axes):
        D, A, R = v.mod('core.datafile'), v.mod('core.aliased'), v.mod('core.reference')
        self.variables = A.Mapping({k: D.Variable(data, u, tuple(dims), k) for k, (data, dims, u) in members.items()}, aliases=R.ALIASES)
        self.axes = axes

    def available(self, key):
        class Keys:
            canonical = tuple(self.axes)
        return Keys


def array(v, values, shape):
    import numpy
    a = numpy.empty(len(values), dtype=float if all(isinstance(x, float) for x in values) else object)
    a[:] = values
    return a.reshape(shape)


def rising(v, name, n, lo=None):
    """n increasing numbers, no two of them within the tolerance for equality."""
    start = v.real(f'{name}0', lo=0.5 if lo is None else lo, hi=4)
    xs = [start]
    for i in range(1, n):
        xs.append(xs[-1] + v.real(f'{name} step{i}', lo=0.25, hi=4))
    return xs


class World:
    """An observing context over arbitrary values at arbitrary coordinates."""

    def __init__(self, v, nt=2, ns=2, np_=1, ne=2, nm=2, fixed=()):
        import numpy
        E, R = v.mod('eprem'), v.mod('eprem.runtime')
        self.v = v
        plain = dict(time=[8.0 * i for i in range(nt)], mu=[-1 + 2.0 * i / max(nm - 1, 1) for i in range(nm)],
                     energy=[[1.0 + j + i / 2 for j in range(ne)] for i in range(np_)], radius=[[1.0 + j + i / 4 for j in range(ns)] for i in range(nt)])
        time = plain['time'] if 'time' in fixed else rising(v, 'time', nt)
        mu = plain['mu'] if 'mu' in fixed else rising(v, 'mu', nm)
        energy = plain['energy'] if 'energy' in fixed else [rising(v, f'energy{i} ', ne) for i in range(np_)]
        radius = plain['radius'] if 'radius' in fixed else [rising(v, f'radius{i} ', ns) for i in range(nt)]
        flat = lambda xs: [y for x in xs for y in x]
        data = lambda name, shape: array(v, [v.real(f'{name}{i}', lo=-8, hi=8) for i in range(int(numpy.prod(shape)))], shape)
        self.coords = {'time': array(v, time, (nt,)), 'mu': array(v, mu, (nm,)), 'energy': array(v, flat(energy), (np_, ne)), 'radius': array(v, flat(radius), (nt, ns))}
        rad = numpy.array([[.5 + i + j for j in range(ns)] for i in range(nt)])
        self.members = {
            'time': (self.coords['time'], ['time'], 's'),
            'shell': (numpy.arange(ns), ['shell'], 'shell'),
            'mass': (numpy.array([1.0, 4.0][:np_]), ['species'], 'nuc'),
            'charge': (numpy.array([1.0, 2.0][:np_]), ['species'], 'e'),
            'egrid': (self.coords['energy'], ['species', 'energy'], 'J'),
            'mu': (self.coords['mu'], ['mu'], '1'),
            'R': (self.coords['radius'], ['time', 'shell'], 'm'), 'T': (rad, ['time', 'shell'], 'rad'), 'P': (rad, ['time', 'shell'], 'rad'),
            'Vt': (array(v, [v.real(f'Vt{i}', lo=1, hi=8) for i in range(nt * ns)], (nt, ns)), ['time', 'shell'], 'm/s'),
            'Rho': (array(v, [v.real(f'Rho{i}', lo=1, hi=8) for i in range(nt * ns)], (nt, ns)), ['time', 'shell'], 'm^-3'),
            'Vr': (data('Vr', (nt, ns)), ['time', 'shell'], 'm/s'),
            'Dist': (data('f', (nt, ns, np_, ne, nm)), AXES, 's^3/m^6'),
        }
        data = Dataset(v, self.members, AXES)
        self.context = E.Context(E.Variables(data, system='mks'), E.Axes(data, system='mks'), R.Interface())
        self.before = {k: list(m[0].ravel()) for k, m in self.members.items()}
        self.symbols = ['H+', 'He++'][:np_]

    def observe(self, name, **constraints):
        G = self.v.mod('core.observing')
        return self.v.call(lambda: G.Observable(name, self.context).observe(**constraints), f'{name} is observed with {sorted(constraints)}')

    def pristine(self):
        for k, m in self.members.items():
            self.v.prove(all(x is y or x == y for x, y in zip(m[0].ravel(), self.before[k])), 'the data set is unchanged')


def between(v, xs, ys, t):
    """The value at t of the straight lines through the points."""
    for i in range(1, len(xs)):
        if i == len(xs) - 1 or t <= xs[i]:
            return ys[i - 1] + (ys[i] - ys[i - 1]) * ((t - xs[i - 1]) / (xs[i] - xs[i - 1]))


def distinct(v, xs, t):
    """t is one of the xs or clearly is not."""
    for x in xs:
        v.assume(v.or_(t == x, t > x + 1e-4 * x, t < x - 1e-4 * x) if v.symbolic else (t == x or abs(t - x) > 1e-4 * abs(x)))


def target(v, name, xs, inside=()):
    """A number between the coordinates."""
    if v.symbolic:
        t = v.real(name)
        v.assume(v.and_(t >= xs[0], t <= xs[-1], *inside(t)) if inside else v.and_(t >= xs[0], t <= xs[-1]))
    else:
        w = v.real(name + ' weight', lo=0, hi=1)
        if v.choice(name + ' exact', [0, 0, 1]):
            return xs[int(w * (len(xs) - 1) + .5)]
        t = xs[0] + (xs[-1] - xs[0]) * w
    distinct(v, xs, t)
    return t


def interpolated(v, a, dims, coords, axis, targets, rows=None):
    """Replace an axis with values between the samples: `rows` is the axis along which its coordinate varies."""
    import numpy
    k = dims.index(axis)
    src = numpy.moveaxis(a, k, -1)
    rest = [d for d in dims if d != axis]
    out = numpy.empty(src.shape[:-1] + (len(targets),), dtype=a.dtype)
    for i in numpy.ndindex(src.shape[:-1]):
        xs = coords if rows is None else coords[i[rest.index(rows)]]
        for j, t in enumerate(targets):
            out[i + (j,)] = between(v, list(xs), list(src[i]), t)
    return numpy.moveaxis(out, -1, k)


def agree(v, o, want, label, detail=''):
    import numpy
    got = numpy.array(o.data)
    v.prove(tuple(got.shape) == tuple(want.shape), f'{label}: the selected size along each axis', lambda: f'{got.shape} instead of {want.shape} {detail}')
    for i in numpy.ndindex(want.shape):
        v.eq(got[i], want[i], f'{label}: the selected data', rel=1e-4, abs_=1e-6)
    small, flat = numpy.array(o.array), want.squeeze()
    v.prove(tuple(small.shape) == tuple(flat.shape), f'{label}: the array without axes of length 1', lambda: f'{small.shape} instead of {flat.shape} {detail}')
    for i in numpy.ndindex(flat.shape):
        v.eq(small[i], flat[i], f'{label}: the array without axes of length 1', rel=1e-4, abs_=1e-6)


def values(v, o, axis, want, label):
    import numpy
    got = numpy.array(o[axis])
    v.prove(len(got) == len(want), f'{label}: the values of the axis', lambda: f'{axis}: {got} instead of {want}')
    for x, y in zip(got, want):
        v.eq(x, y, f'{label}: the values of the axis', rel=1e-6)


# -- what an observation must contain -----------------------------------------------
def expected(v, w, a, dims, cons):
    """The selected part of an array: radii first, because they vary in time, then the values between the coordinates, then the points."""
    import numpy
    rows = lambda k: [list(x) for x in w.coords[k]]
    if 'radius' in cons and 'shell' in dims:
        a = interpolated(v, a, dims, rows('radius'), 'shell', [cons['radius'][1]], rows='time')
    for k in ('time', 'energy', 'mu'):
        if k in cons and k in dims and cons[k][0] == 'at':
            a = interpolated(v, a, dims, rows(k) if k == 'energy' else list(w.coords[k]), k, cons[k][1:], rows='species' if k == 'energy' else None)
    for k, c in cons.items():
        if k in dims and c[0] == 'pick' and not (k == 'shell' and 'radius' in cons):
            a = numpy.take(a, c[1], axis=dims.index(k))
    return a


NAMES = {'time': ['time', 't', 'times'], 'shell': ['shell', 'shells'], 'species': ['species'], 'energy': ['energy', 'energies', 'E'], 'mu': ['mu', 'pitch angle', 'pitch-angle'], 'radius': ['radius', 'r', 'R']}
UNITS = {'time': 's', 'energy': 'J', 'mu': None, 'radius': 'm'}


def given(k, c, alias=None, raw=None):
    """A constraint as a user writes it."""
    if c[0] == 'at':
        value = [*c[1:]] if UNITS[k] is None else (*c[1:], UNITS[k])
    else:
        value = c[1] if raw is None else raw
    return {alias or k: value}


def check(v, w, name, key, cons, label, user=None):
    """Observe with the constraints and compare every part of the result."""
    if user is None:
        user = {}
        for k, c in cons.items():
            user.update(given(k, c))
    o = w.observe(name, **user)
    a, dims = w.members[key][:2]
    agree(v, o, expected(v, w, a, dims, cons), label)
    v.prove(list(o.dimensions) == list(dims), f'{label}: the axes')
    for k in dims:
        if k in cons and not (k == 'shell' and 'radius' in cons):
            c = cons[k]
            if c[0] == 'at':
                values(v, o, k, c[1:], label)
            elif k in ('time', 'mu'):
                values(v, o, k, [w.coords[k][i] for i in c[1]], label)
            elif k == 'shell':
                values(v, o, k, c[1], label)
        elif k in ('time', 'mu'):
            values(v, o, k, list(w.coords[k]), label)
    return o


# -- one constraint ------------------------------------------------------------------
@unit('C14', 'no_constraints', EPREM, bound='2 values along each axis; all data', samples=20, assumes=[READS])
def nothing(v):
    use_interp(v)
    w = World(v, np_=2, fixed=['radius', 'energy', 'mu'])
    for name, key in (('Vr', 'Vr'), ('dist', 'Dist')):
        check(v, w, name, key, {}, 'no constraints')
    w.pristine()


def at_time(v, n, name, key):
    use_interp(v)
    w = World(v, nt=n, ns=1 if n > 2 else 2, ne=1, nm=1, fixed=['radius', 'energy', 'mu'])
    t = target(v, 't', list(w.coords['time']))
    check(v, w, name, key, {'time': ('at', t)}, 'at a time')
    check(v, w, name, key, {}, 'without the constraint')
    w.pristine()


for n, name, key in [(2, 'Vr', 'Vr'), (3, 'Vr', 'Vr'), (2, 'dist', 'Dist')]:
    unit('C14', f'time_{name}_{n}', EPREM, bound=f'{n} times; all data, times and targets', samples=20, assumes=INTERP + [READS])(lambda v, a=(n, name, key): at_time(v, *a))


@unit('C14', 'times_2', EPREM, bound='2 times, 2 targets; all data, times and targets', samples=20, assumes=INTERP + [READS])
def at_times(v):
    use_interp(v)
    w = World(v, ns=1, ne=1, nm=1, fixed=['radius', 'energy', 'mu'])
    xs = list(w.coords['time'])
    t, u = target(v, 't', xs), target(v, 'u', xs)
    check(v, w, 'Vr', 'Vr', {'time': ('at', t, u)}, 'at two times')


@unit('C14', 'plain_values', EPREM, bound='2 times, 1 or 2 targets without a unit, some of them whole numbers; all data and targets', samples=30, assumes=INTERP + [READS])
def plain_values(v):
    """Numbers without a unit are values in the unit of the axis unless all of them are whole."""
    use_interp(v)
    w = World(v, nt=2, ns=1, ne=1, nm=1, fixed=['time', 'radius', 'energy', 'mu'])
    t = target(v, 't', list(w.coords['time']))
    form = v.choice('form', ['alone', 'first', 'second'])
    whole = v.choice('whole', [2, 8])
    ts = {'alone': [t], 'first': [whole, t], 'second': [t, whole]}[form]
    check(v, w, 'Vr', 'Vr', {'time': ('at', *ts)}, 'at plain values', user={'time': ts})


AXIS_UNITS = [('time', 'ms', 1000), ('time', 's', 1), ('energy', 'mJ', 1000), ('energy', 'J', 1), ('time', 'min', 1 / 60), ('energy', 'erg', 1e7), ('time', 'day', 1 / 86400)]


def axis_units(v, n):
    """The coordinates of an axis in any unit: plain numbers are in that unit, others are converted to it."""
    w = World(v, ns=1, np_=2, nm=1, fixed=['radius', 'mu', 'energy'] if v.symbolic else ['radius', 'mu'])
    k, u, f = AXIS_UNITS[n] if v.symbolic else v.choice('axis and unit', [x for x in AXIS_UNITS if x[0] == AXIS_UNITS[n][0]])
    base = {'time': 's', 'energy': 'J'}[k]
    axis = w.context.axes[k]
    species = v.choice('species', [0, 1]) if k == 'energy' else 0
    kw = {'species': species} if species else {}
    xs = list(w.coords['time'] if k == 'time' else w.coords['energy'][species])
    how = v.choice('how', ['axis', 'argument'])
    there = v.call(lambda: axis[u], 'an axis in another unit') if how == 'axis' else axis
    kw.update({'unit': u} if how == 'argument' else {})
    def holds(q, points, vals, label):
        v.prove(list(q) == list(points), f'{label}: the points', lambda: f'{list(q)} instead of {points}')
        for a, b in zip(q.values, vals):
            v.eq(a, b, f'{label}: the values in the unit asked for')
        v.prove(len(q.values) == len(vals) and q.unit == u, f'{label}: the unit')
    form = v.choice('form', ['all', 'points', 'plain', 'base unit', 'same unit'])
    if form == 'all':
        holds(v.call(lambda: there.index(**kw), 'all values of an axis'), [0, 1], [x * f for x in xs], form)
    elif form == 'points':
        holds(v.call(lambda: there.index(1, 0, **kw), 'points of an axis'), [1, 0], [xs[1] * f, xs[0] * f], form)
    else:
        t = v.real('t', lo=.01 * min(1, f), hi=8 if form == 'base unit' else 8 * f)
        here, args = {'plain': (t, (t,)), 'base unit': (t * f, (t, base)), 'same unit': (t, (t, u))}[form]
        q = v.call(lambda: there.index(*args, **kw), 'values along an axis')
        v.prove(len(q) == 1, f'{form}: one point')
        got = list(q)[0]
        for x in xs:
            v.prove(abs(xs[got] * f - here) <= abs(x * f - here) + (0 if v.symbolic else 1e-9 * f), f'{form}: the nearest point')
        v.eq(list(q.values)[0], here, f'{form}: the values in the unit asked for')
        v.prove(q.unit == u, f'{form}: the unit')
    w.pristine()


for n in range(4):
    unit('C14', 'axis_in_' + AXIS_UNITS[n][1], EPREM, bound='2 times, 2 energies of 2 species, a target with or without a unit; all coordinates and targets', samples=60, assumes=[READS])(lambda v, n=n: axis_units(v, n))


@unit('C14', 'mu_2', EPREM, bound='2 angles; all data, angles and targets', samples=20, assumes=INTERP + [READS])
def at_mu(v):
    use_interp(v)
    w = World(v, nt=1, ns=1, ne=2, fixed=['time', 'radius', 'energy'])
    t = target(v, 'm', list(w.coords['mu']))
    check(v, w, 'dist', 'Dist', {'mu': ('at', t)}, 'at an angle')
    check(v, w, 'dist', 'Dist', {}, 'without the constraint')
    check(v, w, 'Vr', 'Vr', {'mu': ('at', t)}, 'no such axis')


@unit('C14', 'energy_2', EPREM, bound='2 species, 2 energies each; all data, energies and targets', samples=20, assumes=INTERP + [READS])
def at_energy(v):
    use_interp(v)
    w = World(v, nt=1, ns=1, nm=1, np_=2, fixed=['time', 'radius', 'mu'])
    rows = [list(x) for x in w.coords['energy']]
    t = between_rows(v, 'e', rows)
    for x in rows:
        distinct(v, x, t)
    check(v, w, 'dist', 'Dist', {'energy': ('at', t)}, 'at an energy')
    check(v, w, 'dist', 'Dist', {'energy': ('at', t), 'species': ('pick', [1])}, 'at an energy of one species')


def at_radius(v, nt, ns):
    use_interp(v)
    w = World(v, nt=nt, ns=ns, ne=1, nm=1, fixed=['time', 'energy', 'mu'])
    r = between_rows(v, 'r', [list(x) for x in w.coords['radius']])
    check(v, w, 'Vr', 'Vr', {'radius': ('at', r)}, 'at a radius')
    check(v, w, 'Vr', 'Vr', {}, 'without the constraint')
    w.pristine()


def between_rows(v, name, rows):
    if v.symbolic:
        t = v.real(name)
        v.assume(v.and_(*[t >= x[0] for x in rows], *[t <= x[-1] for x in rows]))
        return t
    lo, hi = max(x[0] for x in rows), min(x[-1] for x in rows)
    v.assume(lo < hi)
    return lo + (hi - lo) * v.real(name + ' weight', lo=0, hi=1)


for nt, ns in [(1, 2), (2, 2), (1, 3)]:
    unit('C14', f'radius_{nt}x{ns}', EPREM, bound=f'{nt} times, {ns} shells; all data, radii and targets', samples=20, assumes=INTERP + [READS])(lambda v, a=(nt, ns): at_radius(v, *a))


@unit('C14', 'radius_and_time', EPREM, bound='2 times, 2 shells; all data, times, radii and targets', samples=20, assumes=INTERP + [READS])
def both(v):
    use_interp(v)
    w = World(v, ne=1, nm=1, fixed=['energy', 'mu'])
    r = between_rows(v, 'r', [list(x) for x in w.coords['radius']])
    t = target(v, 't', list(w.coords['time']))
    check(v, w, 'Vr', 'Vr', {'radius': ('at', r), 'time': ('at', t)}, 'at a radius and a time')


# -- chosen points ----------------------------------------------------------------
PICKS = {
    'one': lambda n: ([n - 1], n - 1), 'listed': lambda n: ([n - 1, 0], [n - 1, 0]), 'pair': lambda n: ([0, n - 1], (0, n - 1)),
    'slice': lambda n: (list(range(1, n)), slice(1, n)), 'open slice': lambda n: (list(range(n))[:-1], slice(None, -1)),
    'range': lambda n: (list(range(n - 1)), range(n - 1)), 'everything': lambda n: (list(range(n)), slice(None)),
}


def points(v, axis):
    use_interp(v)
    sizes = dict(nt=1, ns=1, ne=1, nm=1)
    size = {'time': 'nt', 'shell': 'ns', 'energy': 'ne', 'mu': 'nm'}.get(axis)
    if size:
        sizes[size] = 3
    w = World(v, np_=2, fixed=['time', 'radius', 'energy', 'mu'], **sizes)
    n = 3 if size else 2
    form = v.choice('form', sorted(PICKS) + (['symbol', 'symbols'] if axis == 'species' else ['last', 'from the end', 'index'] if axis in ('time', 'energy', 'mu') else ['index']))
    if form == 'last':
        chosen, raw = [n - 1], -1
    elif form == 'index':
        chosen, raw = [n - 1, 0], v.call(lambda: w.context.axes[axis].index(n - 1, 0), 'an index made from the axis')
    elif form == 'from the end':
        chosen, raw = [n - 1, 0], [-1, 0]
    elif form == 'symbol':
        chosen, raw = [1], 'He++'
    elif form == 'symbols':
        chosen, raw = [1, 0], ['He++', 'H+']
    else:
        chosen, raw = PICKS[form](n)
    cons = {axis: ('pick', chosen)}
    name = v.choice('name', NAMES[axis])
    o = check(v, w, 'dist', 'Dist', cons, f'{axis} {form}', user={name: raw})
    if axis == 'species':
        v.prove([str(x) for x in o._indices['species'].values] == [w.symbols[i] for i in chosen], 'the values of the axis')
    check(v, w, 'Vr', 'Vr', cons, f'{axis} {form}', user={name: raw})
    for ref, key in {'time': [('time', 'time'), ('radius', 'R')], 'shell': [('radius', 'R')], 'mu': [('mu', 'mu')]}.get(axis, [('energy', 'egrid')]):
        check(v, w, ref, key, cons, f'{ref} itself, {axis} {form}', user={name: raw})
    check(v, w, 'dist', 'Dist', {}, 'without the constraint')
    w.pristine()


for axis in AXES:
    unit('C14', f'points_{axis}', EPREM, bound='3 points (2 species); all data; every form and name of the constraint', samples=30, assumes=INTERP + [READS])(lambda v, a=axis: points(v, a))


# -- histories --------------------------------------------------------------------------
def catalog(w):
    c = w.coords
    mid = lambda k: (c[k][0] + c[k][1]) / 2
    r = (max(c['radius'][0][0], c['radius'][1][0]) + min(c['radius'][0][1], c['radius'][1][1])) / 2
    return {
        'time': [('at', mid('time')), ('pick', [1]), ('at', c['time'][1])],
        'radius': [('at', r)],
        'shell': [('pick', [1]), ('pick', [0, 1])],
        'species': [('pick', [1])],
        'energy': [('pick', [1]), ('at', (c['energy'][1][0] + c['energy'][0][1]) / 2)],
        'mu': [('at', mid('mu')), ('pick', [0])],
    }


def histories(v, first):
    use_interp(v)
    w = World(v, nt=2, ns=2, np_=2, ne=2, nm=2, fixed=['time', 'radius', 'energy', 'mu'])
    table = catalog(w)
    every = [{}] + [{k: c} for k, cs in table.items() for c in cs]
    start = [{first: c} for c in table[first]] if first else [{}]
    if not v.symbolic:
        two = [{**a, **b} for a, b in itertools.combinations(every[1:], 2) if set(a) != set(b)]
        every = every + two + [{**a, **b} for a, b in itertools.product(two, every[1:]) if not set(a) & set(b)]
    for i in range(2 if v.symbolic else 5):
        cons = v.choice(f'constraints{i}', every if i else start)
        name, key = v.choice(f'observed{i}', [('Vr', 'Vr'), ('dist', 'Dist')] if not v.symbolic else [('dist', 'Dist')])
        user = {}
        for k, c in cons.items():
            user.update(given(k, c, NAMES[k][v.choice(f'name{i} {k}', list(range(len(NAMES[k]))))] if not v.symbolic else None))
        check(v, w, name, key, cons, f'observation {i + 1}', user=user)
    w.pristine()


for first in [None, 'time', 'radius', 'shell', 'species', 'energy', 'mu']:
    unit('C14', f'history_{first or "none"}', EPREM, bound='2 observations (5 at run time) with 1 constraint each (up to 3 at run time), 2 values along each axis; all data', samples=30, assumes=INTERP + [READS])(lambda v, a=first: histories(v, a))


# -- compositions and units ------------------------------------------------------------
COMPOSED = {
    'Vr * Vt': (lambda a: a['Vr'] * a['Vt'], 'm^2 / s^2'),
    'Vr / Vt': (lambda a: a['Vr'] / a['Vt'], '1'),
    'Vr^2': (lambda a: a['Vr'] * a['Vr'], 'm^2 / s^2'),
    'vt^-1 * vr': (lambda a: a['Vr'] / a['Vt'], '1'),
    'rho^-1': (lambda a: 1 / a['Rho'], 'm^3'),
    'Vr / vt^2': (lambda a: a['Vr'] / (a['Vt'] * a['Vt']), 's / m'),
    'Vr * rho / vt': (lambda a: a['Vr'] * a['Rho'] / a['Vt'], 'm^-3'),
    'rho': (lambda a: a['Rho'], 'm^-3'),
}


@unit('C14', 'compositions', EPREM + ['core.observing.Context.get_unit', 'core.observing.Context.get_dimensions', 'core.observing.Context.get_metadata', 'core.observing.Observable'],
      bound='2 times, 2 shells; all data; 8 compositions', samples=40, assumes=INTERP + [READS])
def compositions(v):
    use_interp(v)
    w = World(v, np_=1, ne=1, nm=1, fixed=['time', 'radius', 'energy', 'mu'])
    G = v.mod('core.observing')
    arrays = {k: w.members[k][0] for k in ('Vr', 'Vt', 'Rho')}
    name = v.choice('composition', sorted(COMPOSED))
    f, u = COMPOSED[name]
    q = G.Observable(name, w.context)
    v.prove(q.unit == u, 'the unit of a composition', lambda: f'{name}: {q.unit}')
    v.prove(list(q.dimensions) == ['time', 'shell'], 'the axes of a composition', lambda: f'{name}: {q.dimensions}')
    cons = v.choice('constraints', [{}, {'time': ('pick', [1])}, {'time': ('at', 4.0)}, {'shell': ('pick', [1, 0])}])
    user = {}
    for k, c in cons.items():
        user.update(given(k, c))
    o = v.call(lambda: q.observe(**user), f'{name} is observed')
    agree(v, o, expected(v, w, f(arrays), ['time', 'shell'], cons), 'a composition')
    v.prove(o.unit == u, 'the unit of an observed composition', lambda: f'{name}: {o.unit}')
    if name == 'rho':
        big = v.call(lambda: q['km^-3'], 'another unit')
        v.prove(big.unit == 'km^-3' and q.unit == u, 'another unit leaves the observable unchanged', lambda: f'{q.unit} {big.unit}')
        for x, y in ((big.observe(**user), 1e9), (q.observe(**user), 1), (o['km^-3'], 1e9), (o, 1)):
            agree(v, x, expected(v, w, f(arrays) * y, ['time', 'shell'], cons), 'in a unit')


@unit('C14', 'resolve', ['eprem.Axes.resolve'], kind='finite', bound='every selection of up to 3 of 7 names, in every order', samples=1)
def resolve(v):
    import itertools
    axes = World(v, fixed=['time', 'radius', 'energy', 'mu'], ns=1, ne=1, nm=1).context.axes
    for n in range(4):
        for names in itertools.permutations(AXES + ['another', 'more'], n):
            known = tuple(x for x in AXES if x in names)
            extra = tuple(x for x in names if x not in AXES)
            for form in (list, tuple):
                v.prove(tuple(axes.resolve(form(names))) == known, 'the known axes, in their order', lambda: f'{names}')
                v.prove(tuple(axes.resolve(form(names), mode='append')) == known + extra, 'the known axes, then the others', lambda: f'{names}')
            if extra:
                v.raises(ValueError, lambda: axes.resolve(names, mode='other'), 'an unknown mode is an error')


# -- the constraints in force ---------------------------------------------------------
OBSERVING = ['core.observing.Context.constrain', 'core.observing.Context.constraints', 'core.observing.Context.get_quantity', 'core.observing.Context.available', 'core.observing.Context.keys']
GROUPS = [['time', 't', 'times'], ['radius', 'r', 'R'], ['mu', 'pitch angle'], ['lambda0', 'lamo'], ['an unknown name']]


@unit('C14', 'constraint_histories', OBSERVING, bound='3 updates, 2 names each; all values, names and aliases', samples=300)
def in_force(v):
    G, A = v.mod('core.observing'), v.mod('core.aliased')
    class Context(G.Context):
        def observe(self, name):
            return dict(self.constraints)
    initial, variable = v.real('default'), v.real('variable')
    constants = A.Mapping({('lambda0', 'lamo'): initial})
    context = Context(A.Mapping({('mu', 'pitch angle'): variable}), constraints=constants)
    state, default = {}, {3: initial}
    for i in range(2 if v.symbolic else 4):
        append = v.bool(f'append{i}')
        names = v.choice(f'groups{i}', [(), (0,), (3,), (1, 3), (0, 2)] if v.symbolic else [x for n in range(4) for x in itertools.permutations(range(5), n)])
        new, user = {}, {}
        for g in names:
            new[g] = v.real(f'value{i}.{g}')
            user[v.choice(f'name{i}.{g}', GROUPS[g]) if not v.symbolic else GROUPS[g][v.choice(f'alias{i}.{g}', [0, len(GROUPS[g]) - 1])]] = new[g]
        v.call(lambda: context.constrain(user, append=append), 'the constraints are updated')
        state = {**state, **new} if append else new
        force = {**default, **state}
        observed = context.observe('anything')
        for g, group in enumerate(GROUPS):
            for name in group:
                if g in force:
                    v.prove(name in context.constraints and name in observed and name in context, 'a constraint is in force under each of its names', lambda: f'{name} after {user}')
                    v.eq(context.constraints[name], force[g], 'a constraint has the latest value, or else its default')
                    v.eq(observed[name], force[g], 'a constraint has the latest value, or else its default')
                else:
                    v.prove(name not in context.constraints and name not in observed, 'a constraint that was not given is not in force', lambda: f'{name} after {user}')
                    v.prove((name in context) == (g == 2), 'only known names are available', lambda: f'{name} after {user}')
        v.eq(context.get_quantity('mu'), variable, 'a variable keeps its value')


# -- observers of files -----------------------------------------------------------------
STREAM = ['eprem.Observer', 'eprem.Stream', 'eprem.Context', 'eprem.Axes', 'eprem.Functions', 'eprem.Variables', 'eprem.standardize', 'core.observer.Interface', 'core.observing.Observable', 'core.observing.Observation',
          'core.observing.Parameters', 'core.variable.Interface', 'core.datafile.Interface', 'core.computed.Quantity', 'eprem.runtime.Interface']
SI = {'julian date': 86400.0, 'day': 86400.0, 'au': 1.495978707e11, 'nT': 1e-9, 'km/s': 1e3, 'cm/s': 1e-2, 'cm^-3': 1e6, 'MeV': 1.602176634e-13, 's^3/km^6': 1e-18,
      'nucleon': 1.66053906660e-27, 'e-': 1.602176634e-19, 'rad': 1.0, 'cos(mu)': 1.0}
ALIAS = {'time': ['time', 't'], 'mu': ['mu', 'pitch angle'], 'egrid': ['energy', 'egrid', 'E'], 'vgrid': ['speed', 'vgrid'], 'R': ['radius', 'R', 'r'], 'T': ['theta', 'T'], 'P': ['phi', 'P'],
         'Br': ['Br', 'br'], 'Bt': ['Bt', 'Btheta'], 'Bp': ['Bp', 'bphi'], 'Vr': ['Vr', 'vr'], 'Vt': ['Vt', 'vtheta'], 'Vp': ['Vp', 'vphi'], 'Rho': ['rho', 'Rho'], 'Dist': ['dist', 'f', 'Dist'],
         'mass': ['mass', 'm'], 'charge': ['charge', 'q']}


def write(path, rng, nt, ns, np_, ne, nm):
    """A data file like those of the simulation."""
    import netCDF4
    import numpy
    ds = netCDF4.Dataset(str(path), 'w')
    out = {}
    try:
        for k, n in (('time', nt), ('shell', ns), ('species', np_), ('energy', ne), ('mu', nm)):
            ds.createDimension(k, n)

        def var(name, dims, unit, data, kind='f8'):
            x = ds.createVariable(name, kind, dims)
            x.units = unit
            x[...] = data
            out[name] = (numpy.array(data, dtype=float), list(dims), unit)
        rand = lambda *shape: numpy.array([rng.random() for _ in range(int(numpy.prod(shape)))]).reshape(shape)
        var('time', ('time',), 'julian date', 0.1 + 0.1 * numpy.cumsum(.5 + rand(nt)))
        var('shell', ('shell',), 'shell', numpy.arange(ns), 'i4')
        var('mass', ('species',), 'nucleon', numpy.array([1.0, 4.0][:np_]))
        var('charge', ('species',), 'e-', numpy.array([1.0, 2.0][:np_]))
        e = numpy.array([numpy.geomspace(.1, 100, ne) * (1 + .2 * i) for i in range(np_)])
        var('egrid', ('species', 'energy'), 'MeV', e)
        var('vgrid', ('species', 'energy'), 'cm/s', 1e9 * numpy.sqrt(e))
        var('mu', ('mu',), 'cos(mu)', numpy.linspace(-1, 1, nm))
        var('R', ('time', 'shell'), 'au', .05 + numpy.cumsum(.05 + .1 * rand(nt, ns), axis=1))
        var('T', ('time', 'shell'), 'rad', .3 + 2 * rand(nt, ns))
        var('P', ('time', 'shell'), 'rad', 6 * rand(nt, ns))
        for k in ('Br', 'Bt', 'Bp'):
            var(k, ('time', 'shell'), 'nT', rand(nt, ns) - .5)
        for k in ('Vr', 'Vt', 'Vp'):
            var(k, ('time', 'shell'), 'km/s', 400 + 100 * (rand(nt, ns) - .5))
        var('Rho', ('time', 'shell'), 'cm^-3', 1 + 5 * rand(nt, ns))
        var('preEruption', (), 'julian date', 0.5)
        var('phiOffset', ('time',), 'day', rand(nt))
        var('Dist', AXES, 's^3/km^6', .1 + rand(nt, ns, np_, ne, nm))
    finally:
        ds.close()
    return out


@contextlib.contextmanager
def files(v, names=('a',)):
    import pathlib
    import tempfile
    rng = v.rng
    with tempfile.TemporaryDirectory(prefix='pv-c14-') as d:
        out = {}
        for name in names:
            path = pathlib.Path(d) / name
            path.mkdir()
            lamo, power = round(.05 + rng.random(), 3), rng.choice([1.0, 2.0])
            rigid = rng.choice([.5, .25, 1.0])
            (path / 'eprem_input_file').write_text(f'lamo={lamo}\nmfpRadialPower={power}\nrigidityPower={rigid}\n')
            shape = (rng.randint(2, 4), rng.randint(2, 4), 2, rng.randint(2, 4), rng.randint(2, 4))
            out[name] = (str(path), write(path / 'obs000007.nc', rng, *shape), {'lamo': lamo, 'mfpRadialPower': power, 'rigidityPower': rigid}, shape)
        yield out


def near(v, got, want, label, detail='', rel=1e-3):
    import numpy
    got, want = numpy.array(got, dtype=float), numpy.asarray(want, dtype=float)
    v.prove(got.shape == want.shape and numpy.allclose(got, want, rtol=rel, atol=rel * (numpy.abs(want).max() if want.size else 0) * 1e-3), label,
            lambda: f'{detail}: {got.ravel()[:4]} {got.shape} instead of {want.ravel()[:4]} {want.shape}')


class Grid:
    """The coordinates of a file in the units of the constraints."""

    def __init__(self, raw):
        self.coords = {'time': raw['time'][0], 'mu': raw['mu'][0], 'energy': raw['egrid'][0], 'radius': raw['R'][0]}


def chosen(v, raw, shape):
    """Some constraints: canonical and as written by a user."""
    rng = v.rng
    cons, user = {}, {}
    nt, ns, np_, ne, nm = shape
    time, mu, egrid, radius = (raw[k][0] for k in ('time', 'mu', 'egrid', 'R'))
    inside = lambda lo, hi: lo + (hi - lo) * (.05 + .9 * rng.random())
    for axis, n, xs, u in (('time', nt, time, 'day'), ('mu', nm, mu, None), ('energy', ne, None, 'MeV'), ('shell', ns, None, None), ('species', np_, None, None)):
        kind = rng.choice(['no', 'no', 'pick', 'slice', 'at'])
        alias = rng.choice(NAMES[axis])
        if kind == 'pick':
            i = [rng.randrange(n) for _ in range(rng.randint(1, 3))]
            cons[axis], user[alias] = ('pick', i), i if rng.random() < .7 or len(i) > 1 else i[0]
        elif kind == 'slice':
            lo = rng.randrange(n)
            cons[axis], user[alias] = ('pick', list(range(lo, n))), slice(lo, n)
        elif kind == 'at' and xs is not None:
            ts = [inside(xs[0], xs[-1]) for _ in range(rng.randint(1, 2))]
            cons[axis], user[alias] = ('at', *ts), (*ts, u) if u else ts
        elif kind == 'at' and axis == 'energy' and egrid[:, 0].max() < egrid[:, -1].min():
            ts = [inside(egrid[:, 0].max(), egrid[:, -1].min())]
            cons[axis], user[alias] = ('at', *ts), (*ts, u)
        elif kind == 'at' and axis == 'species':
            i = rng.randrange(n)
            cons[axis], user[alias] = ('pick', [i]), ['H+', 'He++'][i]
    lo, hi = radius[:, 0].max(), radius[:, -1].min()
    if rng.random() < .3 and lo < hi:
        r = inside(lo, hi)
        cons['radius'], user[rng.choice(NAMES['radius'])] = ('at', r), (r, 'au')
    return cons, user


@unit('C14', 'stream', STREAM, kind='bounded', bound='files of 2 to 4 values per axis, random values, constraints and histories', samples=40)
def stream(v):
    import numpy
    E = v.mod('eprem')
    with files(v) as made:
        (source, raw, config, shape), = made.values()
        s = v.call(lambda: E.Stream(7, config='eprem_input_file', source=source), 'an observer of a file')
        grid = Grid(raw)
        full = {k: (a * SI.get(u, 1.0), dims) for k, (a, dims, u) in raw.items()}
        a = {k: x[0] for k, x in full.items()}
        au, mev = SI['au'], SI['MeV']
        rest = a['mass'][:, None] * 299792458.0**2
        momentum = lambda e: numpy.sqrt((e + rest)**2 - rest**2)
        parts = {
            'B': (numpy.sqrt(a['Br']**2 + a['Bt']**2 + a['Bp']**2), ['time', 'shell']), 'x': (a['R'] * numpy.sin(a['T']) * numpy.cos(a['P']), ['time', 'shell']),
            'isodist': (a['Dist'].mean(axis=-1), AXES[:-1]), 'mean free path': (config['lamo'] * au * numpy.multiply.outer((a['R'] / au)**config['mfpRadialPower'], (momentum(a['egrid']) / momentum(mev))**config['rigidityPower']), AXES[:-1]),
            'Vr / rho': (a['Vr'] / a['Rho'], ['time', 'shell']), 'br * bt': (a['Br'] * a['Bt'], ['time', 'shell']),
        }
        seen = []
        for i in range(4):
            cons, user = chosen(v, raw, shape)
            key = v.rng.choice(['Vr', 'Dist', 'Rho', 'Bt', 'Dist', 'B', 'x', 'Vr / rho', 'br * bt', 'isodist', 'mean free path', 'time', 'egrid', 'mu', 'mass'])
            name = v.rng.choice(ALIAS.get(key, [key]))
            o = v.call(lambda: s[name].observe(**user), 'an observation of a file')
            detail = f'{name} {user}'
            if key in parts:
                want, dims = parts[key]
            else:
                want, dims = full[key]
            v.prove(list(o.dimensions) == list(dims) and o.data.shape == numpy.array(o.data).shape, 'the axes of an observation', lambda: f'{detail}: {o.dimensions}')
            if key in ('time', 'egrid', 'mu'):
                cons = {k: c for k, c in cons.items() if c[0] == 'pick'} if all(c[0] == 'pick' for k, c in cons.items() if k in ('time', 'energy', 'mu')) else None
            if cons is None:
                continue
            near(v, o.data, expected(v, grid, want, list(dims), cons), 'an observation of a file', detail)
            near(v, o.array, numpy.array(o.data).squeeze(), 'the array of an observation', detail)
            for axis in dims:
                c = cons.get(axis)
                if axis == 'time' or axis == 'mu':
                    scale = 86400.0 if axis == 'time' else 1.0
                    xs = grid.coords[axis]
                    near(v, o[axis], numpy.array(xs if c is None else c[1:] if c[0] == 'at' else xs[c[1]]) * scale, 'the values of an axis', detail)
                    v.prove(o[axis].unit == ('s' if axis == 'time' else '1'), 'the unit of an axis', detail)
            near(v, s.time, raw['time'][0] * 86400, 'the times of an observer')
            near(v, s.radius, raw['R'][0] * au, 'the radii of an observer')
            if key == 'mean free path':
                v.prove('lambda0' in o.parameters and 'mfp_radial_power' in o.parameters, 'the parameters of an observation', lambda: str(o.parameters))
                near(v, float(o['lambda0']), config['lamo'] * au, 'an assumption of an observation', detail)
                double = v.call(lambda: s[name].observe(**{**user, v.rng.choice(['lamo', 'lambda0', 'lam0']): (2 * config['lamo'], 'au')}), 'another assumption')
                near(v, double.data, 2 * numpy.array(o.data), 'a given assumption replaces the configured one', detail)
                near(v, s[name].observe(**user).data, o.data, 'an assumption that is no longer given returns to the configured one', detail)
            seen.append((name, user, numpy.array(o.data), o))
        for name, user, data, o in seen:
            again = v.call(lambda: s[name].observe(**user), 'a repeated observation')
            v.prove(numpy.array_equal(numpy.array(again.data), data) and numpy.array_equal(numpy.array(o.data), data), 'a repeated observation is the same', lambda: f'{name} {user}')
            v.prove(again.unit == o.unit and list(again.dimensions) == list(o.dimensions) and list(again.parameters) == list(o.parameters), 'a repeated observation is the same', lambda: f'{name} {user}')


CGS = {'Vr': 1e5, 'time': 86400.0, 'R': 1.495978707e13, 'lamo': 1.495978707e13, 'Rho': 1.0}
MKS = {'Vr': 1e3, 'time': 86400.0, 'R': 1.495978707e11, 'lamo': 1.495978707e11, 'Rho': 1e6}


@unit('C14', 'updates', STREAM, kind='bounded', bound='2 files, random updates', samples=16)
def updates(v):
    import numpy
    E = v.mod('eprem')
    with files(v, 'ab') as made:
        system = v.rng.choice([None, 'mks', 'cgs'])
        scale = CGS if system == 'cgs' else MKS
        s = v.call(lambda: E.Stream(7, config='eprem_input_file', source=made['a'][0], system=system), 'an observer of a file')
        source = config = 'a'
        explicit = False  # a configuration file given by its full path stays in force
        for i in range(5):
            kind = v.rng.choice(['source', 'config', 'both', 'none'])
            name = v.rng.choice('ab')
            new = {}
            if kind in ('source', 'both'):
                source = name
                new['source'] = made[name][0]
            if kind in ('config', 'both'):
                config = v.rng.choice('ab')
                explicit = True
                new['config'] = f'{made[config][0]}/eprem_input_file'
            v.call(lambda: s.update(**new), 'an update')
            raw = made[source][1]
            detail = f'{system} {new}'
            near(v, s['Vr'].observe().data, raw['Vr'][0] * scale['Vr'], 'an update changes the data only', detail)
            near(v, s['rho'].observe().data, raw['Rho'][0] * scale['Rho'], 'an update changes the data only', detail)
            near(v, s['time'].observe().data, raw['time'][0] * 86400, 'an update changes the data only', detail)
            near(v, s['x'].observe().data, raw['R'][0] * scale['R'] * numpy.sin(raw['T'][0]) * numpy.cos(raw['P'][0]), 'an update changes the data only', detail)
            near(v, s.radius, raw['R'][0] * scale['R'], 'an update changes the data only', detail)
            want = made[config][2]['lamo'] * scale['lamo']
            if explicit:
                near(v, float(s['mfp'].observe()['lambda0']), want, 'an update changes the configuration', detail)
