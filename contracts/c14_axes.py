"""C14: the points of an axis and the quantities of an observer."""
import itertools
import operator

from pv.api import unit

AXIS = ['core.axis.indexer', 'core.axis.Indexer.normalize', 'core.axis.Indexer.compute', 'core.axis.Quantity.index', 'core.axis.Quantity.reference', 'core.index.Data', 'core.index.Quantity', 'core.index.Array']


def same(v, got, want):
    return v.and_(len(got) == len(want), *[a == b for a, b in zip(got, want)])


@unit('C14', 'axis_points', AXIS, bound='3 targets on an axis of up to 6 points; all integers', samples=200)
def axis_points(v):
    """The default indexer: the points asked for, in that order, or an error."""
    A, X = v.mod('core.axis'), v.mod('core.index')
    n = v.choice('n', [1, 2, 4, 6])
    axis = v.call(lambda: A.Quantity(A.indexer(n)), 'an axis')
    ts = [v.int(f't{i}', -8, 8) for i in range(v.choice('targets', [1, 2, 3]))]
    inside = v.and_(*[v.and_(t >= 0, t < n) for t in ts])
    if inside:
        q = v.call(lambda: axis.index(*ts), 'points of an axis')
        v.prove(same(v, q, ts), 'the points asked for, in the given order', lambda: f'{list(q)} {ts}')
        v.prove(same(v, q.values, ts), 'the values of plain points are the points', lambda: f'{q.values} {ts}')
        v.prove(q.unit is None, 'points without a unit')
    else:
        v.raises(ValueError, lambda: axis.index(*ts), 'a point beyond the axis is an error')


@unit('C14', 'axis_forms', AXIS, kind='bounded', bound='slices, ranges and no targets on axes of up to 7 points', samples=300)
def axis_forms(v):
    import numpy
    A, X = v.mod('core.axis'), v.mod('core.index')
    n = v.int('n', 1, 7)
    axis = A.Quantity(A.indexer(n))
    whole = list(range(n))
    v.prove(list(axis.index()) == whole and list(axis.reference) == whole and axis.unit is None, 'without targets: every point', lambda: f'{axis.index()}')
    ends = [None] + list(range(-n - 1, n + 2))
    s = v.choice('slice', [s for s in (slice(a, b, c) for a in ends for b in ends for c in (None, 1, 2, 3, -1, -2)) if whole[s]])
    v.prove(list(v.call(lambda: axis.index(s), 'a slice of an axis')) == whole[s], 'a slice of the points', lambda: f'{n} {s} {axis.index(s)}')
    first = v.int('from', 0, n - 1)
    r = range(first, v.int('to', first + 1, n), v.choice('by', [1, 2]))
    v.prove(list(v.call(lambda: axis.index(r), 'a range of an axis')) == list(r), 'a range of points', lambda: f'{n} {r} {axis.index(r)}')
    for bad in (-1, n, n + 3):
        v.raises(ValueError, lambda: axis.index(bad), 'a point beyond the axis is an error')
        v.raises(ValueError, lambda: axis.index(0, bad), 'a point beyond the axis is an error')
    v.raises(A.IndexTypeError, lambda: axis.index(None), 'something else than a point is an error')
    v.raises(A.IndexTypeError, lambda: axis.index([0]), 'something else than a point is an error')
    points = [v.rng.randrange(n) for _ in range(v.int('k', 1, 4))]
    vals = [v.rng.randint(-5, 5) * 1.5 for _ in points]
    d = X.Data(points, values=vals)
    v.prove(tuple(d.points) == tuple(points) and list(d.values) == vals, 'points and values of an index')
    a = X.Array(d, unit='km')
    b = X.Array(X.Quantity(d, unit='km'))
    for x in (a, b, X.Quantity(d, unit='km')):
        v.prove(list(x) == points and len(x) == len(points) and list(x.values) == vals and x.unit == 'km', 'points, values and unit of an index', lambda: f'{x}')
        v.prove(x[0] == points[0] and x[-1] == points[-1], 'a single point of an index')
    v.prove(X.Array(a) is a, 'indices from existing indices')
    for x in (a, b):
        v.prove(numpy.array_equal(numpy.array(x), vals), 'indices as an array are their values')
        m = v.call(lambda: x['m'], 'indices in another unit')
        v.prove(list(m) == points and numpy.allclose(m.values, [1e3 * y for y in vals]) and m.unit == 'm', 'indices in another unit', lambda: f'{m}')
        c = v.call(lambda: x['cgs'], 'indices in another metric system')
        v.prove(list(c) == points and numpy.allclose(c.values, [1e5 * y for y in vals]) and c.unit == 'cm', 'indices in another metric system', lambda: f'{c}')
        v.prove(list(x.values) == vals and x.unit == 'km', 'the original is unchanged')
    v.raises(ValueError, lambda: X.Data([0, 0.5]), 'points are integers')


OBSERVER = ['core.observer.Interface.__getitem__', 'core.observer.Interface.observes', 'core.observer.Interface.observables', 'core.observing.Context.get_quantity', 'core.observing.Observable']


@unit('C14', 'observers', OBSERVER, kind='bounded', bound='contexts of up to 5 quantities with aliases; names of every kind and compositions', samples=60)
def observers(v):
    import numpy
    O, G, V = v.mod('core.observer'), v.mod('core.observing'), v.mod('core.variable')
    R = v.mod('core.reference')
    pool = {n: tuple(x for x in R.ALIASES.find(n, [n]) if x != n) for n in ('vr', 'rho', 'radius', 'mfp', 'br', 'energy', 'banana')}
    names = v.rng.sample(sorted(pool), v.int('n', 2, 5))
    hidden = v.rng.sample(names, v.int('hidden', 0, 1))
    data = {n: V.Quantity(1.0 * i + numpy.ones(2), unit=u, dimensions=['x']) for i, (n, u) in enumerate(zip(names, ['m', 's', 'kg', 'J', 'K']))}
    A = v.mod('core.aliased')
    mapping = A.Mapping(data, aliases=R.ALIASES)

    class Context(G.Context):
        def observe(self, name):
            raise NotImplementedError(name)
    context = v.call(lambda: Context(mapping), 'a context of quantities')
    o = v.call(lambda: O.Interface(*[v.rng.choice((h,) + pool[h]) for h in hidden], context=context), 'an observer')
    for n in names:
        for alias in (n,) + pool[n]:
            say = lambda: f'{names} without {hidden}: {alias}'
            v.prove(o.observes(alias) == (n not in hidden), 'every name of an observable quantity is observable', say)
            v.prove(o.observes([alias]) == (n not in hidden), 'every name of an observable quantity is observable', say)
            q = v.call(lambda: o[alias], 'a quantity by any of its names')
            if n in hidden:
                v.prove(not isinstance(q, G.Observable) and q == data[n], 'an unobservable quantity is still available', say)
            else:
                v.prove(isinstance(q, G.Observable) and q.unit == data[n].unit, 'an observable quantity', say)
        groups = [set(g) for g in o.observables]
        v.prove(({n, *pool[n]} in groups) == (n not in hidden), 'observables are listed with all their names', lambda: f'{groups}')
    a, b = v.rng.sample(names, 2)
    text = f'{a} / {b}'
    v.prove(o.observes(text) == (a not in hidden and b not in hidden), 'compositions of observable quantities', lambda: f'{text} without {hidden}')
    if not hidden:
        q = v.call(lambda: o[text], 'a composition')
        v.prove(isinstance(q, G.Observable) and q.unit == data[a].unit / data[b].unit, 'a composition has the composed unit', lambda: f'{text}: {q.unit}')
    for absent in ('zzzzzzzz', f'{a} * zzzzzzzz', 'zzzzzzzz / yyyyyyyy'):
        v.prove(not o.observes(absent) and not o.observes([absent]), 'an unknown quantity is not observable', lambda: absent)
    v.raises(KeyError, lambda: o['zzzzz'], 'an unknown quantity is an error')
    v.raises(NotImplementedError, lambda: O.Interface()[a], 'an observer without a context has no quantities')
    v.prove(v.call(lambda: O.Interface().update(context)[a], 'a context given later') is not None, 'a context given later')


# -- the names of parameters ---------------------------------------------------------------
@unit('C14', 'parameters', ['core.observing.Parameters'], kind='finite', bound='all pairs of lists of up to 3 of 4 names', samples=1)
def parameters(v):
    P = v.mod('core.observing').Parameters
    names = ['a', 'b', 'lambda0', 'c d']
    lists = [p for k in range(0, 4) for p in itertools.permutations(names, k)]
    for a in lists:
        p = P(*a)
        say = lambda: f'{a}: {p}'
        v.prove(list(p) == list(a) and len(p) == len(a), 'the given names in order', say)
        v.prove(list(P(*a, *a[:1])) == list(a) and (not a or list(P(list(a))) == list(a)), 'each name once', say)
        v.prove(all((n in p) == (n in a) for n in names), 'contains the given names', say)
        v.prove(all((p == n) == (a == (n,)) and (p != n) == (a != (n,)) for n in [*names, '', 'ab', 'ba']), 'equal to its only name', say)
        v.prove(not a or (p == list(a[:1]) * len(a)) == (len(a) == 1), 'a repeated name is not two names', say)
        v.prove(not (p == 1) and p != 1 and not (p == None), 'not equal to other things', say)
        v.prove(all(list(v.call(g, 'a number')) == list(a) for g in (lambda: p * 2, lambda: 2 * p, lambda: p / 2, lambda: p ** 2, lambda: abs(p), lambda: -p, lambda: +p)), 'names with a number', say)
        for b in lists:
            q = P(*b)
            v.prove((p == q) == (set(a) == set(b)) and (p != q) == (set(a) != set(b)), 'equal to the same names', lambda: f'{a} {b}')
            v.prove((p == list(b)) == (set(a) == set(b)) and (p == b) == (set(a) == set(b)) and (p == set(b)) == (set(a) == set(b)), 'equal to a list of the same names', lambda: f'{a} {b}')
            v.prove(p != q or v.call(lambda: hash(p), 'a hash') == hash(q), 'equal names have equal hashes', lambda: f'{a} {b}')
            for f in (operator.mul, operator.truediv):
                r = v.call(lambda: f(p, q), 'product')
                v.prove(list(r) == [*a, *(n for n in b if n not in a)], 'products have the ordered union', lambda: f'{a} {b}: {r}')
    for bad in (1, [1], ['x', 2]):
        v.raises(TypeError, lambda: P(bad), 'names are strings')


# -- data files -------------------------------------------------------------------------------
FILE = ['core.datafile.Interface', 'core.datafile.NetCDFVariables', 'core.datafile.NetCDFAxes', 'core.datafile.ViewerFactory', 'core.iotools.PathSet', 'core.iotools.ReadOnlyPath']


@unit('C14', 'datafile', FILE, kind='bounded', bound='files of random names, units and sizes', samples=40)
def datafile(v):
    import netCDF4
    import numpy
    import pathlib
    import tempfile
    D = v.mod('core.datafile')
    r = v.rng
    known = {'time': ['t', 'times'], 'R': ['radius', 'r'], 'Vr': ['vr'], 'egrid': ['energy', 'E'], 'mu': ['pitch angle'], 'Rho': ['rho'], 'own': [], 'x1': [], 'preEruption': []}
    with tempfile.TemporaryDirectory(prefix='pv-c14-') as tmp:
        tmp = pathlib.Path(tmp)
        made = {}
        for name in ('one.nc', 'two.nc'):
            axes = {k: r.randint(1, 4) for k in r.sample(['time', 'shell', 'species', 'energy', 'own axis'], r.randint(1, 4))}
            variables = {}
            ds = netCDF4.Dataset(str(tmp / name), 'w')
            try:
                for k, n in axes.items():
                    ds.createDimension(k, n)
                for k in r.sample(list(known), r.randint(1, 6)):
                    dims = tuple(r.sample(list(axes), r.randint(0, min(2, len(axes)))))
                    attribute, unit_ = r.choice(['unit', 'units', None]), r.choice(['km/s', 'au', 'cos(mu)', 'day', '1'])
                    x = ds.createVariable(k, 'f8', dims)
                    if attribute:
                        setattr(x, attribute, unit_)
                    data = numpy.array([r.random() for _ in range(int(numpy.prod([axes[d] for d in dims])))]).reshape([axes[d] for d in dims])
                    x[...] = data
                    variables[k] = (data, unit_ if attribute else None, dims)
            finally:
                ds.close()
            made[name] = (variables, axes)
        form = r.choice([str, pathlib.Path])
        views = {name: v.call(lambda: D.Interface(form(tmp / name)), 'a data file is opened') for name in made}

        def check(d, variables, axes, say):
            flat, canonical = [], []
            for k, (data, unit_, dims) in variables.items():
                for n in (k, *known[k]):
                    x = v.call(lambda: d.variables[n], 'a variable under each of its names')
                    got = numpy.array(x.data[...])
                    v.prove(got.shape == data.shape and numpy.array_equal(got, data), 'the data of the variable', lambda: f'{n}: {got} {data}')
                    v.prove(x.unit == unit_ and tuple(x.dimensions) == dims and x.name == k, 'the unit, axes and name of the variable', lambda: f'{n}: {x!r}')
                    v.prove(n in d.variables and n in d.units and d.units[n] == unit_, 'the unit of the variable', lambda: f'{n}: {d.units.get(n)}')
                flat += [k, *known[k]]
            for k, size in axes.items():
                x = v.call(lambda: d.axes[k], 'an axis by its name')
                v.prove((x.size, x.name) == (size, k), 'the size of an axis', lambda: f'{k}: {x!r}')
            for k in set(known) - set(variables):
                v.prove(not any(n in d.variables for n in (k, *known[k])), 'only variables of the file', say)
                v.raises(KeyError, lambda: d.variables[k], 'only variables of the file')
            v.prove(not set(d.axes.keys()) & {'mu', 'own', 'nothing'}, 'only axes of the file', say)
            for word in ('variable', 'variables'):
                a = v.call(lambda: d.available(word), 'the available variables')
                v.prove(sorted(a.canonical) == sorted(variables), 'the names on disk', lambda: f'{a}')
                v.prove(set(flat) <= set(a.full) and sorted(map(str, a.full)) == sorted(map(str, d.variables)) and len(a.full) == len(set(a.full)), 'all names', lambda: f'{a}')
                v.prove(len(a.grouped) == len(variables) and all(any(set((k, *known[k])) <= set(g) for g in a.grouped) for k in variables), 'the names of each variable', lambda: f'{a}')
            for word in ('axis', 'axes', 'dimension', 'dimensions'):
                a = v.call(lambda: d.available(word), 'the available axes')
                v.prove(sorted(a.canonical) == sorted(axes), 'the axes on disk', lambda: f'{a}')
                v.prove(set(axes) <= set(a.full) and len(a.grouped) == len(axes) and all(any(k in g for g in a.grouped) for k in axes), 'all names of axes', lambda: f'{a}')

        for name in r.sample(list(made), 2) * 2:
            variables, axes = made[name]
            check(views[name], variables, axes, lambda: f'{name} {variables.keys()} {axes}')
            v.prove(D.Interface(str(tmp / name)) is views[name] and D.Interface(tmp / name) is views[name], 'one object for each file', name)
            v.prove(str(views[name].path) == str((tmp / name).resolve()), 'the path of a file', name)
        # Another way to view one file concerns that file only.
        class Doubled(D.NetCDFAxes):
            def __getitem__(self, name):
                return D.Axis(2 * super().__getitem__(name).size, name)
        v.prove(v.call(lambda: views['one.nc'].use(axes=Doubled), 'another viewer') is views['one.nc'], 'the same object with another viewer')
        variables, axes = made['one.nc']
        check(views['one.nc'], variables, {k: 2 * n for k, n in axes.items()}, lambda: 'with another viewer')
        check(views['two.nc'], *made['two.nc'], lambda: 'without another viewer')
        (tmp / 'other.txt').write_text('1')
        (tmp / 'third.nc').write_bytes((tmp / 'two.nc').read_bytes())
        check(v.call(lambda: D.Interface(tmp / 'third.nc'), 'a data file is opened'), *made['two.nc'], lambda: 'a file opened after another viewer')
        v.raises(TypeError, lambda: D.Interface(tmp / 'other.txt'), 'a file of unknown type is an error')
        v.raises(Exception, lambda: D.Interface(tmp / 'missing.nc'), 'a missing file is an error')
