"""C06: changing units preserves the physical quantity."""
import fractions

from pv.api import unit
from . import util_ghost as G
from . import util_units as T
from .c03_conversion import compound, write
from .c05_arithmetic import build, draw, values, every, at, fits, sizes, reject, GHOST, ASSUMED, SCALARS, ARRAYS, SIZED

Q = fractions.Fraction
EXTRA = ['index.Array']
TARGET = {'measurable.Quantity': ['core.measurable.Quantity.__getitem__', 'core.measurable.Quantity.apply_unit', 'core.measurable.Quantity._validate_unit'],
          'physical.Array': ['core.physical.Array.__getitem__', 'core.physical.Array.apply_unit', 'core.physical.Array._get_array'],
          'physical.Vector': ['core.physical.Vector.__getitem__', 'core.measurable.Quantity.apply_unit'],
          'variable.Quantity': ['core.variable.Quantity.__getitem__', 'core.variable.Quantity._update_unit', 'core.variable.Array._get_array'],
          'index.Array': ['core.index.Array.__getitem__']}


def np():
    import numpy
    return numpy


def make(v, kind, x, u, name=None):
    if kind == 'index.Array':
        m = v.mod('core.index')
        return m.Array(m.Data(range(len(x)), values=np().array(list(x))), unit=G.arg(v, u))
    q = build(v, kind, x, u)
    return q


def vals(v, kind, q):
    if kind == 'index.Array':
        return list(np().asarray(q.values))
    return values(v, q)


def freeze(v, kind, q):
    x = vals(v, kind, q)
    return x.copy(), G.read(v, q.unit)


def keep(v, kind, q, before, label):
    now = vals(v, kind, q)
    fits(v, now, before[0], f'{label}: the original keeps its values')
    for i in every(v, before[0]):
        v.eq(at(v, now, i), at(v, before[0], i), f'{label}: the original keeps its values')
    v.prove(G.equal(v, G.read(v, q.unit), before[1]), f'{label}: the original keeps its unit')


def holds(v, kind, q, x, u, label, scale=None, tol=1e-9):
    """The quantity q has the values of x (times a factor) and the unit u."""
    got = vals(v, kind, q)
    fits(v, got, x, f'{label}: same number of values')
    want = scale if callable(scale) else (lambda i: at(v, x, i)) if scale is None else lambda i: at(v, x, i) * scale
    for i in every(v, x):
        v.eq(at(v, got, i), want(i), f'{label}: values', rel=tol)
    G.check(v, q.unit, G.meaning(u), f'{label}: unit')


def touch(v, kind, q):
    """Possibly read the values before going on (fills caches)."""
    if v.choice('read first', [0, 1]):
        vals(v, kind, q)
    return q


def dims(q):
    return list(q.dimensions) if hasattr(q, 'dimensions') else None


def factor(u, w):
    return u.k / w.k


def spec_convert(v, kind):
    n = sizes(v, kind)
    u = G.make(v, 'u')
    w = G.make(v, 'w', like=u)
    x = draw(v, kind, 'x', n)
    q = touch(v, kind, make(v, kind, x, u))
    before = freeze(v, kind, q) if v.choice('look', [0, 1]) else (x.copy(), G.meaning(u))
    r = v.call(lambda: q[G.arg(v, w)], f'{kind}: a compatible unit is accepted')
    holds(v, kind, r, x, w, f'{kind} converted', factor(u, w))
    v.prove(type(r) is type(q), f'{kind} converted: same kind')
    v.prove(dims(r) == dims(q), f'{kind} converted: same dimensions')
    keep(v, kind, q, before, kind)
    s = v.call(lambda: r[G.arg(v, u)], f'{kind}: back')
    holds(v, kind, s, x, u, f'{kind} there and back')
    keep(v, kind, q, before, kind)
    holds(v, kind, r, x, w, f'{kind} converted, after converting back', factor(u, w))


def spec_chain(v, kind):
    n = sizes(v, kind)
    u = G.make(v, 'u')
    w, z = G.make(v, 'w', like=u), G.make(v, 'z', like=u)
    x = draw(v, kind, 'x', n)
    q = touch(v, kind, make(v, kind, x, u))
    r = v.call(lambda: touch(v, kind, q[G.arg(v, w)])[G.arg(v, z)], f'{kind}: chain')
    holds(v, kind, r, x, z, f'{kind} through an intermediate unit', factor(u, z))
    t = v.call(lambda: q[G.arg(v, z)], f'{kind}: direct')
    holds(v, kind, t, x, z, f'{kind} directly', factor(u, z))
    holds(v, kind, q, x, u, f'{kind} original')
    s = v.call(lambda: q[G.arg(v, u)], f'{kind}: own unit')
    holds(v, kind, s, x, u, f'{kind} in its own unit')


def spec_incompatible(v, kind):
    n = sizes(v, kind)
    u, w = G.make(v, 'u'), G.make(v, 'w')
    if v.symbolic:
        v.assume(v.or_(v.not_(u.a == w.a), v.not_(u.b == w.b)))
    else:
        v.assume((u.a, u.b) != (w.a, w.b))
    x = draw(v, kind, 'x', n)
    q = make(v, kind, x, u)
    reject(v, lambda: q[G.arg(v, w)], f'{kind}: an incompatible unit is rejected')
    holds(v, kind, q, x, u, f'{kind} after a rejected unit')
    z = G.make(v, 'z', like=u)
    r = v.call(lambda: q[G.arg(v, z)], f'{kind}: still usable')
    holds(v, kind, r, x, z, f'{kind} converted after a rejected unit', factor(u, z))


def spec_combine(v, kind):
    """Converting commutes with arithmetic."""
    n = sizes(v, kind)
    u = G.make(v, 'u')
    w = G.make(v, 'w', like=u)
    x, y = draw(v, kind, 'x', n), draw(v, kind, 'y', n, nonzero=True)
    a, b = touch(v, kind, make(v, kind, x, u)), make(v, kind, y, w)
    r = v.call(lambda: a[G.arg(v, w)] + b, f'{kind}: sum after converting')
    holds(v, kind, r, x, w, f'{kind} sum after converting', lambda i: at(v, x, i) * factor(u, w) + at(v, y, i))
    s = v.call(lambda: (a + b[G.arg(v, u)])[G.arg(v, w)], f'{kind}: sum before converting')
    holds(v, kind, s, x, w, f'{kind} sum before converting', lambda i: at(v, x, i) * factor(u, w) + at(v, y, i))
    p = v.call(lambda: a[G.arg(v, w)] * 2.0, f'{kind}: scaled')
    holds(v, kind, p, x, w, f'{kind} scaled after converting', factor(u, w) * 2.0)
    z = v.call(lambda: (a * 2.0)[G.arg(v, w)], f'{kind}: scaled')
    holds(v, kind, z, x, w, f'{kind} scaled before converting', factor(u, w) * 2.0)
    t = v.call(lambda: a[G.arg(v, w)] / b, f'{kind}: ratio')
    got = vals(v, kind, t)
    fits(v, got, x, f'{kind} ratio of converted values')
    for i in every(v, x):
        v.eq(at(v, got, i), at(v, x, i) * factor(u, w) / at(v, y, i), f'{kind} ratio of converted values')


def spec_slice(v, kind):
    """Converting commutes with slicing."""
    u = G.make(v, 'u')
    w = G.make(v, 'w', like=u)
    n, m = v.size('n', low=2), v.size('m', low=2)
    x = v.tensor('x', (n, m))
    c = v.attr(v.mod('core.' + kind.split('.')[0]), kind.split('.')[1])
    k = {'dimensions': ['p', 'q']} if kind == 'variable.Quantity' else {}
    q = c(x.copy(), unit=G.arg(v, u), **k)
    touch(v, kind, q)
    kept = kind == 'variable.Quantity'         # an integer keeps an axis of length 1
    full = slice(None)
    idx, shape, back = v.choice('index', [
        (full, (n, m), lambda i, j: (i, j)), (Ellipsis, (n, m), lambda i, j: (i, j)),
        ((0, full), (1, m) if kept else (m,), (lambda i, j: (0, j)) if kept else lambda j: (0, j)),
        ((full, 1), (n, 1) if kept else (n,), (lambda i, j: (i, 1)) if kept else lambda i: (i, 1)),
        ((full, -1), (n, 1) if kept else (n,), (lambda i, j: (i, m - 1)) if kept else lambda i: (i, m - 1)),
        ((slice(1, 2), slice(0, 1)), (1, 1), lambda i, j: (1, 0)),
        ((slice(1, None), full), (n - 1, m), lambda i, j: (i + 1, j)),
        ((full, slice(None, -1)), (n, m - 1), lambda i, j: (i, j))])
    if v.choice('order', [0, 1]):
        r = v.call(lambda: touch(v, kind, q[idx])[G.arg(v, w)], f'{kind}: slice, then convert')
    else:
        r = v.call(lambda: touch(v, kind, q[G.arg(v, w)])[idx], f'{kind}: convert, then slice')
    got = vals(v, kind, r)
    v.shape(got, shape, f'{kind} sliced and converted: number of values')
    for i in v.indices(shape):
        v.eq(v.element(got, i), v.element(x, back(*i)) * factor(u, w), f'{kind} sliced and converted: values')
    G.check(v, r.unit, G.meaning(w), f'{kind} sliced and converted: unit')
    z = v.call(lambda: c(q[G.arg(v, w)]), f'{kind}: copy of a converted array')
    holds(v, kind, z, x, w, f'{kind} copied after converting', factor(u, w))
    y = v.call(lambda: z[G.arg(v, u)], f'{kind}: copy converted back')
    holds(v, kind, y, x, u, f'{kind} copied and converted back')
    holds(v, kind, q, x, u, f'{kind} original')


def _register():
    for kind in SCALARS + ARRAYS + EXTRA:
        k = kind.replace('.', '_')
        t = TARGET.get(kind, TARGET['measurable.Quantity'])
        bound = 'none: all values and units' if kind in SCALARS else 'one or two axes of any size; all values and units' if kind in SIZED else 'two elements; all values and units'
        kw = dict(stubs=GHOST, assumes=ASSUMED, bound=bound, samples=60)
        unit('C06', f'{k}_convert', t, **kw)(lambda v, kind=kind: spec_convert(v, kind))
        unit('C06', f'{k}_chain', t, **kw)(lambda v, kind=kind: spec_chain(v, kind))
        unit('C06', f'{k}_incompatible', t, **kw)(lambda v, kind=kind: spec_incompatible(v, kind))
        if kind not in EXTRA:
            unit('C06', f'{k}_combine', t, **kw)(lambda v, kind=kind: spec_combine(v, kind))
        if kind in ('physical.Array', 'variable.Quantity'):
            unit('C06', f'{k}_slice', t, **kw)(lambda v, kind=kind: spec_slice(v, kind))


_register()


@unit('C06', 'axis', ['core.axis.Quantity.__getitem__', 'core.axis.Quantity.index', 'core.axis.Quantity.reference'],
      stubs=GHOST, assumes=ASSUMED, bound='two axis values; all values and units')
def axis(v):
    """An axis hands the indexer the unit in force, and labels with it."""
    m, i = v.mod('core.axis'), v.mod('core.index')
    u = G.make(v, 'u')
    w, z = G.make(v, 'w', like=u), G.make(v, 'z', like=u)
    x = v.reals('x', 2)
    asked = []

    def method(targets, unit):
        asked.append(unit)
        k = factor(u, G.read(v, unit))
        return i.Data(list(range(len(list(targets)))), values=[j * k for j, _ in zip(x, targets)])

    a = m.Quantity(m.Indexer(method, 2), unit=G.arg(v, u))
    if v.choice('read first', [0, 1]):
        holds(v, 'index.Array', v.call(lambda: a.reference, 'reference'), x, u, 'axis reference')
    b = v.call(lambda: a[G.arg(v, w)], 'a compatible unit is accepted')
    holds(v, 'index.Array', v.call(lambda: b.reference, 'reference'), x, w, 'converted axis reference', factor(u, w))
    G.check(v, b.unit, G.meaning(w), 'converted axis: unit')
    r = v.call(lambda: b.index(), 'index')
    holds(v, 'index.Array', r, x, w, 'converted axis index', factor(u, w))
    holds(v, 'index.Array', v.call(lambda: b.reference[G.arg(v, z)], 'reference'), x, z, 'converted reference', factor(u, z))
    holds(v, 'index.Array', v.call(lambda: a.reference, 'reference'), x, u, 'original axis reference')
    G.check(v, a.unit, G.meaning(u), 'original axis: unit')
    s = v.call(lambda: a.index(unit=metaunit(v, w)), 'index with a unit')
    holds(v, 'index.Array', s, x, w, 'index in a given unit', factor(u, w))
    G.check(v, a.unit, G.meaning(u), 'original axis: unit')
    c = v.call(lambda: m.Quantity(b), 'copy')
    G.check(v, c.unit, G.meaning(w), 'axis from an existing axis: unit')
    holds(v, 'index.Array', v.call(lambda: c.reference, 'reference'), x, w, 'axis from an existing axis', factor(u, w))
    d = v.call(lambda: b[G.arg(v, u)], 'back')
    holds(v, 'index.Array', v.call(lambda: d.reference, 'reference'), x, u, 'axis there and back')


def metaunit(v, u):
    return u if v.symbolic else u.real()


@unit('C06', 'axis_incompatible', ['core.axis.Quantity.__getitem__', 'core.index.Array.__getitem__'], stubs=GHOST, assumes=ASSUMED)
def axis_incompatible(v):
    m, i = v.mod('core.axis'), v.mod('core.index')
    u, w = G.make(v, 'u'), G.make(v, 'w')
    if v.symbolic:
        v.assume(v.or_(v.not_(u.a == w.a), v.not_(u.b == w.b)))
    else:
        v.assume((u.a, u.b) != (w.a, w.b))
    a = m.Quantity(m.Indexer(lambda t, unit: i.Data(range(len(list(t)))), 2), unit=G.arg(v, u))
    reject(v, lambda: a[G.arg(v, w)], 'an axis rejects an incompatible unit')
    G.check(v, a.unit, G.meaning(u), 'axis after a rejected unit')
    b = m.Quantity(m.indexer(3))
    reject(v, lambda: b[G.arg(v, w)], 'an axis without a unit has none to change')
    v.prove(list(b.index()) == [0, 1, 2] and b.unit is None, 'and stays usable')
    c = i.Array(i.Data([0, 1]))
    reject(v, lambda: c[G.arg(v, w)], 'indices without a unit have none to change')


@unit('C06', 'real_units', ['core.measurable.Quantity.__getitem__', 'core.physical.Array.__getitem__', 'core.variable.Quantity._update_unit',
                            'core.index.Array.__getitem__'], kind='bounded', samples=300, weight=3,
      bound='random pairs of real (prefixed, compound) units of every kind of quantity, against an independent table')
def real_units(v):
    """With the shipped units: exactly the conversion factor, or an error."""
    N = np()
    m = v.mod('core.metric')
    kind = v.choice('kind', SCALARS + ARRAYS + EXTRA)
    pa, ta = compound(v, v.int('n', 1, 2))
    i = v.int('which', 0, len(pa) - 1)
    p0, u0, e0 = pa[i]
    fam = next((f for f in T.FAMILIES if u0 in f), [u0])
    if v.choice('other', [0, 1, 1]):
        s = None
        p1, u1 = v.choice('p1', ['', 'k', 'm', 'c', 'M', 'G']), v.choice('u1', sorted(fam))
        s = T.spell(v, p1, u1)
        v.assume(s is not None)
        pb, tb = list(pa), list(ta)
        pb[i], tb[i] = (p1, u1, e0), (s, e0)
    else:
        pb, tb = compound(v, v.int('m', 1, 2))
    a, b = write(v, ta), write(v, tb)
    x = v.reals('x', 1 if kind in SCALARS else 2)
    mod, cls = kind.split('.')
    c = v.attr(v.mod(f'core.{mod}'), cls)
    if kind == 'index.Array':
        im = v.mod('core.index')
        q = c(im.Data(range(len(x)), values=N.array(x)), unit=a)
    else:
        q = c(x[0] if kind in SCALARS else N.array(x), unit=a)
    try:
        r = q[b]
    except Exception:
        r = None
    if r is not None:
        ok = [f for f in T.accepted(pa, pb)]
        v.prove(bool(ok), 'a unit of another dimension is rejected', lambda: f'{a} -> {b}')
        got = [float(t) for t in vals(v, kind, r)]
        v.prove(any(all(T.close(g, t * f) or g == t * f for g, t in zip(got, x)) for f in ok), 'values scale by the conversion factor',
                lambda: f'{a} -> {b}: {x} -> {got}, expected factor in {ok}')
        v.prove(r.unit == m.Unit(b), 'the new unit is the one asked for', lambda: f'{a} -> {b}: {r.unit}')
        back = v.call(lambda: r[a], 'back')
        v.prove(all(T.close(g, t) or abs(g - t) < 1e-300 for g, t in zip([float(t) for t in vals(v, kind, back)], x)), 'there and back')
    else:
        v.prove(m.conversion(a, b) is None, 'a convertible unit is accepted', lambda: f'{a} -> {b}')
    v.prove([float(t) for t in vals(v, kind, q)] == [float(t) for t in x] and q.unit == m.Unit(a), 'the original is unchanged')


@unit('C06', 'systems', ['core.metric.Unit.norm', 'core.variable.Interface.build', 'core.measurable.Quantity.__getitem__'], kind='bounded', samples=200,
      bound='random real units; both metric systems; every kind of quantity and variables built for a system')
def systems(v):
    """q['mks'] and q['cgs']: the same quantity in the system's own unit."""
    N = np()
    m = v.mod('core.metric')
    kind = v.choice('kind', SCALARS + ARRAYS + EXTRA + ['built', 'built'])
    pa, ta = compound(v, v.int('n', 1, 2))
    a = write(v, ta)
    system = v.choice('system', ['mks', 'cgs', 'MKS', 'CGS'])
    x = v.reals('x', 1 if kind in SCALARS else 2)
    if kind == 'built':
        va, df = v.mod('core.variable'), v.mod('core.datafile')
        class Raw:
            data, dimensions, unit = N.array(x), ('t',), a
        class File:
            variables = {'v': Raw}
        try:
            r = va.Interface(File, system=system)['v']
        except Exception:
            return
        kind = 'variable.Quantity'
    else:
        mod, cls = kind.split('.')
        c = v.attr(v.mod(f'core.{mod}'), cls)
        if kind == 'index.Array':
            im = v.mod('core.index')
            q = c(im.Data(range(len(x)), values=N.array(x)), unit=a)
        else:
            q = c(x[0] if kind in SCALARS else N.array(x), unit=a)
        try:
            r = q[system]
        except Exception:
            other = system.lower() if system.isupper() else system.upper()
            v.raises(Exception, lambda: q[other], 'a system by either spelling of its name')
            return
    got = [float(t) for t in vals(v, kind, r)]
    from .c03_conversion import read
    pr = read(r.unit)
    v.assume(pr is not None)
    ok = T.accepted(pa, pr)
    v.prove(any(all(T.close(g, t * f) or g == t * f for g, t in zip(got, x)) for f in ok), 'values scale with the unit of the system',
            lambda: f'{a} -> {r.unit}: {x} -> {got}, expected factor in {ok}')


@unit('C06', 'labels by system', ['core.axis.Quantity.__getitem__', 'core.index.Array.__getitem__', 'core.observing.Observable.__getitem__'], kind='finite', samples=1,
      bound='nine units; both metric systems by six spellings of their names; axes, index arrays and observable quantities')
def labels_by_system(v):
    """An axis and an observable quantity in the unit of a metric system."""
    N = np()
    ax, ix, ob = v.mod('core.axis'), v.mod('core.index'), v.mod('core.observing')
    U = v.mod('core.metadata').Unit
    known = {'km': ('m', 'cm'), 'm': ('m', 'cm'), 'cm': ('m', 'cm'), 'h': ('s', 's'), 'eV': ('J', 'erg'), 'kg': ('kg', 'g'), 'km s^-1': ('m s^-1', 'cm s^-1'),
             'MeV cm^-2': ('J m^-2', 'erg cm^-2'), 'au^3': ('m^3', 'cm^3')}
    for u, (mks, cgs) in known.items():
        for k, w in (('mks', mks), ('MKS', mks), ('Mks', mks), ('cgs', cgs), ('CGS', cgs), ('Cgs', cgs)):
            values = N.array([1.5, 4.0])
            def method(targets, unit):
                return ix.Data([0, 1], values=values * (U(unit) // U(u)))
            a = ax.Quantity(ax.Indexer(method, 2), unit=u)
            b = v.call(lambda: a[k], f'an axis by {k}')
            v.prove(b.unit == U(w), f'an axis by {k}: the unit of the system', lambda: f'{u} -> {b.unit}, not {w}')
            r = v.call(lambda: b.reference, f'an axis by {k}')
            q = v.call(lambda: ix.Array(ix.Data([0, 1], values=values), unit=u)[k], f'an index array by {k}')
            f = U(w) // U(u)
            for t, what in ((r, 'an axis'), (q, 'an index array')):
                v.prove(t.unit == U(w), f'{what} by {k}: the unit of the system', lambda: f'{u} -> {t.unit}, not {w}')
                for x, y in zip(t.values, values):
                    v.eq(float(x), float(y * f), f'{what} by {k}: the values scale with the unit', rel=1e-9)
            class Context:
                def get_unit(self, name):
                    return U(u)
            o = v.call(lambda: ob.Observable('q', Context())[k], f'an observable quantity by {k}')
            v.prove(o.unit == U(w), f'an observable quantity by {k}: the unit of the system', lambda: f'{u} -> {o.unit}, not {w}')
            v.prove(a.unit == U(u), 'the original is unchanged')
