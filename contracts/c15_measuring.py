"""C15: measurements are parsed without loss or invention."""
import itertools
import numbers

from pv.api import unit

MEASURE = ['core.measurable.measure', 'core.measurable.parse_measurable', 'core.measurable._callback_parse', 'core.measurable._wrap_measurable', 'core.measurable.ensure_unit']
MEASUREMENT = ['core.measurable.Measurement']
ARGUMENT = ['core.operational.Argument']
UNITS = [None, '1', 'm', 'km', 'J s^-1', 'cm^2 sr s', 'MeV/nuc']


def unit_of(v, name='unit', units=UNITS):
    """A unit: not given, as text, or as an object."""
    u = v.choice(name, units)
    if u is not None and v.bool('as an object'):
        return v.mod('core.metadata').Unit(u)
    return u


def check(v, m, values, u, what, why=''):
    """The measurement has exactly these values and this unit."""
    U = v.mod('core.metadata').Unit
    say = lambda: f'{why} -> {m.data} {m.unit}, not {values} {u}'
    v.prove(len(m) == len(values) and len(m.data) == len(values), f'{what}: as many values as given', say)
    for i, (x, y) in enumerate(zip(m.data, values)):
        v.prove(v.same(x, y), f'{what}: the given values in the given order', say)
    want = U('1' if u is None else u)
    v.prove(m.unit == want and str(m.unit) == str(want), f'{what}: the given unit, or none', say)


def given(u):
    return () if u is None else (u,)


# -- forms that are measurable ------------------------------------------------------
def forms(v, xs, u, plain=True):
    """(description, arguments) of every documented way to write the values."""
    g = given(u)
    yield 'arguments', (*xs, *g)
    yield 'flat list', ([*xs, *g],)
    yield 'flat tuple', ((*xs, *g),)
    yield 'list and unit', (list(xs), *g)
    yield 'tuple and unit', (tuple(xs), *g)
    yield 'nested list', ([list(xs), *g],)
    yield 'nested tuple', ((tuple(xs), *g),)
    yield 'tuple in list', ([tuple(xs), *g],)
    yield 'wrapped twice', ([[[*xs, *g]]],)
    yield 'wrapped in tuples', ((((tuple(xs), *g),),),)
    yield 'separate values', ([(x, *g) for x in xs],)
    yield 'separate lists', tuple([x, *g] for x in xs)
    yield 'separate and wrapped', ([([x], *g) for x in xs],)
    for k in range(1, len(xs)):
        yield f'two parts at {k}', ([(*xs[:k], *g), [*xs[k:], *g]],)
        yield f'two nested parts at {k}', ((list(xs[:k]), *g), ([tuple(xs[k:]), *g]))
    yield 'iterator', (iter([*xs, *g]),)
    yield 'generator', ((x for x in (*xs, *g)),)


def accepted_spec(v, n):
    M = v.mod('core.measurable')
    xs = [v.real(f'x{i}') for i in range(n)]
    u = unit_of(v)
    for what, args in forms(v, xs, u):
        if not any(word in what for word in ('iterator', 'generator')):
            v.prove(M.ismeasurable(args if len(args) > 1 else args[0]), f'{what}: is measurable', lambda: f'{args}')
        before = repr(args)
        m = v.call(lambda: M.measure(*args), f'{what}: can be measured')
        check(v, m, xs, u, what, before)
        if not v.symbolic:
            v.prove(repr(args) == before, f'{what}: input unchanged', before)
        again = v.call(lambda: M.measure(m), 'a measurement can be measured')
        check(v, again, xs, u, f'{what}, again')
        check(v, v.call(lambda: M.measure(*m.data, m.unit), 'its parts can be measured'), xs, u, f'{what}, parts again')
        check(v, v.call(lambda: M.measure(list(m)), 'its items can be measured'), xs, u, f'{what}, items again')


for n in (1, 2, 3, 4):
    def accepted(v, n=n):
        accepted_spec(v, n)
    unit('C15', f'accepted {n}', MEASURE + ['core.measurable.ismeasurable'], bound=f'{n} values in 15 ways of writing; all values; {len(UNITS)} units as text and objects',
         samples=30)(accepted)


@unit('C15', 'numbers', MEASURE, kind='bounded', bound='numbers of each type; arrays and ranges up to 6 values', samples=40)
def number_types(v):
    import numpy
    import fractions
    M = v.mod('core.measurable')
    r = v.rng
    u = unit_of(v)
    g = given(u)
    for x in [0, 1, -7, 2 ** 70 + 1, 0.0, -0.0, 1e-300, -3.5, float('inf'), True, False, 1 + 2j, fractions.Fraction(1, 3), numpy.float64(2.5), numpy.int32(4), numpy.float32(.5)]:
        for w in (u, None):
            h = given(w)
            for what, args in [('number', (x, *h)), ('wrapped', ([[x, *h]],)), ('repeated', ([(x, *h), (x, *h)],))]:
                m = v.call(lambda: M.measure(*args), f'{what}: can be measured')
                n = 2 if what == 'repeated' else 1
                check(v, m, [x] * n, w, what, repr(args))
                v.prove(all(type(y) is type(x) for y in m.data), f'{what}: the number itself', lambda: f'{x!r} -> {m.data!r}')
    k = r.randrange(2, 7)
    for what, values in [('range', range(k)), ('array', numpy.array([r.uniform(-9, 9) for _ in range(k)])), ('integer array', numpy.arange(k))]:
        check(v, v.call(lambda: M.measure(values, *g), what), list(values), u, what, repr(values))
        check(v, v.call(lambda: M.measure([values, *g]), what), list(values), u, f'{what} in list', repr(values))
        check(v, v.call(lambda: M.measure([(values, *g), (values, *g)]), what), [*values, *values], u, f'two of {what}', repr(values))
        v.prove(len(values) == k, f'{what}: input unchanged')


# -- all small nestings -------------------------------------------------------------
class Leaf:
    def __init__(self, kind):
        self.kind = kind


KINDS = ['number', 'm', 'km', 'None', 'text']


def trees():
    """Sequences (as lists) of leaf kinds: all of depth 1 and width 3, and of depth 2 and width 2; then wider ones."""
    flat = [list(t) for w in (0, 1, 2, 3) for t in itertools.product(KINDS, repeat=w)]
    some = KINDS[:3] + [list(t) for w in (1, 2) for t in itertools.product(KINDS, repeat=w)]
    yield from flat
    for w in (1, 2):
        for t in itertools.product(some, repeat=w):
            if any(isinstance(s, list) for s in t):
                yield list(t)
    few = ['number', 'm', ['number'], ['number', 'm'], ['number', 'number'], ['m'], ['number', 'number', 'm'], ['number', 'km'], ['number', ['number', 'm']]]
    for t in itertools.product(few, repeat=3):
        if any(isinstance(s, list) for s in t):
            yield list(t)


def outcome(t):
    """('accept', unit) if documented, ('reject',) if it cannot mean anything, ('either', unit) otherwise."""
    while isinstance(t, list) and len(t) == 1:
        t = t[0]
    if t == 'number':
        return 'accept', None
    if not isinstance(t, list) or not t:
        return 'reject',
    if any(s in ('None', 'text') for s in t):
        return 'reject',
    units = [s for s in t if s in ('m', 'km')]
    if len(units) > 1 or units and t[-1] not in units:
        return 'reject',
    body = t[:-1] if units else t
    if not units:
        if all(s == 'number' for s in body):
            return 'accept', None
        inner = [outcome(s) for s in body]
        if any(o[0] == 'reject' for o in inner):
            return 'reject',
        if any(o[1] != inner[0][1] for o in inner):
            return 'reject',
        if all(isinstance(s, list) for s in body) and all(o[0] == 'accept' for o in inner):
            return 'accept', inner[0][1]
        return 'either', inner[0][1]
    if body and all(s == 'number' for s in body):
        return 'accept', units[0]
    if len(body) == 1 and isinstance(body[0], list) and body[0] and all(s == 'number' for s in body[0]):
        return 'accept', units[0]
    inner = [outcome(s) for s in body]
    if not inner or any(o[0] == 'reject' or o[1] is not None for o in inner):
        return 'reject',
    return 'either', units[0]


def nested_spec(v, part, parts):
    M = v.mod('core.measurable')
    U = v.mod('core.metadata').Unit
    xs = [v.real(f'x{i}') for i in range(9)]
    style = v.choice('style', ['lists', 'tuples', 'objects'])
    wrap = tuple if style == 'tuples' else list

    def build(t, used):
        if isinstance(t, list):
            return wrap(build(s, used) for s in t)
        if t == 'number':
            used.append(xs[len(used)])
            return used[-1]
        return {'m': U('m') if style == 'objects' else 'm', 'km': 'km', 'None': None, 'text': 'not a unit'}[t]

    for i, t in enumerate(trees()):
        if i % parts != part:
            continue
        used = []
        arg = build(t, used)
        want = outcome(t)
        try:
            m = M.measure(arg)
            len(m), m.unit
        except Exception as e:
            v.prove(want[0] != 'accept', f'{t}: can be measured', lambda: f'{arg} {type(e)}: {e}')
            continue
        v.prove(want[0] != 'reject', f'{t}: rejected', lambda: f'{arg} -> {m.data} {m.unit}')
        if want[0] != 'reject':
            check(v, m, used, want[1], f'{t}', repr(arg))


for part in range(4):
    def nested(v, part=part):
        nested_spec(v, part, 4)
    unit('C15', f'nestings {part}', MEASURE, bound='all sequences of up to 3 numbers, units and other things, nested to depth 2 and width 2, and 729 of width 3; all values', samples=2)(nested)


# -- quantities -----------------------------------------------------------------------
def quantities(v, xs, u):
    """Existing quantities with these values."""
    P, O, M = v.mod('core.physical'), v.mod('core.operational'), v.mod('core.measurable')
    if len(xs) == 1:
        yield 'scalar', P.Scalar(xs[0], unit=u)
    yield 'vector', P.Vector(xs, unit=u)
    yield 'argument', O.Argument(list(xs), u)
    yield 'measurement', M.Measurement(list(xs), u)
    yield 'array', P.Array(list(xs), unit=u)
    if not v.symbolic:
        yield 'variable', v.mod('core.variable').Quantity(list(xs), dimensions=['x'], unit=u)


def quantities_spec(v, n):
    M, U = v.mod('core.measurable'), v.mod('core.metadata').Unit
    xs = [v.real(f'x{i}') for i in range(n)]
    y = v.real('y')
    u = unit_of(v, units=['m', 'km', '1', 'J s^-1'])
    w = v.choice('other unit', ['s', 'g^2'])
    for what, q in quantities(v, xs, u):
        m = v.call(lambda: M.measure(q), f'{what}: can be measured')
        check(v, m, xs, u, what)
        v.prove(M.ismeasurable(q), f'{what}: is measurable')
        check(v, v.call(lambda: M.measure([q]), f'{what}: in a list'), xs, u, f'{what} in list')
        check(v, v.call(lambda: M.measure(q, q), f'{what}: two'), [*xs, *xs], u, f'two of {what}')
        check(v, v.call(lambda: M.measure([q, (y, u)]), f'{what}: and a value'), [*xs, y], u, f'{what} and value')
        check(v, v.call(lambda: M.measure([(y, u), q]), f'{what}: after a value'), [y, *xs], u, f'value and {what}')
        v.raises(Exception, lambda: M.measure([q, (y, w)]), f'{what}: different units are rejected')
        v.raises(Exception, lambda: M.measure(q, w), f'{what}: a second unit is rejected')
        v.raises(Exception, lambda: M.measure([q, q, w]), f'{what}: a second unit is rejected')
        check(v, M.measure(q), xs, u, f'{what} unchanged')


for n in (1, 2, 3):
    def quantified(v, n=n):
        quantities_spec(v, n)
    unit('C15', f'quantities {n}', MEASURE + ['core.measurable.Quantity.__measure__', 'core.operational.Argument.__measure__'], bound=f'{n} values; all values; 4 units', samples=25)(quantified)


@unit('C15', 'converted', ['core.measurable.Quantity.__measure__', 'core.measurable.measure'], kind='bounded', bound='quantities of up to 5 values after a change of unit and a selection', samples=40)
def converted(v):
    M = v.mod('core.measurable')
    P, V = v.mod('core.physical'), v.mod('core.variable')
    r = v.rng
    xs = [round(r.uniform(-9, 9), 3) for _ in range(r.randrange(1, 6))]
    a, b, f = r.choice([('km', 'm', 1e3), ('m', 'cm', 1e2), ('h', 's', 3600.), ('MeV', 'J', 1.6022e-13), ('m', 'm', 1.), ('s', 'min', 1 / 60)])
    for q in (P.Vector(xs, unit=a), P.Array(xs, unit=a), V.Quantity(xs, dimensions=['x'], unit=a), P.Scalar(xs[0], unit=a)):
        c = q[b]
        m = M.measure(c)
        want = xs if len(m) == len(xs) else xs[:1]
        v.prove(str(m.unit) == b, 'the unit in force', lambda: f'{c!r} {m.unit}')
        v.prove(len(m) == len(want), 'all values')
        for x, y in zip(m.data, want):
            v.eq(x, y * f, 'the values in the unit in force', rel=1e-6)
    i = r.randrange(len(xs))
    for q in (P.Array(xs, unit=a), V.Quantity(xs, dimensions=['x'], unit=a)):
        m = M.measure(q[i:])
        v.prove([float(x) for x in m.data] == xs[i:], 'the selected values', lambda: f'{q[i:]!r} {m.data}')


# -- measurements ----------------------------------------------------------------------
@unit('C15', 'measurement items', MEASUREMENT, bound='up to 4 values and all indices and slices of them; all values', samples=40)
def items(v):
    M = v.mod('core.measurable')
    n = v.choice('n', [1, 2, 3, 4])
    xs = [v.real(f'x{i}') for i in range(n)]
    u = v.choice('unit', ['m', '1', 'J s^-1'])
    m = M.measure(*xs, u)
    text = str(v.mod('core.metadata').Unit(u))
    for i in range(-n, n):
        got = m[i]
        v.prove(len(got) == 1 and len(got[0]) == 2 and got[0][0] is m.data[i] and got[0][1] == text, 'a value with the unit', lambda: f'{i} of {xs}: {got}')
    for i in (n, n + 1, -n - 1, -2 * n, -2 * n - 1):
        v.raises(IndexError, lambda: m[i], f'no value {i}')
    for lo in (None, *range(-n - 1, n + 2)):
        for hi in (None, -1, 1, n):
            for k in (None, 2, -1):
                s = slice(lo, hi, k)
                got, want = m[s], xs[s]
                v.prove(len(got) == len(want) and all(g[0] is w and g[1] == text for g, w in zip(got, want)), 'the selected values with the unit', lambda: f'{s} of {xs}: {got}')
    v.prove(len(list(m)) == n, 'one item per value')
    check(v, m, xs, u, 'measurement')


@unit('C15', 'scalar', ['core.physical.scalar'], bound='15 ways of writing one value and 4 quantities; all values', samples=40)
def scalar(v):
    P, M = v.mod('core.physical'), v.mod('core.measurable')
    x, y = v.real('x'), v.real('y')
    u = unit_of(v)
    U = v.mod('core.metadata').Unit
    want = U('1' if u is None else u)

    def ok(s, what):
        v.prove(type(s).__name__ == 'Scalar' and v.same(s.data, x), f'{what}: the value', lambda: f'{x} {u} -> {s!r}')
        v.prove(s.unit == want, f'{what}: the unit', lambda: f'{x} {u} -> {s!r}')

    for what, args in forms(v, [x], u):
        this = args if len(args) > 1 else args[0]
        ok(v.call(lambda: P.scalar(this), what), what)
    for what, args in forms(v, [x, y], u):
        this = args if len(args) > 1 else args[0]
        v.raises(ValueError, lambda: P.scalar(this), f'{what}: two values are not a scalar')
    for what, q in quantities(v, [x], want):
        ok(v.call(lambda: P.scalar(q), what), what)
    for what, q in quantities(v, [x, y], want):
        v.raises(ValueError, lambda: P.scalar(q), f'{what}: two values are not a scalar')


def remade(v, n):
    """Vectors and arrays of existing measurements and quantities."""
    P, M = v.mod('core.physical'), v.mod('core.measurable')
    xs = [v.real(f'x{i}') for i in range(n)]
    u = v.choice('unit', ['m', 'km', '1', 'J s^-1'])
    for kind in (P.Vector, P.Array):
        for what, q in [*quantities(v, xs, u), ('a measurement', M.Measurement(tuple(xs), u))]:
            if kind is P.Array and type(q).__name__ == 'Scalar':
                continue
            label = f'{kind.__name__} of {what}'
            if type(q).__name__ in ('Scalar', 'Vector', 'Array', 'Measurement'):
                r = v.call(lambda: kind(q), label)
                v.prove(len(M.measure(r)) == n, f'{label}: as many values')
                check(v, v.call(lambda: M.measure(r), label), xs, u, label)
                check(v, v.call(lambda: M.measure(q), label), xs, u, f'{label}: unchanged')
        r = v.call(lambda: kind(M.Measurement(tuple(xs), u), name='given'), f'{kind.__name__} with a name')
        check(v, M.measure(r), xs, u, f'{kind.__name__} with a name')
        v.prove(set(r.name) == {'given'}, f'{kind.__name__}: the given name', lambda: f'{r!r}')
        for other in (P.Vector, P.Array):
            r = v.call(lambda: kind(other(list(xs), unit=u, name='own')), f'{kind.__name__} of a named {other.__name__}')
            check(v, M.measure(r), xs, u, f'{kind.__name__} of a named {other.__name__}')
            v.prove(set(r.name) == {'own'}, f'{kind.__name__}: the name of the {other.__name__}', lambda: f'{r!r}')
            if u == 'km':
                r = v.call(lambda: kind(other(list(xs), unit=u)['m']), f'{kind.__name__} of a converted {other.__name__}')
                m = M.measure(r)
                v.prove(str(m.unit) == 'm', 'the unit in force')
                for a, b in zip(m.data, xs):
                    v.eq(a, b * 1000, 'the values in the unit in force', rel=1e-9)


for n in (1, 2, 3):
    unit('C15', f'remade {n}', ['core.physical.Vector.__init__', 'core.physical.Array.__init__', 'core.measurable.Quantity.parse_attrs'], bound=f'{n} values; all values; 4 units', samples=25)(lambda v, n=n: remade(v, n))


# -- arguments ---------------------------------------------------------------------------
def physical_argument(v, n):
    O, P, M = v.mod('core.operational'), v.mod('core.physical'), v.mod('core.measurable')
    U = v.mod('core.metadata').Unit
    xs = [v.real(f'x{i}') for i in range(n)]
    u = unit_of(v, units=['m', 'km', '1', 'J s^-1'])
    ways = [(list(xs), u), (tuple(xs), u), (M.Measurement(xs, u),), (P.Vector(xs, unit=u),)]
    if n == 1:
        ways += [(xs[0], u), (P.Scalar(xs[0], unit=u),)]
    same = []
    for args in ways:
        a = v.call(lambda: O.Argument(*args), f'argument of {[type(x).__name__ for x in args]}')
        what = f'argument of {type(args[0]).__name__}'
        same.append(a)
        data = [a.data] if n == 1 else list(a.data)
        v.prove(len(data) == n and len(a) == n and len(list(a)) == n, f'{what}: as many values as given')
        for x, d, i in zip(xs, data, list(a)):
            v.prove(v.and_(v.same(d, x), v.same(i, x)), f'{what}: the given values in the given order', lambda: f'{xs} -> {a!r}')
        v.prove(a.unit == U(u), f'{what}: the given unit')
        v.prove(bool(a) is True, f'{what}: true whatever the values')
        check(v, v.call(lambda: M.measure(a), f'{what}: can be measured'), xs, u, what)
        for i in range(-n, n):
            s = v.call(lambda: a[i], f'{what}: value {i}')
            v.prove(type(s).__name__ == 'Scalar' and v.same(s.data, xs[i]), f'{what}: value {i}', lambda: f'{xs} -> {s!r}')
            v.prove(s.unit == U(u), f'{what}: unit of value {i}')
        for i in (n, n + 2):
            v.raises(IndexError, lambda: a[i], f'{what}: no value {i}')
        part = v.call(lambda: a[0:], f'{what}: all values')
        v.prove(len(part) == n, f'{what}: a slice has all values')
        for s, x in zip(part, xs):
            v.prove(v.same(s.data, x), f'{what}: slice', lambda: f'{part}')
        if n > 1:
            v.raises(O.NumericCastError, lambda: float(a), f'{what}: not one number')
            v.raises(O.NumericCastError, lambda: int(a), f'{what}: not one integer')
        elif not v.symbolic:
            v.prove(float(a) == float(xs[0]), f'{what}: as a number')
            v.prove(int(a) == int(xs[0]), f'{what}: as an integer')
    for a in same[1:]:
        v.prove(bool(same[0] == a), 'arguments of the same values are equal', lambda: f'{same[0]!r} {a!r}')
        v.prove(not bool(same[0] != a), 'and not different')
    for other in (O.Argument(list(xs), 's^3'), O.Argument([*xs, xs[0]], u)):
        v.prove(not bool(same[0] == other), 'other units or other values are different', lambda: f'{same[0]!r} {other!r}')
        v.prove(not bool(other == same[0]), 'other units or other values are different', lambda: f'{same[0]!r} {other!r}')
    ys = [v.real(f'y{i}') for i in range(n)]
    e = O.Argument(list(ys), u) == same[0]
    v.prove(bool(e) == bool(v.and_(*[v.same(x, y) for x, y in zip(xs, ys)])), 'equal exactly when all values are', lambda: f'{xs} {ys} {e}')


for n in (1, 2, 3):
    def argument(v, n=n):
        physical_argument(v, n)
    unit('C15', f'argument {n}', ARGUMENT, bound=f'{n} values; all values; 4 units', samples=25)(argument)


@unit('C15', 'options', ARGUMENT, kind='bounded', bound='integers, booleans and text', samples=120)
def options(v):
    O, M = v.mod('core.operational'), v.mod('core.measurable')
    r = v.rng
    x = r.choice([0, 1, -5, 10 ** 9, True, False, '', ' ', 'text', '3', '12', '-407', '/a/file', 'a b', r.randrange(-999, 999), str(r.randrange(-999, 999))])
    a = O.Argument(x)
    v.prove(a.data == x and type(a.data) is type(x), 'the given value', lambda: f'{x!r} {a!r}')
    v.prove(a.unit is None, 'no unit', lambda: f'{x!r} {a.unit}')
    truth = x if isinstance(x, bool) else bool(x.strip()) if isinstance(x, str) else True
    v.prove(bool(a) == truth, 'true unless false or blank', lambda: f'{x!r} {bool(a)}')
    v.prove(bool(a == O.Argument(x)) and bool(a == x), 'equal to itself', lambda: f'{x!r}')
    other = r.choice([y for y in [0, 7, 'text', '12', 'other'] if y != x])
    v.prove(not (a == O.Argument(other)) and not (a == other), 'different from others', lambda: f'{x!r} {other!r}')
    try:
        n = int(x)
    except ValueError:
        v.raises(ValueError, lambda: int(a), f'{x!r} is not an integer')
    else:
        v.prove(int(a) == n, 'the integer', lambda: f'{x!r} {int(a)}')
    if isinstance(x, str):
        v.raises(Exception, lambda: M.measure(a), 'text cannot be measured')
    else:
        check(v, M.measure(a), [x], None, 'option')
    for bad in (1.5, [1.5, 2.5], None, [None], (1, 2.5)):
        v.raises(TypeError, lambda: O.Argument(bad), f'{bad} needs a unit')
    for bad in ((1, 'm', 's'), (1, 2, 3), ()):
        v.raises(Exception, lambda: O.Argument(*bad), f'{bad}: wrong arguments')
