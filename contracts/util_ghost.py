"""Ghost units: the contract of metadata.Unit, for proofs about its clients.

A ghost unit is a point of the group R x R x R+ (exponents of two generators
and a positive scale), all symbolic.  Every property of units that a client
may rely on (C04, and C03 for `//`) holds of it:

  u * w, u / w, u ** p   the group operations; a number beside a unit is ignored
  u == w                 same point
  u + w, u - w           u if u == w, else an error; with a number: unsupported
  u | w                  same exponents (convertible)
  w // u                 the factor that takes values in u to values in w

At run time the same contracts use real units, m^a s^b with prefixes.
"""
import fractions
import numbers

Q = fractions.Fraction
PREFIX = {'': 1.0, 'k': 1e3, 'c': 1e-2, 'M': 1e6}


def factory(v):
    """Make the class that stands for metadata.Unit in symbolic runs."""
    m = v.mod('core.metadata')

    class Unit:
        __hash__ = None
        __array_ufunc__ = None

        def __init__(self, arg='1'):
            if isinstance(arg, Unit):
                self.a, self.b, self.k = arg.a, arg.b, arg.k
            elif arg == '1':
                self.a, self.b, self.k = 0, 0, 1
            else:
                raise ValueError(f'not a unit: {arg!r}')

        @classmethod
        def make(cls, a, b, k):
            u = cls()
            u.a, u.b, u.k = a, b, k
            return u

        def __mul__(self, o):
            if isinstance(o, m.UnitLike):
                o = Unit(o)
                return Unit.make(self.a + o.a, self.b + o.b, self.k * o.k)
            return self
        __rmul__ = __mul__

        def __truediv__(self, o):
            if isinstance(o, m.UnitLike):
                o = Unit(o)
                return Unit.make(self.a - o.a, self.b - o.b, self.k / o.k)
            return self

        def __rtruediv__(self, o):
            if isinstance(o, m.UnitLike):
                return Unit(o) / self
            return self

        def __pow__(self, p):
            if not isinstance(p, numbers.Real):
                return NotImplemented
            return Unit.make(self.a * p, self.b * p, v.pow(self.k, p))

        def _addsub(self, o):
            if not isinstance(o, m.UnitLike):
                return NotImplemented
            if self == o:
                return self
            raise m.UnitError('different units')
        __add__ = __sub__ = _addsub

        def same(self, o):
            o = Unit(o)
            return v.and_(self.a == o.a, self.b == o.b, self.k == o.k)

        def __eq__(self, o):
            if not isinstance(o, m.UnitLike):
                return False
            return bool(self.same(o))

        def __ne__(self, o):
            return not self == o

        def __or__(self, o):
            o = Unit(o)
            return bool(v.and_(self.a == o.a, self.b == o.b))

        def __floordiv__(self, o):
            o = Unit(o)
            if not (self | o):
                raise m.UnitError('not convertible')
            return o.k / self.k

        def __abs__(self): return self
        __pos__ = __neg__ = __round__ = __floor__ = __ceil__ = __trunc__ = __abs__

        def __str__(self):
            return '<unit>'
        __repr__ = __str__

    m.UnitLike.register(Unit)
    return Unit


def _abs_of_units(v):
    return None


def exps(v, tag):
    if v.symbolic:
        return v.real(f'{tag}a'), v.real(f'{tag}b')
    return tuple(_exp(v, f'{tag}{x}') for x in 'ab')


def _exp(v, name):
    """An exponent: from a solver model if there is one, else from a list."""
    if isinstance(v.given.get(name), str):
        return Q(v.given[name]).limit_denominator(12)
    return v.choice(name, [Q(0), Q(1), Q(2), Q(-1), Q(1, 2)])


def make(v, tag, like=None):
    """An arbitrary unit; `like` gives one of the same dimension."""
    m = v.mod('core.metadata')
    if v.symbolic:
        a, b = (like.a, like.b) if like is not None else exps(v, tag)
        return m.Unit.make(a, b, v.real(f'{tag}k', positive=True))
    if like is not None and like.a == 0:
        a, b, p = like.a, like.b, ''
    else:
        a, b = (like.a, like.b) if like is not None else exps(v, tag)
        p = v.choice(f'{tag}p', list(PREFIX))
    return Named(v, a, b, p)


class Named:
    """A real unit with its independent meaning."""
    def __init__(self, v, a, b, p):
        self.a, self.b, self.p = a, b, p
        parts = []
        if a:
            parts.append(f'{p}m^{a}')
        if b:
            parts.append(f's^{b}')
        self.text = ' '.join(parts) or '1'
        self.v = v
        self.k = PREFIX[p] ** float(a)

    def __str__(self):
        return self.text

    def real(self):
        return self.v.mod('core.metadata').Unit(self.text)


def arg(v, u):
    """What to pass as a unit."""
    if v.symbolic:
        return u
    return u.text if v.choice('unit as', [0, 1]) else u.real()


LONG = {'meter': 'm', 'kilometer': 'km', 'centimeter': 'cm', 'megameter': 'Mm', 'second': 's'}


class M:
    """The meaning of a unit: exponents and scale (the oracle's side)."""
    def __init__(self, a, b, k):
        self.a, self.b, self.k = a, b, k


def meaning(u):
    return M(u.a, u.b, u.k)


def mul(x, y): return M(x.a + y.a, x.b + y.b, x.k * y.k)
def div(x, y): return M(x.a - y.a, x.b - y.b, x.k / y.k)
def power(v, x, p): return M(x.a * p, x.b * p, v.pow(x.k, p))


ONE = M(0, 0, 1)


def equal(v, x, y):
    if v.symbolic:
        return v.and_(x.a == y.a, x.b == y.b, x.k == y.k)
    return (Q(x.a).limit_denominator(1000), Q(x.b).limit_denominator(1000)) == \
        (Q(y.a).limit_denominator(1000), Q(y.b).limit_denominator(1000)) and abs(x.k / y.k - 1) < 1e-9


def read(v, unit):
    """The meaning of a goats unit (run time), read term by term."""
    if v.symbolic:
        return meaning(unit)
    a = b = Q(0)
    k = 1.0
    for t in unit:
        base = LONG.get(str(t.base), str(t.base))
        e = Q(t.exponent).limit_denominator(1000)
        if base == '1':
            k *= float(t.coefficient)
        elif base == 's':
            b += e
        elif base.endswith('m') and base[:-1] in PREFIX:
            a += e
            k *= PREFIX[base[:-1]] ** float(e)
        else:
            raise AssertionError(f'unexpected unit {unit}')
    return M(a, b, k)


def check(v, unit, want, label):
    got = read(v, unit)
    v.prove(equal(v, got, want), label, lambda: f'{unit} is not {want.a}, {want.b}, {want.k}')
