"""pv.seq -- arrays of unbounded length.

A `Vec` is a one-dimensional numpy array of *any* length: its elements are
given by a function of the (symbolic) index, so that elementwise operations
compose functions, and reductions (`any`, `argmin`, `max` of the indices in a
mask, ...) return fresh values constrained by the documented contract of the
numpy function.  Those contracts are assumptions about numpy and are reported
as such.  Everything else on a `Vec` is out of reach.
"""
from . import core
import z3

from .core import OutOfReach, PathDone, SymInt, SymReal, SymBool, Sym, real, toz, tob, wrap

CURRENT = (None, None)
USED = set()


def assumed(text):
    loader, v = CURRENT
    if v is not None and text not in v.result.assumed:
        v.result.assumed.append(text)


class Abstract:
    """Base class of values of unbounded size."""

    def __iter__(self):
        raise OutOfReach('iteration over an unbounded symbolic sequence')

    def __len__(self):
        raise OutOfReach('native len() of an unbounded symbolic sequence')


def _fresh(name):
    c = core.ctx()
    return z3.Int(c.name(name))


def bound(n, f):
    """For all 0 <= j < n: f(j)."""
    j = z3.Int(core.ctx().name('j'))
    return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), f(j)))


def some(n, f):
    j = z3.Int(core.ctx().name('j'))
    return z3.Exists([j], z3.And(j >= 0, j < n, f(j)))


class _Dtype:
    def __init__(self, kind):
        self.kind = kind

    def __eq__(self, o):
        return {'f': o in (float, 'float64', 'float'), 'b': o in (bool, 'bool')}.get(self.kind, False)

    def __hash__(self):
        return 3


class Vec(Abstract):
    """A 1-D array of any length: `at(j)` is its j-th element."""
    __array_priority__ = 1000
    __array_ufunc__ = None
    ndim = 1

    def __init__(self, n, at, kind='f'):
        self.n = n              # z3 Int
        self.at = at
        self.kind = kind        # 'f' real, 'b' bool, 'i' int

    dtype = property(lambda s: _Dtype(s.kind))
    shape = property(lambda s: (SymInt(s.n),))
    size = property(lambda s: SymInt(s.n))
    T = property(lambda s: s)

    def length(self):
        return SymInt(self.n)

    def __setitem__(self, key, value):
        raise OutOfReach('assignment to elements of an array of any length')

    def astype(self, *a, **k):
        return self

    def copy(self, *a, **k):
        return Vec(self.n, self.at, self.kind)

    ravel = flatten = copy

    # -- elementwise --------------------------------------------------------
    def _other(self, o):
        if isinstance(o, Vec):
            if not z3.eq(z3.simplify(o.n), z3.simplify(self.n)):
                if core.ctx().branch(o.n != self.n):
                    raise ValueError('operands could not be broadcast together')
            return o.at
        if core.isnum(o):
            z = toz(o)
            return lambda j: z
        if isinstance(o, (bool, SymBool)):
            z = tob(o)
            return lambda j: z
        raise OutOfReach(f'array combined with {type(o)!r}')

    def _map(self, o, f, kind='f'):
        at = self._other(o)
        return Vec(self.n, lambda j: f(*_num(self.at(j), at(j))), kind)

    def __add__(self, o): return self._map(o, lambda a, b: a + b)
    def __radd__(self, o): return self._map(o, lambda a, b: b + a)
    def __sub__(self, o): return self._map(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._map(o, lambda a, b: b - a)
    def __mul__(self, o): return self._map(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._map(o, lambda a, b: b * a)
    def __neg__(self): return Vec(self.n, lambda j: -self.at(j))

    def __truediv__(self, o):
        if isinstance(o, Vec) or core.ctx().branch(real(toz(o)) == 0):
            raise OutOfReach('division of arrays')
        return self._map(o, lambda a, b: a / b)

    def __lt__(self, o): return self._map(o, lambda a, b: a < b, 'b')
    def __le__(self, o): return self._map(o, lambda a, b: a <= b, 'b')
    def __gt__(self, o): return self._map(o, lambda a, b: a > b, 'b')
    def __ge__(self, o): return self._map(o, lambda a, b: a >= b, 'b')
    def __eq__(self, o): return self._map(o, lambda a, b: a == b, 'b')
    def __ne__(self, o): return self._map(o, lambda a, b: a != b, 'b')
    __hash__ = None

    def _bits(self, o, f):
        if self.kind != 'b':
            raise OutOfReach('bitwise operator on numbers')
        at = self._other(o)
        return Vec(self.n, lambda j: f(self.at(j), at(j)), 'b')

    def __and__(self, o): return self._bits(o, z3.And)
    def __or__(self, o): return self._bits(o, z3.Or)
    def __invert__(self): return self._bits(self, lambda a, b: z3.Not(a))

    def __abs__(self):
        return Vec(self.n, lambda j: _abs(self.at(j)))

    # -- access -------------------------------------------------------------
    def __getitem__(self, i):
        c = core.ctx()
        if isinstance(i, tuple) and len(i) == 1:
            i = i[0]
        if isinstance(i, tuple) and not i or i is Ellipsis:
            return self
        if isinstance(i, tuple) and len(i) == 2 and i[1] is Ellipsis:
            i = i[0]
        if isinstance(i, Range):
            return i.select(self)
        if isinstance(i, Vec) and i.kind == 'b':
            return Masked(self, i)
        if not isinstance(i, (int, SymInt)):
            raise OutOfReach(f'array index {type(i)!r}')
        z = toz(i)
        if c.branch(z3.Or(z >= self.n, z < -self.n)):
            raise IndexError('index out of bounds')
        if c.branch(z < 0):
            z = z + self.n
        return wrap(self.at(z))

    def __contains__(self, x):
        z = real(toz(x))
        return core.ctx().branch(some(self.n, lambda j: real(self.at(j)) == z))

    def item(self, i=0):
        return self[i]

    # -- reductions: the documented contracts of numpy ------------------------
    def any(self, *a, **k):
        assumed('numpy.any, numpy.all: some / every element is true')
        return SymBool(some(self.n, lambda j: self._true(j)))

    def all(self, *a, **k):
        assumed('numpy.any, numpy.all: some / every element is true')
        return SymBool(bound(self.n, lambda j: self._true(j)))

    def _true(self, j):
        x = self.at(j)
        return x if z3.is_bool(x) else x != 0

    def _nonempty(self):
        if core.ctx().branch(self.n <= 0):
            raise ValueError('attempt to reduce an empty sequence')

    def argmin(self, *a, **k):
        assumed('numpy.argmin, numpy.argmax: the first index of the smallest / largest element')
        return SymInt(self._arg(lambda x, y: x <= y, lambda x, y: x < y))

    def argmax(self, *a, **k):
        assumed('numpy.argmin, numpy.argmax: the first index of the smallest / largest element')
        if self.kind == 'b':
            return SymInt(Vec(self.n, lambda j: z3.If(self.at(j), 1, 0))._arg(lambda x, y: x >= y, lambda x, y: x > y))
        return SymInt(self._arg(lambda x, y: x >= y, lambda x, y: x > y))

    def _arg(self, weak, strict):
        self._nonempty()
        c = core.ctx()
        i = _fresh('arg')
        c.add(z3.And(i >= 0, i < self.n))
        best = self.at(i)
        c.add(bound(self.n, lambda j: weak(best, self.at(j))))
        c.add(bound(i, lambda j: strict(best, self.at(j))))
        return i

    def min(self, *a, **k):
        assumed('numpy.min, numpy.max: the smallest / largest element')
        return wrap(self.at(self._arg(lambda x, y: x <= y, lambda x, y: x < y)))

    def max(self, *a, **k):
        assumed('numpy.min, numpy.max: the smallest / largest element')
        return wrap(self.at(self._arg(lambda x, y: x >= y, lambda x, y: x > y)))

    def nonzero(self):
        assumed('numpy.where(mask), numpy.nonzero: the increasing indices of the true elements')
        return (Indices(self),)


def _abs(x):
    return z3.If(x >= 0, x, -x)


def _num(a, b):
    if z3.is_bool(a) or z3.is_bool(b):
        return a, b
    if z3.is_int(a) and z3.is_real(b):
        a = z3.ToReal(a)
    if z3.is_int(b) and z3.is_real(a):
        b = z3.ToReal(b)
    return a, b


class Indices(Abstract):
    """The increasing indices at which a mask is true."""
    ndim = 1
    kind = 'i'
    __array_ufunc__ = None

    def __init__(self, mask):
        self.mask = mask

    def _some(self):
        return some(self.mask.n, self.mask._true)

    size = property(lambda s: _Truth(s._some()))

    def length(self):
        return _Truth(self._some())

    def any(self):
        raise OutOfReach('any() of indices')

    def _end(self, last):
        c = core.ctx()
        if not c.branch(self._some()):
            raise ValueError('zero-size array has no extremum')
        i = _fresh('idx')
        m = self.mask
        c.add(z3.And(i >= 0, i < m.n, m._true(i)))
        j = z3.Int(c.name('j'))
        beyond = z3.And(j > i, j < m.n) if last else z3.And(j >= 0, j < i)
        c.add(z3.ForAll([j], z3.Implies(beyond, z3.Not(m._true(j)))))
        return SymInt(i)

    def max(self, *a, **k): return self._end(True)
    def min(self, *a, **k): return self._end(False)

    def __getitem__(self, i):
        if isinstance(i, int) and i in (0, -1):
            try:
                return self._end(i == -1)
            except ValueError:
                raise IndexError('index out of bounds') from None
        raise OutOfReach('element of an index array')


class _Truth(SymInt):
    """A count of which only 'zero or not' is known."""
    __slots__ = ('some',)

    def __init__(self, cond):
        c = core.ctx()
        z = _fresh('count')
        c.add(z3.And(z >= 0, (z > 0) == cond))
        super().__init__(z)


class Masked(Abstract):
    """The elements of an array at which a mask is true."""
    ndim = 1
    __array_ufunc__ = None

    def __init__(self, vec, mask):
        self.vec, self.mask = vec, mask

    size = property(lambda s: _Truth(some(s.mask.n, s.mask._true)))

    def length(self):
        return self.size

    def _ext(self, weak):
        assumed('numpy.min, numpy.max: the smallest / largest element')
        c = core.ctx()
        m = self.mask
        if not c.branch(some(m.n, m._true)):
            raise ValueError('zero-size array has no extremum')
        i = _fresh('ext')
        c.add(z3.And(i >= 0, i < m.n, m._true(i)))
        best = self.vec.at(i)
        c.add(bound(m.n, lambda j: z3.Implies(m._true(j), weak(best, self.vec.at(j)))))
        return wrap(best)

    def min(self, *a, **k): return self._ext(lambda x, y: x <= y)
    def max(self, *a, **k): return self._ext(lambda x, y: x >= y)


class Range(Abstract):
    """range(start, stop) with symbolic ends."""

    def __init__(self, start, stop):
        self.start, self.stop = toz(start), toz(stop)

    def length(self):
        return SymInt(z3.If(self.stop > self.start, self.stop - self.start, 0))

    def __getitem__(self, i):
        from . import tensor
        n = self.length()
        if isinstance(i, slice):
            lo, size, step = tensor._slice(i, tensor._dim(n))
            if step != 1:
                raise OutOfReach('range() with a symbolic step')
            first = z3.simplify(self.start + tensor._z(lo))
            return Range(SymInt(first), SymInt(z3.simplify(first + tensor._z(size))))
        return SymInt(z3.simplify(self.start + tensor._index(i, tensor._dim(n))))

    def select(self, vec):
        """vec[range(start, stop)]"""
        c = core.ctx()
        n = self.length().z
        lo = self.start
        if c.branch(z3.And(n > 0, z3.Or(lo < 0, lo + n > vec.n))):
            raise IndexError('index out of bounds')
        assumed('numpy indexing by an increasing range selects those elements')
        return Vec(z3.simplify(n), lambda j: vec.at(lo + j), vec.kind)


class Items(Abstract):
    """A list of integers of any length."""

    def __init__(self, n, at):
        self.n, self.at = z3.simplify(n), at    # z3 Int, z3 Int -> z3 Int

    def length(self):
        return SymInt(self.n)

    def __add__(self, other):
        return display((True, self), (True, other))

    def __radd__(self, other):
        return display((True, other), (True, self))

    def __getitem__(self, i):
        from . import tensor
        d = tensor._dim(self.n)
        if isinstance(i, slice):
            lo, size, step = tensor._slice(i, d)
            at = self.at
            return Items(tensor._z(size), lambda j: at(z3.simplify(tensor._z(lo) + step * j)))
        return SymInt(z3.simplify(self.at(tensor._index(i, d))))


def _items(x):
    if isinstance(x, Items):
        return x
    if isinstance(x, Range):
        return Items(x.length().z, lambda j: x.start + j)
    if isinstance(x, Abstract):
        raise OutOfReach(f'list() of {type(x)!r}')
    x = list(x)
    if not all(isinstance(i, (int, SymInt)) for i in x):
        raise OutOfReach('a list of other things beside integers')

    def at(j):
        out = toz(x[-1]) if x else z3.IntVal(0)
        for k, i in reversed(list(enumerate(x[:-1]))):
            out = z3.If(j == k, toz(i), out)
        return out
    return Items(z3.IntVal(len(x)), at)


def display(*parts):
    """[*a, b]"""
    if not any(star and isinstance(x, Abstract) for star, x in parts):
        out = []
        for star, x in parts:
            out.extend(x) if star else out.append(x)
        return out
    items = [_items(x if star else [x]) for star, x in parts]
    result = items[0]
    for nxt in items[1:]:
        def at(j, a=result, b=nxt):
            return z3.If(j < a.n, a.at(j), b.at(j - a.n))
        result = Items(result.n + nxt.n, at)
    return result


def sym_range(*a):
    if len(a) == 1:
        a = (0, a[0])
    if len(a) == 3:
        raise OutOfReach('range() with a symbolic step')
    return Range(*a)


# -- numpy functions on unbounded arrays --------------------------------------
def n_where(mask, *a):
    if not a:
        return mask.nonzero()
    x, y = a
    def side(s):
        if isinstance(s, Vec):
            return s.at
        if isinstance(s, float) and s in (float('inf'), float('-inf')):
            # A number beyond every element: there is one, the array is finite.
            c = core.ctx()
            big = z3.Real(c.name('beyond'))
            for o in a:
                if isinstance(o, Vec):
                    c.add(bound(o.n, lambda j: real(o.at(j)) < big if s > 0 else real(o.at(j)) > big))
            return lambda j: big
        z = toz(s)
        return lambda j: z
    p, q = side(x), side(y)
    return Vec(mask.n, lambda j: z3.If(mask._true(j), *_num(p(j), q(j))))


def n_ones(shape, *a, dtype=None, **k):
    n = shape[0] if isinstance(shape, tuple) and len(shape) == 1 else shape
    z = toz(n)
    if dtype in (bool, 'bool'):
        return Vec(z, lambda j: z3.BoolVal(True), 'b')
    return Vec(z, lambda j: z3.RealVal(1))


def n_along(f, axis, arr, *a, **k):
    if axis not in (0, -1):
        raise IndexError('axis out of bounds')
    assumed('numpy.apply_along_axis applies the function to each 1-D slice')
    import numpy
    r = f(arr, *a, **k)
    out = numpy.empty(len(r), dtype=object)
    for i, x in enumerate(r):
        out[i] = x
    return out


def n_moveaxis(arr, a, b):
    return arr


NP = {
    'asarray': lambda x, *a, **k: x, 'array': lambda x, *a, **k: x.copy(), 'asfarray': lambda x, *a, **k: x,
    'asanyarray': lambda x, *a, **k: x,
    'abs': lambda x: abs(x), 'absolute': lambda x: abs(x), 'fabs': lambda x: abs(x),
    'where': n_where, 'nonzero': lambda x: x.nonzero(), 'flatnonzero': lambda x: x.nonzero()[0],
    'any': lambda x, **k: x.any(), 'all': lambda x, **k: x.all(),
    'argmin': lambda x, **k: x.argmin(), 'argmax': lambda x, **k: x.argmax(),
    'min': lambda x, **k: x.min(), 'max': lambda x, **k: x.max(), 'amin': lambda x, **k: x.min(), 'amax': lambda x, **k: x.max(),
    'subtract': lambda x, y, **k: x - y, 'add': lambda x, y: x + y, 'multiply': lambda x, y: x * y,
    'less_equal': lambda x, y: x <= y, 'greater_equal': lambda x, y: x >= y, 'less': lambda x, y: x < y, 'greater': lambda x, y: x > y,
    'ones': n_ones, 'ones_like': lambda x, dtype=None, **k: n_ones(x.shape, dtype=dtype),
    'apply_along_axis': n_along, 'moveaxis': n_moveaxis, 'ravel': lambda x: x, 'size': lambda x: x.size, 'ndim': lambda x: 1, 'shape': lambda x: x.shape,
    'logical_and': lambda x, y: x & y, 'logical_or': lambda x, y: x | y, 'logical_not': lambda x: ~x,
}


def b_any(x): return x.any()
def b_all(x): return x.all()
def b_min(x): return x.min()
def b_max(x): return x.max()
def b_list(x): return _items(x)


def forbid(it, where):
    if isinstance(it, Abstract):
        raise OutOfReach(f'loop {where} over an unbounded sequence has no invariant')
    return it


def comp(kind, it, elt, cond, native):
    if not isinstance(it, Abstract):
        return native(it)
    raise OutOfReach('comprehension over an unbounded sequence')


class Plain:
    abstract = False

    def __init__(self, items):
        self.items = items


def loop(it, site):
    if not isinstance(it, Abstract):
        return Plain(it)
    loader, v = CURRENT
    spec = loader.loop_specs.get(site)
    if spec is None:
        raise OutOfReach(f'loop {site} over an unbounded sequence has no invariant')
    return spec(v, it)
