"""pv.tensor -- arrays of a given rank and of any size along each axis.

A `Tensor` stands for a numpy array whose sizes are symbolic: its elements are
given by a function of the (symbolic) indices.  numpy's ufuncs compose those
functions (with numpy's broadcasting rules), views and reshapes permute or
insert indices, and reductions along an axis are applications of an opaque
`sum`.  What is assumed of numpy here is its documentation of those functions;
everything else on a `Tensor` is out of the verifier's reach.

A tensor is a value: operations capture the element function as it is when they
are applied, so that assignment to an array (`a[mask] = x`, `out=`) changes that
array only.  Assignment through or under a view is out of reach.
"""
from . import core, seq
import z3

import numpy
from numpy.lib.mixins import NDArrayOperatorsMixin

from .core import OutOfReach, Sym, SymBool, SymInt, SymReal, real, toz, tob, wrap

ELEMENTWISE = 'numpy ufuncs act elementwise on arrays of any size, with numpy\'s broadcasting'
VIEWS = 'numpy transpose, reshape, squeeze and basic indexing rearrange the elements as documented'
REDUCE = 'numpy sum and mean: the sum (over the number) of the elements along an axis'


def _dim(n):
    """The size of an axis: a Python int if it is known, else a z3 term."""
    if isinstance(n, SymInt):
        n = n.z
    if z3.is_expr(n):
        n = z3.simplify(n)
        return n.as_long() if z3.is_int_value(n) else n
    return int(n)


def _size(d):
    return d if isinstance(d, int) else SymInt(d)


def _z(d):
    return z3.IntVal(d) if isinstance(d, int) else d


def _same(a, b):
    """Are the two sizes known to be the same (splitting the path if needed)?"""
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    x, y = _z(a), _z(b)
    if z3.eq(x, y):
        return True
    return not core.ctx().branch(x != y)


def _total(f):
    """Evaluate f without splitting on denominators (x / 0 is some number)."""
    c = core.ctx()
    before, c.total = c.total, True
    try:
        return f()
    finally:
        c.total = before


def _sel(cond, a, b):
    if isinstance(a, SymBool) or isinstance(b, SymBool):
        return SymBool(z3.If(cond, tob(a), tob(b)))
    x, y = core._arith(a, b)
    return wrap(z3.If(cond, x, y))


def total(n, f):
    """The sum of f(k) for 0 <= k < n."""
    n = _dim(n)
    if isinstance(n, int) and n <= 8:
        out = 0.0
        for k in range(n):
            out = out + f(z3.IntVal(k))
        return out
    seq.assumed(REDUCE)
    return opaque('sum', n, f)


def opaque(kind, n, *lines):
    """Some number determined by the values of the lines at 0 <= k < n."""
    c = core.ctx()
    c.abstract = True
    n = _z(_dim(n))
    k = z3.Int(c.name('line!k'))
    c.lines = getattr(c, 'lines', 0) + 1
    known = len(c.pc)
    try:
        bodies = [z3.simplify(real(toz(_total(lambda: f(k))))) for f in lines]
    finally:
        c.lines -= 1
    if any(_mentions(p, k) for p in c.pc[known:]):
        raise OutOfReach('a choice made for each element of a line')
    if c.lines:
        # Within another line: an opaque function of the lines themselves.
        sort = z3.ArraySort(z3.IntSort(), z3.RealSort())
        f = z3.Function(kind, *[sort] * len(bodies), z3.IntSort(), z3.RealSort())
        return SymReal(f(*[z3.Lambda([k], b) for b in bodies], n))
    factor = z3.RealVal(1)
    if kind == 'sum' and z3.is_mul(bodies[0]):
        # sum(c f) = c sum(f)
        inside = []
        for t in bodies[0].children():
            if _mentions(t, k):
                inside.append(t)
            else:
                factor = factor * t
        bodies = [z3.simplify(z3.Product(*inside))] if inside else bodies
        factor = factor if inside else z3.RealVal(1)
    return SymReal(factor) * _opaque(c, kind, n, k, bodies)


def _opaque(c, kind, n, k, bodies):
    j = z3.Int('line!j')
    bodies = [z3.substitute(b, (k, j)) for b in bodies]
    c.__dict__.setdefault('opaques', [])
    for other, m, others, value in c.opaques:
        if other == kind and len(others) == len(bodies) and z3.eq(m, n) and all(z3.eq(a, b) for a, b in zip(others, bodies)):
            return SymReal(value)
    for other, m, others, value in c.opaques:
        if other != kind or len(others) != len(bodies):
            continue
        c.solver.set('timeout', 1000)
        same = c.check(z3.Or(m != n, z3.And(j >= 0, j < n, z3.Or(*[a != b for a, b in zip(others, bodies)])))) == z3.unsat
        c.solver.set('timeout', c.qtimeout)
        if same:
            return SymReal(value)
    value = z3.Real(c.name(kind + '!'))
    c.opaques.append((kind, n, bodies, value))
    return SymReal(value)


def _mentions(z, k):
    todo, seen = [z], set()
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.eq(t, k):
            return True
        todo.extend(t.children() if not z3.is_quantifier(t) else [t.body()])
    return False


class Tensor(NDArrayOperatorsMixin, seq.Abstract):
    __array_priority__ = 1000

    def __init__(self, dims, val, kind='f', view=False):
        self.dims = [_dim(d) for d in dims]
        self._val = val             # of z3 integers, giving Sym or SymBool
        self.kind = kind
        self._view = view
        self._viewed = False

    ndim = property(lambda s: len(s.dims))
    shape = property(lambda s: tuple(_size(d) for d in s.dims))
    dtype = property(lambda s: numpy.dtype(bool if s.kind == 'b' else float))
    T = property(lambda s: s.transpose())

    @property
    def size(self):
        n = 1
        for d in self.shape:
            n = d * n
        return n

    def length(self):
        return _size(self.dims[0])

    def __len__(self):
        if isinstance(self.dims[0], int):
            return self.dims[0]
        return seq.Abstract.__len__(self)

    def value(self, *idx):
        f = self._val
        return _total(lambda: f(*[_z(_dim(i)) for i in idx]))

    def __hash__(self):
        raise TypeError('unhashable')

    def _make(self, dims, val, kind=None, view=True):
        new = Tensor(dims, val, kind or self.kind, view=view)
        if view:
            self._viewed = True
        elif not new.dims:
            return new.value()
        return new

    def astype(self, *a, **k):
        return self.copy()

    def copy(self, *a, **k):
        return Tensor(self.dims, self._val, self.kind)

    def __bool__(self):
        raise ValueError('The truth value of an array with more than one element is ambiguous.')

    # -- ufuncs -----------------------------------------------------------------
    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        name = ufunc.__name__
        out = kwargs.pop('out', ())
        if method != '__call__' or kwargs or name not in UFUNC:
            raise OutOfReach(f'numpy.{name} ({method}, {sorted(kwargs)}) of an array of any size')
        seq.assumed(ELEMENTWISE)
        f, kind = UFUNC[name]
        args = [as_tensor(x) for x in inputs]
        if any(a is None for a in args):
            return NotImplemented
        dims, vals = broadcast(args)
        result = Tensor(dims, lambda *i: f(*[g(*i) for g in vals]), kind)
        if out:
            (o,) = out
            if not isinstance(o, Tensor) or o._view or o._viewed:
                raise OutOfReach('a ufunc that writes into a view')
            if len(o.dims) != len(dims) or not all(_same(a, b) for a, b in zip(o.dims, dims)):
                raise ValueError('non-broadcastable output operand')
            o._val, o.kind = result._val, kind
            return o
        return result if result.dims else result.value()

    def __array_function__(self, func, types, args, kwargs):
        h = FUNCTIONS.get(func.__name__)
        if h is None:
            raise OutOfReach(f'numpy.{func.__name__} of an array of any size')
        return h(*args, **kwargs)

    # -- views ------------------------------------------------------------------
    def transpose(self, *axes):
        seq.assumed(VIEWS)
        n = self.ndim
        if len(axes) == 1 and (axes[0] is None or isinstance(axes[0], (tuple, list))):
            axes = axes[0]
        order = [int(a) % n for a in axes] if axes else list(range(n))[::-1]
        if sorted(order) != list(range(n)):
            raise ValueError("axes don't match array")
        val = self._val
        return self._make([self.dims[a] for a in order], lambda *i: val(*[i[order.index(k)] for k in range(n)]))

    def swapaxes(self, a, b):
        order = list(range(self.ndim))
        order[a], order[b] = order[b], order[a]
        return self.transpose(order)

    def reshape(self, *shape, **k):
        seq.assumed(VIEWS)
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = shape[0]
        new = [_dim(d) for d in shape]
        old = [(i, d) for i, d in enumerate(self.dims) if not (isinstance(d, int) and d == 1)]
        rest = [j for j, d in enumerate(new) if not (isinstance(d, int) and d == 1)]
        if len(rest) != len(old):
            raise OutOfReach('reshape that merges or splits axes')
        for j, (i, d) in zip(rest, old):
            if isinstance(new[j], int) and new[j] == -1:
                new[j] = d
            if not _same(new[j], d):
                raise OutOfReach('reshape that merges or splits axes')
        where = {i: j for j, (i, d) in zip(rest, old)}
        val, n = self._val, self.ndim
        return self._make(new, lambda *x: val(*[x[where[i]] if i in where else z3.IntVal(0) for i in range(n)]))

    def squeeze(self, axis=None):
        seq.assumed(VIEWS)
        n = self.ndim
        if axis is None:
            gone = [i for i, d in enumerate(self.dims) if _same(d, 1)]
        else:
            gone = [int(a) % n for a in (axis if isinstance(axis, (tuple, list)) else [axis])]
            if not all(_same(self.dims[a], 1) for a in gone):
                raise ValueError('cannot select an axis to squeeze out which has size not equal to one')
        keep = [i for i in range(n) if i not in gone]
        val = self._val
        return self._make([self.dims[i] for i in keep],
                          lambda *x: val(*[x[keep.index(i)] if i in keep else z3.IntVal(0) for i in range(n)]))

    def __getitem__(self, key):
        seq.assumed(VIEWS)
        key = list(key) if isinstance(key, tuple) else [key]
        if any(isinstance(k, Tensor) for k in key):
            raise OutOfReach('selection by an array of any size')
        used = sum(k is not None and k is not Ellipsis for k in key)
        if sum(k is Ellipsis for k in key) > 1 or used > self.ndim:
            raise IndexError('too many indices for array')
        if not any(k is Ellipsis for k in key):
            key.append(Ellipsis)
        at = [k is Ellipsis for k in key].index(True)
        key[at:at + 1] = [slice(None)] * (self.ndim - used)
        dims, parts, lists = [], [], 0
        axis = 0
        for k in key:
            if k is None:
                dims.append(1)
                continue
            d = self.dims[axis]
            axis += 1
            if isinstance(k, slice):
                lo, n, step = _slice(k, d)
                j = len(dims)
                dims.append(n)
                parts.append(lambda x, j=j, lo=lo, step=step: z3.simplify(_z(lo) + x[j] * step))
            elif isinstance(k, (int, SymInt, numpy.integer)) and not isinstance(k, bool):
                z = _index(k if isinstance(k, SymInt) else int(k), d)
                parts.append(lambda x, z=z: z)
            elif isinstance(k, seq.Range):
                n = _dim(k.length())
                if core.ctx().branch(z3.And(_z(n) > 0, z3.Or(k.start < 0, k.start + _z(n) > _z(d)))):
                    raise IndexError('index out of bounds')
                j = len(dims)
                dims.append(n)
                lists += 1
                parts.append(lambda x, j=j, k=k: z3.simplify(k.start + x[j]))
            elif isinstance(k, seq.Items):
                if core.ctx().branch(seq.some(k.n, lambda j: z3.Or(k.at(j) >= _z(d), k.at(j) < -_z(d)))):
                    raise IndexError('index out of bounds')
                j = len(dims)
                dims.append(k.n)
                lists += 1
                parts.append(lambda x, j=j, k=k, d=d: z3.simplify(z3.If(k.at(x[j]) < 0, k.at(x[j]) + _z(d), k.at(x[j]))))
            elif isinstance(k, (list, range, numpy.ndarray)) and numpy.ndim(k) == 1:
                zs = [_index(i if isinstance(i, SymInt) else int(i), d) for i in k]
                j = len(dims)
                dims.append(len(zs))
                lists += 1
                parts.append(lambda x, j=j, zs=zs: _pick(zs, x[j]))
            else:
                raise OutOfReach(f'array index {type(k)!r}')
        if lists > 1:
            raise OutOfReach('several index lists')
        val = self._val
        new = self._make(dims, lambda *x: val(*[p(x) for p in parts]), view=not lists)
        return new if isinstance(new, Tensor) and new.dims else new.value() if isinstance(new, Tensor) else new

    def __setitem__(self, key, value):
        if self._view or self._viewed:
            raise OutOfReach('assignment to an array with views')
        old = self._val
        if isinstance(key, Tensor) and key.kind == 'b' and core.isnum(value):
            if len(key.dims) != self.ndim or not all(_same(a, b) for a, b in zip(key.dims, self.dims)):
                raise IndexError('boolean index did not match indexed array')
            mask = key._val
            self._val = lambda *i: _sel(tob(mask(*i)), value, old(*i))
            return
        if key is Ellipsis and core.isnum(value):
            self._val = lambda *i: value
            return
        raise OutOfReach('assignment to elements of an array of any size')

    def __contains__(self, x):
        raise OutOfReach('search in an array of any size')

    # -- reductions ----------------------------------------------------------------
    def sum(self, axis=None, keepdims=False, dtype=None, out=None, **k):
        if axis is None or isinstance(axis, (tuple, list)) or k or out is not None:
            raise OutOfReach('sum over several axes')
        if not -self.ndim <= axis < self.ndim:
            raise ValueError('axis is out of bounds')     # numpy.AxisError is one
        axis = axis % self.ndim
        d, val = self.dims[axis], self._val
        if keepdims:
            dims = self.dims[:axis] + [1] + self.dims[axis + 1:]
            f = lambda *x: total(d, lambda k: val(*x[:axis], k, *x[axis + 1:]))
        else:
            dims = self.dims[:axis] + self.dims[axis + 1:]
            f = lambda *x: total(d, lambda k: val(*x[:axis], k, *x[axis:]))
        return self._make(dims, f, 'f', view=False)

    def mean(self, axis=None, **k):
        s = self.sum(axis=axis, **k)
        return s / _size(self.dims[axis % self.ndim])

    def _every(self, f):
        js = [z3.Int(core.ctx().name('j')) for _ in self.dims]
        core.ctx().quantified = True
        inside = z3.And(*[z3.And(j >= 0, j < _z(d)) for j, d in zip(js, self.dims)])
        return z3.ForAll(js, z3.Implies(inside, f(self.value(*js))))

    def all(self, *a, **k):
        if a or k:
            raise OutOfReach('all() along an axis')
        return SymBool(self._every(tob))

    def any(self, *a, **k):
        if a or k:
            raise OutOfReach('any() along an axis')
        return SymBool(z3.Not(self._every(lambda x: z3.Not(tob(x)))))


def _pick(zs, j):
    out = zs[-1]
    for i, z in reversed(list(enumerate(zs[:-1]))):
        out = z3.If(j == i, z, out)
    return z3.simplify(out)


def _index(k, d):
    if isinstance(k, int) and isinstance(d, int):
        if not -d <= k < d:
            raise IndexError('index out of bounds')
        return z3.IntVal(k % d)
    z = toz(k)
    n = _z(d)
    if core.ctx().branch(z3.Or(z >= n, z < -n)):
        raise IndexError('index out of bounds')
    if core.ctx().branch(z < 0):
        z = z + n
    return z3.simplify(z)


def _slice(s, d):
    """The first index, the number of elements and the step of a slice."""
    step = 1 if s.step is None else s.step
    if isinstance(d, int) and all(x is None or isinstance(x, int) for x in (s.start, s.stop)) and isinstance(step, int):
        r = range(d)[s]
        return (r.start, len(r), r.step)
    if step == -1 and s.start is None and s.stop is None:
        return (z3.simplify(_z(d) - 1), d, -1)
    if step != 1 or not isinstance(step, int):
        raise OutOfReach('slice with a step')
    n = _z(d)

    def clamp(x, default):
        if x is None:
            return default
        z = toz(x)
        z = z3.If(z < 0, z + n, z)
        return z3.If(z < 0, z3.IntVal(0), z3.If(z > n, n, z))
    lo, hi = clamp(s.start, z3.IntVal(0)), clamp(s.stop, n)
    return (z3.simplify(lo), _dim(z3.If(hi > lo, hi - lo, 0)), 1)


def as_tensor(x):
    """(dims, element function) of an operand."""
    if isinstance(x, Tensor):
        return x.dims, x._val
    if core.isnum(x) or isinstance(x, SymBool):
        return [], lambda: x
    if isinstance(x, (list, tuple)) or isinstance(x, numpy.ndarray):
        a = x if isinstance(x, numpy.ndarray) else numpy.array(x, dtype=object)
        if a.size > 8:
            raise OutOfReach('large constant array beside an array of any size')
        def val(*i):
            out = None
            for j in numpy.ndindex(a.shape):
                e = a[j]
                out = e if out is None else _sel(z3.And(*[p == q for p, q in zip(i, j)]), e, out)
            return out
        return list(a.shape), val
    if isinstance(x, seq.Abstract):
        raise OutOfReach(f'{type(x)!r} beside an array of any size')
    return None


def broadcast(args):
    n = max(len(d) for d, _ in args)
    padded = [[1] * (n - len(d)) + list(d) for d, _ in args]
    dims, stay = [], [[True] * n for _ in args]
    for k in range(n):
        size = None
        for d in (p[k] for p in padded):
            if isinstance(d, int) and d == 1:
                continue
            if size is None or _same(size, d):
                size = d if size is None else size
            elif _same(d, 1):
                pass
            elif _same(size, 1):
                size = d
            else:
                raise ValueError('operands could not be broadcast together')
        size = 1 if size is None else size
        dims.append(size)
        for a, p in enumerate(padded):
            if isinstance(p[k], int) and p[k] == 1 and not (isinstance(size, int) and size == 1) or not _same(p[k], size):
                stay[a][k] = False
    vals = []
    for a, (d, f) in enumerate(args):
        skip = n - len(d)
        vals.append(lambda *i, f=f, s=stay[a], skip=skip: f(*[i[k] if s[k] else z3.IntVal(0) for k in range(skip, n)]))
    return dims, vals


def _uf(name):
    return lambda *x: core.uf(name, *x)


def _cmp(f):
    return lambda a, b: SymBool(f(*core._arith(a, b)))


def _pow(x, p):
    return core.power(x, p if isinstance(p, Sym) else p)


def _ext(less):
    def f(a, b):
        x, y = core._arith(a, b)
        return wrap(z3.If(x <= y if less else x >= y, x, y))
    return f


def _eq(a, b):
    if isinstance(a, SymBool) or isinstance(b, SymBool):
        return SymBool(tob(a) == tob(b))
    return _cmp(lambda x, y: x == y)(a, b)


UFUNC = {
    'add': (lambda a, b: _lift(a) + b, 'f'), 'subtract': (lambda a, b: _lift(a) - b, 'f'), 'multiply': (lambda a, b: _lift(a) * b, 'f'),
    'divide': (lambda a, b: _lift(a) / b, 'f'), 'true_divide': (lambda a, b: _lift(a) / b, 'f'),
    'power': (_pow, 'f'), 'float_power': (_pow, 'f'), 'square': (lambda a: a * a, 'f'), 'negative': (lambda a: -a, 'f'), 'positive': (lambda a: a, 'f'),
    'absolute': (abs, 'f'), 'fabs': (abs, 'f'), 'maximum': (_ext(False), 'f'), 'minimum': (_ext(True), 'f'),
    'reciprocal': (lambda a: 1 / a, 'f'),
    'less': (_cmp(lambda a, b: a < b), 'b'), 'less_equal': (_cmp(lambda a, b: a <= b), 'b'),
    'greater': (_cmp(lambda a, b: a > b), 'b'), 'greater_equal': (_cmp(lambda a, b: a >= b), 'b'),
    'equal': (_eq, 'b'), 'not_equal': (lambda a, b: SymBool(z3.Not(_eq(a, b).z)), 'b'),
    'logical_not': (lambda a: SymBool(z3.Not(tob(a))), 'b'), 'invert': (lambda a: SymBool(z3.Not(tob(a))), 'b'),
    'logical_and': (lambda a, b: SymBool(z3.And(tob(a), tob(b))), 'b'), 'logical_or': (lambda a, b: SymBool(z3.Or(tob(a), tob(b))), 'b'),
    'bitwise_and': (lambda a, b: SymBool(z3.And(tob(a), tob(b))), 'b'), 'bitwise_or': (lambda a, b: SymBool(z3.Or(tob(a), tob(b))), 'b'),
    **{n: (_uf(n), 'f') for n in ('sqrt', 'sin', 'cos', 'arccos', 'log', 'log10', 'exp', 'arctan2')},
}


def _lift(a):
    """A plain number beside symbolic ones: as an exact constant."""
    return a if isinstance(a, Sym) else SymReal(real(toz(a)))


# -- numpy functions ----------------------------------------------------------------
def _where(mask, *a):
    if len(a) != 2:
        raise OutOfReach('numpy.where of an array of any size')
    args = [as_tensor(x) for x in (mask,) + a]
    dims, (m, p, q) = broadcast(args)
    return Tensor(dims, lambda *i: _sel(tob(m(*i)), p(*i), q(*i)))


def _array_equal(a, b, equal_nan=False):
    a, b = _arrays(a, b)
    if not isinstance(a, Tensor) or not isinstance(b, Tensor):
        raise OutOfReach('numpy.array_equal with a plain array')
    if a.ndim != b.ndim or not all(_same(x, y) for x, y in zip(a.dims, b.dims)):
        return False
    return (a == b).all()


def _arrays(*xs):
    return [x.__array__() if not isinstance(x, Tensor) and type(x).__module__.startswith('goats') else x for x in xs]


def _tensordot(a, b, axes=2):
    if axes != 0:
        raise OutOfReach('numpy.tensordot over common axes')
    (da, fa), (db, fb) = as_tensor(a), as_tensor(b)
    n = len(da)
    return Tensor(list(da) + list(db), lambda *i: _lift(fa(*i[:n])) * fb(*i[n:]))


def _moveaxis(a, source, destination):
    n = a.ndim
    s, d = int(source) % n, int(destination) % n
    order = [i for i in range(n) if i != s]
    order.insert(d, s)
    return a.transpose(order)


def gradient(f, *spacing, axis=None, **k):
    """numpy.gradient along one axis: its documented formula."""
    if not isinstance(f, Tensor) or k or len(spacing) > 1 or axis is None and f.ndim > 1:
        raise OutOfReach('numpy.gradient arguments')
    axis = (-1 if axis is None else int(axis)) % f.ndim
    d = f.dims[axis]
    n = _z(d)
    if core.ctx().branch(n < 2):
        raise ValueError('Shape of array too small to calculate a numerical gradient')
    sp = spacing[0] if spacing else 1.0
    if isinstance(sp, Tensor):
        if sp.ndim != 1 or not _same(sp.dims[0], d):
            raise ValueError('when 1d, distances must match the length of the corresponding dimension')
        coord = sp._val
    elif core.isnum(sp):
        coord = lambda j: SymReal(real(z3.simplify(j))) * sp
    else:
        raise OutOfReach('numpy.gradient spacing')
    val = f._val

    def at(*i):
        j = i[axis]
        g = lambda m: val(*i[:axis], z3.simplify(m), *i[axis + 1:])
        x = lambda m: coord(z3.simplify(m))
        first = (g(j + 1) - g(j)) / (x(j + 1) - x(j))
        last = (g(j) - g(j - 1)) / (x(j) - x(j - 1))
        hs, hd = x(j) - x(j - 1), x(j + 1) - x(j)
        inner = (hs * hs * g(j + 1) + (hd * hd - hs * hs) * g(j) - hd * hd * g(j - 1)) / (hs * hd * (hd + hs))
        return _sel(j == 0, first, _sel(j == n - 1, last, inner))
    return Tensor(f.dims, at)


def simpson(n, y, x):
    """The integral of y(k) over x(k) for 0 <= k < n: some function of the samples."""
    return opaque('simpson', n, y, x)


def integral(y, x, axis=-1):
    """scipy.integrate.simpson along one axis."""
    if not isinstance(x, Tensor) or x.ndim != 1:
        raise OutOfReach('coordinates of simpson')
    axis = int(axis) % y.ndim
    d = y.dims[axis]
    if not _same(x.dims[0], d):
        raise ValueError('If given, length of x along axis must be the same as y.')
    val, at = y._val, x._val
    return y._make(y.dims[:axis] + y.dims[axis + 1:], lambda *i: simpson(d, lambda k: val(*i[:axis], k, *i[axis:]), lambda k: at(k)), 'f', view=False)


def convert(x, ndmin=0, copy=True, **k):
    """numpy.array of a tensor."""
    new = x.copy() if copy else x
    while new.ndim < ndmin:
        new = new[None]
        new._view = False
    return new


FUNCTIONS = {
    'where': _where, 'array_equal': _array_equal, 'tensordot': _tensordot, 'moveaxis': _moveaxis, 'gradient': gradient,
    'ndim': lambda a: a.ndim, 'shape': lambda a: a.shape, 'size': lambda a, axis=None: a.size if axis is None else a.shape[axis],
    'sum': lambda a, axis=None, **k: a.sum(axis=axis, **k), 'mean': lambda a, axis=None, **k: a.mean(axis=axis, **k),
    'squeeze': lambda a, axis=None: a.squeeze(axis), 'transpose': lambda a, axes=None: a.transpose(axes) if axes is not None else a.transpose(),
    'reshape': lambda a, shape, **k: a.reshape(shape), 'copy': lambda a, **k: a.copy(),
    'all': lambda a, *b, **k: a.all(*b, **k), 'any': lambda a, *b, **k: a.any(*b, **k),
    'expand_dims': lambda a, axis: a.reshape([*a.shape[:axis % (a.ndim + 1)], 1, *a.shape[axis % (a.ndim + 1):]]),
}
