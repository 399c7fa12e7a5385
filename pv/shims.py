"""pv.shims -- builtins that also understand symbolic values."""
import builtins
import fractions
import functools
import math
import numbers
import types

from . import core
from .core import Sym, SymReal, SymInt, SymBool, Atom, OutOfReach, real, wrap

import z3


def _seq(x):
    from . import seq
    return isinstance(x, seq.Abstract)


def float_(*args):
    if args and isinstance(args[0], Sym):
        return SymReal(real(args[0].z))
    if args:
        m = getattr(type(args[0]), '__float__', None)
        if m is not None and type(args[0]).__module__.startswith('goats'):
            return m(args[0])
    if args and getattr(args[0], 'dtype', None) == object and getattr(args[0], 'size', 0) == 1:
        return float_(args[0].item())
    return builtins.float(*args)


def int_(*args):
    if args and isinstance(args[0], Sym):
        return args[0].__trunc__()
    if args:
        m = getattr(type(args[0]), '__int__', None)
        if m is not None and type(args[0]).__module__.startswith('goats'):
            return m(args[0])
    return builtins.int(*args)


def round_(x, *a):
    if isinstance(x, Sym):
        if a and a != (None,):
            raise OutOfReach('round to digits')
        if isinstance(x, SymInt):
            return x
        z = real(x.z)
        n = z3.ToInt(z + z3.RealVal('1/2'))
        # halves go to the even neighbour
        return SymInt(z3.If(z3.And(z3.ToReal(n) == z + z3.RealVal('1/2'), n % 2 != 0), n - 1, n))
    return builtins.round(x, *a)


def isinstance_(x, t):
    if isinstance(x, Sym):
        ts = t if isinstance(t, tuple) else (t,)
        for c in ts:
            if isinstance(c, tuple):
                if isinstance_(x, c):
                    return True
                continue
            if c is builtins.float:
                if isinstance(x, SymReal):
                    return True
                continue
            if c is builtins.int:
                if isinstance(x, SymInt):
                    return True
                continue
            if c is FractionShim or c is fractions.Fraction:
                raise OutOfReach('isinstance(symbolic, Fraction)')
            if builtins.isinstance(x, c):
                return True
        return False
    if _seq(x) and hasattr(x, 'dims'):
        # an array of any size stands for a numpy array
        import numpy
        ts = t if isinstance(t, tuple) else (t,)
        return any(isinstance_(x, c) if isinstance(c, tuple) else c is numpy.ndarray or builtins.isinstance(x, c) for c in ts)
    return builtins.isinstance(x, t)


def len_(x):
    if _seq(x):
        return x.length()
    m = getattr(type(x), '__len__', None)
    if m is not None and type(x).__module__.startswith('goats'):
        return m(x)
    return builtins.len(x)


def range_(*a):
    if any(isinstance(i, Sym) for i in a):
        from . import seq
        return seq.sym_range(*a)
    return builtins.range(*a)


def _route(name, native):
    def f(*a, **k):
        from . import seq
        if any(isinstance(i, seq.Abstract) for i in a):
            h = getattr(seq, f'b_{name}', None)
            if h is None:
                raise OutOfReach(f'{name}() of an unbounded sequence')
            return h(*a, **k)
        return native(*a, **k)
    f.__name__ = name
    return f


def str_(*a, **k):
    if a and isinstance(a[0], Atom):
        return a[0]
    if a:
        # goats objects may return an Atom from __str__
        m = getattr(type(a[0]), '__str__', None)
        if m is not None and type(a[0]).__module__.startswith('goats'):
            r = m(a[0])
            if isinstance(r, Atom):
                return r
    return builtins.str(*a, **k)


def iter_(*a):
    if _seq(a[0]):
        return iter(a[0])
    return builtins.iter(*a)


def pow_(x, y, *z):
    if not z:
        return x ** y
    return builtins.pow(x, y, *z)


class _FMeta(type):
    def __call__(cls, *a, **k):
        if a and isinstance(a[0], Sym):
            if len(a) == 2:
                return SymReal(real(a[0].z)) / a[1]
            return SymReal(real(a[0].z))
        return fractions.Fraction(*a, **k)

    def __instancecheck__(cls, x):
        if isinstance(x, Sym):
            raise OutOfReach('isinstance(symbolic, Fraction)')
        return isinstance(x, fractions.Fraction)


class FractionShim(metaclass=_FMeta):
    from_float = fractions.Fraction.from_float


class _Space:
    def __init__(self, base, **over):
        self.__dict__['_b'] = base
        self.__dict__.update(over)

    def __getattr__(self, n):
        return getattr(self._b, n)


def _math(name):
    f = getattr(math, name)

    def g(*a):
        if any(isinstance(x, Sym) for x in a):
            if name == 'sqrt':
                if core.ctx().branch(real(a[0].z) < 0):
                    raise ValueError('math domain error')
            if name in ('sqrt', 'sin', 'cos', 'log', 'log10', 'exp'):
                return core.uf(name, *a)
            if name == 'acos':
                return core.uf('arccos', *a)
            if name == 'atan2':
                return core.uf('arctan2', *a)
            if name == 'fabs':
                return abs(a[0])
            if name == 'pow':
                return core.power(*a)
            if name in ('floor', 'ceil', 'trunc'):
                return getattr(a[0], f'__{name}__')()
            raise OutOfReach(f'math.{name}')
        return f(*a)
    return g


MATH = _Space(math, **{n: _math(n) for n in (
    'sqrt', 'sin', 'cos', 'log', 'log10', 'exp', 'acos', 'atan2', 'fabs', 'pow',
    'floor', 'ceil', 'trunc', 'isclose', 'isnan', 'isinf', 'isfinite', 'hypot')})


def _hypot(*a):
    if any(isinstance(x, Sym) for x in a):
        s = 0
        for x in a:
            s = s + x * x
        return core.uf('sqrt', s)
    return math.hypot(*a)


MATH.__dict__['hypot'] = _hypot


def _freduce(f, xs, *init):
    from . import seq
    if isinstance(xs, seq.Abstract):
        return seq.b_reduce(f, xs, *init)
    return functools.reduce(f, xs, *init)


FUNCTOOLS = _Space(functools, reduce=_freduce)
FRACTIONS = _Space(fractions, Fraction=FractionShim)


def _has_sym(x, depth=0):
    if isinstance(x, Sym):
        return True
    if getattr(x, 'dtype', None) == object and hasattr(x, 'ravel'):
        return any(isinstance(i, Sym) for i in x.ravel().tolist())
    if isinstance(x, (list, tuple)) and depth < 6:
        return any(_has_sym(i, depth + 1) for i in x)
    return False


class _Wrapped:
    """A numpy function that accepts symbolic numbers; otherwise the function itself."""

    def __init__(self, native, function):
        self._pv_native, self._pv_function = native, function
        self.__name__ = native.__name__

    def __call__(self, *args, **kwargs):
        return self._pv_function(*args, **kwargs)

    def __getattr__(self, name):
        return getattr(self._pv_native, name)

    def __eq__(self, other):
        return self is other or other is self._pv_native

    def __hash__(self):
        return hash(self._pv_native)


def _numpy():
    import numpy

    def keep(name):
        f = getattr(numpy, name)

        def g(x, *a, **k):
            if _has_sym(x):
                # an array of exact reals in place of an array of floats
                k.pop('dtype', None)
                if a or set(k) - {'ndmin', 'copy', 'order'}:
                    raise OutOfReach(f'numpy.{name} with options')
                r = numpy.array(x, dtype=object) if name in ('array', 'asfarray') \
                    else numpy.asarray(x, dtype=object)
                while r.ndim < k.get('ndmin', 0):
                    r = r[None]
                return r
            return f(x, *a, **k)
        g.__name__ = name
        return g
    space = {n: keep(n) for n in ('asfarray', 'array', 'asarray', 'asanyarray')}

    def abstract(name, native):
        def g(*a, **k):
            from . import seq, tensor
            if name in ('asarray', 'array', 'asfarray', 'asanyarray') and a:
                x = a[0]
                if type(x).__module__.startswith('goats') and hasattr(type(x), '__array__'):
                    y = type(x).__array__(x)
                    if isinstance(y, seq.Abstract):
                        a = (y,) + a[1:]
                if isinstance(a[0], tensor.Tensor):
                    return tensor.convert(a[0], **k) if name == 'array' else a[0]
            if any(isinstance(x, tensor.Tensor) for x in a):
                return native(*a, **k)          # numpy dispatches to the tensor
            if any(isinstance(x, seq.Abstract) for x in a) or (name == 'ones' and any(_has_sym(x) for x in a)):
                return seq.NP[name](*a, **k)
            return native(*a, **k)
        g.__name__ = name
        return g

    def lifted(name, native):
        # Plain numbers beside symbolic ones in an array: as exact constants.
        def lift(x):
            if getattr(x, 'dtype', None) == object and hasattr(x, 'ravel'):
                if any(builtins.isinstance(i, (builtins.float, builtins.int)) for i in x.ravel().tolist()):
                    y = numpy.empty(x.shape, dtype=object)
                    for i in numpy.ndindex(x.shape):
                        e = x[i]
                        y[i] = SymReal(real(core.toz(e))) if builtins.isinstance(e, (builtins.float, builtins.int)) \
                            and not builtins.isinstance(e, bool) and math.isfinite(e) else e
                    return y
            return x

        def g(*a, **k):
            r = native(*[lift(x) for x in a], **k)
            return lift(r) if name == 'where' else r
        g.__name__ = name
        return g

    for name in ('sqrt', 'sin', 'cos', 'arccos', 'arctan2', 'log', 'log10', 'exp', 'where'):
        space[name] = lifted(name, getattr(numpy, name))

    def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
        if not (_has_sym(a) or _has_sym(b)):
            return numpy.isclose(a, b, rtol=rtol, atol=atol, equal_nan=equal_nan)
        x, y = numpy.broadcast_arrays(numpy.asarray(a, dtype=object), numpy.asarray(b, dtype=object))
        out = numpy.zeros(x.shape, dtype=builtins.bool)
        for i in numpy.ndindex(x.shape):
            out[i] = builtins.bool(abs(x[i] - y[i]) <= atol + rtol * abs(y[i]))
        return out[()]

    def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
        return builtins.bool(numpy.all(isclose(a, b, rtol, atol, equal_nan)))
    space['isclose'] = isclose
    space['allclose'] = allclose

    from . import seq
    for name in seq.NP:
        space[name] = abstract(name, space.get(name) or getattr(numpy, name))
    return _Space(numpy, **{name: _Wrapped(getattr(numpy, name), f) for name, f in space.items()})


NUMPY = _numpy()


def peek(f):
    try:
        return f()
    except NameError:
        return MISSING


MISSING = object()


def fn(f):
    """The look-alike of a builtin that was passed as an argument."""
    if f is builtins.float:
        return float_
    if f is builtins.int:
        return int_
    if f is builtins.round:
        return round_
    return f


def install(g):
    from . import seq
    table = {
        'float': float_, 'int': int_, 'len': len_, 'isinstance': isinstance_,
        'range': range_, 'str': str_, 'iter': iter_, 'round': round_, 'pow': pow_,
    }
    for name in ('enumerate', 'zip', 'list', 'tuple', 'set', 'sorted', 'any', 'all', 'sum',
                 'max', 'min', 'reversed', 'dict', 'map', 'filter'):
        table[name] = _route(name, getattr(builtins, name))
    for k, v in table.items():
        g[f'_pv_{k}'] = v
    g['_pv_fn'] = fn
    g['_pv_display'] = seq.display
    g['_pv_comp'] = seq.comp
    g['_pv_forbid'] = seq.forbid
    g['_pv_loop'] = seq.loop
    g['_pv_peek'] = peek


def patch_globals(module):
    for k, v in list(module.__dict__.items()):
        if v is fractions:
            module.__dict__[k] = FRACTIONS
        elif v is fractions.Fraction:
            module.__dict__[k] = FractionShim
        elif v is NUMPY._b:
            module.__dict__[k] = NUMPY
        elif v is math:
            module.__dict__[k] = MATH
        elif v is functools:
            module.__dict__[k] = FUNCTOOLS
        elif v is functools.reduce:
            module.__dict__[k] = _freduce
