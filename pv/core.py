"""pv.core -- path-exploring symbolic execution with z3 as the back end.

The verified text is the Python of /repo itself: it is executed natively, with
symbolic proxies in place of numbers and names.  Every `bool()` of a symbolic
truth value splits the path; `explore` re-executes the contract until every
feasible path has been taken.  A contract whose paths are all exhausted, with
every obligation on every path discharged, holds for *all* values of its
symbolic inputs (there is no bound on the values; a bound on anything else,
e.g. the number of array elements, is declared by the contract itself).
"""
import fractions
import math
import numbers
import sys
import time

import os as _os
for _p in ('/opt/veriftools/pyvenv/lib/python3.12/site-packages',):
    if _p not in sys.path and _os.path.isdir(_p):
        sys.path.append(_p)
import z3


class OutOfReach(BaseException):
    """The code did something the verifier cannot follow."""


class PathDone(BaseException):
    """This path is finished (infeasible assumption or closed loop body)."""


class PathError(BaseException):
    """A failed obligation, used to stop a path early."""


class Budget(BaseException):
    """Path or time budget exhausted."""


class Ctx:
    current = None

    def __init__(self, prefix=(), deadline=None, qtimeout=4000, stats=None):
        self.prefix = list(prefix)
        self.trace = []          # decisions taken: (value, forced)
        self.pos = 0
        self.known, self.refuted = {}, {}
        self.total = False
        self.pending = []        # alternatives discovered on this path
        self.solver = z3.Solver()
        self.solver.set('timeout', qtimeout)
        self.qtimeout = qtimeout
        self.deadline = deadline
        self.stats = stats if stats is not None else Stats()
        self.fresh = {}
        self.facts = []          # lazily instantiated universal facts
        self.lemmas = set()
        self.inputs = {}         # name -> descriptor
        self.obligations = []
        self.pc = []
        self.abstract = False    # True once an over-approximation was used
        self.skolems = 0
        self.quantified = False  # arrays of any length are around

    # -- assertions ---------------------------------------------------------
    def add(self, cond):
        self.solver.add(cond)
        self.pc.append(cond)

    def check(self, *extra):
        self.tick()
        t = time.time()
        r = self.solver.check(*extra)
        self.stats.solver_s += time.time() - t
        self.stats.queries += 1
        return r

    def tick(self):
        if self.deadline and time.time() > self.deadline:
            raise Budget('time budget exhausted')

    def branch(self, cond):
        """Take one side of `cond`, remembering the other if feasible."""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.pos < len(self.prefix):
            value = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(value)
            self.add(cond if value else z3.Not(cond))
            return value
        known = self.knows(cond)
        if known is not None:
            self.pos += 1
            self.trace.append(known)
            self.add(cond if known else z3.Not(cond))
            return known
        if self.quantified:
            # models of quantified formulas are hard to find; 'unknown' counts
            # as feasible, so that no path is lost
            self.solver.set('timeout', 500)
        can_t = self.check(cond) != z3.unsat
        can_f = self.check(z3.Not(cond)) != z3.unsat
        if self.quantified:
            self.solver.set('timeout', self.qtimeout)
        if not can_t and not can_f:
            raise PathDone('infeasible')
        self.pos += 1
        if can_t and can_f:
            self.pending.append(self.trace + [False])
            value = True
        else:
            value = can_t
        self.trace.append(value)
        self.add(cond if value else z3.Not(cond))
        return value

    def know(self, z):
        """Use a proved fact."""
        self.solver.add(z)
        todo = [z3.simplify(z)]
        while todo:
            f = todo.pop()
            if z3.is_and(f):
                todo.extend(f.children())
            self.known[f.get_id()] = f
            if z3.is_not(f):
                self.refuted[f.children()[0].get_id()] = f

    def knows(self, cond):
        if cond.get_id() in self.known:
            return True
        if cond.get_id() in self.refuted:
            return False
        if z3.is_not(cond):
            k = self.knows(cond.children()[0])
            return None if k is None else not k
        return None

    def name(self, base):
        n = self.fresh.get(base, 0)
        self.fresh[base] = n + 1
        return base if n == 0 else f'{base}!{n}'


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.paths = 0
        self.forks = 0


def ctx() -> Ctx:
    c = Ctx.current
    if c is None:
        raise OutOfReach('symbolic value used outside a verification run')
    return c


# ---------------------------------------------------------------------------
# proxies

Q = fractions.Fraction


def toz(x):
    """The z3 arithmetic term of a number-like object."""
    if isinstance(x, Sym):
        return x.z
    if isinstance(x, bool):
        return z3.RealVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, float):
        if math.isnan(x) or math.isinf(x):
            raise OutOfReach('nan/inf in symbolic arithmetic')
        # decimal reading of the literal: floats are treated as the real
        # number their shortest repr denotes (assumption `float-as-real`).
        return z3.RealVal(str(Q(repr(x))))
    if isinstance(x, Q):
        return z3.RealVal(str(x))
    if hasattr(x, 'item') and hasattr(x, 'dtype'):
        return toz(x.item())
    if isinstance(x, numbers.Rational):
        return z3.RealVal(f'{x.numerator}/{x.denominator}')
    raise OutOfReach(f'no arithmetic meaning for {type(x)!r}')


def isnum(x):
    if isinstance(x, (Sym, bool, int, float, Q)):
        return True
    return hasattr(x, 'item') and hasattr(x, 'dtype') and getattr(x, 'ndim', 1) == 0 and x.dtype != object


def wrap(z):
    if z3.is_bool(z):
        return SymBool(z)
    if z3.is_int(z):
        return SymInt(z)
    return SymReal(z)


class SymBool:
    __slots__ = ('z',)

    def __init__(self, z):
        self.z = z

    def __bool__(self):
        return ctx().branch(self.z)

    def __and__(self, o):
        return SymBool(z3.And(self.z, tob(o)))
    __rand__ = __and__

    def __or__(self, o):
        return SymBool(z3.Or(self.z, tob(o)))
    __ror__ = __or__

    def __invert__(self):
        return SymBool(z3.Not(self.z))

    def __eq__(self, o):
        if isinstance(o, Sym) or type(o) in (int, float, Q):
            return self.number() == o
        return SymBool(self.z == tob(o))

    def __ne__(self, o):
        if isinstance(o, Sym) or type(o) in (int, float, Q):
            return self.number() != o
        return SymBool(self.z != tob(o))

    def __hash__(self):
        return 7

    def number(self):
        """The number (0 or 1) that this truth value is in arithmetic."""
        return SymInt(z3.If(self.z, z3.IntVal(1), z3.IntVal(0)))

    def __add__(self, o):
        if isinstance(o, SymBool):
            raise OutOfReach('the sum of two truth values (a number or, in numpy, a truth value)')
        return self.number() + _number(o)

    def __radd__(self, o): return _number(o) + self.number()

    def __sub__(self, o):
        if isinstance(o, SymBool):
            raise OutOfReach('the difference of two truth values (a number or, in numpy, an error)')
        return self.number() - _number(o)

    def __rsub__(self, o): return _number(o) - self.number()
    def __mul__(self, o): return self.number() * _number(o)
    def __rmul__(self, o): return _number(o) * self.number()
    def __truediv__(self, o): return self.number() / _number(o)
    def __rtruediv__(self, o): return _number(o) / self.number()
    def __neg__(self): return -self.number()
    def __pos__(self): return self.number()
    def __abs__(self): return self.number()
    def __lt__(self, o): return self.number() < _number(o)
    def __le__(self, o): return self.number() <= _number(o)
    def __gt__(self, o): return self.number() > _number(o)
    def __ge__(self, o): return self.number() >= _number(o)

    def logical_not(self):
        return SymBool(z3.Not(self.z))


def _number(x):
    return x.number() if isinstance(x, SymBool) else x


def tob(x):
    if isinstance(x, SymBool):
        return x.z
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if type(x).__name__ in ('bool_', 'bool'):
        return z3.BoolVal(bool(x))
    if z3.is_expr(x):
        return x
    if isinstance(x, Sym):
        return x.z != 0
    raise OutOfReach(f'no truth value for {type(x)!r}')


def _arith(x, y):
    a, b = toz(x), toz(y)
    if z3.is_int(a) and z3.is_real(b):
        a = z3.ToReal(a)
    if z3.is_int(b) and z3.is_real(a):
        b = z3.ToReal(b)
    return a, b


class Sym:
    """Common behaviour of symbolic numbers."""
    __slots__ = ('z',)
    __array_priority__ = -1

    def __init__(self, z):
        self.z = z

    def _bin(self, o, f):
        if not isnum(o):
            return NotImplemented
        a, b = _arith(self, o)
        return wrap(z3.simplify(f(a, b)))

    def _rbin(self, o, f):
        if not isnum(o):
            return NotImplemented
        b, a = _arith(self, o)
        return wrap(z3.simplify(f(a, b)))

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._rbin(o, lambda a, b: a + b)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._rbin(o, lambda a, b: a - b)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._rbin(o, lambda a, b: a * b)

    def __truediv__(self, o):
        if not isnum(o):
            return NotImplemented
        return _div(self, o)

    def __rtruediv__(self, o):
        if not isnum(o):
            return NotImplemented
        return _div(o, self)

    def __floordiv__(self, o):
        if not isnum(o):
            return NotImplemented
        return _floordiv(self, o)

    def __rfloordiv__(self, o):
        if not isnum(o):
            return NotImplemented
        return _floordiv(o, self)

    def __mod__(self, o):
        if not isnum(o):
            return NotImplemented
        return self - _floordiv(self, o) * o

    def __rmod__(self, o):
        if not isnum(o):
            return NotImplemented
        return o - _floordiv(o, self) * self

    def __neg__(self): return wrap(z3.simplify(-self.z))
    def __pos__(self): return self

    def __abs__(self):
        return wrap(z3.simplify(z3.If(self.z >= 0, self.z, -self.z)))

    absolute = __abs__
    fabs = __abs__

    def __pow__(self, o, mod=None):
        if not isnum(o):
            return NotImplemented
        return power(self, o)

    def __rpow__(self, o):
        if not isnum(o):
            return NotImplemented
        return power(o, self)

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def _cmp(self, o, f):
        if not isnum(o):
            return NotImplemented
        if isinstance(o, float) and math.isinf(o):
            return f(0.0, o)
        a, b = _arith(self, o)
        return SymBool(z3.simplify(f(a, b)))

    def __eq__(self, o):
        if not isnum(o):
            return NotImplemented
        if isinstance(o, float) and (math.isinf(o) or math.isnan(o)):
            return False
        a, b = _arith(self, o)
        return SymBool(z3.simplify(a == b))

    def __ne__(self, o):
        if not isnum(o):
            return NotImplemented
        if isinstance(o, float) and (math.isinf(o) or math.isnan(o)):
            return True
        a, b = _arith(self, o)
        return SymBool(z3.simplify(a != b))

    def __bool__(self):
        return ctx().branch(self.z != 0)

    def __hash__(self):
        return 7

    def __str__(self):
        return f'\u27e6{self.z}\u27e7'

    __repr__ = __str__

    def __format__(self, spec):
        return str(self)

    # numpy object-dtype ufuncs call these methods
    def sqrt(self): return uf('sqrt', self)
    def sin(self): return uf('sin', self)
    def cos(self): return uf('cos', self)
    def arccos(self): return uf('arccos', self)
    def log(self): return uf('log', self)
    def log10(self): return uf('log10', self)
    def exp(self): return uf('exp', self)
    def arctan2(self, o): return uf('arctan2', self, o)
    def conjugate(self): return self
    def square(self): return self * self

    @property
    def real(self): return self

    @property
    def imag(self): return 0

    def copy(self): return self

    def __float__(self):
        raise OutOfReach('float() of a symbolic number outside a shim')

    def __int__(self):
        raise OutOfReach('int() of a symbolic number outside a shim')


class SymReal(Sym):
    # What numpy's own scalars provide (an element of an array is one).
    ndim = 0
    shape = ()
    size = 1

    def reshape(self, *shape):
        import numpy
        a = numpy.empty((), dtype=object)
        a[()] = self
        return a.reshape(*shape)

    def __getitem__(self, key):
        if key == ():
            return self
        raise IndexError('invalid index to scalar variable.')

    __iter__ = None

    __slots__ = ()
    numerator = property(lambda s: (_ for _ in ()).throw(OutOfReach('numerator')))

    def is_integer(self):
        return SymBool(z3.IsInt(self.z))

    def __trunc__(self):
        z = self.z
        return SymInt(z3.If(z >= 0, z3.ToInt(z), -z3.ToInt(-z)))

    def __floor__(self): return SymInt(z3.ToInt(self.z))

    def __ceil__(self): return SymInt(-z3.ToInt(-self.z))

    def limit_denominator(self, n=1000000):
        return self


class SymInt(Sym):
    __slots__ = ()

    def is_integer(self): return True

    def __trunc__(self): return self

    def __index__(self):
        raise OutOfReach('__index__ of a symbolic integer')

    denominator = 1

    @property
    def numerator(self): return self


numbers.Real.register(SymReal)
numbers.Integral.register(SymInt)


def _div(a, b):
    x, y = toz(a), toz(b)
    if z3.is_int(x):
        x = z3.ToReal(x)
    if z3.is_int(y):
        y = z3.ToReal(y)
    if not ctx().total and ctx().branch(y == 0):
        raise ZeroDivisionError('symbolic division by zero')
    return wrap(z3.simplify(x / y))


def _floordiv(a, b):
    x, y = _arith(a, b)
    if ctx().branch(y == 0):
        raise ZeroDivisionError('symbolic division by zero')
    if z3.is_int(x):
        # Python floors; z3 div is Euclidean
        return wrap(z3.If(y > 0, x / y, (-x) / (-y)))
    return wrap(z3.ToReal(z3.ToInt(x / y)))


# ---------------------------------------------------------------------------
# uninterpreted real functions with instantiated (true) axioms

_R = z3.RealSort()
UF = {
    'sqrt': z3.Function('sqrt', _R, _R),
    'sin': z3.Function('sin', _R, _R),
    'cos': z3.Function('cos', _R, _R),
    'arccos': z3.Function('arccos', _R, _R),
    'log': z3.Function('log', _R, _R),
    'log10': z3.Function('log10', _R, _R),
    'exp': z3.Function('exp', _R, _R),
    'arctan2': z3.Function('arctan2', _R, _R, _R),
    'pow': z3.Function('pow', _R, _R, _R),
}


def real(z):
    return z3.ToReal(z) if z3.is_int(z) else z


def uf(name, *args):
    zs = [z3.simplify(real(toz(a))) for a in args]
    c = ctx()
    c.abstract = True
    if name == 'sqrt' and z3.is_rational_value(zs[0]):
        f = Q(zs[0].numerator_as_long(), zs[0].denominator_as_long())
        if f >= 0:
            n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if Q(n, d) ** 2 == f:
                return SymReal(z3.RealVal(str(Q(n, d))))
    t = UF[name](*zs)
    key = (name,) + tuple(z.get_id() for z in zs)
    if key not in c.lemmas:
        c.lemmas.add(key)
        for ax in axioms(name, zs, t):
            c.solver.add(ax)
        c.facts.append((zs, t))   # keep the terms alive
    return SymReal(t)


def axioms(name, zs, t):
    x = zs[0]
    if name == 'sqrt':
        yield z3.Implies(x >= 0, z3.And(t >= 0, t * t == x))
    elif name in ('sin', 'cos'):
        s, k = UF['sin'](x), UF['cos'](x)
        yield s * s + k * k == 1
        yield z3.And(t >= -1, t <= 1)
    elif name == 'arccos':
        yield z3.Implies(z3.And(x >= -1, x <= 1),
                         z3.And(UF['cos'](t) == x, t >= 0, t <= z3.RealVal('3.1415926536')))
    elif name == 'pow':
        p = zs[1]
        yield z3.Implies(p == 1, t == x)
        yield z3.Implies(z3.And(p == 0, x != 0), t == 1)
        yield z3.Implies(x == 1, t == 1)
        yield z3.Implies(x > 0, t > 0)
        yield z3.Implies(x != 0, t != 0)
        yield z3.Implies(p == -1, z3.Implies(x != 0, t * x == 1))
        yield z3.Implies(p == 2, t == x * x)


def power(x, p):
    """x ** p over the reals."""
    if isinstance(p, SymInt):
        z = z3.simplify(p.z)
        if z3.is_int_value(z):
            p = z.as_long()
    elif isinstance(p, SymReal):
        z = z3.simplify(p.z)
        if z3.is_rational_value(z):
            p = Q(z.numerator_as_long(), z.denominator_as_long())
    if not isinstance(p, Sym):
        q = p if isinstance(p, Q) else Q(repr(float(p))) if isinstance(p, float) else Q(int(p))
        if q.denominator == 1 and abs(q.numerator) <= 12:
            n = abs(q.numerator)
            z = real(toz(x)) if (isinstance(p, float) or q < 0) else toz(x)
            r = z3.IntVal(1) if z3.is_int(z) else z3.RealVal(1)
            for _ in range(n):
                r = r * z
            if q >= 0:
                return wrap(z3.simplify(r))
            return _div(1, wrap(r))
        if q == Q(1, 2):
            return uf('sqrt', x)
        return uf('pow', x, q)
    return uf('pow', x, p)


# ---------------------------------------------------------------------------
# symbolic names

# Names are points of a dense total order: only equality and lexicographic
# order of strings are observable through them.
ATOM = z3.RealSort()
_ATOM_CONST = {}


def atom_const(s: str):
    """The z3 constant denoting a concrete string."""
    if s not in _ATOM_CONST:
        _ATOM_CONST[s] = z3.Const(f'str:{s!r}', ATOM)
    return _ATOM_CONST[s]


def _literal(o):
    """The constant of a literal, placed in string order among its peers."""
    c = ctx()
    o = str.__str__(o)
    const = atom_const(o)
    key = ('atomconst', o)
    if key not in c.lemmas:
        for k in [k for k in c.lemmas if k[0] == 'atomconst']:
            other = atom_const(k[1])
            c.solver.add(other < const if k[1] < o else other > const)
        c.lemmas.add(key)
    return const


class Atom(str):
    """An arbitrary string about which only equality and order are known.

    Two atoms may or may not be equal; comparing them splits the path.  Every
    other string operation is out of the verifier's reach.
    """
    def __new__(cls, name, z=None):
        self = super().__new__(cls, f'\u27eaatom {name}\u27eb')
        self.z = z if z is not None else z3.Const(name, ATOM)
        return self

    def _other(self, o):
        return o.z if isinstance(o, Atom) else _literal(o)

    def same(self, o):
        if not isinstance(o, str):
            return False
        return SymBool(z3.simplify(self.z == self._other(o)))

    def __eq__(self, o):
        return bool(self.same(o))

    def __ne__(self, o):
        return not self.__eq__(o)

    def __lt__(self, o): return bool(SymBool(z3.simplify(self.z < self._other(o))))
    def __le__(self, o): return bool(SymBool(z3.simplify(self.z <= self._other(o))))
    def __gt__(self, o): return bool(SymBool(z3.simplify(self.z > self._other(o))))
    def __ge__(self, o): return bool(SymBool(z3.simplify(self.z >= self._other(o))))

    def __hash__(self):
        return 11

    def __str__(self):
        return self

    def __bool__(self):
        return True

    def _no(self, *a, **k):
        raise OutOfReach('string operation on a symbolic name')

    __getitem__ = __len__ = __iter__ = __contains__ = __add__ = __mod__ = _no
    split = strip = lower = upper = replace = startswith = endswith = _no
    join = find = index = rstrip = lstrip = encode = _no
