"""pv.api -- the vocabulary contracts are written in, with two meanings.

`Symbolic`: inputs are symbolic, `prove` is a verification condition.
`Concrete`: inputs are ordinary values (a solver model being replayed, or a
seeded sample), `prove` is a run-time check on the real, unmodified package.
One contract text serves both, so a replay checks exactly what was proved.
"""
import fractions
import importlib
import json
import math
import numbers
import random
import time
import traceback

Q = fractions.Fraction

REGISTRY = {}


class Unit:
    def __init__(self, fn, prop, name, targets, kind, bound, assumes, samples,
                 weight, thorough, loops, stubs):
        self.fn = fn
        self.prop = prop
        self.name = name
        self.id = f'{prop}.{name}'
        self.targets = list(targets)
        self.kind = kind          # 'proof' | 'finite' | 'bounded'
        self.bound = bound
        self.assumes = list(assumes)
        self.samples = samples
        self.weight = weight
        self.thorough = thorough
        self.loops = loops or {}
        self.stubs = stubs or {}


def unit(prop, name, targets, kind='proof', bound=None, assumes=(), samples=60,
         weight=1, thorough=8, loops=None, stubs=None):
    """Register a contract.

    kind='proof'   discharged symbolically for all inputs; also sampled.
    kind='finite'  the domain is finite and enumerated completely (concretely).
    kind='bounded' sampled/enumerated concretely within the stated bound.
    """
    def deco(fn):
        u = Unit(fn, prop, name, targets, kind, bound, assumes, samples,
                 weight, thorough, loops, stubs)
        assert u.id not in REGISTRY, u.id
        REGISTRY[u.id] = u
        return fn
    return deco


class Violation(Exception):
    def __init__(self, label, detail=''):
        self.label = label
        self.detail = detail
        super().__init__(f'{label}: {detail}')


class Discard(BaseException):
    """A sample that does not satisfy the precondition."""


class Inapplicable(BaseException):
    """The code has no such (internal) part any more; nothing to check."""


MISSING = object()


def attr(obj, path):
    """An internal name the contract is about; absent after a refactoring."""
    for p in path.split('.'):
        try:
            obj = getattr(obj, p)
        except AttributeError:
            raise Inapplicable(f'{obj!r} has no {p}') from None
    return obj


class Patching:
    """Replace a module or class attribute for the duration of one run.

    Used to put a table with arbitrary entries in place of the shipped one, or
    a fresh cache in place of a warm one."""

    def patch(self, target, value):
        modname, path = target.split(':')
        obj = self.mod(modname)
        parts = path.split('.')
        for p in parts[:-1]:
            obj = attr(obj, p)
        attr(obj, parts[-1])
        own = parts[-1] in vars(obj)
        self.__dict__.setdefault('_patched', []).append(
            (obj, parts[-1], vars(obj)[parts[-1]] if own else MISSING))
        setattr(obj, parts[-1], value)
        return value

    def unpatch(self):
        done = self.__dict__.setdefault('_patched', [])
        while done:
            obj, name, old = done.pop()
            if old is MISSING:
                delattr(obj, name)
            else:
                setattr(obj, name, old)


def close(a, b, rel=1e-9, abs_=0.0):
    try:
        if a == b:
            return True
    except Exception:
        pass
    try:
        a, b = float(a), float(b)
    except (TypeError, ValueError):
        return False
    if math.isnan(a) and math.isnan(b):
        return True
    return math.isclose(a, b, rel_tol=rel, abs_tol=abs_)


class Concrete(Patching):
    """Contracts at run time, on the real package."""
    symbolic = False

    def __init__(self, seed=0, inputs=None, tier='quick', index=0):
        self.rng = random.Random(f'{seed}/{index}')
        self.given = dict(inputs or {})
        self.used = {}
        self.tier = tier
        self.index = index
        self.evals = 0
        self.nontrivial = False

    # -- modules ------------------------------------------------------------
    def mod(self, name):
        return importlib.import_module(f'goats.{name}')

    attr = staticmethod(attr)

    # -- inputs -------------------------------------------------------------
    def _draw(self, name, gen):
        key = name
        n = 1
        while key in self.used:
            n += 1
            key = f'{name}#{n}'
        value = gen()         # always drawn, so that a replay sees the same rng
        if key in self.given:
            value = self.given[key]
        self.used[key] = value
        return value

    _pool = [0, 1, -1, 2, -2, 3, 0.5, -0.5, 0.25, 10, 1.5, 7, 100, -3, 1e3, 1e-3]

    def real(self, name, lo=None, hi=None, positive=False, nonzero=False, exact=False):
        def gen():
            for _ in range(200):
                r = self.rng.random()
                if r < 0.5:
                    x = float(self.rng.choice(self._pool))
                elif r < 0.8:
                    x = round(self.rng.uniform(-10, 10), 3)
                else:
                    x = self.rng.uniform(-1, 1) * 10 ** self.rng.randint(-6, 6)
                if positive:
                    x = abs(x)
                if lo is not None and hi is not None and not lo <= x <= hi:
                    x = lo + (hi - lo) * self.rng.random()
                if (lo is not None and x < lo) or (hi is not None and x > hi):
                    continue
                if (nonzero or positive) and x == 0:
                    continue
                return Q(repr(x)) if exact else x
            return (lo or hi or 1.0)
        x = self._draw(name, gen)
        x = Q(str(x)) if exact else float(Q(str(x))) if isinstance(x, str) else float(x)
        ok = not ((nonzero and x == 0) or (positive and x <= 0)
                  or (lo is not None and x < lo) or (hi is not None and x > hi))
        if not ok:
            raise Discard
        return x

    def int(self, name, lo=None, hi=None):
        def gen():
            a = lo if lo is not None else (hi - 20 if hi is not None else -10)
            b = hi if hi is not None else a + 20
            return self.rng.randint(a, b)
        x = int(self._draw(name, gen))
        if (lo is not None and x < lo) or (hi is not None and x > hi):
            raise Discard
        return x

    def bool(self, name):
        return bool(self._draw(name, lambda: self.rng.random() < 0.5))

    _names = ['a', 'b', 'c', 'x', 'foo', 'V', 'n0', 'Bz']

    def atom(self, name, pool=None):
        return str(self._draw(name, lambda: self.rng.choice(pool or self._names)))

    def choice(self, name, options):
        options = list(options)
        i = int(self._draw(name, lambda: self.rng.randrange(len(options))))
        if not 0 <= i < len(options):
            raise Discard
        return options[i]

    def reals(self, name, n, **k):
        return [self.real(f'{name}{i}', **k) for i in range(n)]

    def array(self, name, low=0, increasing=None):
        import numpy
        def gen():
            n = self.rng.choice([low, low + 1, low + 2, low + 3, low + 5, low + 8])
            kind = self.rng.random()
            if kind < .3:
                xs = [float(self.rng.randint(-3, 3)) for _ in range(n)]
            elif kind < .8:
                xs = [round(self.rng.uniform(-10, 10), 2) for _ in range(n)]
            else:
                xs = [self.rng.uniform(-1, 1) * 10 ** self.rng.randint(-9, 9) for _ in range(n)]
            if increasing:
                xs.sort()
                if increasing == 'strictly':
                    xs = sorted(set(xs))
            return xs
        x = self._draw(name, gen)
        x = numpy.array([float(Q(str(i))) if isinstance(i, str) else float(i) for i in x], dtype=float)
        if len(x) < low or (increasing and not all((a < b) if increasing == 'strictly' else (a <= b) for a, b in zip(x, x[1:]))):
            raise Discard
        return x

    def size(self, name, low=1, hi=6):
        n = int(self._draw(name, lambda: self.rng.randint(low, max(hi, low))))
        if not low <= n <= 60:
            raise Discard
        return n

    def tensor(self, name, shape, positive=False, nonzero=False):
        import numpy
        n = math.prod(shape)
        x = self._draw(name, lambda: [self._value(positive, nonzero) for _ in range(n)])
        if len(x) != n:
            raise Discard
        x = [float(Q(str(i))) if isinstance(i, str) else float(i) for i in x]
        if any(i == 0 and nonzero or i <= 0 and positive for i in x):
            raise Discard
        return numpy.array(x, dtype=float).reshape(shape)

    def _value(self, positive, nonzero):
        while True:
            r = self.rng.random()
            x = float(self.rng.choice(self._pool)) if r < .4 else round(self.rng.uniform(-10, 10), 3) if r < .9 else self.rng.uniform(-1, 1) * 10 ** self.rng.randint(-4, 4)
            x = abs(x) if positive else x
            if x or not (positive or nonzero):
                return x

    def indices(self, shape):
        import numpy
        return list(numpy.ndindex(*shape))

    def element(self, a, i):
        return a[i]

    def values(self, q):
        import numpy
        return numpy.array(q)

    def every(self, a, b):
        return bool((a == b).all())

    def total(self, n, f):
        return math.fsum(f(k) for k in range(n))

    def shape(self, a, want, label):
        self.prove(tuple(a.shape) == tuple(want), label, lambda: f'{a.shape} != {want}')

    def length(self, a):
        return len(a)

    def at(self, a, i):
        return a[i]

    def forall(self, n, f):
        return all(f(j) for j in range(n))

    def exists(self, n, f):
        return any(f(j) for j in range(n))

    # -- logic --------------------------------------------------------------
    def assume(self, cond):
        if not cond:
            raise Discard

    def prove(self, cond, label, detail=''):
        self.evals += 1
        if callable(detail):
            detail = detail()
        if not cond:
            raise Violation(label, detail)

    def have(self, cond, label):
        self.prove(cond, label)

    def apply(self, f, label, *args):
        pass

    def eq(self, a, b, label, rel=1e-9, abs_=0.0, tol=None):
        self.evals += 1
        if not close(a, b, rel, abs_):
            raise Violation(label, f'{a!r} != {b!r}')

    def same(self, a, b):
        return a == b

    def raises(self, exc, fn, label):
        self.evals += 1
        try:
            r = fn()
        except exc as err:
            return err
        except Exception as err:
            raise Violation(label, f'raised {type(err).__name__}: {err}') from err
        raise Violation(label, f'expected {getattr(exc, "__name__", exc)}, got {r!r}')

    def call(self, fn, label='call succeeds'):
        """Call that the contract requires to return normally."""
        self.evals += 1
        try:
            return fn()
        except (Violation, Discard):
            raise
        except Exception as err:
            tb = traceback.extract_tb(err.__traceback__)
            where = f'{tb[-1].filename}:{tb[-1].lineno}' if tb else ''
            raise Violation(label, f'raised {type(err).__name__}: {err} at {where}') from err

    def and_(self, *cs):
        return all(cs)

    def or_(self, *cs):
        return any(cs)

    def not_(self, c):
        return not c

    def implies(self, a, b):
        return (not a) or bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def sqrt(self, x):
        return math.sqrt(x)

    def sin(self, x):
        return math.sin(x)

    def cos(self, x):
        return math.cos(x)

    def pow(self, x, p):
        return x ** p

    def lemma(self, *a, **k):
        pass

    def cover(self, label):
        pass
