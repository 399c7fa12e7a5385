"""pv.symbolic -- the symbolic reading of a contract and the path explorer."""
import fractions
import importlib
import itertools
import math
import subprocess
import tempfile
import time
import traceback

from . import core
import z3

from .api import attr, Patching, Violation, Discard, Inapplicable
from .core import (Ctx, OutOfReach, PathDone, PathError, Budget, Stats, SymBool,
                   SymInt, SymReal, Sym, Atom, toz, tob, wrap, real)

Q = fractions.Fraction


class Failure:
    def __init__(self, label, inputs, detail, kind):
        self.label = label
        self.inputs = inputs
        self.detail = detail
        self.kind = kind           # 'obligation' | 'exception' | 'unknown'


class Result:
    def __init__(self):
        self.status = 'proved'
        self.reason = ''
        self.obligations = 0
        self.discharged = 0
        self.failures = []
        self.unknown = []
        self.stats = Stats()
        self.labels = {}
        self.covered = 0
        self.assumed = []
        self.wall = 0.0
        self.cvc5 = 0


class Symbolic(Patching):
    symbolic = True

    def __init__(self, ctx, result, loader):
        self.ctx = ctx
        self.result = result
        self.loader = loader
        self.inputs = {}
        self.tier = 'quick'
        self.index = 0

    def mod(self, name):
        return self.loader.module(f'goats.{name}')

    attr = staticmethod(attr)

    # -- inputs -------------------------------------------------------------
    def _reg(self, name, kind, z, options=None):
        key, n = name, 1
        while key in self.inputs:
            n += 1
            key = f'{name}#{n}'
        self.inputs[key] = (kind, z, options)
        return key

    def real(self, name, lo=None, hi=None, positive=False, nonzero=False, exact=False):
        z = z3.Real(self.ctx.name(name))
        self._reg(name, 'real', z)
        if positive:
            self.ctx.add(z > 0)
        if nonzero:
            self.ctx.add(z != 0)
        if lo is not None:
            self.ctx.add(z >= toz(lo))
        if hi is not None:
            self.ctx.add(z <= toz(hi))
        return SymReal(z)

    def int(self, name, lo=None, hi=None):
        z = z3.Int(self.ctx.name(name))
        self._reg(name, 'int', z)
        if lo is not None:
            self.ctx.add(z >= lo)
        if hi is not None:
            self.ctx.add(z <= hi)
        return SymInt(z)

    def bool(self, name):
        z = z3.Bool(self.ctx.name(name))
        self._reg(name, 'bool', z)
        return bool(SymBool(z))

    def atom(self, name, pool=None):
        a = Atom(self.ctx.name(name))
        self._reg(name, 'atom', a.z)
        return a

    def choice(self, name, options):
        options = list(options)
        z = z3.Int(self.ctx.name(name))
        self._reg(name, 'int', z)
        self.ctx.add(z3.And(z >= 0, z < len(options)))
        for i in range(len(options) - 1):
            if self.ctx.branch(z == i):
                return options[i]
        self.ctx.add(z == len(options) - 1)
        return options[-1]

    def reals(self, name, n, **k):
        return [self.real(f'{name}{i}', **k) for i in range(n)]

    def array(self, name, low=0, increasing=None):
        """A 1-D array of any length (at least `low`)."""
        from . import seq
        n = z3.Int(self.ctx.name(f'len {name}'))
        a = z3.Array(self.ctx.name(name), z3.IntSort(), z3.RealSort())
        self._reg(name, 'array', (n, a))
        self.ctx.quantified = True
        self.ctx.add(n >= low)
        vec = seq.Vec(n, lambda j: z3.Select(a, j))
        if increasing:
            i, j = z3.Ints('i j')
            x, y = z3.Select(a, i), z3.Select(a, j)
            self.ctx.add(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), x < y if increasing == 'strictly' else x <= y),
                                   patterns=[z3.MultiPattern(x, y)]))
        return vec

    def size(self, name, low=1, hi=6):
        """The size of an axis: any number (at least `low`)."""
        return self.int(name, lo=low)

    def tensor(self, name, shape, positive=False, nonzero=False):
        """An array with any values, of any sizes."""
        from . import tensor
        c = self.ctx
        f = z3.Function(c.name(name), *[z3.IntSort()] * len(shape), z3.RealSort())
        dims = [toz(n) for n in shape]
        self._reg(name, 'tensor', (dims, f))

        def val(*i):
            t = f(*i)
            if positive or nonzero:
                key = ('tensor', t.get_id())
                if key not in c.lemmas:
                    c.lemmas.add(key)
                    c.facts.append(([], t))
                    c.know(t > 0 if positive else t != 0)
            return SymReal(t)
        return tensor.Tensor(dims, val)

    def indices(self, shape):
        """Every index into an array of that shape: an arbitrary one."""
        out = []
        for n in shape:
            i = z3.Int(self.ctx.name('i'))
            self.ctx.add(z3.And(i >= 0, i < toz(n)))
            out.append(SymInt(i))
        if self.ctx.check() == z3.unsat:
            return []
        return [tuple(out)]

    def element(self, a, i):
        return a.value(*i) if hasattr(a, 'value') else a

    def values(self, q):
        """The current values of an array-like quantity."""
        return q if hasattr(q, 'dims') else q.__array__()

    def every(self, a, b):
        """Are all elements of two arrays of one shape the same?"""
        return (a == b).all()

    def total(self, n, f):
        """The sum of f(k) for every k below n."""
        from . import tensor
        return tensor.total(n, lambda k: f(SymInt(k)))

    def shape(self, a, want, label):
        self.prove(len(a.shape) == len(want), label)
        for x, y in zip(a.shape, want):
            self.prove(x == y, label)

    def length(self, a):
        return SymInt(a.n)

    def at(self, a, i):
        return wrap(a.at(toz(i)))

    def forall(self, n, f):
        from . import seq
        return SymBool(seq.bound(toz(n), lambda j: tob(f(SymInt(j)))))

    def exists(self, n, f):
        from . import seq
        return SymBool(seq.some(toz(n), lambda j: tob(f(SymInt(j)))))

    # -- logic --------------------------------------------------------------
    def assume(self, cond):
        if isinstance(cond, bool):
            if not cond:
                raise PathDone('assumption')
            return
        self.ctx.add(tob(cond))
        if self.ctx.check() == z3.unsat:
            raise PathDone('assumption')

    def prove(self, cond, label, detail=''):
        if isinstance(cond, (bool,)) or type(cond).__name__ == 'bool_':
            z = z3.BoolVal(bool(cond))
        else:
            z = tob(cond)
        self._oblige(z, label)

    def have(self, cond, label):
        """Prove an intermediate fact, then use it."""
        self.prove(cond, label)
        if not isinstance(cond, bool):
            self.ctx.know(tob(cond))

    def apply(self, f, label, *args):
        """Prove a lemma f(x, ...) about all reals on its own, then use its
        instance at `args` (its premises are proved here too).

        `f` returns (premises, conclusions).
        """
        xs = [SymReal(z3.Real(f'lemma!{i}')) for i in range(len(args))]
        self.ctx.total = True      # division is guarded by the premises
        pre, post = f(*xs)
        self.ctx.total = False
        s = z3.Solver()
        s.set('timeout', 10000)
        t = time.time()
        s.add(*[tob(c) for c in pre])
        s.add(z3.Not(z3.And(*[tob(c) for c in post])))
        ok = s.check() == z3.unsat
        self.result.stats.solver_s += time.time() - t
        self.result.obligations += 1
        if not ok:
            self.result.unknown.append(label)
        else:
            self.result.discharged += 1
        pre, post = f(*args)
        for c in pre:
            self.have(c, f'{label}: premise')
        for c in post:
            self.ctx.know(tob(c))

    def eq(self, a, b, label, rel=None, abs_=None, tol=None):
        if isinstance(a, Sym) or isinstance(b, Sym):
            if not (core.isnum(a) and core.isnum(b)):
                return self._oblige(z3.BoolVal(False), label)
            x, y = core._arith(a, b)
            if tol is not None:
                # concrete factors computed in floating point: relative tolerance
                mag = z3.If(y >= 0, y, -y) * z3.RealVal(str(Q(repr(float(tol)))))
                return self._oblige(z3.And(x - y <= mag, y - x <= mag), label)
            return self._oblige(x == y, label)
        if isinstance(a, Atom) or isinstance(b, Atom):
            return self._oblige(tob(self.same(a, b)), label)
        from .api import close
        self._oblige(z3.BoolVal(bool(close(a, b, rel or 1e-9, abs_ or 0.0))), label)

    def same(self, a, b):
        if isinstance(a, Atom):
            return a.same(b)
        if isinstance(b, Atom):
            return b.same(a)
        return a == b

    def _oblige(self, z, label):
        r = self.result
        r.obligations += 1
        r.labels[label] = r.labels.get(label, 0) + 1
        z = z3.simplify(z)
        if z3.is_true(z) or self.ctx.knows(z) is True:
            # still require the path to be reachable for the cover count
            r.discharged += 1
            return
        verdict = self.ctx.check(z3.Not(z))
        if verdict == z3.unsat:
            r.discharged += 1
            return
        if verdict == z3.unknown:
            verdict = self._fallback(z)
            if verdict == 'unsat':
                r.discharged += 1
                return
        if verdict == z3.sat:
            model = self.ctx.solver.model()
            r.failures.append(Failure(label, self.concretize(model),
                                      f'countermodel: {str(z)[:300]} is falsifiable',
                                      'abstract' if self.ctx.abstract else 'obligation'))
            raise PathError(label)
        r.unknown.append(label)
        self.ctx.add(z)

    def _fallback(self, z):
        """A second opinion (nlsat, then cvc5) on an undecided obligation."""
        goal = self.ctx.solver.assertions()
        if self._congruent(goal, z):
            return 'unsat'
        for tactic in ('qfnra-nlsat',):
            try:
                s = z3.Tactic(tactic).solver()
                s.set('timeout', 8000)
                for g in goal:
                    s.add(g)
                s.add(z3.Not(z))
                t = time.time()
                v = s.check()
                self.result.stats.solver_s += time.time() - t
                if v == z3.unsat:
                    return 'unsat'
            except z3.Z3Exception:
                pass
        s = z3.Solver()
        for g in goal:
            s.add(g)
        s.add(z3.Not(z))
        try:
            t = time.time()
            p = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=10000', '--nl-ext-tplanes'],
                               input='(set-logic ALL)\n' + s.to_smt2(), capture_output=True,
                               text=True, timeout=15)
            self.result.stats.solver_s += time.time() - t
            if p.stdout.strip().startswith('unsat'):
                self.result.cvc5 += 1
                return 'unsat'
        except Exception:
            pass
        return 'unknown'

    def _congruent(self, goal, z):
        """Decide after replacing elements at provably equal indices by one unknown each.

        Equal indices follow from the facts about integers alone; elements (and
        other applications of functions) become unknowns, which only weakens
        what is known of them."""
        terms, seen = {}, set()
        formulas = [g for g in goal if not _quantified(g)]

        def collect(t):
            if t.get_id() in seen:
                return
            seen.add(t.get_id())
            for x in t.children():
                collect(x)
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                for x in t.children():
                    if z3.is_int(x):
                        terms[x.get_id()] = x
        for f in formulas + [z]:
            collect(f)
        ints = [f for f in formulas if _integral(f)]
        if len(terms) < 2 or len(terms) > 40:
            return False
        t0 = time.time()
        s = z3.Solver()
        s.set('timeout', 200)
        s.add(*ints)
        classes, pairs = [], []
        for x in terms.values():
            for rep in classes:
                if s.check(x != rep) == z3.unsat:
                    pairs.append((x, rep))
                    break
            else:
                classes.append(x)
        final = {}

        def unknown(t):
            """The same formula with an unknown for each application."""
            key = t.get_id()
            if key in final:
                return final[key]
            if z3.is_app(t) and t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out = z3.Const(f'u!{len(final)}', t.sort())
            elif z3.is_app(t) and t.num_args():
                out = t.decl()(*[unknown(x) for x in t.children()]) if t.num_args() <= 2 or t.decl().kind() not in NARY else _nary(t, [unknown(x) for x in t.children()])
            else:
                out = t
            final[key] = out
            return out
        keep = []

        def settle(f):
            f = z3.simplify(z3.substitute(f, *pairs)) if pairs else z3.simplify(f)
            keep.append(f)
            return unknown(f)
        try:
            s = z3.Solver()
            s.set('timeout', 6000)
            for f in formulas:
                s.add(settle(f))
            s.add(z3.Not(settle(z)))
            verdict = s.check()
        except z3.Z3Exception:
            return False
        finally:
            self.result.stats.solver_s += time.time() - t0
        return verdict == z3.unsat

    def raises(self, exc, fn, label):
        try:
            r = fn()
        except exc as err:
            self._oblige(z3.BoolVal(True), label)
            return err
        except Exception as err:
            self._exc(err, label)
        self._oblige(z3.BoolVal(False), label)

    def call(self, fn, label='call succeeds'):
        try:
            r = fn()
        except Exception as err:
            self._exc(err, label)
        self._oblige(z3.BoolVal(True), label)
        return r

    def _exc(self, err, label):
        if isinstance(err, z3.Z3Exception):
            raise OutOfReach(f'the verifier: {err}') from err
        tb = traceback.extract_tb(err.__traceback__)
        where = f'{tb[-1].filename}:{tb[-1].lineno}' if tb else ''
        v = self.ctx.check()
        if v == z3.unsat:
            raise PathDone('infeasible')
        self.result.obligations += 1
        model = self.ctx.solver.model() if v == z3.sat else None
        self.result.failures.append(Failure(
            label, self.concretize(model) if model is not None else {},
            f'raised {type(err).__name__}: {err} at {where}', 'exception'))
        raise PathError(label)

    def and_(self, *cs):
        return SymBool(z3.And(*[tob(c) for c in cs]))

    def or_(self, *cs):
        return SymBool(z3.Or(*[tob(c) for c in cs]))

    def not_(self, c):
        return SymBool(z3.Not(tob(c)))

    def implies(self, a, b):
        return SymBool(z3.Implies(tob(a), tob(b)))

    def ite(self, c, a, b):
        x, y = core._arith(a, b)
        return wrap(z3.If(tob(c), x, y))

    def sqrt(self, x): return core.uf('sqrt', x)
    def sin(self, x): return core.uf('sin', x)
    def cos(self, x): return core.uf('cos', x)
    def pow(self, x, p): return core.power(x, p)

    def lemma(self, cond, name):
        """A named mathematical fact about the uninterpreted functions."""
        if name not in self.result.assumed:
            self.result.assumed.append(name)
        self.ctx.solver.add(tob(cond))

    def cover(self, label):
        pass

    def concretize(self, model):
        out = {}
        atoms = {}
        for key, (kind, z, _) in self.inputs.items():
            if kind == 'array':
                n = model.eval(z[0], model_completion=True).as_long()
                if n <= 40:
                    out[key] = [_rat(model.eval(z3.Select(z[1], i), model_completion=True)) for i in range(n)]
                continue
            if kind == 'tensor':
                dims = [model.eval(d, model_completion=True).as_long() for d in z[0]]
                if math.prod(dims) <= 200:
                    out[key] = [_rat(model.eval(z[1](*i), model_completion=True)) for i in itertools.product(*map(range, dims))]
                continue
            val = model.eval(z, model_completion=True)
            if kind == 'real':
                out[key] = _rat(val)
            elif kind == 'int':
                out[key] = val.as_long()
            elif kind == 'bool':
                out[key] = z3.is_true(val)
            elif kind == 'atom':
                atoms[key] = Q(_rat(val))
        names = ['a', 'b', 'c', 'd', 'foo', 'n0', 'x', 'y', 'z']
        lits = {Q(_rat(model.eval(c, model_completion=True))): s for s, c in core._ATOM_CONST.items()}
        for n, q in enumerate(sorted(set(atoms.values()))):
            for key, r in atoms.items():
                if r == q:
                    out[key] = lits.get(q, names[n % len(names)])
        return out


def _rat(val):
    try:
        if z3.is_rational_value(val):
            return f'{val.numerator_as_long()}/{val.denominator_as_long()}'
        if z3.is_algebraic_value(val):
            a = val.approx(20)
            return f'{a.numerator_as_long()}/{a.denominator_as_long()}'
    except Exception:
        pass
    return '0/1'


def explore(fn, loader, max_paths=4000, budget=60.0, qtimeout=4000, maxfail=3):
    """Run `fn` on every feasible path."""
    result = Result()
    start = time.time()
    deadline = start + budget
    work = [[]]
    while work:
        prefix = work.pop()
        if result.stats.paths >= max_paths or time.time() > deadline:
            result.status = 'outofreach'
            result.reason = f'budget: {result.stats.paths} paths, {time.time()-start:.0f} s'
            break
        c = Ctx(prefix, deadline, qtimeout, result.stats)
        Ctx.current = c
        v = Symbolic(c, result, loader)
        result.stats.paths += 1
        try:
            loader.begin(v)
            fn(v)
            result.covered += 1
        except PathDone:
            pass
        except PathError:
            pass
        except Discard:
            pass
        except OutOfReach as err:
            result.status = 'outofreach'
            result.reason = f'{err} ({_where(err)})'
        except Inapplicable as err:
            result.status = 'outofreach'
            result.reason = f'contract not applicable: {err}'
            break
        except Budget as err:
            result.status = 'outofreach'
            result.reason = str(err)
            break
        except RecursionError as err:
            result.status = 'outofreach'
            result.reason = 'recursion limit'
            break
        except Violation as err:
            result.obligations += 1
            result.failures.append(Failure(err.label, {}, err.detail, 'exception'))
        except Exception as err:
            # an exception the contract did not ask about
            try:
                v._exc(err, 'no unexpected exception')
            except (PathError, PathDone):
                pass
        finally:
            v.unpatch()
            loader.end()
            Ctx.current = None
        work.extend(c.pending)
        if len(result.failures) >= maxfail:
            break
    result.wall = time.time() - start
    if result.failures:
        result.status = 'refuted'
    elif result.status == 'proved':
        if result.unknown:
            result.status = 'outofreach'
            result.reason = f'undecided by z3/cvc5: {sorted(set(result.unknown))}'
        elif result.obligations == 0 or result.covered == 0:
            result.status = 'outofreach'
            result.reason = 'vacuous: no path reached an obligation'
    return result


def _where(err):
    tb = traceback.extract_tb(err.__traceback__)
    for f in reversed(tb):
        if '/pv/' not in f.filename:
            return f'{f.filename}:{f.lineno}'
    return ''


NARY = {z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_DISTINCT, z3.Z3_OP_SUB}


def _nary(t, xs):
    k = t.decl().kind()
    if k == z3.Z3_OP_ADD:
        return z3.Sum(*xs)
    if k == z3.Z3_OP_MUL:
        return z3.Product(*xs)
    if k == z3.Z3_OP_AND:
        return z3.And(*xs)
    if k == z3.Z3_OP_OR:
        return z3.Or(*xs)
    if k == z3.Z3_OP_DISTINCT:
        return z3.Distinct(*xs)
    out = xs[0]
    for x in xs[1:]:
        out = out - x
    return out


def _quantified(f):
    todo, seen = [f], set()
    while todo:
        t = todo.pop()
        if z3.is_quantifier(t):
            return True
        if t.get_id() not in seen:
            seen.add(t.get_id())
            todo.extend(t.children())
    return False


def _integral(f):
    """Only integers and truth values, no functions."""
    todo, seen = [f], set()
    while todo:
        t = todo.pop()
        if z3.is_real(t) or z3.is_app(t) and t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            return False
        if t.get_id() not in seen:
            seen.add(t.get_id())
            todo.extend(t.children())
    return True
