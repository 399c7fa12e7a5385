"""C13: metadata follows every operation on the data."""
import ast
import fractions
import itertools
import math
import operator
import re

from pv.api import unit
from . import util_ghost as G
from .c05_arithmetic import flat as values, reject

Q = fractions.Fraction
GHOST = {'core.metadata:Unit': G.factory}
ASSUMED = ['metadata.Unit obeys the contract of util_ghost (C04 checks the unit algebra, C03 the factors)']
NAME = ['core.metadata.Name', 'core.aliased.Group']
META = ['core.metadata.Operation.apply', 'core.metadata.Operation.supports', 'core.metadata.Operator.__call__', 'core.metadata.Operands.getall',
        'core.metadata.OperatorFactory.operations', 'core.utilities.getattrval']


def np():
    import numpy
    return numpy


# -- what a symbolic name means -----------------------------------------------------------
FUNCTIONS = {'abs': abs, 'floor': math.floor, 'ceil': math.ceil, 'round': round, 'trunc': math.trunc}


def meaning(v, text, value):
    """The value that a name stands for, given the values of its atoms."""
    atoms = {}
    for i, a in enumerate(sorted(value, key=len, reverse=True)):
        atoms[f'_{i}_'] = value[a]
        text = re.sub(rf'(?<![A-Za-z_]){re.escape(a)}(?![A-Za-z_])', f'_{i}_', text)
    text = re.sub(r'\^(-?\d+(?:/\d+)?)', r'**(\1)', text).replace('^', '**')

    def walk(n):
        if isinstance(n, ast.Expression):
            return walk(n.body)
        if isinstance(n, ast.BinOp):
            a, b = walk(n.left), walk(n.right)
            if isinstance(n.op, ast.Pow):
                return v.pow(a, b if b.denominator > 1 else int(b)) if isinstance(b, Q) else v.pow(a, b)
            return {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv}[type(n.op)](a, b)
        if isinstance(n, ast.UnaryOp):
            return {ast.USub: operator.neg, ast.UAdd: operator.pos}[type(n.op)](walk(n.operand))
        if isinstance(n, ast.Constant):
            return Q(n.value)
        if isinstance(n, ast.Name):
            return atoms[n.id]
        if isinstance(n, ast.Call):
            return FUNCTIONS[n.func.id](*[walk(a) for a in n.args])
        raise ValueError(text)

    return walk(ast.parse(text.strip(), mode='eval'))


def number(x):
    return float(x) if isinstance(x, Q) else x


def stands(v, names, want, value, label):
    """Every alias in `names` stands for `want`."""
    v.prove(len(names) > 0, f'{label}: a name')
    for n in sorted(names):
        got = v.call(lambda: meaning(v, n, value), f'{label}: a symbolic name: {n!r}')
        v.eq(number(got), want, f'{label}: {n!r} has the meaning of the data', rel=1e-6)


# -- names -----------------------------------------------------------------------------------
SHAPES = ['{0}', '{0} + {1}', '{0} - {1}', '{0} * {1}', '{0} / {1}', '-{0}', '{0}^2', 'abs({0})', '({0} + {1})', '-({0} + {1})', '2 * {0}', '{0} * {1} - {2}',
          '({0} + {1}) / {2}', '-{0} * {1}', '{0}^-1', '({0} - {1})^2', '{0} / ({1} * {2})', '{0} / ({1} - {2})', '({0} + {1}) * ({1} - {2})', '{0} * 5/2', '+{0}', '{0} + {1} * {2}']
BINARY = {'add': operator.add, 'sub': operator.sub, 'mul': operator.mul, 'truediv': operator.truediv}


def name_pairs(v, op, part):
    """Name with name: the text of the result, for all values of its atoms."""
    N = v.mod('core.metadata').Name
    value = {n: v.real(n, positive=True) for n in ('a', 'b', 'c', 'd', 'e', 'f')}
    # Denominators that vanish have no meaning.
    v.assume(v.and_(value['b'] != value['c'], value['e'] != value['f'], value['a'] != value['b'], value['d'] != value['e']))
    f = BINARY[op]
    for s, t in itertools.product(SHAPES[part::3], SHAPES):
        left, right = s.format('a', 'b', 'c'), t.format('d', 'e', 'f')
        y = meaning(v, right, value)
        if op == 'truediv':
            v.assume(y != 0)
        x = meaning(v, left, value)
        p, q = N(left), N(right)
        r = v.call(lambda: f(p, q), f'{left} {op} {right}')
        v.prove(set(p) == {left} and set(q) == {right}, 'operands keep their names', lambda: f'{p} {q}')
        v.prove(len(r) == 1, 'one name')
        stands(v, r, number(f(x, y)), value, f'({left}) {op} ({right})')


def name_numbers(v):
    N = v.mod('core.metadata').Name
    value = {n: v.real(n, positive=True) for n in ('a', 'b', 'c')}
    v.assume(v.and_(value['b'] != value['c'], value['a'] != value['b']))
    for s in SHAPES:
        left = s.format('a', 'b', 'c')
        x = meaning(v, left, value)
        for k in (2, -3, 0.5, 2.5, -1.25, Q(1, 4), 7.0, '3', '3/4'):
            n = N(left)
            c = number(Q(k))
            stands(v, v.call(lambda: n * k, 'number'), number(x * Q(k)), value, f'({left}) * {k}')
            stands(v, v.call(lambda: k * n, 'number'), number(x * Q(k)), value, f'{k} * ({left})')
            stands(v, v.call(lambda: n / k, 'number'), number(x / Q(k)), value, f'({left}) / {k}')
            v.prove(set(n) == {left}, 'operands keep their names')
        for k in (1, 1.0, '1'):
            n = N(left)
            for g in (lambda: n * k, lambda: k * n, lambda: n / k, lambda: n ** k):
                r = v.call(g, 'one')
                stands(v, r, number(x), value, f'({left}) with {k}')
        for k in (2, -1, 3, -2):
            if s not in ('{0} - {1}', '({0} - {1})^2', '({0} + {1}) * ({1} - {2})', '{0} * {1} - {2}', '{0} / ({1} - {2})'):
                stands(v, v.call(lambda: N(left) ** k, 'power'), v.pow(number(x), k), value, f'({left}) ** {k}')
        n = N(left)
        stands(v, v.call(lambda: -n, 'negative'), number(-x), value, f'-({left})')
        stands(v, v.call(lambda: +n, 'positive'), number(x), value, f'+({left})')
        stands(v, v.call(lambda: abs(n), 'abs'), number(abs(x)), value, f'abs({left})')
        v.prove(set(n) == {left}, 'operands keep their names')


for _op, _i in itertools.product(BINARY, range(3)):
    unit('C13', f'names {_op} {_i}', NAME, bound=f'{len(SHAPES[_i::3]) * len(SHAPES)} pairs of names (every precedence on either side); all values of their atoms', samples=6)(lambda v, op=_op, i=_i: name_pairs(v, op, i))
unit('C13', 'names with numbers', NAME, bound=f'{len(SHAPES)} names and 12 numbers on either side; all values of their atoms', samples=10)(name_numbers)


@unit('C13', 'aliases', NAME, kind='bounded', bound='random names of up to 3 aliases', samples=200)
def aliases(v):
    """Every alias of one operand combines with every alias of the other."""
    N = v.mod('core.metadata').Name
    r = v.rng
    pool = ['a', 'b', 'A', 'radial velocity', 'Vr', 'rho_0', 'x1', 'c']
    A, B = r.sample(pool, r.randrange(1, 4)), r.sample(pool, r.randrange(1, 4))
    p, q = N(*A), N(B)
    symbol = {'add': '+', 'sub': '-', 'mul': '*', 'truediv': '/'}
    clean = lambda s: re.sub(r'\s*([-+*/^])\s*', r'\1', s)
    for op, f in BINARY.items():
        got = {clean(i) for i in v.call(lambda: f(p, q), op)}
        if set(A) == set(B):
            want = set(A) if op in ('add', 'sub') else {f'{i}{symbol[op]}{i}' for i in A}
        else:
            want = {f'{i}{symbol[op]}{j}' for i in A for j in B}
        v.prove(got == want, f'aliases of {op}', lambda: f'{A} {op} {B}: {sorted(got)}')
        for g in (lambda: f(p, 2), lambda: f(2, p)) if op in ('add', 'sub') else ():
            v.raises(TypeError, g, f'{op} of a name and a number')
        empty = N('')
        for g in (lambda: f(p, empty), lambda: f(empty, p), lambda: f(empty, empty)):
            v.prove(set(v.call(g, op)) == {''}, f'{op} without a name has no name', lambda: f'{A} {B}')
    for n in (2, 0.5, Q(5, 2)):
        v.prove({clean(i) for i in p * n} == {f'{i}*{Q(n)}' for i in A} and {clean(i) for i in p ** n} == {f'{i}^{Q(n)}' for i in A}, 'aliases with a number', lambda: f'{A} {n}')
    s = np().sqrt(p)
    v.prove({clean(i) for i in s} == {f'{i}^1/2' for i in A}, 'aliases of the square root', lambda: f'{A} {s}')
    v.prove({clean(i) for i in -p} == {f'-{i}' for i in A} and set(abs(p)) == {f'abs({i})' for i in A}, 'aliases of unary operations', lambda: f'{A}')
    for fn in (round, math.floor, math.ceil, math.trunc):
        v.prove(set(fn(p)) == {f'{fn.__name__}({i})' for i in A}, f'aliases of {fn.__name__}', lambda: f'{A} {fn(p)}')
    v.prove(set(p) == set(A) and set(q) == set(B), 'operands keep their names')
    v.prove((p == q) == (set(A) == set(B)) and (p != q) == (set(A) != set(B)) and p == N(*reversed(A)) and hash(p) == hash(N(*reversed(A))), 'equal when they have the same aliases')
    v.prove(len(p) == len(A) and all(i in p for i in A) and not any(i in p for i in set(pool) - set(A)), 'exactly the given aliases')
    v.prove(bool(p) and not N(''), 'only the empty name is false')


# -- quantities with names ----------------------------------------------------------------------
NAMED = ['physical.Scalar', 'physical.Vector', 'physical.Array']


def build(v, kind, data, u, name):
    c = v.attr(v.mod('core.physical'), kind.split('.')[1])
    a = G.arg(v, u)
    if kind == 'physical.Scalar':
        return c(data[0], unit=a, name=name)
    return c(list(data) if kind == 'physical.Vector' else np().array(list(data)), unit=a, name=name)


def named(v, q, atoms, xs, label, want=None):
    """Each alias of the name of `q` stands for each of its values."""
    got = values(v, q)
    v.prove(len(got) == len(xs[next(iter(xs))]), f'{label}: shape')
    for i, x in enumerate(got):
        stands(v, set(q.name), x, {n: xs[t][i] for n, t in atoms.items()}, label)


def quantity_spec(v, kind, op):
    """Operators on named quantities, for all values and units."""
    n = 1 if kind == 'physical.Scalar' else 2
    u = G.make(v, 'u')
    x, y, z = (v.reals(t, n, positive=True) for t in 'xyz')
    xs = {'x': x, 'y': y, 'z': z}
    atoms = {'a': 'x', 'A': 'x', 'b': 'y', 'B': 'y', 'c': 'z'}
    a, b, c = build(v, kind, x, u, ['a', 'A']), build(v, kind, y, u, ['b', 'B']), build(v, kind, z, u, 'c')
    k = 2.5 if not v.symbolic else v.choice('k', [2, 0.5, -3])
    cases = {
        'add': [lambda: a + b, lambda: a + c + b, lambda: c + (a + b)],
        'sub': [lambda: a - b, lambda: c - (a - b), lambda: a - (c + b)],
        'mul': [lambda: a * b, lambda: a * b * c, lambda: (a + b) * c, lambda: c * (a - b), lambda: a * (b / c), lambda: a * k, lambda: k * (a + b), lambda: -a * b, lambda: a * a],
        'truediv': [lambda: a / b, lambda: a / (b * c), lambda: a / b / c, lambda: a / (b / c), lambda: (a + b) / c, lambda: c / (a + b), lambda: a / k, lambda: (a - b) / k, lambda: a / a, lambda: b / (-c)],
        'pow': [lambda: a ** 2, lambda: (a + b) ** 2, lambda: (a * b) ** 2, lambda: a ** -1, lambda: (a ** 2) ** 2, lambda: (-a) ** 2, lambda: (a / b) ** 3, lambda: a ** 1],
        'unary': [lambda: -a, lambda: +a, lambda: abs(a), lambda: -(a + b), lambda: abs(a - b), lambda: -(-a), lambda: -(a * b), lambda: +(b - c), lambda: c - -a],
    }[op]
    for i, f in enumerate(cases):
        label = f'{kind} {op} {i}'
        r = v.call(f, label)
        named(v, r, atoms, xs, label)
        for q, want, data in ((a, {'a', 'A'}, x), (b, {'b', 'B'}, y), (c, {'c'}, z)):
            v.prove(set(q.name) == want, f'{label}: operands keep their names', lambda: f'{q.name}')
            for i, j in zip(values(v, q), data):
                v.eq(i, j, f'{label}: operands keep their values')
            G.check(v, q.unit, G.meaning(u), f'{label}: operands keep their units')
    if op in ('add', 'sub'):
        d = build(v, kind, y, u, ['A', 'a'])
        f = BINARY[op]
        r = v.call(lambda: f(a, d), f'{kind} {op} of the same name')
        v.prove(set(r.name) == {'a', 'A'}, f'{kind} {op} of quantities with the same name keeps it', lambda: f'{r.name}')
        nameless = build(v, kind, y, u, '')
        r = v.call(lambda: f(a, nameless), f'{kind} {op} without a name')
        v.prove(set(r.name) == {''}, f'{kind} {op} without a name has no name', lambda: f'{r.name}')
        w = G.make(v, 'w')
        if not G.equal(v, G.meaning(u), G.meaning(w)):
            other = build(v, kind, y, w, 'b')
            reject(v, lambda: f(a, other), f'{kind} {op}: different units are rejected')
            v.prove(set(a.name) == {'a', 'A'} and set(other.name) == {'b'}, f'{kind} {op}: operands keep their names')


for _kind in NAMED:
    for _op in ('add', 'sub', 'mul', 'truediv', 'pow', 'unary'):
        unit('C13', f'{_kind} {_op}', META + NAME + [f'core.{_kind}', 'core.measurable.Quantified.implement'], stubs=GHOST, assumes=ASSUMED,
             bound='nestings of up to three named quantities; all values and all units', samples=25)(lambda v, kind=_kind, op=_op: quantity_spec(v, kind, op))


@unit('C13', 'expressions', META + NAME, kind='bounded', bound='random expressions of up to 7 operations on named quantities', samples=150, weight=2)
def expressions(v):
    """Name, unit and values of a random expression agree."""
    r, N = v.rng, np()
    kind = r.choice(NAMED)
    n = 1 if kind == 'physical.Scalar' else 2
    names = ['a', 'b', 'radial velocity', 'rho', 'T']
    data = {k: [r.uniform(.5, 3) for _ in range(n)] for k in names}
    U = v.mod('core.metadata').Unit

    def leaf():
        k = r.choice(names)
        q = build(v, kind, data[k], PLAIN, k)
        return q, N.array(data[k]), k

    class PLAIN:
        text = 'm'
        real = staticmethod(lambda: U('m'))

    pool = [(*leaf(), 1.0) for _ in range(4)]
    for _ in range(r.randrange(1, 8)):
        (p, dp, tp, ep), (q, dq, tq, eq) = r.choice(pool), r.choice(pool)
        op = r.choice(['add', 'sub', 'mul', 'truediv', 'num', 'rnum', 'over', 'pow', 'neg', 'abs', 'sqrt', 'square', 'convert'])
        if op in ('add', 'sub'):
            if ep != eq or set(p.name) == set(q.name) or N.any(N.abs(BINARY[op](dp, dq)) < 1e-3):
                continue
            new = (BINARY[op](p, q), BINARY[op](dp, dq), ep)
        elif op in ('mul', 'truediv'):
            new = (BINARY[op](p, q), BINARY[op](dp, dq), ep + eq if op == 'mul' else ep - eq)
        elif op in ('num', 'rnum', 'over'):
            k = r.choice([2, -3, 0.5, 2.5, N.float64(1.5), 0.125])
            new = (p * k if op == 'num' else k * p if op == 'rnum' and kind != 'physical.Vector' else p * k if op == 'rnum' else p / k, dp / k if op == 'over' else dp * k, ep)
        elif op == 'pow':
            k = r.choice([2, -1, 3])
            new = (p ** k, dp ** float(k), ep * k)
        elif op == 'neg':
            new = (-p, -dp, ep)
        elif op == 'abs':
            new = (abs(p), abs(dp), ep)
        elif op in ('sqrt', 'square'):
            if kind != 'physical.Array' or N.any(dp <= 0):
                continue
            new = (getattr(N, op)(p), getattr(N, op)(dp), ep / 2 if op == 'sqrt' else ep * 2)
        else:
            if set(p.name) == {''} or ep != 1:
                continue
            v.prove(set(p['km'].name) == set(p.name), 'a converted quantity keeps its name')
            continue
        if N.any(N.abs(new[1]) > 1e5) or N.any(N.abs(new[1]) < 1e-5) or abs(new[2]) > 6:
            continue
        q, d, e = new
        text = sorted(q.name)[0]
        if len(text) > 200:
            continue
        pool.append((q, d, text, e))
        got = N.array([float(i) for i in values(v, q)])
        v.prove(bool(N.allclose(got, d, rtol=1e-9)), 'values')
        v.prove(len(q.name) == 1, 'one name')
        for i in range(n):
            m = float(meaning(v, text, {k: data[k][i] for k in names}))
            v.prove(abs(m - d[i]) <= 1e-6 * abs(d[i]), 'the name has the meaning of the values', lambda: f'{kind}: {text} is {m}, not {d[i]}')
        v.prove(q.unit == U(f'm^{Q(e).limit_denominator(64)}') if e else q.unit == U('1'), 'unit', lambda: f'{text}: {q.unit} m^{e}')


# -- dimension labels -------------------------------------------------------------------------------
LABELS = ['x', 'y', 'z', 'time']


def union(a, b):
    out = list(a)
    for i in b:
        if i not in out:
            out.append(i)
    return out


@unit('C13', 'dimensions', ['core.metadata.Dimensions', 'core.metadata.identity', 'core.iterables.unique'], kind='finite', bound='all pairs of lists of up to 3 of 4 labels', samples=1)
def dimensions(v):
    D = v.mod('core.metadata').Dimensions
    lists = [p for k in range(1, 4) for p in itertools.permutations(LABELS, k)]
    for a in lists:
        p = D(*a)
        say = lambda: f'{a}: {p}'
        v.prove(list(p) == list(a) and len(p) == len(a) and list(D(list(a))) == list(a) and list(D(p)) == list(a), 'the given labels in order', say)
        for n in (2, 0.5, -1):
            v.prove(all(list(v.call(g, 'number')) == list(a) for g in (lambda: p * n, lambda: n * p, lambda: p / n, lambda: p ** n)), 'labels with a number', say)
        v.prove(all(list(f(p)) == list(a) for f in (abs, operator.neg, operator.pos)), 'labels of unary operations', say)
        v.prove(all((p == x) == (a == (x,)) and (p != x) == (a != (x,)) for x in [*LABELS, ''.join(a) if len(a) > 1 else '', 'other']), 'equal to the name of its only label', say)
        v.prove((p == list(a[:1]) * len(a)) == (len(a) == 1) and p != 1, 'a repeated label is not two labels', say)
        for b in lists:
            q = D(*b)
            v.prove((p == list(b)) == (set(a) == set(b)), 'equal to a list of the same labels', lambda: f'{a} {b}')
            for f in (operator.mul, operator.truediv):
                r = v.call(lambda: f(p, q), 'product')
                v.prove(list(r) == union(a, b), 'products have the ordered union', lambda: f'{a} {b}: {r}')
            for f in (operator.add, operator.sub):
                try:
                    r = f(p, q)
                except TypeError:
                    r = None
                v.prove((r is None) == (a != b) and (r is None or list(r) == list(a)), 'sums have the same labels or are an error', lambda: f'{a} {b}: {r}')
            v.prove((p == q) == (a == b) and (p != q) == (a != b) and (a != b or hash(p) == hash(q)), 'equal when they are the same in order', lambda: f'{a} {b}')
            v.prove(list(p) == list(a) and list(q) == list(b), 'operands keep their labels')
    for bad in (1, [1], ['x', 2]):
        v.raises(TypeError, lambda: D(bad), 'labels are strings')
    v.prove(len(D()) == 0, 'no labels')


SIZE = {'x': 2, 'y': 2, 'z': 3}
VARIABLES = {'variable': 'core.variable', 'observing': 'core.observing'}


def labelled(v, kind, tag, dims, u, parameters=None):
    shape = [SIZE[d] for d in dims]
    flat = v.reals(tag, int(np().prod(shape)) if shape else 1, nonzero=True)
    data = np().array(flat, dtype=object if v.symbolic else float).reshape(shape)
    c = v.attr(v.mod(VARIABLES[kind]), 'Quantity')
    kw = {} if kind == 'variable' else {'parameters': parameters or ()}
    return c(data, unit=G.arg(v, u), dimensions=list(dims), **kw), data


def point(dims, where):
    return tuple(where[d] for d in dims)


def points(dims):
    for p in itertools.product(*[range(SIZE[d]) for d in dims]):
        yield dict(zip(dims, p))


DIMS = [p for k in (1, 2, 3) for p in itertools.permutations('xyz', k) if k < 3 or p in (('x', 'y', 'z'), ('z', 'x', 'y'))]


def axes_spec(v, left, right, pairs):
    """Each value of a product is at the labels of its factors."""
    u, w = G.make(v, 'u'), G.make(v, 'w')
    N = np()
    for i, (da, db) in enumerate(pairs):
        a, x = labelled(v, left, f'x{i}_', da, u, ['lamo', 'q'])
        b, y = labelled(v, right, f'y{i}_', db, w, ['q', 'beta'])
        dims = union(da, db)
        for name, f in (('mul', operator.mul), ('truediv', operator.truediv)):
            label = f'{left} {name} {right} {"".join(da)} {"".join(db)}'
            r = v.call(lambda: f(a, b), label)
            v.prove(list(r.dimensions) == dims, f'{label}: ordered union of the labels', lambda: f'{r.dimensions}')
            v.prove(tuple(r.shape) == tuple(SIZE[d] for d in dims), f'{label}: shape', lambda: f'{r.shape}')
            got = N.asarray(r)
            for p in points(dims):
                v.eq(got[point(dims, p)], f(x[point(da, p)], y[point(db, p)]), f'{label}: the value at each point')
            mu, mw = G.meaning(u), G.meaning(w)
            G.check(v, r.unit, G.mul(mu, mw) if name == 'mul' else G.div(mu, mw), f'{label}: unit')
            if left == 'observing':
                v.prove(list(r.parameters) == (['lamo', 'q', 'beta'] if right == 'observing' else ['lamo', 'q']), f'{label}: parameters', lambda: f'{r.parameters}')
            v.prove(list(a.dimensions) == list(da) and list(b.dimensions) == list(db), f'{label}: operands keep their labels')
            for q, d in ((a, x), (b, y)):
                for s, t in zip(N.asarray(q).ravel(), d.ravel()):
                    v.eq(s, t, f'{label}: operands keep their values')


def sums_spec(v, kind, dims):
    """Sums: the same labels, or an error; powers and unary operations: the same labels."""
    u = G.make(v, 'u')
    N = np()
    for i, (da, db) in enumerate(itertools.product(dims, DIMS)):
        a, x = labelled(v, kind, f'x{i}_', da, u)
        b, y = labelled(v, kind, f'y{i}_', db, u)
        for name, f in (('add', operator.add), ('sub', operator.sub)):
            label = f'{kind} {name} {"".join(da)} {"".join(db)}'
            if da != db:
                reject(v, lambda: f(a, b), f'{label}: different labels are rejected')
            else:
                r = v.call(lambda: f(a, b), label)
                v.prove(list(r.dimensions) == list(da), f'{label}: labels', lambda: f'{r.dimensions}')
                for s, t in zip(N.asarray(r).ravel(), f(x, y).ravel()):
                    v.eq(s, t, f'{label}: values')
                G.check(v, r.unit, G.meaning(u), f'{label}: unit')
        if da != db:
            reject(v, lambda: a < b, f'{kind} comparison {"".join(da)} {"".join(db)}: different labels are rejected')
            continue
        for name, f, g in (('neg', operator.neg, None), ('abs', abs, None), ('pos', operator.pos, None), ('pow', lambda q: q ** 2, 2), ('times', lambda q: q * 3, None), ('over', lambda q: q / 2, None), ('rtimes', lambda q: 2.5 * q, None)):
            r = v.call(lambda: f(a), f'{kind} {name}')
            v.prove(list(r.dimensions) == list(da), f'{kind} {name}: labels', lambda: f'{r.dimensions}')
            v.prove(list(a.dimensions) == list(da), f'{kind} {name}: operand keeps its labels')
            G.check(v, r.unit, G.power(v, G.meaning(u), g) if g else G.meaning(u), f'{kind} {name}: unit')


PAIRS = list(itertools.product(DIMS, DIMS))
AXES = META + ['core.metadata.Dimensions', 'core.variable.Quantity._ufunc_hook', 'core.variable.Array.__array_ufunc__', 'core.variable.Array._copy_with']
for _l, _r in (('variable', 'variable'), ('observing', 'observing'), ('observing', 'variable')):
    for _i in range(3):
        unit('C13', f'axes {_l} {_r} {_i}', AXES, stubs=GHOST, assumes=ASSUMED, bound='up to three axes of 2 or 3 points; all values and all units', samples=3, weight=2)(
            lambda v, l=_l, r=_r, i=_i: axes_spec(v, l, r, PAIRS[i::3]))
for _k in VARIABLES:
    for _i in range(2):
        unit('C13', f'sums {_k} {_i}', AXES, stubs=GHOST, assumes=ASSUMED, bound='up to three axes of 2 or 3 points; all values and all units', samples=3)(
            lambda v, k=_k, i=_i: sums_spec(v, k, DIMS[i::2]))


# -- units of powers and roots ---------------------------------------------------------------------
@unit('C13', 'roots', ['core.metadata.Unit', 'core.metadata.Operator.__call__', 'core.physical.Array.__array_ufunc__', 'core.variable.Array.__array_ufunc__'], kind='bounded',
      bound='random units of two factors, arrays of up to 2 dimensions', samples=120)
def roots(v):
    """numpy's powers and roots: values and unit together."""
    N, r = np(), v.rng
    M = v.mod('core.metadata')
    P, V, O = v.mod('core.physical'), v.mod('core.variable'), v.mod('core.observing')
    u = G.make(v, 'u')
    shape = r.choice([(2,), (3,), (2, 3)])
    data = N.array([r.uniform(.5, 9) for _ in range(int(N.prod(shape)))]).reshape(shape)
    dims = ['x', 'y'][:len(shape)]
    qs = [P.Array(data, unit=G.arg(v, u), name='a'), V.Quantity(data, unit=G.arg(v, u), dimensions=dims), O.Quantity(data, unit=G.arg(v, u), dimensions=dims, parameters=['lamo'])]
    for q in qs:
        for f, p in ((N.sqrt, Q(1, 2)), (N.square, Q(2)), (N.cbrt, Q(1, 3)), (N.reciprocal, Q(-1))):
            label = f'{type(q).__module__} {f.__name__}'
            s = v.call(lambda: f(q), label)
            v.prove(bool(N.allclose(N.asarray(s), data ** float(p))), f'{label}: values', lambda: f'{s}')
            G.check(v, s.unit, G.power(v, G.meaning(u), p), f'{label}: unit')
            if hasattr(q, 'dimensions'):
                v.prove(list(s.dimensions) == dims, f'{label}: labels')
            else:
                v.prove(abs(float(meaning(v, sorted(s.name)[0], {'a': 2.0})) - 2 ** float(p)) < 1e-9, f'{label}: name', lambda: f'{s.name}')
            if hasattr(q, 'parameters'):
                v.prove(list(s.parameters) == ['lamo'], f'{label}: parameters')
            G.check(v, q.unit, G.meaning(u), f'{label}: operand keeps its unit')
        for f in (N.absolute, N.negative, N.positive):
            s = v.call(lambda: f(q), f.__name__)
            v.prove(bool(N.array_equal(N.asarray(s), f(data))), f'{f.__name__}: values')
            G.check(v, s.unit, G.meaning(u), f'{f.__name__}: unit')
        for f, want in ((N.multiply, G.mul), (N.divide, G.div), (N.true_divide, G.div)):
            s = v.call(lambda: f(q, q), f.__name__)
            v.prove(bool(N.allclose(N.asarray(s), f(data, data))), f'{f.__name__}: values')
            G.check(v, s.unit, want(G.meaning(u), G.meaning(u)), f'{f.__name__}: unit')
        for f in (N.add, N.subtract):
            s = v.call(lambda: f(q, q), f.__name__)
            v.prove(bool(N.allclose(N.asarray(s), f(data, data))), f'{f.__name__}: values')
            G.check(v, s.unit, G.meaning(u), f'{f.__name__}: unit')
        s = v.call(lambda: N.power(q, 3), 'power')
        v.prove(bool(N.allclose(N.asarray(s), data ** 3)), 'power: values')
        G.check(v, s.unit, G.power(v, G.meaning(u), Q(3)), 'power: unit')
        # Other lists and arrays have no metadata of their own.
        other = N.array([r.uniform(.5, 9) for _ in range(data.size)]).reshape(shape)
        for o in (other, other.tolist(), 2, 2.5, N.float64(3.5), N.int64(2), N.float32(2), True, math.inf):
            n = N.array(o, dtype=float)
            for name, s, want in (('times', v.call(lambda: q * o, f'times {type(o)}'), data * n), ('over', v.call(lambda: q / o, f'over {type(o)}'), data / n)):
                v.prove(bool(N.allclose(N.asarray(s), want)), f'{name} {type(o).__name__}: values')
                G.check(v, s.unit, G.meaning(u), f'{name} {type(o).__name__}: unit')
                if hasattr(q, 'dimensions'):
                    v.prove(list(s.dimensions) == dims, f'{name} {type(o).__name__}: labels')
                elif isinstance(o, (list, N.ndarray)):
                    v.prove(set(s.name) == {''}, f'{name} {type(o).__name__}: no name for unnamed values', lambda: f'{s.name}')
            if not isinstance(o, (list, N.ndarray)):
                s = v.call(lambda: o * q, f'{type(o)} times')
                v.prove(bool(N.allclose(N.asarray(s), n * data)), f'{type(o).__name__} times: values')
                G.check(v, s.unit, G.meaning(u), f'{type(o).__name__} times: unit')


@unit('C13', 'unsupported', META, kind='bounded', bound='every pair of kinds and every unsupported operator, random values', samples=60)
def unsupported(v):
    """What the metadata cannot support is an error."""
    N, r = np(), v.rng
    P, V, O, m = v.mod('core.physical'), v.mod('core.variable'), v.mod('core.observing'), v.mod('core.measurable')
    data = N.array([r.uniform(.5, 9) for _ in range(2)])
    u = r.choice(['m', 'km / s', 's^2'])
    q = r.choice([P.Array(data, unit=u, name='a'), V.Quantity(data, unit=u, dimensions=['x']), O.Quantity(data, unit=u, dimensions=['x'], parameters=['lamo']),
                  P.Scalar(data[0], unit=u, name='a'), P.Vector(data, unit=u, name='a'), m.Scalar(data[0], unit=u), m.Quantity(data[0], unit=u)])
    label = f'{type(q).__module__}.{type(q).__name__}'
    for f in (operator.floordiv, operator.mod, operator.matmul, divmod, operator.pow):
        reject(v, lambda: f(q, q), f'{label} {f.__name__}')
    for f in (operator.add, operator.sub, operator.floordiv, operator.mod):
        for o in (2, 2.5, N.float64(2), '2', None, 'm'):
            if isinstance(o, N.float64) and label.endswith('Vector'):
                continue     # numpy takes any sequence as plain values
            reject(v, lambda: f(q, o), f'{label} {f.__name__} {o!r}')
            if isinstance(o, str) and f is operator.mod:
                continue     # formats a string
            reject(v, lambda: f(o, q), f'{o!r} {f.__name__} {label}')
    for o in (2, 2.5, N.float64(2), '2', None):
        if isinstance(o, N.float64) and label.endswith('Vector'):
            continue
        reject(v, lambda: o / q, f'{o!r} / {label}')
        reject(v, lambda: o ** q, f'{o!r} ** {label}')
    for o in ('2', None, 'm', [1, 2], N.array([1, 2]), 2j):
        reject(v, lambda: q ** o, f'{label} ** {o!r}')
    for o in (None, object(), {'a': 1}):
        reject(v, lambda: q * o, f'{label} * {type(o).__name__}')
        reject(v, lambda: q / o, f'{label} / {type(o).__name__}')
    if not label.endswith(('Scalar', 'Vector', 'measurable.Quantity')):
        for f in (N.maximum, N.minimum, N.hypot, N.arctan2, N.fmod, N.floor_divide, N.remainder, N.logaddexp, N.float_power):
            reject(v, lambda: f(q, q), f'{label} {f.__name__}')
            reject(v, lambda: f(q, 2.0), f'{label} {f.__name__} 2.0')
    v.prove(str(q.unit) == str(v.mod('core.metadata').Unit(u)), f'{label}: operand keeps its unit')


# -- units as metadata -----------------------------------------------------------------------------
@unit('C13', 'units', ['core.metadata.Unit'], kind='bounded', bound='random units of two factors', samples=150)
def units(v):
    M, N = v.mod('core.metadata'), np()
    u = G.make(v, 'u')
    w = u if v.choice('same', [0, 0, 1]) else G.make(v, 'w', like=u if v.choice('dim', [0, 1]) else None)
    a, b = u.real(), w.real()
    mu, mw = G.meaning(u), G.meaning(w)
    for other in (b, w.text):
        G.check(v, v.call(lambda: a * other, 'mul'), G.mul(mu, mw), 'product')
        G.check(v, v.call(lambda: a / other, 'div'), G.div(mu, mw), 'quotient')
        G.check(v, v.call(lambda: other * a, 'rmul'), G.mul(mu, mw), 'reflected product')
        G.check(v, v.call(lambda: other / a, 'rdiv'), G.div(mw, mu), 'reflected quotient')
        for f in (operator.add, operator.sub):
            if G.equal(v, mu, mw):
                G.check(v, v.call(lambda: f(a, other), 'sum'), mu, 'sum of the same unit')
            else:
                err = reject(v, lambda: f(a, other), 'sum of different units')
                v.prove(isinstance(err, M.UnitError), 'sum of different units: a unit error', lambda: f'{type(err)}')
                if not isinstance(other, str):
                    same = (mu.a, mu.b) == (mw.a, mw.b)
                    v.prove(isinstance(err, M.ScaleMismatch if same else M.DimensionMismatch), 'which error', lambda: f'{u} {w} {type(err)}')
    for n in (2, 0.5, -1.0, N.float64(3)):
        for f in (lambda: a * n, lambda: a / n) + (() if isinstance(n, N.float64) else (lambda: n * a,)):
            G.check(v, v.call(f, 'number'), mu, 'a number beside a unit is ignored')
        reject(v, lambda: a + n, 'sum of a unit and a number')
        reject(v, lambda: a - n, 'difference of a unit and a number')
    for f in (abs, operator.neg, operator.pos):
        try:
            s = f(a)
        except TypeError:
            continue
        G.check(v, s, mu, 'unary')
    for p in (2, -1, 3, 0.5, Q(1, 2)):
        G.check(v, v.call(lambda: a ** p, 'power'), G.power(v, mu, Q(p)), 'power')
    G.check(v, v.call(lambda: N.sqrt(a), 'sqrt'), G.power(v, mu, Q(1, 2)), 'square root')
    c = u.real()
    c *= b
    G.check(v, c, G.mul(mu, mw), 'in-place product')
    G.check(v, a, mu, 'operands keep their unit')
    G.check(v, b, mw, 'operands keep their unit')


# -- operations on any metadata -----------------------------------------------------------------------
@unit('C13', 'operations', META + ['core.metadata.Operation.suppress', 'core.metadata.Operation.support', 'core.metadata.OperatorFactory', 'core.metadata.Operands'], kind='bounded',
      bound='random classes with up to 3 attributes, random type rules', samples=120)
def operations(v):
    """An operator applies its method to each attribute of its operands."""
    M, r = v.mod('core.metadata'), v.rng

    class Base:
        def __init__(self, **k):
            self.__dict__.update(k)

    class Sub(Base):
        pass

    class Other:
        pass

    attrs = r.sample(['p', 'q', 's'], r.randrange(1, 4))
    factory = M.OperatorFactory(Base, *attrs)
    make = lambda t=Base: t(**{k: r.randrange(1, 9) for k in attrs})
    names = {'add': operator.add, 'subtract': operator.sub, 'multiply': operator.mul, 'true divide': operator.truediv, 'power': operator.pow}
    for name, f in names.items():
        a, b, n = make(), make(r.choice([Base, Sub])), r.randrange(2, 5)
        evaluate = factory[name].evaluate
        for x, y in ((a, b), (a, n), (n, a)):
            got = v.call(lambda: evaluate(x, y), name)
            val = lambda o, k: getattr(o, k, o)
            v.prove(got == {k: f(val(x, k), val(y, k)) for k in attrs}, f'{name}: each attribute', lambda: f'{got} {attrs}')
        c = Other()
        v.raises(M.OperandTypeError, lambda: evaluate(c, c), f'{name}: other types are an error')
    for name, f in {'negative': operator.neg, 'positive': operator.pos, 'absolute': abs}.items():
        a = make()
        got = v.call(lambda: factory[name].evaluate(a), name)
        v.prove(got == {k: f(getattr(a, k)) for k in attrs}, f'{name}: each attribute', lambda: f'{got}')
    # Type rules: a suppressed pair never applies, a supported pair does, and otherwise this type must take part.
    op = M.OperatorFactory(Base, *attrs)[r.choice(list(names))]
    types = [Base, Sub, Other, int, float, str]
    yes, no = [], []
    for _ in range(r.randrange(0, 3)):
        t = (r.choice(types), r.choice(types))
        s = r.random() < .5
        v.call(lambda: op.support(*t, symmetric=s), 'support')
        yes += [t] + ([t[::-1]] if s else [])
    for _ in range(r.randrange(0, 3)):
        t = (r.choice(types), r.choice(types))
        s = r.random() < .5
        v.call(lambda: op.suppress(*t, symmetric=s), 'suppress')
        no += [t] + ([t[::-1]] if s else [])
    match = lambda t, rules: any(all(issubclass(i, j) for i, j in zip(t, rule)) for rule in rules)
    for t in itertools.product(types, types):
        want = not match(t, no) and (match(t, yes) or Base in t)
        v.prove(op.supports(*t) == want, 'which types an operation supports', lambda: f'{t} {yes} {no}: {op.supports(*t)}')
    for name in names:
        if M.OperatorFactory(Base, *attrs)[name] is not op:
            v.prove(M.OperatorFactory(Base, *attrs)[name].supports(Base, int), 'rules of one operation leave the others alone')
    # Consistency of metadata.
    a, b = make(), make()
    same = all(getattr(a, k) == getattr(b, k) for k in attrs)
    v.prove(factory.consistent(a, b) == same, 'consistent metadata', lambda: f'{a.__dict__} {b.__dict__}')
    (v.call if same else lambda f, l: v.raises(ValueError, f, l))(lambda: factory.check(a, b), 'check of consistency')


@unit('C13', 'renaming', ['core.metadata.NameMixin.alias', 'core.metadata.Name.add'], kind='bounded', bound='random names of up to 3 aliases', samples=60)
def renaming(v):
    """Adding or replacing aliases affects one quantity only."""
    r = v.rng
    P = v.mod('core.physical')
    pool = ['a', 'b', 'c', 'radial velocity', 'Vr']
    A, B = r.sample(pool, r.randrange(0, 4)), r.sample(pool, r.randrange(1, 4))
    kind = r.choice([lambda n: P.Scalar(2.0, unit='m', name=n), lambda n: P.Vector([2.0, 3.0], unit='m', name=n), lambda n: P.Array([2.0, 3.0], unit='m', name=n)])
    q = kind(A or '')
    copy = type(q)(q)
    q.name.add('other')
    q.name * 2
    v.prove(set(q.name) == set(A or ['']), 'the name of a quantity is a copy', lambda: f'{q.name}')
    s = v.call(lambda: q.alias(*B), 'alias')
    v.prove(set(q.name) == set(A) | set(B) and set(s.name) == set(q.name), 'added aliases', lambda: f'{A} {B}: {q.name}')
    v.prove(set(copy.name) == set(A or ['']), 'a copy keeps its own name', lambda: f'{A} {B}: {copy.name}')
    v.call(lambda: q.alias(*B, reset=True), 'alias')
    v.prove(set(q.name) == set(B), 'replaced aliases', lambda: f'{A} {B}: {q.name}')
    n = v.mod('core.metadata').Name(*B)
    v.prove(set(n.add(A)) == set(A) | set(B) if A else True, 'aliases added to a name', lambda: f'{A} {B}')
