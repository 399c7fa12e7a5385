"""C01: symbolic algebra preserves the meaning of expressions."""
import fractions

from pv.api import unit
from . import util_sym as U

Q = fractions.Fraction


# -- callee contracts used by the proofs ------------------------------------

def _init_stub(v):
    """Expression(iterable of terms): its terms are the reduction of those
    terms (the string round trip inside is C02's contract)."""
    def __init__(self, expression, **kwargs):
        m = v.mod('core.symbolic')
        if isinstance(expression, str):
            raise AssertionError('string')
        self.terms = m.reduce(list(expression))
    return __init__


def _valid_stub(v):
    return lambda self, base: None


STUBS = {'core.symbolic:Expression.__init__': _init_stub,
         'core.symbolic:Term._validate_base': _valid_stub}
ASSUMED = ['Expression(list of terms) has the meaning of that list (contract of C02, checked there)',
           'Term accepts every symbol of the grammar (contract of C02, checked there)']


def names(v, k):
    ns = [v.atom(f'n{i}') for i in range(k)]
    for n in ns:
        v.assume(v.not_(v.same(n, '1')))
    return ns


def terms(v, k, tag='t', pow_=False):
    m = v.mod('core.symbolic')
    out = []
    for i in range(k):
        n = v.atom(f'{tag}{i}n')
        v.assume(v.not_(v.same(n, '1')))
        c = v.real(f'{tag}{i}c', nonzero=True, exact=True)
        e = v.real(f'{tag}{i}e', nonzero=True, exact=True)
        out.append(m.Term(coefficient=c, base=n, exponent=e))
    return out


def coefficient(ts):
    c = 1
    for t in ts:
        c = c * t.coefficient
    return c


def exponent(v, ts, name, sign=1):
    """The exponent of `name` in the product of `ts`."""
    e = 0
    for t in ts:
        e = e + v.ite(v.same(t.base, name), t.exponent, 0) * sign
    return e


def spec_reduced(v, result, source, where):
    """result is the reduced form of the product of `source`."""
    for t in list(source) + list(result):
        if isinstance(t.base, str) and str(t.base) == '1':
            continue
        n = t.base
        v.eq(exponent(v, result, n), exponent(v, source, n), f'{where}: exponent of every symbol')
    v.eq(coefficient(result), coefficient(source), f'{where}: coefficient')
    spec_canonical(v, result, where)


def spec_canonical(v, result, where):
    result = list(result)
    v.prove(len(result) > 0, f'{where}: at least one term')
    for i, t in enumerate(result):
        const = v.same(t.base, '1')
        if i > 0:
            v.prove(v.not_(const), f'{where}: only the first term is constant')
            v.eq(t.coefficient, 1, f'{where}: symbols carry no coefficient')
            v.prove(v.not_(t.exponent == 0), f'{where}: no vanishing exponents')
        if i > 1:
            p = result[i - 1]
            v.prove(p.exponent >= t.exponent, f'{where}: sorted by exponent')
            if p.exponent == t.exponent:
                v.prove(p.base < t.base, f'{where}: then by symbol')
        for s in result[:i]:
            v.prove(v.not_(v.same(s.base, t.base)), f'{where}: each symbol once')
    if len(result) > 1:
        first = result[0]
        if str(first.base) == '1':
            v.prove(v.not_(first.coefficient == 1), f'{where}: no explicit unity')


@unit('C01', 'reduce2', ['core.symbolic.reduce'], stubs=STUBS, assumes=ASSUMED, weight=2,
      bound='two terms; all coefficients, exponents and symbols')
def reduce2(v):
    m = v.mod('core.symbolic')
    ts = terms(v, 2)
    r = v.call(lambda: m.reduce(ts))
    spec_reduced(v, r, ts, 'reduce')


@unit('C01', 'reduce3', ['core.symbolic.reduce'], stubs=STUBS, assumes=ASSUMED, weight=3,
      bound='a constant and three terms in two groups; all coefficients, exponents and symbols')
def reduce3(v):
    m = v.mod('core.symbolic')
    ts = terms(v, 3)
    k = m.Term(coefficient=v.real('k', nonzero=True, exact=True))
    r = v.call(lambda: m.reduce([ts[0], k], ts[1:]))
    spec_reduced(v, r, [k] + ts, 'reduce')


@unit('C01', 'order', ['core.symbolic.reduce'], stubs=STUBS, assumes=ASSUMED, weight=2,
      bound='two terms; all coefficients, exponents and symbols')
def order(v):
    """The reduced form does not depend on the order of the terms."""
    m = v.mod('core.symbolic')
    ts = terms(v, 2)
    a, b = m.reduce(ts), m.reduce(ts[1:], ts[:1])
    v.prove(len(a) == len(b), 'same number of terms in either order')
    for x, y in zip(a, b):
        v.prove(v.same(x.base, y.base), 'same symbols in either order')
        v.eq(x.exponent, y.exponent, 'same exponents in either order')
        v.eq(x.coefficient, y.coefficient, 'same coefficients in either order')


@unit('C01', 'operand_ops', ['core.symbolic.Operand.__pow__', 'core.symbolic.Operand.__mul__', 'core.symbolic.Operand.__init__',
                             'core.symbolic.Term.__init__'],
      stubs=STUBS, assumes=ASSUMED)
def operand_ops(v):
    """(c b^e)**p = c^p b^(ep);  k (c b^e) = (kc) b^e; operands unchanged."""
    m = v.mod('core.symbolic')
    c = v.real('c', positive=True)
    e = v.real('e', nonzero=True)
    p = v.real('p', lo=-6, hi=6)
    b = v.atom('b')
    for cls in (m.Term, m.Operand):
        t = cls(c, b, e)
        r = v.call(lambda: t ** p)
        v.eq(r.exponent, e * p, 'power multiplies the exponent')
        v.eq(r.coefficient, v.pow(c, p), 'power raises the coefficient', rel=1e-9)
        v.prove(v.same(r.base, b), 'power keeps the base')
        for q in (v.call(lambda: t * p), v.call(lambda: p * t)):
            v.eq(q.coefficient, c * p, 'multiplication scales the coefficient')
            v.eq(q.exponent, e, 'multiplication keeps the exponent')
            v.prove(v.same(q.base, b), 'multiplication keeps the base')
        v.eq(t.coefficient, c, 'operand unchanged')
        v.eq(t.exponent, e, 'operand unchanged')


@unit('C01', 'term_eval', ['core.symbolic.Term.__call__', 'core.symbolic.Term.__float__', 'core.symbolic.Term._cast_to'],
      stubs=STUBS, assumes=ASSUMED)
def term_eval(v):
    """A term evaluated at x is c * x^e."""
    m = v.mod('core.symbolic')
    c = v.real('c')
    e = v.choice('e', [Q(1), Q(2), Q(-1), Q(3), Q(-2)])
    x = v.real('x', nonzero=True, lo=-100, hi=100)
    v.assume(v.or_(x > 0.01, x < -0.01))
    t = m.Term(c, 'q', e)
    r = v.call(lambda: t(x))
    v.eq(float(r) if not v.symbolic else r.coefficient, c * v.pow(x, e), 'value of the term', rel=1e-9)
    v.prove(str(r.base) == '1', 'an evaluated term is a constant')
    v.eq(t.coefficient, c, 'operand unchanged')
    v.raises(TypeError, lambda: r(1.0), 'a constant has nothing to substitute')
    if not v.symbolic:
        v.raises(TypeError, lambda: float(t), 'a variable term has no numeric value')


def _expr(m, ts):
    return m.Expression(ts)


@unit('C01', 'mul', ['core.symbolic.Expression.__mul__', 'core.symbolic.reduce'], stubs=STUBS, assumes=ASSUMED, weight=3,
      bound='two terms times two terms; all coefficients, exponents and symbols')
def mul(v):
    m = v.mod('core.symbolic')
    a, b = _expr(m, terms(v, 2, 'a')), _expr(m, terms(v, 1, 'b'))
    at, bt = list(a), list(b)
    r = v.call(lambda: a * b)
    spec_reduced(v, list(r), at + bt, 'product')
    v.prove(len(list(a)) == len(at) and all(x is y for x, y in zip(a, at)), 'operands unchanged')


@unit('C01', 'div', ['core.symbolic.Expression.__truediv__', 'core.symbolic.reduce'], stubs=STUBS, assumes=ASSUMED, weight=3,
      bound='two terms over one term; all coefficients, exponents and symbols')
def div(v):
    m = v.mod('core.symbolic')
    a, b = _expr(m, terms(v, 2, 'a')), _expr(m, terms(v, 1, 'b'))
    at, bt = list(a), list(b)
    r = v.call(lambda: a / b)
    res = list(r)
    for t in res + at + bt:
        if str(t.base) == '1':
            continue
        v.eq(exponent(v, res, t.base), exponent(v, at, t.base) - exponent(v, bt, t.base),
             'quotient: exponent of every symbol')
    v.eq(coefficient(res) * coefficient(bt), coefficient(at), 'quotient: coefficient')
    spec_canonical(v, res, 'quotient')


@unit('C01', 'pow', ['core.symbolic.Expression.__pow__', 'core.symbolic.reduce'], stubs=STUBS, assumes=ASSUMED, weight=2,
      bound='two terms; all coefficients > 0, exponents, symbols and powers')
def pow_(v):
    m = v.mod('core.symbolic')
    ts = terms(v, 2, 'a')
    for t in ts:
        v.assume(t.coefficient > 0)
    a = _expr(m, ts)
    at = list(a)
    p = v.real('p', nonzero=True, lo=-8, hi=8)
    r = list(v.call(lambda: a ** p))
    for t in r + at:
        if str(t.base) == '1':
            continue
        v.eq(exponent(v, r, t.base), exponent(v, at, t.base) * p, 'power: exponent of every symbol', rel=1e-9)
    k = 1
    for t in at:
        k = k * v.pow(t.coefficient, p)
    v.eq(coefficient(r), k, 'power: coefficient', rel=1e-6)
    spec_canonical(v, r, 'power')


@unit('C01', 'difference', ['core.symbolic.Expression.difference', 'core.symbolic.Term.__hash__', 'core.symbolic.Operand.__eq__'],
      kind='bounded', bound='random expressions of up to 4 terms', samples=150)
def difference(v):
    m = v.mod('core.symbolic')
    a, ma = rnd_expression(v, m)
    b, mb = rnd_expression(v, m)
    one = lambda e: {(float(t.coefficient), t.base, float(t.exponent)) for t in e}
    A, B = one(a), one(b)
    v.prove(one(a.difference(b)) == A - B, 'one-sided difference')
    v.prove(one(a.difference(b, symmetric=True)) == A ^ B, 'symmetric difference')
    s = a.difference(b, split=True)
    v.prove((one(s[0]), one(s[1])) == (A - B, B - A), 'split difference')


def rnd_expression(v, m, maxterms=4):
    """A random expression, built from text, and its meaning."""
    n = v.int('n', 1, maxterms)
    parts, mean = [], (Q(1), {})
    for i in range(n):
        c = Q(v.int('c', -9, 9) or 3, v.choice('d', [1, 1, 2, 4, 8]))
        e = Q(v.int('e', -4, 4) or 1, v.choice('f', [1, 1, 1, 2, 3]))
        s = v.atom('s', U.SYMBOLS)
        op = v.choice('op', [' * ', ' / ', ' ']) if i else ''
        if op == ' ' and c < 0:
            op = ' * '
        text = (f'{c}' if c != 1 else '') + s + (f'^{e}' if e != 1 else '')
        parts.append(op + text)
        t = (c, {s: e})
        mean = U.mul(mean, U.inv(t) if op == ' / ' else t)
    return m.Expression(''.join(parts)), mean


@unit('C01', 'expressions', ['core.symbolic.Expression', 'core.symbolic.product', 'core.symbolic.ratio', 'core.symbolic.power',
                             'core.symbolic.equality'],
      kind='bounded', bound='random expressions of up to 4 terms with rational coefficients and exponents, built from text',
      samples=400, weight=2)
def expressions(v):
    m = v.mod('core.symbolic')
    a, ma = rnd_expression(v, m)
    b, mb = rnd_expression(v, m)
    k = v.choice('k', [1, 2, 5, -3, 0.5, 0.25, 1.5, -0.125, Q(1, 3)])
    before = str(a), str(b), hash(a)
    v.prove(U.close(U.meaning(a), ma), 'meaning of the text', lambda: f'{a} vs {ma}')
    for label, r, spec in (
        ('a * b', lambda: a * b, U.mul(ma, mb)),
        ('a / b', lambda: a / b, U.mul(ma, U.inv(mb))),
        ('product', lambda: m.product(a, str(b)), U.mul(ma, mb)),
        ('ratio', lambda: m.ratio(str(a), b), U.mul(ma, U.inv(mb))),
        ('str * b', lambda: str(a) * b, U.mul(ma, mb)),
        ('a * str', lambda: a * str(b), U.mul(ma, mb)),
        ('str / b', lambda: str(a) / b, U.mul(ma, U.inv(mb))),
        ('a / str', lambda: a / str(b), U.mul(ma, U.inv(mb))),
        ('iterable', lambda: m.Expression([a, b]), U.mul(ma, mb)),
        ('number * b', lambda: k * b, U.mul((Q(k), {}), mb)),
        ('a * number', lambda: a * k, U.mul(ma, (Q(k), {}))),
        ('number / b', lambda: k / b, U.mul((Q(k), {}), U.inv(mb))),
        ('a / number', lambda: a / k, U.mul(ma, U.inv((Q(k), {})))),
        ('one / b', lambda: 1 / b, U.inv(mb)),
        ('terms', lambda: m.Expression(list(a) + list(b)), U.mul(ma, mb)),
    ):
        x = v.call(r, f'{label} is defined')
        v.prove(U.close(U.meaning(x), spec), f'{label} has the right meaning', lambda: f'{a} , {b} -> {x}, expected {spec}')
    ab, ba = a * b, b * a
    v.prove(ab == ba and not ab != ba, 'products commute', lambda: f'{ab} {ba}')
    v.prove([str(t) for t in ab] == [str(t) for t in ba], 'stored form does not depend on order')
    v.prove(hash(ab) == hash(ba), 'equal expressions have equal hashes')
    v.prove((a / a) == '1' and (a * b) / b == a, 'quotients cancel', lambda: f'{(a*b)/b} vs {a}')
    v.prove((a == b) == U.close(ma, mb, 1e-12), 'equality is equality of meaning', lambda: f'{a} vs {b}')
    v.prove(m.equality(a, b) == (a == b), 'equality()')
    p = v.choice('p', [1, 2, 3, -1, -2, 0.5, 1.5, -0.5, Q(1, 2), 4])
    if ma[0] > 0 or float(p).is_integer():
        for label, r in (('power', lambda: a ** p), ('power()', lambda: m.power(str(a), p))):
            x = v.call(r, f'{label} is defined')
            v.prove(U.close(U.meaning(x), U.power(ma, Q(p))), f'{label} has the right meaning', lambda: f'({a})^{p} -> {x}')
    v.prove((str(a), str(b), hash(a)) == before, 'operands unchanged')
    # sequence view
    v.prove(len(a) == len(list(a)) and [a[i] for i in range(len(a))] == list(a), 'indexing matches iteration')
    v.prove(a[-1] == list(a)[-1], 'negative index')
    c = m.Expression(a)
    v.prove(c == a, 'an expression of an expression is that expression')


@unit('C01', 'reduce_many', ['core.symbolic.reduce'], kind='bounded', bound='up to 12 terms in up to 4 groups, 4 symbols', samples=300)
def reduce_many(v):
    m = v.mod('core.symbolic')
    groups, flat = [], []
    for g in range(v.int('g', 1, 4)):
        ts = []
        for i in range(v.int('n', 1, 3)):
            base = v.choice('b', ['1', 'a', 'b', 'c', 'zz'])
            c = Q(v.int('c', -6, 6) or 1, v.int('d', 1, 4))
            e = Q(v.int('e', -3, 3) or 1, v.int('f', 1, 2)) if base != '1' else Q(1)
            ts.append(m.Term(c, base, e))
        groups.append(ts)
        flat.extend(ts)
    r = v.call(lambda: m.reduce(*groups))
    v.prove(U.close(U.meaning(r), U.meaning(flat)), 'reduce keeps the meaning', lambda: f'{flat} -> {r}')
    spec_canonical(v, r, 'reduce')
    o = list(flat)
    v.rng.shuffle(o)
    v.prove([t.attrs for t in m.reduce(o)] == [t.attrs for t in r], 'reduced form does not depend on order or grouping')


@unit('C01', 'spellings', ['core.symbolic.Expression.__hash__', 'core.symbolic.Term.__hash__', 'core.symbolic.Expression.__eq__', 'core.symbolic.Operand.__eq__'],
      kind='bounded', bound='up to 3 terms whose rational numbers are written as fractions or as decimals', samples=150)
def spellings(v):
    """A number written as a fraction or as the nearest decimal: equal, so equal hashes."""
    m = v.mod('core.symbolic')
    n = v.int('n', 1, 3)
    names = v.rng.sample(['a', 'b', 'c', 'zz'], n)
    exact, decimal, terms, floats = [], [], [], []
    for s in names:
        c = Q(v.int('c', 1, 9), v.choice('d', [1, 2, 3, 5, 7, 10]))
        e = Q(v.int('e', -5, 5) or 1, v.choice('f', [1, 2, 3, 7, 10]))
        exact.append(f'({c}) * {s}^{e}')
        decimal.append(f'{float(c)!r}{s}^{float(e)!r}')
        terms.append(m.Term(c, s, e))
        floats.append(m.Term(float(c), s, float(e)))
    a, b = m.Expression(exact), m.Expression(decimal)
    say = lambda: f'{exact} {decimal}: {a} {b}'
    for x, y in zip(terms, floats):
        v.prove(x == y and not x != y and hash(x) == hash(y), 'equal terms have equal hashes', lambda: f'{x!r} {y!r}')
    v.prove(len({*terms, *floats}) == n, 'equal terms are one element of a set', say)
    if n == 1:
        v.prove(a == b, 'one number written in two ways', say)
    if a == b:
        v.prove(hash(a) == hash(b) and len({a, b}) == 1 and {a: 1}[b] == 1, 'equal expressions have equal hashes', say)
        v.prove(not a.difference(b, symmetric=True), 'equal expressions have no difference', say)
