"""C02: expression strings are read by one grammar and round-trip."""
import fractions
import math

from pv.api import unit
from . import util_sym as U

Q = fractions.Fraction

DEFAULT = dict(multiply='*', divide='/', opening='(', closing=')', raising='^')
TOKENS = [DEFAULT,
          dict(multiply=';', divide='|', opening='[', closing=']', raising='~'),
          dict(multiply='@', divide='\\', opening='<', closing='>', raising='!'),
          dict(multiply='&', divide='%', opening='{', closing='}', raising='$')]


def gen(v, depth, tok):
    """A random well-formed string and its meaning."""
    n = v.int('nf', 1, 3 if depth else 4)
    out, mean = '', (Q(1), {})
    first = True
    for i in range(n):
        text, m = factor(v, depth, tok)
        if first:
            sep, div = '', False
        else:
            k = v.choice('op', ['mul', 'mul', 'div', 'space', 'tight', 'divtight'])
            mu, di = tok['multiply'], tok['divide']
            sep, div = {'mul': (f' {mu} ', False), 'div': (f' {di} ', True), 'space': (' ', False),
                        'tight': (mu, False), 'divtight': (f'{di} ', True)}[k]
            if k == 'tight' and text[:1] in '+-.' and tok['multiply'] == '.':
                sep = f' {mu} '
            if k == 'space' and text[:1] in '+-':
                sep = f' {mu} '
        root = not first and False
        if v.int('rt', 0, 9) == 0 and text[:1] not in '+-' and not negative(text, tok):
            inner = f'{tok["opening"]}{text}{tok["closing"]}'
            text, m = f'sqrt{inner}', U.power(m, Q(1, 2))
            if sep == ' ':
                sep = f' {tok["multiply"]} '
        out += sep + text
        mean = U.mul(mean, U.inv(m) if div else m)
        first = False
    return out, mean


def factor(v, depth, tok):
    op, cl, ra = tok['opening'], tok['closing'], tok['raising']
    kind = v.choice('k', ['var', 'var', 'const', 'group', 'group', 'cgroup'])
    if kind == 'const':
        ct, c = U.rnd_coefficient(v)
        if not ct:
            ct, c = '7', Q(7)
        e = v.choice('ce', [None, None, 2, -1, 3])
        if e is None:
            return ct, (c, {})
        return f'{ct}{ra}{e}', (c ** e, {})
    et, e = U.rnd_exponent(v)
    tail = f'{ra}{et}' if et else ''
    if kind == 'var' or depth <= 0:
        ct, c = U.rnd_coefficient(v)
        s = v.atom('s', U.SYMBOLS)
        return f'{ct}{s}{tail}', (c, {s: e})
    inner, m = gen(v, depth - 1, tok)
    if e.denominator != 1 and negative(inner, tok):
        et, e, tail = '', Q(1), ''
    if abs(e) > 6:
        et, e, tail = '2', Q(2), f'{ra}2'
    if kind == 'cgroup':
        k = v.int('gk', 2, 9)
        return f'{k}{op}{inner}{cl}{tail}', U.mul((Q(k), {}), U.power(m, e))
    return f'{op}{inner}{cl}{tail}', U.power(m, e)


def negative(text, tok):
    """Does some factor have a negative coefficient (so no real root)?"""
    return any(c == '-' and text[i - 1:i] not in (tok['raising'], 'e', 'E') for i, c in enumerate(text))


def ok(a, b):
    # huge or tiny scales are compared relatively
    try:
        return U.close(a, b, 1e-7)
    except OverflowError:
        return True


@unit('C02', 'grammar', ['core.symbolic.Parser', 'core.symbolic.OperandFactory', 'core.symbolic.OperatorFactory'],
      kind='bounded', bound='random strings: nesting depth <= 3, up to 4 factors per level', samples=900, weight=3)
def grammar(v):
    m = v.mod('core.symbolic')
    tok = v.choice('tok', [DEFAULT, DEFAULT, DEFAULT] + TOKENS[1:])
    text, mean = gen(v, v.int('depth', 0, 3), tok)
    kw = {} if tok is DEFAULT else tok
    x = v.call(lambda: m.Expression(text, **kw), f'well-formed strings are accepted ({text!r})')
    got = U.meaning(x)
    v.prove(ok(got, mean), 'the string means what the grammar says', lambda: f'{text!r} -> {x}, expected {mean}')
    s = str(x)
    y = v.call(lambda: m.Expression(s), f'formatted expressions can be read back ({s!r})')
    v.prove(y == x and U.close(U.meaning(y), got), 'format and read back', lambda: f'{text!r} -> {s!r} -> {y}')
    pad = v.choice('pad', ['', ' '])
    z = v.call(lambda: m.Expression(f'{tok["opening"]}{pad}{text}{pad}{tok["closing"]}', **kw), 'grouping is accepted')
    v.prove(z == x, 'outer parentheses change nothing', lambda: f'{text!r}: {z} vs {x}')


@unit('C02', 'formats', ['core.symbolic.Term.format', 'core.symbolic.Expression.format'], kind='bounded',
      bound='random expressions of up to 4 factors', samples=200)
def formats(v):
    m = v.mod('core.symbolic')
    text, mean = gen(v, 1, DEFAULT)
    x = m.Expression(text)
    for sep in (' ', ' * ', '*'):
        s = x.format(separator=sep)
        v.prove(len(s.split(sep)) == len(x), 'one factor per term')
        y = v.call(lambda: m.Expression(s), f'formatted expressions can be read back ({s!r})')
        v.prove(y == x, 'format with any separator and read back', lambda: f'{x} -> {s!r} -> {y}')
    tex = x.format(style='tex')
    v.prove(tex.replace('^{', '^').replace('}', '') == str(x), 'TeX style differs by braces only', lambda: tex)
    v.prove(all(f.count('^{') == f.count('}') == f.count('^') for f in tex.split(' ')), 'TeX exponents are in braces', lambda: tex)
    for t in x:
        s = str(t)
        r = v.call(lambda: m.OperandFactory().create(s) if t.base != '1' or t.coefficient > 0 else t, 'a formatted term is an operand')
        v.prove(U.close(U.meaning(m.Expression(s)), U.meaning([t])), 'a formatted term reads back')
        if t.base != '1' and t.coefficient == 1:
            v.prove(t == s, 'a term equals its text', lambda: s)


BAD = ['a-2', 'a+2', '1+2', '1 -2', 'a -2', 'cm s-1', '(1+2)*a', 'a/1-2', 'a^2+3', 'a^2-3b', 'a * b-2', '2-a', '2 + a', 'a^', '^a', 'a^b', 'a*', 'a /', 'a * * b', 'a / / b', 'a */ b', 'a * / b', '(a', 'a)', '((a)', '(a))', 'a$b', 'a,b', 'a^-',
       '-a', 'a + b', 'a - b', '(a * b', 'a * b)', 'a=b', '2(a', ')a(', 'a^^2', 'a!', 'a * (b * c', '(a*)', '(*', 'a * ()*', 'a;b',
       '(a b))', 'a^2^3', 'a^2/', 'a ? b', "a'", 'a%', '{a}', '[a]', 'a**2', '2**3', '(a)**2', 'a^*2', 'a^/2']


@unit('C02', 'malformed', ['core.symbolic.Parser'], kind='finite')
def malformed(v):
    m = v.mod('core.symbolic')
    for s in BAD:
        v.raises(Exception, lambda: m.Expression(s), f'{s!r} is rejected')


@unit('C02', 'unbalanced', ['core.symbolic.OperandFactory.find_bounds', 'core.symbolic.Parser'], kind='bounded',
      bound='random well-formed strings with one parenthesis or operand removed', samples=250)
def unbalanced(v):
    m = v.mod('core.symbolic')
    text, mean = gen(v, 2, DEFAULT)
    at = [i for i, c in enumerate(text) if c in '()']
    v.assume(at)
    i = v.choice('i', at)
    bad = text[:i] + text[i + 1:]
    v.raises(Exception, lambda: m.Expression(bad), f'unbalanced parentheses are rejected ({bad!r})')
    junk = v.choice('junk', ['$', '=', ';', '?', '~', '"', '|', ',', '%', '@', '!'])
    j = v.int('j', 0, len(text))
    bad = text[:j] + junk + text[j:]
    v.raises(Exception, lambda: m.Expression(bad), f'foreign characters are rejected ({bad!r})')


@unit('C02', 'order', ['core.symbolic.Parser._operator_error'], kind='bounded', bound='up to 6 factors on one level, two levels', samples=200)
def order(v):
    """operator_order='error': '/' then '/' or '*' on one level is ambiguous."""
    m = v.mod('core.symbolic')
    n = v.int('n', 2, 6)
    text, ops = 'a', []
    for i in range(n - 1):
        o = v.choice('o', ['*', '/'])
        ops.append(o)
        text += f' {o} ' + v.choice('f', ['b', 'c^2', '(d * e1)', '(d / e1)', '3f'])
    expect = None
    for p, q in zip(ops, ops[1:]):
        if p == '/':
            expect = m.RatioError if q == '/' else m.ProductError
            break
    nest = v.bool('nest')
    s = f'x * ({text})' if nest else text
    v.call(lambda: m.Expression(s), 'the default order accepts it')
    if expect is None:
        r = v.call(lambda: m.Expression(s, operator_order='error'), 'unambiguous strings are accepted')
        v.prove(r == m.Expression(s), 'the option does not change the meaning')
    else:
        v.raises(expect, lambda: m.Expression(s, operator_order='error'), f'ambiguous order is an error ({s!r})')


@unit('C02', 'bounds', ['core.symbolic.OperandFactory.find_bounds'], kind='bounded', bound='random strings of up to 14 characters', samples=600)
def bounds(v):
    m = v.mod('core.symbolic')
    s = ''.join(v.choice('ch', list('(()))ab*')) for _ in range(v.int('len', 0, 14)))
    got = v.call(lambda: m.OperandFactory().find_bounds(s))
    # specification: from the first '(' to its matching ')'
    i0 = s.find('(')
    want = None
    # a ')' that precedes the first '(' shifts nothing: count starts at it
    if i0 >= 0:
        depth = 0
        pre = s[:i0].count(')')
        for j in range(i0, len(s)):
            depth += (s[j] == '(') - (s[j] == ')')
            if depth == 0:
                want = (i0, j + 1)
                break
        if pre:
            return     # unspecified: an unopened group
    v.prove(got == want, 'bounds of the first group', lambda: f'{s!r}: {got} vs {want}')


@unit('C02', 'create', ['core.symbolic.OperandFactory.create', 'core.symbolic.OperandFactory.normalize', 'core.symbolic.OperandFactory.standardize'],
      kind='bounded', bound='random operands', samples=400)
def create(v):
    m = v.mod('core.symbolic')
    f = m.OperandFactory()
    ct, c = U.rnd_coefficient(v)
    et, e = U.rnd_exponent(v)
    s = v.atom('s', U.SYMBOLS)
    text = f'{ct}{s}' + (f'^{et}' if et else '')
    mean = (c, {s: e})
    x = v.call(lambda: f.create(text))
    v.prove(isinstance(x, m.Term) and ok(U.meaning([x]), mean), 'a simple operand is a term', lambda: f'{text!r} -> {x.attrs}')
    v.prove(x.base == s and x.exponent == e and x.coefficient == c, 'coefficient, base and exponent are those written',
            lambda: f'{text!r} -> {x.attrs}')
    k = v.int('k', 1, 9)
    p = v.choice('p', [1, 2, 3, -1, -2])
    for args, spec in ((([k, text]), U.mul((k, {}), mean)), (([text, p]), U.power(mean, p)),
                       (([k, text, p]), U.mul((k, {}), U.power(mean, p))), (([k, text, str(p)]), U.mul((k, {}), U.power(mean, p))),
                       (([text, f'^{p}']), U.power(mean, p))):
        y = v.call(lambda: f.create(*args), 'accepted argument forms')
        v.prove(ok(U.meaning([y]), spec), 'outer coefficient and exponent apply to the operand', lambda: f'{args} -> {y.attrs}')
    y = v.call(lambda: f.create(k))
    v.prove(U.close(U.meaning([y]), (k, {})), 'a number is a constant')
    y = v.call(lambda: f.create(k, p))
    v.prove(U.close(U.meaning([y]), (Q(k) ** p, {})) or y.attrs == (k, '1', p), 'a number and an exponent', lambda: f'{y.attrs}')
    # groups
    inner, m2 = gen(v, 1, DEFAULT)
    y = v.call(lambda: f.create(f'{k}({inner})^{p}'))
    got = U.meaning(m.Expression(str(y))) if not isinstance(y, m.Term) else U.meaning([y])
    v.prove(ok(got, U.mul((k, {}), U.power(m2, p))), 'a group keeps its coefficient and exponent', lambda: f'{k}({inner})^{p} -> {y.attrs}')
    v.prove(f.create('a * b', strict=True) is None, 'strict: not an operand')
    v.raises(m.OperandTypeError, lambda: f.create([1, 2]), 'argument types are checked')
    v.raises(m.OperandValueError, lambda: f.create(1, 'a', 2, 3), 'argument count is checked')


@unit('C02', 'parse_prefix', ['core.symbolic.OperandFactory.parse', 'core.symbolic.OperatorFactory.parse'], kind='bounded',
      bound='random strings of up to 4 factors', samples=300)
def parse_prefix(v):
    """parse() consumes exactly the leading operand and returns the rest."""
    m = v.mod('core.symbolic')
    f, g = m.OperandFactory(), m.OperatorFactory()
    ct, c = U.rnd_coefficient(v)
    et, e = U.rnd_exponent(v)
    s = v.atom('s', U.SYMBOLS)
    head = f'{ct}{s}' + (f'^{et}' if et else '')
    rest = v.choice('rest', ['', ' * b', ' / (c d)', '*x^2', ' y'])
    r = v.call(lambda: f.parse(head + rest))
    v.prove(r is not None and ok(U.meaning([r.result]), (c, {s: e})), 'leading operand')
    v.prove(r.remainder == rest, 'the remainder is the unparsed rest', lambda: f'{head + rest!r} -> {r.remainder!r}')
    o = v.choice('o', [' * ', '*', ' / ', '/', '/ '])
    r = v.call(lambda: g.parse(o + head))
    v.prove(r.result == ('multiply' if '*' in o else 'divide') and r.remainder == head, 'leading operator')
    v.prove(g.parse(head if ct[:1] not in ('+', '-') else s) is None, 'no operator')


@unit('C02', 'term_construction', ['core.symbolic.Term.__init__', 'core.symbolic.Operand.__init__', 'core.symbolic.Operand.__eq__'],
      bound=None)
def term_construction(v):
    """The attributes of a term are exactly those given; missing ones are 1."""
    m = v.mod('core.symbolic')
    c = v.real('c', exact=True)
    e = v.real('e', exact=True)
    b = v.choice('b', ['a', 'foo', 'n0', 'x_y'])
    for t, spec in ((m.Term(c, b, e), (c, b, e)), (m.Term(b), (1, b, 1)), (m.Term(coefficient=c), (c, '1', 1)),
                    (m.Term(base=b, exponent=e), (1, b, e)), (m.Term(), (1, '1', 1)),
                    (m.Term(coefficient=c, base=b), (c, b, 1)), (m.Operand(c, b, e), (c, b, e)),
                    (m.Operand(), (1, '1', 1)), (m.Operand(c), (c, '1', 1))):
        v.eq(t.coefficient, spec[0], 'coefficient as given')
        v.prove(t.base == spec[1], 'base as given')
        v.eq(t.exponent, spec[2], 'exponent as given')
    d = v.real('d', exact=True)
    x, y = m.Term(c, b, e), m.Term(d, b, e)
    v.prove(v.same(bool(x == y), bool(c == d)), 'terms are equal exactly when their attributes are')
    v.prove(not x == m.Term(c, 'other', e), 'terms with different bases differ')
    v.raises(TypeError, lambda: m.Term(c, b), 'two positional arguments are ambiguous')
    for bad in ('a b', 'a^2', '2a', '', 'a*b', '(a)', '-a', 'a2b'):
        v.raises(ValueError, lambda: m.Term(bad), 'compound bases are refused')


@unit('C02', 'standard', ['core.symbolic.standard', 'core.symbolic.composition'], kind='bounded', bound='random inputs', samples=80)
def standard(v):
    m = v.mod('core.symbolic')
    parts = [gen(v, 1, DEFAULT) for _ in range(v.int('n', 1, 4))]
    x = v.call(lambda: m.Expression([p[0] for p in parts]))
    want = (Q(1), {})
    for p in parts:
        want = U.mul(want, p[1])
    v.prove(ok(U.meaning(x), want), 'an iterable is the product of its members', lambda: f'{parts} -> {x}')
    y = m.Expression(tuple(m.Expression(p[0]) for p in parts))
    v.prove(ok(U.meaning(y), want), 'members may be expressions', lambda: f'{parts} -> {y}')
    z = v.call(lambda: m.Expression(['a / b', *(f'{i}c / d^{i}' for i in range(2, 2 + len(parts)))], operator_order='error'), 'members are groups of their own')
    v.prove(ok(U.meaning(z), U.mul((Q(1), {'a': Q(1), 'b': Q(-1)}), (Q(math.prod(range(2, 2 + len(parts)))), {'c': Q(len(parts)), 'd': -Q(sum(range(2, 2 + len(parts))))}))), 'members are groups of their own', lambda: f'{z}')
    for empty in ('', None, [], ()):
        v.prove(m.Expression(empty) == '1', 'null input is unity')
    k = v.int('k', -9, 9)
    v.prove(U.close(U.meaning(m.Expression(k)), (k, {})), 'a number is a constant')
    v.prove(m.composition(parts[0][0]) == ('*' in parts[0][0] or '/' in parts[0][0]), 'composition')
    v.raises(TypeError, lambda: m.Expression(x, multiply=';'), 'parsing options of an existing expression are fixed')
