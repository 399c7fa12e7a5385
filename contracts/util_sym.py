"""Independent meaning of symbolic expressions, used by C01 and C02.

A meaning is (coefficient, {symbol: exponent != 0}).
"""
import fractions

Q = fractions.Fraction


def mul(a, b):
    e = dict(a[1])
    for k, x in b[1].items():
        e[k] = e.get(k, 0) + x
    return a[0] * b[0], {k: x for k, x in e.items() if x != 0}


def power(a, p):
    c = a[0]
    c = c ** int(p) if Q(p).denominator == 1 else float(c) ** float(p)
    return c, {k: x * Q(p) for k, x in a[1].items() if x * p != 0}


def inv(a):
    return power(a, -1)


def meaning(terms):
    """The meaning of an iterable of terms, read through their attributes."""
    out = (1, {})
    for t in terms:
        e = Q(t.exponent).limit_denominator(10 ** 6)
        if t.base == '1':
            out = mul(out, (t.coefficient, {}))
        else:
            out = mul(out, (t.coefficient, {str(t.base): e}))
    return out


def close(a, b, rel=1e-9):
    x, y = float(a[0]), float(b[0])
    if abs(x - y) > rel * max(abs(x), abs(y)):
        return False
    if set(a[1]) != set(b[1]):
        return False
    return all(abs(float(a[1][k]) - float(b[1][k])) <= 1e-9 * max(1, abs(float(b[1][k]))) for k in a[1])


SYMBOLS = ['a', 'b', 'c', 'x', 'V', 'foo', 'm_p', 'kg', 'Bz', 'n0', 'T2', '#', '_q', 'sq', 'y12', 'Sqrt', 'SQ']


def rnd_coefficient(v, simple=False):
    """(text, value) of an unsigned or signed rational coefficient."""
    kind = v.choice('cf', ['none', 'int', 'int', 'frac', 'dec', 'dot', 'sci', 'neg', 'plus', 'negsci', 'lead', 'negfrac'])
    n = v.int('cn', 1, 99)
    d = v.int('cd', 1, 99)
    text = {'none': '', 'int': f'{n}', 'frac': f'{n}/{d}', 'dec': f'{n}.{d}', 'dot': f'{n}.',
            'sci': f'{n}e{d % 5}', 'neg': f'-{n}', 'plus': f'+{n}', 'negsci': f'-{n}.{d}e-{d % 4}',
            'lead': f'.{n}', 'negfrac': f'-{n}/{d}'}[kind]
    return text, Q(text) if text else Q(1)


def rnd_exponent(v):
    kind = v.choice('ef', ['none', 'none', 'int', 'neg', 'frac', 'negfrac', 'dec', 'big', 'plus'])
    n = v.int('en', 1, 4)
    d = v.int('ed', 2, 15)
    text = {'none': '', 'int': f'{n}', 'neg': f'-{n}', 'frac': f'{n}/{d}', 'negfrac': f'-{n}/{d}',
            'dec': f'{n}.5', 'big': f'{n}{d}', 'plus': f'+{n}'}[kind]
    return text, Q(text) if text else Q(1)
