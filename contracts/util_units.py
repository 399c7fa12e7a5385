"""An independent table of units: what C03 and C04 compare goats with.

Each unit has a magnitude in SI with its SI dimension (L M T I H N J) and,
where it has one, a magnitude in Gaussian cgs with its Gaussian dimension
(L M T, half-integer exponents, + H N J).  Nothing here is read from goats.
"""
import fractions
import math

Q = fractions.Fraction
H = Q(1, 2)
c = 2.99792458e10
pi = math.pi
Z = (0,) * 7


def d(L=0, M=0, T=0, I=0, H=0, N=0, J=0):
    return tuple(Q(x) for x in (L, M, T, I, H, N, J))


# symbol: (name, SI magnitude, SI dimension, Gaussian magnitude, Gaussian dimension)
U = {
    'm': ('meter', 1, d(L=1), 1e2, d(L=1)),
    'au': ('astronomical unit', 1.495978707e11, d(L=1), 1.495978707e13, d(L=1)),
    'g': ('gram', 1e-3, d(M=1), 1, d(M=1)),
    'nuc': ('nucleon', 1.6605e-27, d(M=1), 1.6605e-24, d(M=1)),
    'amu': ('atomic mass unit', 1.6605e-27, d(M=1), 1.6605e-24, d(M=1)),
    's': ('second', 1, d(T=1), 1, d(T=1)),
    'min': ('minute', 60, d(T=1), 60, d(T=1)),
    'h': ('hour', 3600, d(T=1), 3600, d(T=1)),
    'd': ('day', 86400, d(T=1), 86400, d(T=1)),
    'A': ('ampere', 1, d(I=1), c / 10, d(L=3 * H, M=H, T=-2)),
    'K': ('kelvin', 1, d(H=1), 1, d(H=1)),
    'mol': ('mole', 1, d(N=1), 1, d(N=1)),
    '#': ('count', 1, d(), 1, d()),
    'cd': ('candela', 1, d(J=1), 1, d(J=1)),
    'rad': ('radian', 1, d(), 1, d()),
    'deg': ('degree', pi / 180, d(), pi / 180, d()),
    'sr': ('steradian', 1, d(), 1, d()),
    'Hz': ('hertz', 1, d(T=-1), 1, d(T=-1)),
    'J': ('joule', 1, d(L=2, M=1, T=-2), 1e7, d(L=2, M=1, T=-2)),
    'erg': ('erg', 1e-7, d(L=2, M=1, T=-2), 1, d(L=2, M=1, T=-2)),
    'eV': ('electronvolt', 1.6022e-19, d(L=2, M=1, T=-2), 1.6022e-12, d(L=2, M=1, T=-2)),
    'N': ('newton', 1, d(L=1, M=1, T=-2), 1e5, d(L=1, M=1, T=-2)),
    'dyn': ('dyne', 1e-5, d(L=1, M=1, T=-2), 1, d(L=1, M=1, T=-2)),
    'Pa': ('pascal', 1, d(L=-1, M=1, T=-2), 10, d(L=-1, M=1, T=-2)),
    'W': ('watt', 1, d(L=2, M=1, T=-3), 1e7, d(L=2, M=1, T=-3)),
    'C': ('coulomb', 1, d(T=1, I=1), c / 10, d(L=3 * H, M=H, T=-1)),
    'statC': ('statcoulomb', 10 / c, d(T=1, I=1), 1, d(L=3 * H, M=H, T=-1)),
    'statA': ('statampere', 10 / c, d(I=1), 1, d(L=3 * H, M=H, T=-2)),
    'statV': ('statvolt', c / 1e8, d(L=2, M=1, T=-3, I=-1), 1, d(L=H, M=H, T=-1)),
    'e': ('fundamental charge', 1.6022e-19, d(T=1, I=1), 1.6022e-19 * c / 10, d(L=3 * H, M=H, T=-1)),
    'V': ('volt', 1, d(L=2, M=1, T=-3, I=-1), 1e8 / c, d(L=H, M=H, T=-1)),
    'ohm': ('ohm', 1, d(L=2, M=1, T=-3, I=-2), 1e9 / c ** 2, d(L=-1, T=1)),
    'S': ('seimens', 1, d(L=-2, M=-1, T=3, I=2), c ** 2 * 1e-9, d(L=1, T=-1)),
    'F': ('farad', 1, d(L=-2, M=-1, T=4, I=2), c ** 2 * 1e-9, d(L=1)),
    'Wb': ('weber', 1, d(L=2, M=1, T=-2, I=-1), 1e8, d(L=3 * H, M=H, T=-1)),
    'Mx': ('maxwell', 1e-8, d(L=2, M=1, T=-2, I=-1), 1, d(L=3 * H, M=H, T=-1)),
    'Oe': ('Oersted', 1e3 / (4 * pi), d(L=-1, I=1), 1, d(L=-H, M=H, T=-1)),
    'H': ('henry', 1, d(L=2, M=1, T=-2, I=-2), 1e9 / c ** 2, d(L=-1, T=2)),
    'T': ('tesla', 1, d(M=1, T=-2, I=-1), 1e4, d(L=-H, M=H, T=-1)),
    'G': ('gauss', 1e-4, d(M=1, T=-2, I=-1), 1, d(L=-H, M=H, T=-1)),
    'lm': ('lumen', 1, d(J=1), 1, d(J=1)),
    'lx': ('lux', 1, d(L=-2, J=1), 1e-4, d(L=-2, J=1)),
    'Bq': ('becquerel', 1, d(T=-1), 1, d(T=-1)),
    'Ci': ('Curie', 3.7e10, d(T=-1), 3.7e10, d(T=-1)),
    'Gy': ('gray', 1, d(L=2, T=-2), 1e4, d(L=2, T=-2)),
    'P': ('poise', 0.1, d(L=-1, M=1, T=-1), 1, d(L=-1, M=1, T=-1)),
    '1': ('unitless', 1, d(), 1, d()),
}

PREFIXES = {
    'Y': ('yotta', 24), 'Z': ('zetta', 21), 'E': ('exa', 18), 'P': ('peta', 15), 'T': ('tera', 12), 'G': ('giga', 9),
    'M': ('mega', 6), 'k': ('kilo', 3), 'h': ('hecto', 2), 'da': ('deca', 1), '': ('', 0), 'd': ('deci', -1),
    'c': ('centi', -2), 'm': ('milli', -3), '\u03bc': ('micro', -6), 'n': ('nano', -9), 'p': ('pico', -12),
    'f': ('femto', -15), 'a': ('atto', -18), 'z': ('zepto', -21), 'y': ('yocto', -24),
}


def factor(p):
    return float(f'1e{PREFIXES[p][1]}')


# Conversions that cross the two systems and are not a ratio of the above
# (the quantity is rationalized or pure number in Gaussian units).
SPECIAL = {
    ('H / m', '1'): 1e7 / (4 * pi),
    ('F / m', '1'): 36 * pi * 1e9,
    ('A / Wb', '1 / cm'): 4 * pi * 1e-9,
    ('A / m', 'Oe'): 4 * pi * 1e-3,
}

# Families of named units between which a conversion must exist, prefixed or not.
FAMILIES = [
    ('m', 'au'), ('g', 'nuc'), ('g', 'amu'), ('s', 'min', 'h', 'd'), ('J', 'erg', 'eV'), ('N', 'dyn'),
    ('C', 'statC', 'e'), ('A', 'statA'), ('V', 'statV'), ('T', 'G'), ('Wb', 'Mx'), ('rad', 'deg'), ('Bq', 'Ci'),
]

# Every conversion documented by the package, with its physical value.
DEFINED = {
    ('F', 'cm'): c ** 2 * 1e-9, ('C', 'statC'): c / 10, ('e', 'C'): 1.6022e-19, ('S', 'cm / s'): c ** 2 * 1e-9,
    ('A', 'statA'): c / 10, ('Gy', 'erg / g'): 1e4, ('J', 'erg'): 1e7, ('eV', 'J'): 1.6022e-19, ('N', 'dyn'): 1e5,
    ('ohm', 's / cm'): 1e9 / c ** 2, ('H', 's^2 / cm'): 1e9 / c ** 2, ('au', 'm'): 1.495978707e11,
    ('Wb', 'Mx'): 1e8, ('T', 'G'): 1e4, ('A / m', 'Oe'): 4 * pi * 1e-3, ('nuc', 'kg'): 1.6605e-27,
    ('amu', 'kg'): 1.6605e-27, ('H / m', '1'): 1e7 / (4 * pi), ('F / m', '1'): 36 * pi * 1e9,
    ('rad', 'deg'): 180 / pi, ('V', 'statV'): 1e8 / c, ('W', 'erg / s'): 1e7, ('Pa', 'dyn / cm^2'): 10,
    ('Bq', 'Ci'): 1 / 3.7e10, ('A / Wb', '1 / cm'): 4 * pi * 1e-9, ('s', 'min'): 1 / 60, ('s', 'h'): 1 / 3600,
    ('s', 'd'): 1 / 86400, ('Wb / m', 'G * cm'): 1e6, ('kg / (m * s)', 'P'): 10,
    ('kg / m^3', 'g / cm^3'): 1e-3, ('m / s', 'cm / s'): 1e2, ('km / s', 'm / s'): 1e3, ('J / m^3', 'erg / cm^3'): 10,
    ('A / m^2', 'statA / cm^2'): c / 1e5, ('C / m^3', 'statC / cm^3'): c / 1e7, ('V / m', 'statV / cm'): 1e6 / c,
    ('J / (kg K)', 'erg / (g K)'): 1e4, ('W / m^2', 'erg / (cm^2 s)'): 1e3, ('N / m^3', 'dyn / cm^3'): 0.1,
    ('m^-3', 'cm^-3'): 1e-6, ('kg m / s', 'g cm / s'): 1e5,
    ('J / kg', 'erg / g'): 1e4, ('rad / s', 'deg / s'): 180 / pi, ('W / (m^2 sr)', 'erg / (cm^2 sr s)'): 1e3,
}


def named(p, u):
    """(spellings, SI magnitude, SI dim, cgs magnitude, cgs dim) of a prefixed unit."""
    name, f, dm, g, gd = U[u]
    s = factor(p)
    return [p + u], s * f, dm, s * g, gd


def ambiguous():
    """Prefixed symbols that are another unit's symbol, or have two readings."""
    seen, bad = {}, set()
    for u in U:
        for p in PREFIXES:
            s = p + u
            if s in seen and seen[s] != (p, u):
                bad.add(s)
            seen.setdefault(s, (p, u))
    return bad


AMBIGUOUS = ambiguous()


def spell(v, p, u, names=True, plain=False):
    """One of the spellings of a prefixed unit, as usable in an expression."""
    out = [p + u] if p + u not in AMBIGUOUS or not p else []
    if p == '\u03bc':
        out += ['u' + u]
    full = PREFIXES[p][0] + U[u][0]
    if names and ' ' not in full:
        out.append(full)
    if u == 'ohm' and p:
        out = [full]
    return v.choice('sp', out) if out else None


def expression(parts):
    """Magnitudes and dimensions of a compound [(p, u, exponent)]."""
    f = g = 1.0
    sd, gd = list(Z), list(Z)
    for p, u, e in parts:
        _, a, da, b, db = named(p, u)
        f *= a ** float(e)
        g *= b ** float(e)
        for i in range(7):
            sd[i] += da[i] * e
            gd[i] += db[i] * e
    return f, tuple(sd), g, tuple(gd)


def accepted(a, b):
    """The physically right factors between two compounds.

    A nucleon is a mass and, as 'mass number', also a pure count."""
    out = []
    for count in (False, True):
        if count and not any(u in ('nuc', 'amu') for _, u, _ in list(a) + list(b)):
            break
        x, y = (expression([(p, '#' if count and u in ('nuc', 'amu') else u, e) for p, u, e in s]) for s in (a, b))
        if x[1] == y[1]:
            out.append(x[0] / y[0])
        if x[3] == y[3]:
            out.append(x[2] / y[2])
    return out


def close(x, y, rel=1e-9):
    return abs(x - y) <= rel * max(abs(x), abs(y))
