"""C04: units form a dimensional algebra independent of history."""
import fractions
import itertools

from pv.api import unit
from . import util_units as T
from .c03_conversion import compound, write, read

Q = fractions.Fraction
BASES = 'LMTIHNJ'
MKS = {'A', 'J', 'N', 'Pa', 'W', 'C', 'V', 'ohm', 'S', 'F', 'Wb', 'H', 'T', 'Bq', 'Gy'}
CGS = {'erg', 'dyn', 'statC', 'statA', 'statV', 'Mx', 'Oe', 'G', 'Ci', 'P'}
COUNTS = {'nuc', 'amu'}
UNITS = [u for u in T.U if u not in ('1', '#', 'ohm')]


def systems(u):
    return {'mks'} if u in MKS else {'cgs'} if u in CGS else {'mks', 'cgs'}


def dim(u, system):
    if u in COUNTS:
        return T.Z
    return T.U[u][2] if system == 'mks' else T.U[u][4]


def dims_of(parts, system):
    """Dimension of a compound in a system, None if no unit is used there."""
    out, seen = list(T.Z), set()
    for p, u, e in parts:
        s = systems(u)
        seen |= s
        d = dim(u, system if len(s) > 1 else next(iter(s)))
        out = [a + b * e for a, b in zip(out, d)]
    return tuple(out) if system in seen else None


def vec(expression):
    """The exponents of the base dimensions in an expression."""
    out = dict.fromkeys(BASES, Q(0))
    for t in expression:
        if t.base == '1':
            assert float(t.coefficient) == 1, expression
            continue
        out[str(t.base)] += Q(t.exponent).limit_denominator(1000)
    return tuple(out[b] for b in BASES)


def magnitudes(parts):
    f, sd, g, gd = T.expression(parts)
    return (f, sd), (g, gd)


def same(a, b):
    """Two compounds denote the same unit, in SI or in Gaussian cgs."""
    return any(x[1] == y[1] and T.close(x[0], y[0]) for x, y in zip(magnitudes(a), magnitudes(b))) or \
        any(T.close(x, 1) for x in T.accepted(a, b))


@unit('C04', 'named', ['core.metric.identify', 'core.metric.NamedUnit', 'core.metric._NamedUnitMeta.__call__', 'core.metric.build_unit_aliases', 'core.metric.named_units'],
      kind='finite')
def named(v):
    """Every spelling of every prefixed unit reaches that unit, and only it."""
    m = v.mod('core.metric')
    todo = []
    for p, (pn, k) in T.PREFIXES.items():
        for u, (name, *_) in T.U.items():
            sp = [pn + name]
            if p + u not in T.AMBIGUOUS or not p:
                sp.append(p + ('\u03a9' if u == 'ohm' else u))
            if p == '\u03bc':
                sp.append('u' + ('\u03a9' if u == 'ohm' else u))
            todo.append((p, pn, k, u, name, sp))
    v.rng.shuffle(todo)
    for p, pn, k, u, name, sp in todo:
        v.rng.shuffle(sp)
        made = [v.call(lambda: m.NamedUnit(s), f'{s} is a unit') for s in sp]
        for s, x in zip(sp, made):
            v.prove(x is made[0], 'all spellings give one unit', lambda: f'{sp}')
            v.prove(x.scale == float(f'1e{k}') and x.prefix.factor == float(f'1e{k}'), 'scale of the prefix', lambda: f'{s}: {x.scale}')
            v.prove(x.name == pn + name and x.base.name == name and x.prefix.name == pn, 'name of the unit', lambda: f'{s}: {x.name}')
            v.prove(x.base.symbol == ('\u03a9' if u == 'ohm' else u), 'base unit', lambda: f'{s}: {x.base}')
            v.prove(x.symbol == p + x.base.symbol or p + u in T.AMBIGUOUS, 'symbol of the unit', lambda: f'{s}: {x.symbol}')
            v.prove(m.NamedUnit(x) is x and x == s, 'a unit of a unit is that unit')
            pf, b = m.identify(s)
            v.prove((pf.factor, b.name) == (float(f'1e{k}'), name), 'identify')
            v.prove(set(x.systems['allowed']) == systems(u), 'systems of the unit', lambda: f'{s}: {x.systems}')
            if u != 'ohm':
                for z in systems(u):
                    v.prove(vec(x.dimensions[z]) == dim(u, z), 'dimension of the unit', lambda: f'{s} in {z}: {x.dimensions}')
            v.prove(all(x.is_allowed_in(z) == (z in systems(u)) for z in ('mks', 'cgs')), 'is_allowed_in')
    cd, cday = m.NamedUnit('cd'), m.NamedUnit('centiday')
    v.prove(cd.name == 'candela' and cday.scale == 0.01 and cd != cday, 'candela is not a centiday')
    for s in ('foo', 'kk', 'mm2', 'kilo', 'kkm', 'metre', 'M', '', 'Mohms', 'kmeter', 'kilom'):
        v.raises(m.UnitParsingError, lambda: m.NamedUnit(s), f'{s!r} is not a unit')
    units = [m.NamedUnit(s) for s in ('m', 'km', 's', 'cm', 'J', 'erg', 'kJ', 'cd', 'centiday', 'nuc', 'amu', 'e', 'min')]
    for a, b in itertools.product(units, units):
        v.prove((a == b) == (a is b), 'distinct units are unequal', lambda: f'{a} {b}')
        v.prove(a is not b or hash(a) == hash(b), 'equal units have equal hashes')


@unit('C04', 'frozen', ['core.metric.NamedUnit.norm', 'core.metric.NamedUnit.systems', 'core.metric.NamedUnit.dimensions', 'core.metric.Unit.norm'], kind='finite')
def frozen(v):
    """Shared units cannot be changed through what they return."""
    m = v.mod('core.metric')
    for u in ('km', 'J', 'erg', 'statC', 's'):
        for make in (m.NamedUnit, m.Unit):
            x = make(u)
            for attribute in ('norm', 'dimensions', 'systems'):
                if not hasattr(x, attribute):
                    continue
                d = getattr(x, attribute)
                before = {k: str(d[k]) for k in d}
                try:
                    d['mks'] = 'spoiled'
                    d['allowed'] = ()
                    d.pop('cgs', None)
                except TypeError:
                    pass
                now = getattr(make(u), attribute)
                v.prove({k: str(now[k]) for k in now} == before, 'shared units are not modified by their users', lambda: f'{u}.{attribute}')


@unit('C04', 'dimensions', ['core.metric.Dimension.fromunit', 'core.metric.Dimensions', 'core.metric.Unit.dimensions', 'core.metric.Unit.dimensionless'],
      kind='bounded', bound='random products of up to 4 unit powers', samples=700)
def dimensions(v):
    m = v.mod('core.metric')
    parts, texts = compound(v, v.int('n', 1, 4), UNITS)
    u = v.call(lambda: m.Unit(write(v, texts)))
    v.prove(m.Unit(write(v, texts[::-1])) == u, 'the same product is the same unit', lambda: f'{texts}')
    left = [(p, x, e) for p, x, e in read(u)] or [('', '1', Q(1))]
    for s in ('mks', 'cgs'):
        want = dims_of(left, s)
        got = u.dimensions[s]
        v.prove((got is None) == (want is None), 'dimension exists in the systems that use the unit', lambda: f'{u} in {s}: {got}')
        if want is not None:
            v.prove(vec(got) == want, 'dimension of a product of powers', lambda: f'{u} in {s}: {got}, expected {want}')
            v.prove(u.dimensions[s.upper()] == got, 'system names ignore case')
    if 'mks' in u.dimensions and u.dimensions['mks'] is not None:
        text = str(u.dimensions['mks'])
        both = v.call(lambda: m.Dimensions(text), 'one dimension for every metric system')
        v.prove(set(both) == set(u.dimensions) and all(both[k] == u.dimensions['mks'] for k in both), 'one dimension for every metric system', lambda: f'{text!r} {both}')
        one = v.call(lambda: m.Dimensions(text, cgs='L'), 'a dimension for one metric system')
        v.prove(vec(one['cgs']) == vec(m.Dimension('L')) and one['mks'] == u.dimensions['mks'], 'a dimension for one metric system', lambda: f'{text!r} {one}')
        only = v.call(lambda: m.Dimensions(mks=text), 'a dimension in one metric system only')
        v.prove(only['mks'] == u.dimensions['mks'] and only['cgs'] is None, 'a dimension in one metric system only', lambda: f'{text!r} {only}')
    v.prove(same(parts, left), 'the unit has the given magnitude', lambda: f'{texts} -> {u}')
    v.prove(u.dimensionless == all(dims_of(left, s) == T.Z for s in ('mks', 'cgs')), 'dimensionless', lambda: f'{u}')


@unit('C04', 'algebra', ['core.metric.Unit.__mul__', 'core.metric.Unit.__truediv__', 'core.metric.Unit.__pow__', 'core.metric.Unit._apply', 'core.metric.Unit.decompose', 'core.metric.NamedUnit._decompose'],
      kind='bounded', bound='random products of up to 3 unit powers per operand', samples=900, weight=2)
def algebra(v):
    m = v.mod('core.metric')
    pool = [x for x in UNITS if x not in COUNTS]
    pool = v.choice('pool', [pool, ['m', 's', 'g', 'J', 'N', 'W', 'Hz', 'K'], ['J', 'N', 'V', 'T', 'C', 'A']])
    pa, ta = compound(v, v.int('n', 1, 3), pool)
    pb, tb = compound(v, v.int('n', 1, 3), pool)
    used = {u for _, u, _ in pa + pb}
    v.assume(not (used & MKS and used & CGS))
    a, b = m.Unit(write(v, ta)), m.Unit(write(v, tb))
    k = v.choice('k', [2, 3, -1, -2, 0.5, 1, 1.5])
    neg = [(p, u, -e) for p, u, e in pb]
    for label, f, parts in (
        ('product', lambda: a * b, pa + pb), ('quotient', lambda: a / b, pa + neg), ('power', lambda: a ** k, [(p, u, e * Q(k)) for p, u, e in pa]),
        ('square', lambda: a * a, [(p, u, 2 * e) for p, u, e in pa]), ('unit * str', lambda: a * str(b), pa + pb), ('unit / str', lambda: a / str(b), pa + neg),
        ('str * unit', lambda: str(a) * b, pa + pb), ('str / unit', lambda: str(a) / b, pa + neg),
    ):
        r = v.call(f, f'{label} of units')
        v.prove(isinstance(r, m.Unit), f'{label} of units is a unit')
        got = read(r)
        v.prove(same(got, parts), f'{label} has the magnitude and dimension of the {label}', lambda: f'{a} , {b} , {k} -> {r}')
        if not ({u for _, u, _ in pa + pb} & CGS):
            want = T.expression(parts)[1]
            v.prove(T.expression(got)[1] == want, f'dimension of a {label}', lambda: f'{a} , {b} , {k} -> {r}')
    v.prove(read(a / a) == [] and a / a == '1', 'a unit divided by itself')
    v.prove((a * b) == (b * a), 'products commute')
    v.prove((a * b) / b == a, 'division undoes multiplication', lambda: f'({a})*({b})/({b}) = {(a*b)/b}')
    v.prove((a ** 2) == a * a, 'square is product', lambda: f'{a}')
    v.prove(m.Unit(str(a)) is a and m.Unit(a) is a, 'reading a unit back gives the same unit')


@unit('C04', 'equality', ['core.metric.Unit.__eq__', 'core.metric.Unit.__or__'], kind='bounded', bound='random pairs of products of up to 3 unit powers', samples=900)
def equality(v):
    m = v.mod('core.metric')
    pool = v.choice('pool', [UNITS, ['m', 's', 'g', 'J', 'N'], ['J', 'erg', 'N', 'dyn', 'm', 's'], ['A', 'C', 's', 'statC', 'V', 'J'], ['rad', 'sr', 'deg', 's', 'Hz']])
    pa, ta = compound(v, v.int('n', 1, 3), pool)
    if v.bool('related'):
        pb, tb = list(pa), list(ta)
        i = v.int('i', 0, len(pa) - 1)
        how = v.choice('how', ['same', 'prefix', 'power'])
        p, u, e = pb[i]
        if how == 'prefix':
            p = v.choice('newp', ['', 'k', 'm'])
        elif how == 'power':
            e = v.choice('newe', [1, 2, -1])
        s = T.spell(v, p, u)
        v.assume(s is not None)
        pb[i], tb[i] = (p, u, Q(e)), (s, Q(e))
    else:
        pb, tb = compound(v, v.int('n', 1, 3), pool)
    a, b = m.Unit(write(v, ta)), m.Unit(write(v, tb))
    eq = v.call(lambda: a == b)
    v.prove(eq == (b == a) == (a == str(b)) == (str(a) == b), 'equality is symmetric', lambda: f'{a} | {b}')
    v.prove((a != b) == (not eq), 'inequality is the negation of equality')
    if eq:
        v.prove(same(pa, pb), 'equal units denote the same unit', lambda: f'{a} == {b}')
        v.prove(a | b, 'equal units are consistent')
    elif sorted(pa) == sorted(pb):
        v.prove(False, 'the same product of powers is equal', lambda: f'{a} != {b}')
    con = v.call(lambda: a | b)
    v.prove(con == (b | a) == (a | str(b)) == (str(a) | b), 'consistency is symmetric', lambda: f'{a} | {b}')
    if m.conversion(a, b) is not None:
        v.prove(con, 'convertible units are consistent', lambda: f'{a} | {b}')
    la, lb = read(a), read(b)
    da, db = ({dims_of(x, s) for s in ('mks', 'cgs')} - {None} for x in (la, lb))
    if la and lb and da & db:
        v.prove(con, 'units of equal dimension are consistent', lambda: f'{a} | {b}')
    elif not T.accepted(pa, pb) and a.quantity != b.quantity and la and lb:
        v.prove(not con, 'units of different dimensions are not consistent', lambda: f'{a} | {b}')


@unit('C04', 'pairs', ['core.metric.Unit.__eq__', 'core.metric.Unit.__or__'], kind='finite')
def pairs(v):
    """Every pair of named units: equality and consistency."""
    m = v.mod('core.metric')
    units = {u: m.Unit(u) for u in UNITS}
    for x, y in itertools.combinations(UNITS, 2):
        a, b = units[x], units[y]
        pa, pb = [('', x, Q(1))], [('', y, Q(1))]
        eq, con = a == b, a | b
        v.prove(eq == (b == a), 'equality is symmetric', lambda: f'{a} | {b}')
        v.prove(con == (b | a), 'consistency is symmetric', lambda: f'{a} | {b}')
        if eq:
            v.prove(same(pa, pb), 'equal units denote the same unit', lambda: f'{a} == {b}')
        da, db = ({dims_of(z, s) for s in ('mks', 'cgs')} - {None} for z in (pa, pb))
        if da & db:
            v.prove(con, 'units of equal dimension are consistent', lambda: f'{a} | {b}')
        elif not T.accepted(pa, pb) and a.quantity != b.quantity:
            v.prove(not con, 'units of different dimensions are not consistent', lambda: f'{a} | {b}')


@unit('C04', 'equality_known', ['core.metric.Unit.__eq__'], kind='finite')
def equality_known(v):
    m = v.mod('core.metric')
    for a, b in (('N', 'kg m s^-2'), ('J', 'N m'), ('J', 'kg m^2 / s^2'), ('W', 'J / s'), ('Pa', 'N / m^2'), ('V', 'J / C'), ('C', 'A s'), ('T', 'Wb / m^2'), ('Wb', 'V s'),
                 ('F', 'C / V'), ('H', 'Wb / A'), ('S', 'A / V'), ('erg', 'dyn cm'), ('dyn', 'g cm / s^2'), ('P', 'g / (cm s)'), ('m / s', 'm s^-1'), ('# / s', '1 / s'),
                 ('J / (kg K)', 'm^2 s^-2 K^-1'), ('meter / second', 'm / s'), ('# / (m^2 s sr J)', '1 / (m^2 s sr J)')):
        v.prove(m.Unit(a) == m.Unit(b) and m.Unit(b) == m.Unit(a), 'physically equivalent units are equal', lambda: f'{a} {b}')
        v.prove(m.Unit(a) | m.Unit(b), 'and consistent')
    for a, b in (('N', 'dyn'), ('J', 'erg'), ('m', 'cm'), ('m', 's'), ('m', '1'), ('day', '1'), ('N', 'kg m^2 s^-2'), ('J', 'W'), ('rad', 'deg'), ('h', 's'), ('s', '1 / s'),
                 ('km / s', 'm / s'), ('cd', 'centiday'), ('m^2', 'm'), ('e', 'C'), ('MeV', 'eV'), ('V', 'statV'), ('T', 'G')):
        v.prove(not m.Unit(a) == m.Unit(b) and m.Unit(a) != m.Unit(b), 'different units are unequal', lambda: f'{a} {b}')
    for a, b, c in (('m', 's', 0), ('J', 'N', 0), ('N', 'm', 0), ('kg', 'K', 0), ('T', 'V', 0), ('rad', 'm', 0), ('m', 'km', 1), ('T', 'G', 1), ('J', 'eV', 1), ('nuc', 'kg', 1), ('s', 'd', 1),
                    ('C', 'statC', 1), ('m / s', 'km / h', 1), ('W', 'erg / s', 1), ('m^2', 'm', 0), ('Pa', 'J', 0), ('mol', 'm', 0), ('cd', 's', 0)):
        v.prove((m.Unit(a) | m.Unit(b)) == bool(c) and (m.Unit(b) | a) == bool(c), 'consistency', lambda: f'{a} | {b}')


BASE = {'mks': {'m', 'kg', 's', 'A', 'K', 'mol', 'cd', 'rad', 'sr', '#', 'Hz', 'Bq'}, 'cgs': {'cm', 'g', 's', 'K', 'mol', 'cd', 'rad', 'sr', '#', 'Hz', 'Bq', 'Ci'}}
"""Base units, and the canonical units of quantities with a single base dimension."""


@unit('C04', 'decompose', ['core.metric.NamedUnit.decomposed', 'core.metric.NamedUnit.reduce', 'core.metric.NamedUnit._reduce', 'core.metric.Reduction'], kind='finite')
def decompose(v):
    """Decomposition and reduction to base units keep magnitude and dimension."""
    m = v.mod('core.metric')
    canonical = {s: set() for s in ('mks', 'cgs')}
    for u in UNITS:
        for p in ('', 'k', 'm', 'M', 'c'):
            if p + u in T.AMBIGUOUS:
                continue
            x = m.NamedUnit(p + u)
            d = x.decomposed
            if d is not None:
                v.prove(same(read(d), [(p, u, 1)]), 'decomposition keeps the unit', lambda: f'{p+u} -> {d}')
            for s in ('mks', 'cgs'):
                r = x.reduce(s)
                if r is None or u in COUNTS:
                    continue
                i = 0 if s == 'mks' else 1
                got, want = magnitudes(read(r.units))[i], magnitudes([(p, u, 1)])[i]
                v.prove(got[1] == want[1], 'reduction keeps the dimension', lambda: f'{p+u} in {s} -> {r}')
                v.prove(T.close(got[0] * float(r.scale), want[0]), 'reduction keeps the magnitude', lambda: f'{p+u} in {s} -> {r}')
                v.prove(all(str(t.base) in BASE[s] for t in r.units), 'reduction is to base units', lambda: f'{p+u} in {s} -> {r}')
                v.prove(x.reduce(s.upper()) is r or str(x.reduce(s.upper())) == str(r), 'reduction is repeatable')
    for a in ('J', 'kJ', 'N'):
        r = m.NamedUnit(a).reduce('mks')
        for e in (2, -1):
            q = r ** e
            v.prove(T.close(float(q.scale), float(r.scale) ** e), 'power of a reduction')
            f, g = T.expression(read(r.units)), T.expression(read(q.units))
            v.prove(tuple(x * e for x in f[1]) == g[1], 'power of a reduction')


@unit('C04', 'reductions', ['core.metric.reduction', 'core.metric.Reduction', 'core.metric.NamedUnit.reduce'], kind='bounded', bound='random products of up to 3 unit powers', samples=500)
def reductions(v):
    """The base units of an expression have its magnitude and dimension."""
    m = v.mod('core.metric')
    pool = [x for x in UNITS if x not in COUNTS]
    pool = v.choice('pool', [pool, ['m', 's', 'g', 'K', 'A'], ['J', 'N', 'W', 'Pa', 'm', 'g'], ['erg', 'dyn', 'm', 'g', 's']])
    pa, ta = compound(v, v.int('n', 1, 3), pool)
    system = v.choice('system', ['mks', 'cgs', None])
    r = v.call(lambda: m.reduction(write(v, ta), system))
    each = [m.NamedUnit(p + u).reduce(system or 'mks') for p, u, e in pa if p + u not in T.AMBIGUOUS]
    if r is None:
        if system and len(each) == len(pa):
            v.prove(not all(each), 'an expression of reducible units is reducible', lambda: f'{ta} in {system}')
        return
    v.prove(r.system == system or system is None, 'system of a reduction')
    i = 0 if r.system == 'mks' else 1
    k = v.choice('k', [2, 0.5, 3])
    e = v.choice('e', [2, -1, 3])
    for x, scale, power in ((r, 1, 1), (r * k, k, 1), (k * r, k, 1), (r / k, 1 / k, 1), (r ** e, 1, e)):
        got, want = magnitudes(read(x.units))[i], magnitudes([(p, u, q * power) for p, u, q in pa])[i]
        v.prove(got[1] == want[1], 'reduction keeps the dimension', lambda: f'{ta} in {system} -> {x}')
        v.prove(T.close(got[0] * float(x.scale), want[0] * scale), 'reduction keeps the magnitude', lambda: f'{ta} in {system} -> {x}')
        v.prove(x.system == r.system, 'system of a reduction')
        v.prove(all(str(t.base) in BASE[r.system] for t in x.units), 'reduction is to base units', lambda: f'{ta} in {system} -> {x}')


@unit('C04', 'quantities', ['core.metric.Quantity', 'core.metric.System', 'core.metric.Properties', 'core.metric._Property', 'core.metric.CANONICAL', 'core.metric.NamedUnit.norm', 'core.metric.Unit.norm'],
      kind='finite')
def quantities(v):
    """The canonical unit of each quantity has the declared dimension."""
    m = v.mod('core.metric')
    skip = {'impedance', 'resistance', 'resistivity'}      # see known finding on ohm (C03)
    names = list(m.System('mks'))
    v.prove(len(names) == len(set(names)) == len(m.System('cgs')) and len(names) >= 70, 'quantities of a system')
    for q in names:
        for s in ('mks', 'cgs'):
            P = m.System(s)[q]
            v.prove(P == m.Quantity(q)[s] and P == m.Quantity(q.upper())[s.upper()], 'a quantity in a system')
            v.prove(m.System(s).get_unit(quantity=q) == P.unit, 'unit of a quantity', lambda: f'{q} {s}')
            if q in skip:
                continue
            declared = vec(m.System(s).dimensions[q] if not isinstance(m.System(s).dimensions[q], str) else v.mod('core.symbolic').Expression(m.System(s).dimensions[q]))
            parts = read(P.unit)
            i = 2 if s == 'mks' else 4
            actual = tuple(sum((T.U[u][i][k] * e if u not in COUNTS else 0) for p, u, e in parts) for k in range(7))
            v.prove(actual == declared, 'canonical unit has the declared dimension', lambda: f'{q} in {s}: {P.unit} declared {declared}')
            if parts:
                v.prove(vec(P.dimension) == declared, 'dimension of a quantity', lambda: f'{q} in {s}: {P.dimension}')
            # coherent: the canonical unit is the product of base units
            f, g = magnitudes(parts)
            base = (f, g)[0 if s == 'mks' else 1]
            if not any(u in COUNTS | {'eV', 'Ci', 'deg'} for _, u, _ in parts):
                v.prove(T.close(base[0], 1), 'canonical units are coherent', lambda: f'{q} in {s}: {P.unit}')
    for u in UNITS:
        for p in ('', 'k'):
            if p + u in T.AMBIGUOUS:
                continue
            x = m.NamedUnit(p + u)
            for s in ('mks', 'cgs'):
                want = m.System(s)[x.quantity].unit
                v.prove(m.System(s).get_unit(unit=p + u) == want, 'canonical unit of a unit', lambda: f'{p+u} in {s}: {m.System(s).get_unit(unit=p+u)}')
                v.prove(m.Unit(p + u).norm[s] == want, 'norm of a unit')
    for s, u, w in (('mks', 'km / h', 'm / s'), ('cgs', 'km / h', 'cm / s'), ('cgs', 'J / m^3', 'erg / cm^3'), ('mks', 'erg cm^-2', 'J m^-2'), ('mks', 'au d^-1', 'm s^-1'), ('cgs', 'kg m', 'g cm'),
                    ('mks', 'G', 'T'), ('cgs', 'nT', 'G'), ('mks', 'MeV', 'J')):
        v.prove(m.System(s).get_unit(unit=u) == w, 'canonical unit of a compound', lambda: f'{s} {u}: {m.System(s).get_unit(unit=u)}')
    for s, d, w in (('mks', 'L', 'm'), ('cgs', 'L', 'cm'), ('mks', 'L / T', 'm / s'), ('cgs', 'T^-1 L', 'cm / s'), ('mks', 'M', 'kg'), ('cgs', 'M', 'g')):
        v.prove(m.System(s).get_unit(dimension=d) == w, 'unit of a dimension', lambda: f'{s} {d}')
    for bad in ('nonsense', 'velocities'):
        v.raises(Exception, lambda: m.System('mks')[bad], 'unknown quantity')
    v.raises(KeyError, lambda: m.System('mks').get_unit(), 'a unit from nothing')
    v.raises(Exception, lambda: m.System('foo'), 'unknown system')
    v.prove(m.System('MKS') is m.System('mks') and m.System('mks') != m.System('cgs') and m.System(m.System('cgs')) is m.System('cgs'), 'systems are singletons')
    for a, b, c in (('energy', 'work', True), ('energy', 'power', False), ('velocity', 'speed', True), ('frequency', 'vorticity', True), ('length', 'time', False), ('charge', 'current', False)):
        try:
            x, y = m.Quantity(a), m.Quantity(b)
        except KeyError:
            continue
        v.prove((x | y) == c and (y | x) == c, 'equivalence of quantities', lambda: f'{a} | {b}')
        v.prove(x != y and x == a and x == m.Quantity(a.upper()), 'identity of quantities')
    for q, w in (('length * time', ('m s', 'cm s')), ('energy / length^3', ('J m^-3', 'erg cm^-3')), ('mass^2', ('kg^2', 'g^2')), ('magnetic flux / length', ('Wb / m', 'Mx / cm'))):
        for s, e in zip(('mks', 'cgs'), w):
            v.prove(m.System(s).get_unit(quantity=q) == e, 'compound quantities', lambda: f'{q} in {s}: {m.System(s).get_unit(quantity=q)}')
    # a dimension knows its quantities in each system, in any order of asking
    for text in sorted({str(m.System(s).dimensions[q]) for q in names for s in ('mks', 'cgs')}):
        want = {s: {q for q in names if q in m.System(s).dimensions and m.System(s).dimensions[q] == v.mod('core.symbolic').Expression(text)} for s in ('mks', 'cgs')}
        for order in (('mks', 'cgs', 'mks'), ('cgs', 'mks', 'cgs')):
            d = m.Dimension(text)
            for s in order:
                v.prove(set(d.quantities(s)) == want[s], 'quantities of a dimension', lambda: f'{text} in {s}: {d.quantities(s)}')
    for q, a, b in (('length', 'cm', 'm'), ('energy', 'erg', 'J'), ('frequency', 'Hz', 'kHz')):
        x = m.Properties('mks', a)
        y = m.Properties('mks', b)
        v.prove(not (x == y) and x != y and x == m.Properties('mks', a) and x == m.Properties('MKS', m.Unit(a)) and x != a, 'equality of properties')


@unit('C04', 'lookalikes', ['core.metric._UnitMeta.__call__', 'core.metric.Unit'], kind='finite')
def lookalikes(v):
    """Strings that differ in spacing or case only keep their own meaning, in any order of creation."""
    m = v.mod('core.metric')
    al = v.mod('core.aliased')
    single = {p + u: [(p, u, 1)] for p in T.PREFIXES for u in UNITS if p + u not in T.AMBIGUOUS}
    todo = list(single.items())
    for a, b in itertools.product([x for x in single if len(x) <= 2], repeat=2):
        if a + b in single and (a[-1].isalpha() and b[0].isalpha()):
            for sep in (' ', ' * ', ' / '):
                todo.append((a + sep + b, single[a] + [(p, u, -1 if '/' in sep else 1) for p, u, _ in single[b]]))
    lower = {}
    for s in single:
        lower.setdefault(s.lower(), []).append(s)
    for group in lower.values():
        if len(group) > 1:
            todo += [(f'{s} s^-2 K', single[s] + [('', 's', -2), ('', 'K', 1)]) for s in group]
    for _ in range(2):
        v.patch('core.metric:_UnitMeta._instances', al.MutableMapping())
        v.rng.shuffle(todo)
        for text, parts in todo:
            u = v.call(lambda: m.Unit(text), 'a unit of units')
            v.prove(same(read(u), parts), 'a string denotes its unit whatever was created before', lambda: f'{text!r} -> {u}')


@unit('C04', 'history', ['core.metric._UnitMeta.__call__', 'core.metric._NamedUnitMeta.__call__', 'core.metric.Unit', 'core.metric.Conversion.__new__', 'core.metric._Converter.__new__'],
      kind='bounded', bound='random sequences of up to 25 unit operations from cold caches', samples=120, weight=2)
def history(v):
    """What a unit is does not depend on what was asked before."""
    m = v.mod('core.metric')
    al = v.mod('core.aliased')
    words = ['m', 'meter', 'km', 'kilometer', 'cm', 's', 'second', 'h', 'J', 'joule', 'erg', 'eV', 'MeV', 'N', 'kg', 'g', 'gram', 'm / s', 'm s^-1', 's^-1 m', 'meter / second', 'cm / s', 'km / h', 'kg m^2 / s^2', 'N m',
             'J / s', 'W', 'm^2', 'm * m', 'V', 'statV', 'T', 'G', 'nT', 'rad', 'deg', '1', '#', 'um', 'micrometer', 'au', 'nuc', 'kg / m^3', 'g / cm^3', '1 / (cm^2 s sr MeV/nuc)', 'J / (kg K)', 'cd', 'centiday', 'Hz', '1 / s', 'C', 'A s', 'e']

    def cold():
        v.patch('core.metric:_UnitMeta._instances', al.MutableMapping())
        v.patch('core.metric:_NamedUnitMeta._instances', al.MutableMapping())
        v.patch('core.metric:Conversion._instances', {})
        v.patch('core.metric:_Converter._instances', {})

    def probe(a, b):
        x, y = m.Unit(a), m.Unit(b)
        out = [str(x.dimensions), x.dimensionless, x == y, x | y, m.conversion(a, b), m.conversion(x, y)]
        out += [vec_or_none(x.dimensions[s]) for s in ('mks', 'cgs')]
        out += [meaning(x), meaning(x * y), meaning(x / y), meaning(x ** 2), meaning(x.norm['mks']), meaning(x.norm['cgs'])]
        try:
            out.append(x // y)
        except m.UnitConversionError:
            out.append('error')
        return out

    def vec_or_none(d):
        return None if d is None else vec(d)

    def meaning(u):
        f, sd, g, gd = T.expression([(p, w, e) for p, w, e in read(u)])
        return float(f'{f:.9g}'), sd, float(f'{g:.9g}'), gd

    a, b = v.choice('a', words), v.choice('b', words)
    cold()
    ref = v.call(lambda: probe(a, b))
    cold()
    log = []
    for i in range(v.int('steps', 3, 25)):
        x, y = v.choice('x', words + [a, b] * 6), v.choice('y', words + [a, b] * 6)
        op = v.choice('op', ['unit', 'named', 'dims', 'norm', 'conv', 'mul', 'div', 'pow', 'eq', 'or', 'decomposed', 'conv2', 'quantity', 'expr', 'bad'])
        log.append((op, x, y))
        try:
            if op == 'unit': m.Unit(x)
            elif op == 'named': m.NamedUnit(x)
            elif op == 'dims': m.Unit(x).dimensions, m.Unit(x).dimensionless
            elif op == 'norm': m.Unit(x).norm
            elif op == 'conv': m.conversion(x, y)
            elif op == 'conv2': m.conversion(m.Unit(x), m.Unit(y))
            elif op == 'mul': m.Unit(x) * m.Unit(y)
            elif op == 'div': m.Unit(x) / y
            elif op == 'pow': m.Unit(x) ** v.choice('k', [2, -1, 0.5])
            elif op == 'eq': m.Unit(x) == y
            elif op == 'or': m.Unit(x) | y
            elif op == 'decomposed': m.Unit(x).decomposed
            elif op == 'quantity': m.Unit(x).quantity
            elif op == 'expr': m.Unit(v.mod('core.symbolic').Expression(x))
            elif op == 'bad': m.Unit(x) // y
        except (m.UnitParsingError, m.UnitConversionError):
            pass
    got = v.call(lambda: probe(a, b))
    v.prove(got == ref, 'results do not depend on previous operations', lambda: f'{a!r}, {b!r} after {log}: {got} instead of {ref}')
    v.prove(m.Unit(a) is m.Unit(str(m.Unit(a))) and m.Unit(a) is m.Unit(a), 'one object per unit')


# -- proofs --------------------------------------------------------------------

def _init(v):
    """Expression of terms has the meaning of those terms (C02's contract);
    strings are parsed by the real parser."""
    m = v.mod('core.symbolic')
    real = m.Expression.__init__

    def __init__(self, expression, **kwargs):
        if expression is None or isinstance(expression, (str, int, float)):
            return real(self, expression, **kwargs)
        ts = list(expression)
        if all(isinstance(t, m.Term) for t in ts):
            self.terms = m.reduce(ts)
            return
        return real(self, ts, **kwargs)
    return __init__


ST = {'core.symbolic:Expression.__init__': _init}


class Product:
    """A unit given as a product of powers of named units."""
    def __init__(self, terms):
        self.terms = terms

    def __iter__(self):
        return iter(self.terms)

    def __len__(self):
        return len(self.terms)


@unit('C04', 'dimension_of_powers', ['core.metric.Dimension.fromunit', 'core.symbolic.Expression.__mul__', 'core.symbolic.Expression.__pow__', 'core.symbolic.reduce'],
      stubs=ST, weight=4, bound='two factors from eight units of both systems; all real exponents',
      assumes=['Expression(list of terms) has the meaning of that list (contract of C02, checked there)'])
def dimension_of_powers(v):
    """dim(u^a w^b) = a dim(u) + b dim(w), for all exponents."""
    m, sym = v.mod('core.metric'), v.mod('core.symbolic')
    u, w = v.choice('u', ['m', 'kJ', 'N', 's']), v.choice('w', ['km', 'V', 'h', 'C'])
    a, b = v.real('a', nonzero=True, exact=True), v.real('b', nonzero=True, exact=True)
    ts = [sym.Term(base=u, exponent=a), sym.Term(base=w, exponent=b)]
    d = v.call(lambda: m.Dimension.fromunit(Product(ts), 'mks'))
    got = dict.fromkeys(BASES, 0)
    for t in d:
        if str(t.base) == '1':
            v.eq(t.coefficient, 1, 'a dimension has no coefficient')
            continue
        got[str(t.base)] = got[str(t.base)] + t.exponent
    (_, x), (_, y) = split2(u), split2(w)
    for i, k in enumerate(BASES):
        v.eq(got[k], T.U[x][2][i] * a + T.U[y][2][i] * b, 'exponent of every base dimension')


def split2(s):
    from .c03_conversion import split
    return split(s)


@unit('C04', 'decompose_powers', ['core.metric.Unit.decompose', 'core.metric.Unit._decompose', 'core.metric.NamedUnit.decomposed', 'core.symbolic.reduce', 'core.symbolic.Operand.__pow__'],
      stubs=ST, weight=2, bound='two factors from eight coherent units; all real exponents',
      assumes=['Expression(list of terms) has the meaning of that list (contract of C02, checked there)'])
def decompose_powers(v):
    """Decomposition into base units distributes every exponent."""
    m, sym = v.mod('core.metric'), v.mod('core.symbolic')
    u, w = v.choice('u', ['N', 'J', 'm', 'T']), v.choice('w', ['W', 's', 'C', 'Pa'])
    a, b = v.real('a', nonzero=True, exact=True), v.real('b', nonzero=True, exact=True)
    ts = [sym.Term(base=u, exponent=a), sym.Term(base=w, exponent=b)]
    r = v.call(lambda: m.Unit.decompose(ts))
    got = dict.fromkeys(BASES, 0)
    for t in r:
        v.eq(t.coefficient, 1, 'no scale factor appears')
        if str(t.base) == '1':
            continue
        p, x = split2(str(t.base))
        v.prove(p + x in ('m', 'kg', 's', 'A'), 'base units')
        for i, k in enumerate(BASES):
            got[k] = got[k] + T.U[x][2][i] * t.exponent
    for i, k in enumerate(BASES):
        v.eq(got[k], T.U[u][2][i] * a + T.U[w][2][i] * b, 'decomposition keeps the dimension')
