"""C03: unit conversion factors are physically right and consistent."""
import fractions
import itertools

from pv.api import unit
from . import util_units as T

Q = fractions.Fraction
POWERS = [1, 1, 1, 2, -1, -1, -2, 3, Q(1, 2), -3]


def split(symbol):
    """(prefix, unit) of a unit symbol or name, by the independent table."""
    for u, (name, *_) in T.U.items():
        if symbol in (u, name):
            return '', u
    for p, (pn, _) in T.PREFIXES.items():
        for u, (name, *_) in T.U.items():
            if symbol in (p + u, pn + name) or (p == '\u03bc' and symbol == 'u' + u):
                return p, u
    if symbol.endswith('\u03a9'):
        return symbol[:-1], 'ohm'
    raise KeyError(symbol)


def read(expr):
    """The compound an expression (or unit) denotes."""
    out = []
    for t in expr:
        if t.base == '1':
            continue
        p, u = split(str(t.base))
        out.append((p, u, Q(t.exponent).limit_denominator(1000)))
    return out


def right(v, m, a, b, pa, pb, required=False):
    """conversion(a, b) is a right factor or, if there is none, refused."""
    r = v.call(lambda: m.conversion(a, b), 'asking for a conversion never fails when not strict')
    ok = T.accepted(pa, pb)
    if r is None:
        v.prove(not required, 'documented conversions exist', lambda: f'{a!r} -> {b!r}')
        v.raises(m.UnitConversionError, lambda: m.conversion(a, b, strict=True), 'a missing conversion is an error when strict')
        return None
    v.prove(bool(ok), 'units of different dimensions are not converted', lambda: f'{a!r} -> {b!r} = {r!r}')
    v.prove(any(T.close(r, x) for x in ok), 'factor is the ratio of magnitudes', lambda: f'{a!r} -> {b!r} = {r!r}, expected {ok}')
    v.prove(m.conversion(a, b, strict=True) == r, 'strict changes nothing when a factor exists')
    return r


@unit('C03', 'prefix_ratio', ['core.metric.ratio', 'core.metric.NamedUnit.__floordiv__', 'core.metric.NamedUnit.__rfloordiv__', 'core.metric._NamedUnitMeta.__call__'],
      kind='finite')
def prefix_ratio(v):
    """All pairs of prefixes of every unit, by symbol, name and 'u' spelling."""
    m = v.mod('core.metric')
    ps = list(T.PREFIXES)
    for u in T.U:
        forms = {}
        for p in ps:
            full = T.PREFIXES[p][0] + T.U[u][0]
            forms[p] = [full] + ([p + u] if p + u not in T.AMBIGUOUS and (u != 'ohm' or not p) else []) + (['u' + u] if p == '\u03bc' and u != 'ohm' else [])
        for i, (p, q) in enumerate(itertools.product(ps, ps)):
            a, b = forms[p][i % len(forms[p])], forms[q][(i // 3) % len(forms[q])]
            want = float(Q(10) ** (T.PREFIXES[p][1] - T.PREFIXES[q][1]))
            v.eq(m.ratio(a, b), want, f'ratio of prefixes ({a}, {b})')
            v.eq(m.NamedUnit(b) // a, want, 'NamedUnit // str')
            v.eq(b // m.NamedUnit(a), want, 'str // NamedUnit')
            v.eq(m.NamedUnit(b) // m.NamedUnit(a), want, 'NamedUnit // NamedUnit')
        w = {'m': 's', 's': 'm'}.get(u, 'm')
        v.raises(ValueError, lambda: m.ratio(u if u != 'ohm' else 'ohm', w), 'units with different bases have no ratio')
    v.raises(TypeError, lambda: m.ratio(1.0, 'm'), 'ratio of something that is not a unit')


@unit('C03', 'same_base', ['core.metric.conversion', 'core.metric.Conversion'], kind='finite', weight=2)
def same_base(v):
    """conversion() between all prefixes of one unit, to random powers."""
    m = v.mod('core.metric')
    rng = v.rng
    for u in T.U:
        if u in ('1', '#'):
            continue
        for p, q in itertools.product(T.PREFIXES, T.PREFIXES):
            if p + u in T.AMBIGUOUS or q + u in T.AMBIGUOUS:
                continue
            a, b = (p + u, q + u) if u != 'ohm' else (T.PREFIXES[p][0] + u, T.PREFIXES[q][0] + u)
            k = T.PREFIXES[p][1] - T.PREFIXES[q][1]
            v.eq(m.conversion(a, b), float(Q(10) ** k), f'prefixes scale the factor ({a} -> {b})')
            if rng.random() < 0.15:
                e = rng.choice([2, -1, 3, -2])
                r = m.conversion(f'{a}^{e}', f'{b}^{e}')
                v.prove(r is not None, 'powers convert', lambda: f'{a}^{e} -> {b}^{e}')
                v.eq(r, float(Q(10) ** (k * e)), f'powers scale the factor ({a}^{e} -> {b}^{e})')
                if p != q:
                    v.prove(m.conversion(f'{a}^{e}', b) is None and (e == -1 or m.conversion(a, f'{b}^{-e}') is None) or T.U[u][2] == T.Z or u in ('nuc', 'amu'),
                            'different powers are not converted', lambda: f'{a} {b} {e}')


@unit('C03', 'families', ['core.metric.Conversion', 'core.metric.Conversion._simple_conversion', 'core.metric.Conversion._complex_conversion', 'core.metric.Conversion._rescale', 'core.metric.Conversion._search'],
      kind='finite', weight=3)
def families(v):
    """All prefixed pairs of convertible units."""
    m = v.mod('core.metric')
    todo = []
    for fam in T.FAMILIES:
        for a, b in itertools.permutations(fam, 2):
            for p, q in itertools.product(T.PREFIXES, T.PREFIXES):
                if p + a in T.AMBIGUOUS or q + b in T.AMBIGUOUS:
                    continue
                todo.append((p, a, q, b))
    v.rng.shuffle(todo)      # the result must not depend on what came before
    for p, a, q, b in todo:
        mass = 'g' in (a, b)
        req = (p == '' or q == '') if not mass else (p + a == 'kg' or q + b == 'kg' or (p == '' and a != 'g') or (q == '' and b != 'g'))
        right(v, m, p + a, q + b, [(p, a, 1)], [(q, b, 1)], required=req)


@unit('C03', 'all_pairs', ['core.metric.conversion', 'core.metric.Conversion'], kind='finite', weight=2)
def all_pairs(v):
    """Every pair of base units (some prefixed), convertible or not."""
    m = v.mod('core.metric')
    us = [u for u in T.U if u != '1']
    for a, b in itertools.product(us, us):
        if {a, b} == {'V', 'ohm'}:
            continue     # see `ohm`
        for p, q in ((('', ''),) if v.tier == 'quick' else (('', ''), ('k', ''), ('', 'm'), ('c', 'k'))):
            if p + a in T.AMBIGUOUS or q + b in T.AMBIGUOUS or 'ohm' in (a, b) and (p or q):
                continue
            r = right(v, m, p + a, q + b, [(p, a, 1)], [(q, b, 1)], required=(a == b))
            if r is not None:
                s = m.conversion(q + b, p + a)
                v.prove(s is not None and T.close(r * s, 1), 'there and back are reciprocal', lambda: f'{p+a} {q+b} {r} {s}')


@unit('C03', 'defined', ['core.metric.CONVERSIONS', 'core.metric.conversion', 'core.metric.Unit.__floordiv__', 'core.metric.Unit.__rfloordiv__'], kind='finite')
def defined(v):
    m = v.mod('core.metric')
    for (a, b), x in T.DEFINED.items():
        if (a, b) in (('W / m^2', 'erg / (cm^2 s)'), ('W / (m^2 sr)', 'erg / (cm^2 sr s)')):
            r = m.conversion(a, b)
            v.prove(r is None or T.close(r, x), 'factor is right if given')
            continue
        v.eq(m.conversion(a, b), x, f'documented conversion {a} -> {b}')
        v.eq(m.conversion(b, a), 1 / x, f'documented conversion {b} -> {a}')
        v.eq(m.conversion(m.Unit(a), m.Unit(b)), x, f'conversion of unit objects {a} -> {b}')
        v.eq(m.Unit(b) // m.Unit(a), x, f'Unit // Unit ({b} // {a})')
        v.eq(m.Unit(b) // a, x, f'Unit // str ({b} // {a})')
        v.eq(b // m.Unit(a), x, f'str // Unit ({b} // {a})')
        v.eq(float(m.Conversion(a, b)), x, 'Conversion')
        v.eq(float(m.Conversion(a, b).inverse), 1 / x, 'Conversion.inverse')
        v.prove(m.conversion(a, a) == 1 and m.conversion(b, b) == 1, 'identity')
    for a, b in (('m', 's'), ('J', 'N'), ('kg', 'm'), ('T', 'V'), ('rad', 'm'), ('km / s', 'm'), ('C', 'A'), ('K', 'mol'), ('J / s', 'J'), ('m^2', 'm'),
                 ('kg m', 'kg s'), ('Gy', 's'), ('1 / s', 's'), ('m^1.5', 'cm'), ('m^3/2', 'm'), ('m^1.5 / s', 'cm / day'), ('J^1.2', 'erg')):
        v.prove(m.conversion(a, b) is None, 'units of different dimensions are not converted', lambda: f'{a} {b}')
        v.raises(m.UnitConversionError, lambda: m.Unit(a) // m.Unit(b), 'Unit // inconsistent unit')
        v.raises(m.UnitConversionError, lambda: m.Conversion(a, b), 'Conversion to inconsistent unit')


def compound(v, n, pool=None):
    parts, texts = [], []
    for i in range(n):
        u = v.choice('u', pool or [x for x in T.U if x not in ('1', '#', 'ohm')])
        p = v.choice('p', ['', '', '', 'k', 'c', 'm', 'M', 'n', 'da'])
        e = v.choice('e', POWERS)
        s = T.spell(v, p, u)
        if s is None:
            p, s = '', u
        parts.append((p, u, Q(e)))
        texts.append((s, Q(e)))
    return parts, texts


def write(v, texts):
    """Spell a product of powers in one of several equivalent ways."""
    style = v.choice('style', ['powers', 'star', 'slash', 'group'])
    f = lambda s, e: s if e == 1 else f'{s}^{e}'
    if style == 'powers':
        return ' '.join(f(s, e) for s, e in texts)
    if style == 'star':
        return ' * '.join(f(s, e) for s, e in texts)
    up = [f(s, e) for s, e in texts if e > 0]
    dn = [f(s, -e) for s, e in texts if e < 0]
    head = ' * '.join(up) or '1'
    if not dn:
        return head
    if style == 'slash':
        return head + (f' / {dn[0]}' if len(dn) == 1 else f' / ({" * ".join(dn)})')
    return f'({head}) / (' + ' '.join(dn) + ')'


BASIC = ('m', 'au', 's', 'min', 'h', 'd')
"""Units of one kind that no other kind of unit could be taken for."""


@unit('C03', 'matched_compounds', ['core.metric.Conversion._convert_as_expressions', 'core.metric.Conversion._resolve_terms', 'core.metric.Conversion._match_terms', 'core.metric.Conversion._convert_by_dimensions'],
      kind='bounded', bound='random products of up to 4 unit powers, each replaced by a unit of the same dimension', samples=1500, weight=2)
def matched_compounds(v):
    m = v.mod('core.metric')
    n = v.int('n', 1, 4)
    pa, ta = compound(v, n)
    pb, tb = [], []
    for p, u, e in pa:
        same = [w for w in T.U if T.U[w][2] == T.U[u][2] and w not in ('1', '#')]
        w = v.choice('w', same)
        q = v.choice('q', ['', '', 'k', 'c', 'm', 'M'])
        s = T.spell(v, q, w)
        if s is None:
            q, s = '', w
        pb.append((q, w, e))
        tb.append((s, e))
    dims = [T.U[u][2] for _, u, _ in pa]
    independent = len({u for _, u, _ in pa}) == n and len(set(dims)) == n and T.Z not in dims and len({T.U[u][4] for _, u, _ in pa}) == n
    req = independent and all(u == w or (u in BASIC and w in BASIC and not (p or q)) for (p, u, _), (q, w, _) in zip(pa, pb))
    order = list(range(n))
    v.rng.shuffle(order)
    a, b = write(v, ta), write(v, [tb[i] for i in order])
    r = right(v, m, a, b, pa, pb, required=req)
    if r is not None:
        s = m.conversion(b, a)
        v.prove(s is None or T.close(r * s, 1), 'there and back are reciprocal', lambda: f'{a} | {b}: {r} {s}')
        v.prove(s is not None or not req, 'the inverse conversion exists', lambda: f'{a} | {b}')
        v.eq(m.Unit(b) // m.Unit(a), r, 'Unit // Unit is the conversion factor')
        k = v.choice('k', [2, -1, 3])
        x = m.conversion(f'({a})^{k}', f'({b})^{k}')
        if x is not None:
            v.eq(x, r ** k, 'powers of units convert with the power of the factor')
    v.eq(m.conversion(a, write(v, ta)), 1, 'identity, however written')


@unit('C03', 'expanded', ['core.metric.Conversion._convert_by_dimensions', 'core.metric.Conversion._resolve_terms', 'core.metric.NamedUnit.reduce', 'core.metric.Unit.__eq__'],
      kind='bounded', bound='random products of up to 3 unit powers, some of them expanded into (prefixed) base or derived units', samples=1200)
def expanded(v):
    """Derived units and products of prefixed units of the same dimension."""
    m = v.mod('core.metric')
    pool = v.choice('pool', [['J', 'N', 'W', 'Pa', 'Hz'], ['J', 'erg', 'dyn', 'N', 'P'], [x for x in T.U if x not in ('1', '#', 'ohm')], ['C', 'V', 'F', 'Wb', 'T', 'H', 'S', 'J']])
    pa, ta = [], []
    for i in range(v.int('n', 1, 3)):
        u, e = v.choice('u', pool), v.choice('e', [1, 1, 1, 2, -1, -2, Q(1, 2)])
        p = v.choice('p', ['', '', '', 'k', 'm'])
        s = T.spell(v, p, u)
        if s is None:
            p, s = '', u
        pa.append((p, u, Q(e)))
        ta.append((s, Q(e)))
    how = v.choice('how', ['each', 'whole', 'some'])
    dims, pb, tb = [Q(0)] * 7, [], []
    for (p, u, e), (s, _) in zip(pa, ta):
        if how == 'some' and v.bool('kept'):
            pb.append((p, u, e))
            tb.append((s, e))
        else:
            dims = [x + e * y for x, y in zip(dims, T.U[u][2])]
    prefix = v.choice('prefix', [[''], ['', 'k', 'c', 'm', 'M', 'da'], ['k'], ['', '', '', 'm']])
    for b, x in zip(('m', 'g', 's', 'A', 'K', 'mol', 'cd'), dims):
        if x:
            q = 'k' if b == 'g' and v.bool('kg') else v.choice('q', prefix)
            pb.append((q, b, x))
            tb.append((q + b, x))
    v.assume(pb)
    v.rng.shuffle(tb)
    a, b = write(v, ta), write(v, tb)
    if v.bool('backwards'):
        a, b, pa, pb = b, a, pb, pa
    r = right(v, m, a, b, pa, pb)
    eq = v.call(lambda: m.Unit(a) == m.Unit(b))
    if eq:
        v.prove(any(T.close(x, 1) for x in T.accepted(pa, pb)), 'equal units have a conversion factor of one', lambda: f'{a!r} == {b!r}')
    if r is not None:
        s = m.conversion(b, a)
        v.prove(s is None or T.close(r * s, 1), 'there and back are reciprocal', lambda: f'{a} | {b}: {r} {s}')


@unit('C03', 'random_compounds', ['core.metric.Conversion'], kind='bounded', bound='random pairs of products of up to 3 unit powers', samples=1200)
def random_compounds(v):
    m = v.mod('core.metric')
    pool = v.choice('pool', [None, ['m', 's', 'g', 'J', 'N', 'W', 'Pa', 'erg', 'dyn', 'Hz', 'h'], ['A', 'C', 'V', 'Wb', 'T', 's', 'm', 'H', 'F', 'S'],
                             ['rad', 'deg', 'sr', 's', 'Hz', 'min']])
    pa, ta = compound(v, v.int('n', 1, 3), pool)
    pb, tb = compound(v, v.int('n', 1, 3), pool)
    right(v, m, write(v, ta), write(v, tb), pa, pb)


@unit('C03', 'derived', ['core.metric.Conversion._convert_by_dimensions', 'core.metric.NamedUnit.reduce'], kind='finite')
def derived(v):
    """Coherent derived units and their base-unit expressions."""
    m = v.mod('core.metric')
    for a, b, x in (('N', 'kg m / s^2', 1), ('J', 'kg m^2 / s^2', 1), ('W', 'kg m^2 s^-3', 1), ('Pa', 'kg / (m s^2)', 1), ('C', 'A s', 1),
                    ('V', 'kg m^2 s^-3 A^-1', 1), ('F', 's^4 A^2 / (kg m^2)', 1), ('Wb', 'kg m^2 / (s^2 A)', 1), ('T', 'kg / (s^2 A)', 1),
                    ('H', 'kg m^2 / (s^2 A^2)', 1), ('S', 's^3 A^2 / (kg m^2)', 1), ('J', 'N m', 1), ('W', 'J / s', 1), ('Pa', 'N / m^2', 1),
                    ('Hz', '1 / s', 1), ('erg', 'g cm^2 / s^2', 1), ('dyn', 'g cm / s^2', 1), ('P', 'g / (cm s)', 1), ('V', 'J / C', 1),
                    ('J m^-3', 'erg cm^-3', 10), ('km h^-1', 'm s^-1', 1 / 3.6), ('au d^-1', 'km s^-1', 1.495978707e8 / 86400),
                    ('MeV', 'J', 1.6022e-13), ('keV cm^-2', 'J m^-2', 1.6022e-12), ('nT', 'G', 1e-5), ('kG', 'T', 0.1), ('mu', None, None)):
        if b is None:
            continue
        pa, pb = read(m.Unit(a)), read(m.Unit(b))
        for f, g, y in ((a, b, x), (b, a, 1 / x)):
            r = m.conversion(f, g)
            v.prove(r is None or T.close(r, y), 'derived units convert to base units coherently', lambda: f'{f} -> {g} = {r}, expected {y}')
        v.prove(not pa or T.accepted(pa, pb), 'table')


def special(m, a, b):
    for (x, y), w in T.SPECIAL.items():
        if m.Unit(x) is m.Unit(a) and m.Unit(y) is m.Unit(b):
            return w
        if m.Unit(x) is m.Unit(b) and m.Unit(y) is m.Unit(a):
            return 1 / w


@unit('C03', 'ohm', ['core.metric.Conversion._convert_by_dimensions'], kind='finite')
def ohm(v):
    """A resistance is not a potential."""
    m = v.mod('core.metric')
    v.prove(m.conversion('V', 'ohm') is None, 'volt and ohm are not converted', lambda: f"V -> ohm = {m.conversion('V', 'ohm')}")


@unit('C03', 'quantities', ['core.metric._Converter.to', 'core.metric.Quantity.convert'], kind='finite')
def quantities(v):
    """Quantity(q).convert(u).to(w): metric systems are spelled as units."""
    m = v.mod('core.metric')
    for q in m.System('mks'):
        Qt = m.Quantity(q)
        mks, cgs = str(Qt['mks'].unit), str(Qt['cgs'].unit)
        for a, b in itertools.product(('mks', 'cgs'), repeat=2):
            ua, ub = {'mks': mks, 'cgs': cgs}[a], {'mks': mks, 'cgs': cgs}[b]
            try:
                want = m.conversion(ua, ub, strict=True)
            except m.UnitConversionError:
                want = None
            for x, y in ((a, b), (ua, ub), (a, ub)):
                try:
                    r = Qt.convert(x).to(y)
                except (ValueError, m.UnitConversionError):
                    r = None
                if want is None:
                    v.prove(r is None, 'no conversion between systems', lambda: f'{q} {x} {y} {r}')
                else:
                    v.prove(r is not None and T.close(r, want), 'conversion within a quantity is the conversion of its units', lambda: f'{q}: {x} -> {y} = {r}, expected {want}')
            if want is not None and a != b:
                ok = T.accepted(read(m.Unit(ua)), read(m.Unit(ub)))
                sp = special(m, ua, ub)
                v.prove(any(T.close(want, k) for k in ok + ([sp] if sp else [])), 'canonical units of one quantity convert physically',
                        lambda: f'{q}: {ua} -> {ub} = {want}, expected {ok} {sp}')
    E = m.Quantity('energy')
    for u, w, x in (('eV', 'J', 1.6022e-19), ('MeV', 'mks', 1.6022e-13), ('mks', 'erg', 1e7), ('cgs', 'eV', 1e-7 / 1.6022e-19), ('J', 'J', 1)):
        v.eq(E.convert(u).to(w), x, f'energy {u} -> {w}')
        v.eq(m.Quantity('Energy').convert(u).to(w), x, 'quantity names ignore case')
    v.raises(Exception, lambda: E.convert('J').to('m'), 'energy is not a length')
    for q, u, w, x in (('length', 'Mm', 'mm', 1e9), ('length', 'mm', 'Mm', 1e-9), ('length', 'm', 'Mm', 1e-6), ('energy', 'MJ', 'mJ', 1e9), ('time', 'ms', 'Ms', 1e-9), ('length', 'Pm', 'pm', 1e27),
                       ('induction', 'mG', 'MG', 1e-9), ('length', 'au', 'mks', 1.495978707e11), ('time', 'd', 'h', 24)):
        v.eq(m.Quantity(q).convert(u).to(w), x, f'{q}: {u} -> {w}')


# -- proofs: the search and composition of factors, for arbitrary tables ------

def table(v, edges):
    """Install a conversion table with arbitrary positive weights."""
    m = v.mod('core.metric')
    it = v.mod('core.iterables')
    w = {e: v.real(f'w{i}', positive=True) for i, e in enumerate(edges)}
    con = it.Connections(dict(w))
    v.patch('core.metric:CONVERSIONS', con)
    v.patch('core.metric:Conversion._instances', {})
    if hasattr(m.Conversion, 'units'):
        v.patch('core.metric:Conversion.units', con.nodes)
    return m, w


@unit('C03', 'table_chain', ['core.metric.Conversion._convert_as_strings', 'core.metric.Conversion._complex_conversion', 'core.metric.Conversion._search',
                             'core.iterables.Connections.get_weight', 'core.iterables.Connections.get_adjacencies'],
      bound='a chain of three table entries; all weights', assumes=['table weights are positive'])
def table_chain(v):
    """Chains compose, reversal inverts, identity is 1 -- for every table."""
    m, w = table(v, [('qa', 'qb'), ('qb', 'qc'), ('qd', 'qc')])
    ab, bc, dc = w[('qa', 'qb')], w[('qb', 'qc')], w[('qd', 'qc')]
    f = lambda a, b: m.Conversion(a, b)._factor if v.symbolic else float(m.Conversion(a, b))
    v.eq(f('qa', 'qb'), ab, 'a table entry is its weight')
    v.eq(f('qb', 'qa') * ab, 1, 'the inverse of a table entry')
    v.eq(f('qa', 'qc'), ab * bc, 'two entries compose')
    v.eq(f('qc', 'qa') * (ab * bc), 1, 'two entries, backwards')
    v.eq(f('qa', 'qd') * dc, ab * bc, 'three entries compose, the last reversed')
    v.eq(f('qd', 'qa') * (ab * bc), dc, 'three entries backwards')
    v.eq(f('qb', 'qd') * dc, bc, 'two entries, the last reversed')
    v.eq(f('qa', 'qa'), 1, 'identity')


@unit('C03', 'table_prefixed', ['core.metric.Conversion._rescale', 'core.metric.Conversion._complex_conversion', 'core.metric.Conversion._simple_conversion', 'core.metric.ratio'],
      bound='one table entry between named units, all weights; all 20 prefixes on either side')
def table_prefixed(v):
    m, w = table(v, [('au', 'm'), ('nuc', 'kg')])
    x, y = w[('au', 'm')], w[('nuc', 'kg')]
    f = lambda a, b: m.Conversion(a, b)._factor if v.symbolic else float(m.Conversion(a, b))
    for p in T.PREFIXES:
        k = Q(10) ** T.PREFIXES[p][1]
        full = T.PREFIXES[p][0]
        for s in (f'{p}m', f'{full}meter'):
            v.eq(f('au', s) * k, x, 'to a prefixed unit', tol=1e-9)
            v.eq(f(s, 'au') * x, k, 'from a prefixed unit', tol=1e-9)
        v.eq(f(f'{p}au', 'm'), x * k, 'from a prefixed unit', tol=1e-9)
        v.eq(f('m', f'{p}au') * x * k, 1, 'to a prefixed unit', tol=1e-9)
        v.eq(f('nuc', f'{p}g') * k, y * 1000, 'to a prefixed unit', tol=1e-9)
        v.eq(f(f'{p}g', 'nuc') * y * 1000, k, 'from a prefixed unit', tol=1e-9)


@unit('C03', 'table_compound', ['core.metric.Conversion._convert_as_expressions', 'core.metric.Conversion._resolve_terms', 'core.metric.Conversion._match_terms'],
      bound='products of powers of three convertible units; all weights; exponents up to 3')
def table_compound(v):
    m, w = table(v, [('au', 'm'), ('s', 'h'), ('J', 'erg')])
    L, t, E = w[('au', 'm')], w[('s', 'h')], w[('J', 'erg')]
    f = lambda a, b: m.Conversion(a, b)._factor if v.symbolic else float(m.Conversion(a, b))
    v.eq(f('au / s', 'm / h') * t, L, 'quotient')
    v.eq(f('m / h', 'au / s') * L, t, 'quotient, backwards')
    v.eq(f('J au^2 s^-3', 'erg m^2 h^-3') * t * t * t, E * L * L, 'three factors')
    v.eq(f('erg^-1 m^3 h', 'J^-1 au^3 s') * L * L * L * t, E, 'three factors, backwards')
    v.eq(f('au^2 J', 'erg km^2') * 1000000, E * L * L, 'powers with a prefix', tol=1e-9)
    v.eq(f('J / (km^2 s)', 'erg / (au^2 h)') * 1000000 * t, E * L * L, 'group in the denominator', tol=1e-9)
    v.eq(f('kg au / s', 'g m / h') * t, L * 1000, 'a common base with different prefixes')
    v.prove(m.conversion('au s', 'm J') is None, 'no partial conversion')
    v.prove(m.conversion('au^2 s', 'm h') is None, 'no partial conversion')


@unit('C03', 'named_ratio', ['core.metric.ratio', 'core.metric.NamedUnit.__floordiv__', 'core.metric.NamedUnit.__rfloordiv__'],
      bound=None, assumes=['prefix factors are positive'])
def named_ratio(v):
    """For arbitrary prefix magnitudes the ratio is their quotient."""
    m = v.mod('core.metric')
    al = v.mod('core.aliased')
    x, y, z = v.real('x', positive=True), v.real('y', positive=True), v.real('z', positive=True)
    base = m.BaseUnit('uu', 'unitu', 'length')
    made = {'xuu': m.Prefix('x', 'ex', x), 'yuu': m.Prefix('y', 'ey', y), 'zuu': m.Prefix('z', 'ez', z)}
    by = dict(made, **{f'{p.name}unitu': p for p in made.values()})
    v.patch('core.metric:identify', lambda s: (by[s], base))
    v.patch('core.metric:_NamedUnitMeta._instances', al.MutableMapping())
    v.patch('core.metric:_NamedUnitMeta._attributes', {})
    a, b, c = (m.NamedUnit(s) for s in ('xuu', 'yuu', 'zuu'))
    v.eq(m.ratio(a, b) * y, x, 'ratio')
    v.eq(m.ratio(a, b) * m.ratio(b, a), 1, 'ratios are reciprocal')
    v.eq(m.ratio(a, b) * m.ratio(b, c), m.ratio(a, c), 'ratios compose')
    v.eq(m.ratio(a, a), 1, 'ratio to itself')
    v.eq(a // b, m.ratio(b, a), 'a // b is the amount of a per b')
    v.eq('xuu' // b, m.ratio(b, a), 'str // unit')
    v.eq(a.scale, x, 'scale')
