"""C17: constants and elements are mutually consistent tables."""
import math
import re

from pv.api import unit
from contracts.util_units import U, Z, named

CONST = ['core.fundamental.CONSTANTS', 'core.physical.Constants', 'core.physical.Scalar', 'core.fundamental._normalize']
ELEM = ['core.fundamental.elements', 'core.fundamental.get_mass_indices', 'core.fundamental.ELEMENTS', 'core.iterables.Table.find']

# accepted values (SI, CODATA 2018 and IAU), the Gaussian ones where they differ, and the units
# name: (SI value, SI unit, Gaussian value, Gaussian unit, tolerance)
ACCEPTED = {
    'pi': (math.pi, '1', math.pi, '1', 1e-12),
    'k': (1.380649e-23, 'J / K', 1.380649e-16, 'erg / K', 1e-4),
    'e': (1.602176634e-19, 'C', 4.80320471e-10, 'statC', 1e-4),
    'me': (9.1093837015e-31, 'kg', 9.1093837015e-28, 'g', 1e-4),
    'mp': (1.67262192369e-27, 'kg', 1.67262192369e-24, 'g', 1e-4),
    'G': (6.67430e-11, 'm^3 / (s^2 * kg)', 6.67430e-8, 'cm^3 / (s^2 * g)', 3e-4),
    'g': (9.80665, 'm / s^2', 980.665, 'cm / s^2', 1e-4),
    'h': (6.62607015e-34, 'J * s', 6.62607015e-27, 'erg * s', 1e-4),
    'c': (299792458.0, 'm / s', 29979245800.0, 'cm / s', 1e-4),
    'epsilon0': (8.8541878128e-12, 'F / m', 1.0, '1', 1e-4),
    'mu0': (1.25663706212e-6, 'H / m', 1.0, '1', 1e-4),
    'Rinfinity': (10973731.568160, '1 / m', 109737.31568160, '1 / cm', 1e-4),
    'a0': (5.29177210903e-11, 'm', 5.29177210903e-9, 'cm', 1e-4),
    're': (2.8179403262e-15, 'm', 2.8179403262e-13, 'cm', 1e-4),
    'alpha': (7.2973525693e-3, '1', 7.2973525693e-3, '1', 1e-4),
    'c1': (3.741771852e-16, 'W * m^2', 3.741771852e-5, 'erg * cm^2 / s', 1e-4),
    'c2': (1.438776877e-2, 'm * K', 1.438776877, 'cm * K', 1e-4),
    'sigma': (5.670374419e-8, 'W / (m^2 * K^4)', 5.670374419e-5, 'erg / (s * cm^2 * K^4)', 1e-4),
    'eV': (1.602176634e-19, 'J', 1.602176634e-12, 'erg', 1e-4),
    'amu': (1.66053906660e-27, 'kg', 1.66053906660e-24, 'g', 1e-4),
    'au': (149597870700.0, 'm', 14959787070000.0, 'cm', 1e-4),
    'H+': (13.598434005136 * 1.602176634e-19, 'J', 13.598434005136 * 1.602176634e-12, 'erg', 2e-4),
}


@unit('C17', 'values', CONST, kind='finite', samples=1)
def accepted(v):
    P, F = v.mod('core.physical'), v.mod('core.fundamental')
    for spelled in ('mks', 'MKS', 'cgs', 'CGS'):
        system = spelled.lower()
        constants = v.call(lambda: P.Constants(spelled), 'the constants of a system')
        v.prove(set(constants) == set(ACCEPTED) and len(constants) == len(ACCEPTED), 'every constant is defined', lambda: str(set(constants) ^ set(ACCEPTED)))
        for name, row in ACCEPTED.items():
            value, u, tol = (row[0], row[1], row[4]) if system == 'mks' else (row[2], row[3], row[4])
            x = v.call(lambda: constants[name], 'a constant')
            v.eq(float(x), value, 'a constant has its accepted value', rel=tol)
            v.prove(same_unit(x.unit, u, system), 'a constant has its unit', lambda: f'{name} [{system}]: {x.unit} instead of {u}')
            v.prove(float(F.CONSTANTS[name][system]['value']) == float(x) and same_unit(F.CONSTANTS[name][system]['unit'], x.unit, system),
                    'the table of constants agrees with the constant', name)
        for absent in ('', 'Z', 'C', 'hbar', 'K', 'eV ', 'M_sun', 'mks', 'value', 0, None):
            v.raises(KeyError, lambda: constants[absent], 'an unknown constant is an error')
            v.prove(absent not in constants, 'an unknown constant is not present', str(absent))
    for system in ('', 'si', 'foo'):
        v.raises(Exception, lambda: P.Constants(system)['c'], 'a constant of an unknown system is an error')


class Magnitude:
    """A number of units with a dimension."""

    def __init__(self, f, d):
        self.f, self.d = f, tuple(d)

    def __mul__(self, o):
        return Magnitude(self.f * getattr(o, 'f', o), [x + y for x, y in zip(self.d, getattr(o, 'd', Z))])

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * (o if isinstance(o, Magnitude) else Magnitude(o, Z))**-1

    def __rtruediv__(self, o):
        return o * self**-1

    def __pow__(self, n):
        return Magnitude(self.f**n, [x * n for x in self.d])


def magnitude(text, gaussian):
    """The meaning of a unit, read independently of goats."""
    space = {}
    for p in ('', 'k', 'c'):
        for u in U:
            _, f, d, g, e = named(p, u)
            space.setdefault(p + u, Magnitude(g, e) if gaussian else Magnitude(f, d))
    s = re.sub(r'\^', '**', str(text).strip())
    s = re.sub(r'(?<=[\w)])\s+(?=[\w(])', ' * ', s)
    m = eval(s, {'__builtins__': {}}, space)
    return m if isinstance(m, Magnitude) else Magnitude(m, Z)


def same_unit(got, want, system):
    a, b = (magnitude(x, system == 'cgs') for x in (got, want))
    return a.d == b.d and abs(a.f / b.f - 1) < 1e-9


@unit('C17', 'conversions', CONST + ['core.metric.conversion', 'core.measurable.Quantity.__getitem__'], kind='finite', samples=1)
def mutual(v):
    P = v.mod('core.physical')
    mks, cgs = P.Constants('mks'), P.Constants('cgs')
    for name in ACCEPTED:
        if name in ('epsilon0', 'mu0'):
            continue
        a, b = mks[name], cgs[name]
        there = v.call(lambda: a[str(b.unit)], 'a constant converts from one system to the other')
        back = v.call(lambda: b[str(a.unit)], 'a constant converts from one system to the other')
        v.eq(float(there), float(b), 'the values of a constant convert to each other', rel=2e-5)
        v.eq(float(back), float(a), 'the values of a constant convert to each other', rel=2e-5)
        v.prove(there.unit == b.unit and back.unit == a.unit, 'a converted constant has the unit', name)
        v.eq(float(mks[name]), ACCEPTED[name][0], 'a conversion does not change the table', rel=ACCEPTED[name][4])
        v.eq(float(cgs[name]), ACCEPTED[name][2], 'a conversion does not change the table', rel=ACCEPTED[name][4])


@unit('C17', 'identities', CONST, kind='finite', samples=1)
def identities(v):
    P = v.mod('core.physical')
    for system in ('mks', 'cgs'):
        x = {k: float(y) for k, y in P.Constants(system).items()}
        hbar = x['h'] / (2 * math.pi)
        coulomb = x['e']**2 / (4 * math.pi * x['epsilon0']) if system == 'mks' else x['e']**2
        for name, want in {
            'alpha': coulomb / (hbar * x['c']), 'a0': hbar / (x['me'] * x['c'] * x['alpha']), 're': x['alpha']**2 * x['a0'],
            'Rinfinity': x['alpha']**2 * x['me'] * x['c'] / (2 * x['h']), 'c1': 2 * math.pi * x['h'] * x['c']**2, 'c2': x['h'] * x['c'] / x['k'],
            'sigma': 2 * math.pi**5 * x['k']**4 / (15 * x['h']**3 * x['c']**2),
            'H+': 13.6 * x['eV'],
        }.items():
            v.eq(x[name], want, 'the constants satisfy their relations', rel=2e-4)
        if system == 'mks':
            v.eq(x['epsilon0'] * x['mu0'] * x['c']**2, 1, 'the constants satisfy their relations', rel=1e-4)
            v.eq(x['eV'], x['e'], 'the constants satisfy their relations', rel=1e-5)


# -- elements ------------------------------------------------------------------------
TABLE = '''H 1.008 Hydrogen; He 4.0026 Helium; Li 6.94 Lithium; Be 9.0122 Beryllium; B 10.81 Boron; C 12.011 Carbon; N 14.007 Nitrogen; O 15.999 Oxygen; F 18.998 Fluorine; Ne 20.180 Neon;
Na 22.990 Sodium; Mg 24.305 Magnesium; Al 26.982 Aluminum; Si 28.085 Silicon; P 30.974 Phosphorus; S 32.06 Sulfur; Cl 35.45 Chlorine; K 39.098 Potassium; Ar 39.95 Argon; Ca 40.078 Calcium;
Sc 44.956 Scandium; Ti 47.867 Titanium; V 50.942 Vanadium; Cr 51.996 Chromium; Mn 54.938 Manganese; Fe 55.845 Iron; Ni 58.693 Nickel; Co 58.933 Cobalt; Cu 63.546 Copper; Zn 65.38 Zinc;
Ga 69.723 Gallium; Ge 72.630 Germanium; As 74.922 Arsenic; Se 78.971 Selenium; Br 79.904 Bromine; Kr 83.798 Krypton; Rb 85.468 Rubidium; Sr 87.62 Strontium; Y 88.906 Yttrium; Zr 91.224 Zirconium;
Nb 92.906 Niobium; Mo 95.95 Molybdenum; Tc 98 Technetium; Ru 101.07 Ruthenium; Rh 102.91 Rhodium; Pd 106.42 Palladium; Ag 107.87 Silver; Cd 112.41 Cadmium; In 114.82 Indium; Sn 118.71 Tin;
Sb 121.76 Antimony; I 126.90 Iodine; Te 127.60 Tellurium; Xe 131.29 Xenon; Cs 132.91 Cesium; Ba 137.33 Barium; La 138.91 Lanthanum; Ce 140.12 Cerium; Pr 140.91 Praseodymium; Nd 144.24 Neodymium;
Pm 145 Promethium; Sm 150.36 Samarium; Eu 151.96 Europium; Gd 157.25 Gadolinium; Tb 158.93 Terbium; Dy 162.50 Dysprosium; Ho 164.93 Holmium; Er 167.26 Erbium; Tm 168.93 Thulium; Yb 173.05 Ytterbium;
Lu 174.97 Lutetium; Hf 178.49 Hafnium; Ta 180.95 Tantalum; W 183.84 Tungsten; Re 186.21 Rhenium; Os 190.23 Osmium; Ir 192.22 Iridium; Pt 195.08 Platinum; Au 196.97 Gold; Hg 200.59 Mercury;
Tl 204.38 Thallium; Pb 207.2 Lead; Bi 208.98 Bismuth; Po 209 Polonium; At 210 Astatine; Rn 222 Radon; Fr 223 Francium; Ra 226 Radium; Ac 227 Actinium; Pa 231.04 Protactinium; Th 232.04 Thorium;
Np 237 Neptunium; U 238.03 Uranium; Pu 242 Plutonium; Am 243 Americium; Bk 247 Berkelium; Cm 247 Curium; No 250 Nobelium; Cf 251 Californium; Es 252 Einsteinium; Hs 255 Hassium; Mt 256 Meitnerium;
Fm 257 Fermium; Md 258 Mendelevium; Lr 260 Lawrencium; Rf 261 Rutherfordium; Bh 262 Bohrium; Db 262 Dubnium; Sg 263 Seaborgium'''
ELEMENTS = {s: (float(m), n) for s, m, n in (x.split() for x in TABLE.split(';'))}


def numbers(v):
    """The mass number of each element, in order of mass."""
    F = v.mod('core.fundamental')
    return {x['symbol']: round(float(x['mass'])) for x in F.ELEMENTS}


@unit('C17', 'table_of_elements', ELEM, kind='finite', samples=1)
def table(v):
    F = v.mod('core.fundamental')
    rows = list(F.ELEMENTS)
    v.prove(len(rows) == len(ELEMENTS) and {x['symbol'] for x in rows} == set(ELEMENTS), 'each element is listed once', lambda: str({x['symbol'] for x in rows} ^ set(ELEMENTS)))
    v.prove(len({x['name'] for x in rows}) == len(rows), 'each element has its own name')
    masses = [float(x['mass']) for x in rows]
    v.prove(masses == sorted(masses), 'the elements are in order of mass')
    for symbol, (mass, name) in ELEMENTS.items():
        for kind, key in (('symbol', symbol), ('name', name)):
            found = v.call(lambda: F.ELEMENTS.find(key, unique=True), 'an element is found')
            v.prove(found['symbol'] == symbol and found['name'] == name, 'an element has its symbol and name', lambda: f'{key}: {found}')
            v.eq(float(found['mass']), mass, 'an element has its accepted mass', rel=1e-3)
            again = v.call(lambda: F.ELEMENTS(**{kind: key}), 'an element is found')
            v.prove(again['symbol'] == symbol and again['name'] == name, 'an element has its symbol and name', lambda: f'{key}: {again}')
    for absent in ('Xx', 'h', 'Unobtainium', ''):
        v.raises(Exception, lambda: F.ELEMENTS.find(absent, unique=True), 'an unknown element is an error')
        v.raises(Exception, lambda: F.ELEMENTS(symbol=absent), 'an unknown element is an error')


def first(nums, n):
    return next((s for s, m in nums.items() if m == n), None)


@unit('C17', 'ions', ELEM, kind='finite', samples=1)
def ions(v):
    F = v.mod('core.fundamental')
    nums = numbers(v)
    for n in range(0, 300):
        want = first(nums, n)
        for q in list(range(-4, 9)) + [20, 28]:
            for m, c in ((n, q), (float(n), float(q)), ([n], [q])):
                if want is None:
                    v.raises(F.MassValueError, lambda: F.elements(m, c), 'a mass without an element is an error')
                    break
                got = v.call(lambda: F.elements(m, c), 'the species of a mass and charge')
                v.prove(got == [want + ('+' * q if q > 0 else '-' * -q)], 'a species is the element of that mass with a sign per unit charge', lambda: f'{m}, {c}: {got}')
                base = got[0].rstrip('+-')
                v.prove(round(float(F.ELEMENTS.find(base, unique=True)['mass'])) == n and got[0].count('+') - got[0].count('-') == q, 'mass and charge are recovered from the species', str(got))


@unit('C17', 'species', ['core.plasma.Species', 'core.fundamental.elements', 'core.iterables.Table.find'], kind='finite', samples=1)
def species(v):
    """A species gives back the mass and charge that its symbol stands for."""
    F, S = v.mod('core.fundamental'), v.mod('core.plasma').Species
    nums = numbers(v)
    known = {row['symbol']: row for row in F.ELEMENTS}
    for base, row in known.items():
        for q in range(-3, 8):
            text = base + ('+' * q if q > 0 else '-' * -q)
            s = v.call(lambda: S(text), 'a species')
            say = lambda: f'{text}: {s.mass}, {s.charge}'
            v.prove(s.symbol == text, 'a species has its symbol', say)
            for m in (v.call(lambda: s.mass, 'the mass of a species'), s.m):
                v.prove(float(m) == float(row['mass']) and m.unit == 'nucleon', 'the mass of a species is that of its element', say)
            for c in (v.call(lambda: s.charge, 'the charge of a species'), s.q):
                v.prove(float(c) == q and c.unit == 'e', 'the charge of a species is one per sign', say)
            v.prove(s.symbol == text, 'reading a species does not change it', say)
            if first(nums, nums[base]) == base:
                t = v.call(lambda: S(mass=float(row['mass']), charge=q), 'a species of a mass and charge')
                v.prove(t.symbol == text, 'a species of a mass and charge has the symbol of the nearest element', lambda: f'{row["mass"]}, {q}: {t.symbol}')
                v.prove(float(t.mass) == float(row['mass']) and float(t.charge) == q, 'a species has the given mass and charge', lambda: f'{t}')
    for bad in ('Xx', 'Xx+', '', '+'):
        v.raises(Exception, lambda: S(bad).mass, 'an unknown element has no mass')
    v.raises(ValueError, lambda: S(), 'a species needs a definition')


@unit('C17', 'ion_masses', ELEM, bound='charges -2 and 3 (other charges: ions, several_ions); all masses', samples=200)
def masses(v):
    """Any mass nearer to a mass number than to the next gives the same species."""
    F = v.mod('core.fundamental')
    nums = numbers(v)
    q = v.choice('charge', [-2, 3])
    m = v.real('mass', lo=0, hi=300)
    if v.symbolic:
        got = v.call(lambda: outcome(F, m, q), 'the species of a mass and charge')
    else:
        n = v.choice('mass number', sorted(set(nums.values())) + [5, 290])
        m = n + (.98 * (v.real('offset', lo=0, hi=1)) - .49)
        got = outcome(F, m, q)
    near = lambda n: v.and_(m > n - .5, m < n + .5)
    for n in set(nums.values()):
        v.assume(v.and_(m != n - .5, m != n + .5))
    if got is None:
        v.prove(v.and_(*[v.not_(near(n)) for n in set(nums.values())]), 'a mass of an element has a species', lambda: f'{m}, {q}: {got}')
    else:
        base = got[0].rstrip('+-')
        v.prove(len(got) == 1 and base in nums and first(nums, nums[base]) == base and got[0][len(base):] == ('+' * q if q > 0 else '-' * -q),
                'a species is the first element of its mass number with a sign per unit charge', lambda: f'{m}, {q}: {got}')
        v.prove(near(nums[base]), 'a species has the nearest mass number', lambda: f'{m}, {q}: {got}')


def outcome(F, m, q):
    try:
        return F.elements(m, q)
    except F.MassValueError:
        return None


@unit('C17', 'several_ions', ELEM, kind='bounded', bound='up to 6 species, random masses and charges', samples=300)
def several(v):
    import numpy
    F = v.mod('core.fundamental')
    nums = numbers(v)
    known = sorted(set(nums.values()))
    k = v.rng.randint(1, 6)
    ns, qs = [v.rng.choice(known) for _ in range(k)], [v.rng.randint(-3, 12) for _ in range(k)]
    noise = v.rng.choice([0, 1e-9, .01, .3, .9])
    ms, cs = [n + noise * (v.rng.random() - .5) for n in ns], [q + noise * (v.rng.random() - .5) for q in qs]
    kind = v.rng.choice([list, tuple, numpy.array])
    a, b = kind(ms), kind(cs)
    got = v.call(lambda: F.elements(a, b), 'the species of masses and charges')
    v.prove(got == [first(nums, n) + ('+' * q if q > 0 else '-' * -q) for n, q in zip(ns, qs)], 'each species is that of its own mass and charge', lambda: f'{ms} {cs}: {got}')
    v.prove(list(a) == ms and list(b) == cs, 'the masses and charges are unchanged')
    v.raises(TypeError, lambda: F.elements(ms + [1.0], cs), 'masses without charges are an error')
    v.raises(TypeError, lambda: F.elements(ms, cs + [1.0]), 'charges without masses are an error')
    bad = v.rng.choice([n for n in range(300) if n not in known])
    ms[v.rng.randrange(k)] = bad
    v.raises(F.MassValueError, lambda: F.elements(ms, cs), 'a mass without an element is an error')


# -- parameters with and without a unit ----------------------------------------------
CONSTANT = ['core.constant.Interface.__getitem__', 'core.constant.Assumption', 'core.constant.Option', 'core.physical.Vector']


@unit('C17', 'parameters', CONSTANT, bound='2 measurable parameters (of 1 and 3 values), 2 options; all values', samples=100)
def parameters(v):
    C, P = v.mod('core.constant'), v.mod('core.physical')
    x, ys = v.real('x'), v.reals('y', 3)
    interface = v.call(lambda: C.Interface({
        ('length', 'l'): {'value': [x], 'unit': 'km'}, 'times': {'value': ys, 'unit': 's'}, ('mode', 'm'): {'value': 'fast', 'unit': None}, 'count': {'value': 3, 'unit': None},
        'plain': {'value': x, 'unit': 's'}, 'zero': {'value': 0, 'unit': 'm'},
    }), 'an interface to parameters')
    for name in ('length', 'l'):
        a = v.call(lambda: interface[name], 'a parameter')
        v.prove(isinstance(a, C.Assumption) and a.unit == 'km' and len(a) == 1, 'a parameter with a unit is an assumption', lambda: str(a.unit))
        v.eq(a.data[0], x, 'an assumption has its value')
        v.eq(v.call(lambda: a['m'], 'a converted assumption').data[0], 1000 * x, 'an assumption converts to another unit')
        v.eq(a.data[0], x, 'an assumption has its value')
        s = v.call(lambda: a[0], 'a value of an assumption')
        v.prove(isinstance(s, P.Scalar) and s.unit == 'km', 'a value of an assumption has the unit')
        v.eq(s.data, x, 'a value of an assumption')
        v.eq(v.call(lambda: a.__float__(), 'a number from an assumption'), x, 'a number from an assumption')
        v.prove('length' in a.name and 'l' in a.name, 'an assumption has all its names')
    v.eq(interface['plain'].data[0], x, 'an assumption has its value')
    v.prove(interface['plain'].unit == 's' and interface['zero'].unit == 'm' and interface['zero'].data[0] == 0, 'a parameter with a unit is an assumption')
    t = interface['times']
    for i in (0, 1, 2, -1):
        v.eq(t[i].data, ys[i], 'a value of an assumption')
    part = v.call(lambda: t[1:], 'values of an assumption')
    v.prove(len(part) == 2 and all(p.unit == 's' for p in part), 'values of an assumption have the unit')
    for p, y in zip(part, ys[1:]):
        v.eq(p.data, y, 'values of an assumption')
    v.raises(TypeError, lambda: float(t), 'several values are not a number')
    v.raises(TypeError, lambda: int(t), 'several values are not a number')
    for name in ('mode', 'm'):
        o = interface[name]
        v.prove(isinstance(o, C.Option) and o.value == 'fast' and o == 'fast' and not o == 'slow', 'a parameter without a unit is an option')
    v.prove(interface['count'] == 3 and interface['count'].value == 3 and not interface['count'] == 4, 'a parameter without a unit is an option')
    for absent in ('', 'len', 'value', 'unit', 'L'):
        v.raises(KeyError, lambda: interface[absent], 'an unknown parameter is an error')
