"""C09: collection utilities keep their documented laws."""
import itertools

from pv.api import unit

NAMES = ['a', 'A', 'b', 'ab', '', 'c', 'a b', '1']
ODD = [0, 0.0, False, True, 1, 1.5, -3, 1j, None, '', 'a', 'text', '0', b'', b'ab', (), (1,), (1, 2), [], [0], ['a', 'b'], [[]], [[1]], [(1,)], ([1, 2],), {}, {'a': 1},
       set(), {1}, range(0), range(3), slice(None), Ellipsis, frozenset({2})]


def distinct(v, items):
    """The items without those equal to an earlier one (splits the path)."""
    out = []
    for x in items:
        if not any(x == y for y in out):
            out.append(x)
    return out


def number(v, name, lo, hi):
    """A length: chosen, so that symbolic runs cover each case."""
    return v.choice(name, list(range(lo, hi + 1)))


# -- unique -------------------------------------------------------------------
@unit('C09', 'unique', ['core.iterables.unique'], bound='up to 4 items; all items', samples=80)
def unique(v):
    I = v.mod('core.iterables')
    items = [v.atom(f'x{i}', NAMES) for i in range(number(v, 'n', 0, 4))]
    r = I.unique(*items)
    want = distinct(v, items)
    v.prove(len(r) == len(want), 'one of each', lambda: f'{items} -> {r}')
    for x, y in zip(r, want):
        v.prove(x is y, 'the first of each, in order', lambda: f'{items} -> {r}')


# -- tables -------------------------------------------------------------------
TABLE = ['core.iterables.Table']


def table(v, n, m):
    """n entries with m common columns; some entries have an extra one."""
    cols = ['name', 'kind', 'size'][:m]
    entries = [{c: v.atom(f'{c}{i}', NAMES) for c in cols} for i in range(n)]
    extra = v.choice('extra', ['none', 'first', 'last']) if n > 1 else 'none'
    if extra != 'none':
        entries[0 if extra == 'first' else -1]['more'] = 'extra value'
    return cols, entries


def lookup_spec(v, n, m, k):
    I = v.mod('core.iterables')
    cols, entries = table(v, n, m)
    T = I.Table(entries)
    order = list(v.choice('order', list(itertools.permutations(cols, k))))
    request = {c: v.atom(f'want {c}', NAMES) for c in order}
    # The documented search: narrow down until one entry is left.
    left, found = list(range(n)), None
    for c in order:
        left = [i for i in left if entries[i][c] == request[c]]
        if len(left) == 1 and found is None:
            found = left[0]
    every = [i for i in range(n) if all(entries[i][c] == request[c] for c in order)]
    say = lambda: f'{entries} {request}'
    if found is not None:
        v.prove(v.call(lambda: T(**request), 'one entry matches') is entries[found], 'the matching entry', say)
    elif left:
        v.raises(I.AmbiguousRequestError, lambda: T(**request), 'several entries match: ambiguous')
    else:
        v.raises(I.TableLookupError, lambda: T(**request), 'no entry matches: an error')
    if len(every) == 1:
        v.prove(v.call(lambda: T(strict=True, **request), 'one entry matches every criterion') is entries[every[0]], 'strict: the entry that matches every criterion', say)
    else:
        v.raises(I.TableLookupError, lambda: T(strict=True, **request), 'strict: none or several entries match')
    v.raises(I.TableKeyError, lambda: T(nothing=1), 'an unknown key is an error')
    v.raises(I.TableKeyError, lambda: T(more='extra value'), 'a key that some entries lack is an error') if n > 1 else None
    v.raises(I.TableKeyError, lambda: T(strict=True, nothing=1), 'strict: an unknown key is an error')
    v.prove([dict(e) for e in T] == [dict(e) for e in entries] and len(T) == n, 'the table is unchanged')


for n, m, k in [(1, 1, 1), (2, 1, 1), (3, 1, 1), (2, 2, 1), (2, 2, 2), (3, 2, 1), (3, 2, 2), (4, 2, 2)]:
    unit('C09', f'lookup_{n}_{m}_{k}', TABLE, bound=f'{n} entries of {m} columns, {k} criteria; all values', samples=25, thorough=(n == 4),
         assumes=['values are compared by equality only'])(lambda v, n=n, m=m, k=k: lookup_spec(v, n, m, k))


@unit('C09', 'lookup_many', TABLE, kind='bounded', bound='up to 8 entries of 3 columns over 3 values, 1 to 3 criteria', samples=400)
def lookup_many(v):
    few = ['a', 'b', 'c', 'd']
    I = v.mod('core.iterables')
    n = v.int('n', 0, 8)
    cols = ['name', 'kind', 'size', 'hue']
    entries = [{c: v.choice('v', few[:v.choice('spread', [2, 3, 4])]) for c in cols} for _ in range(n)]
    for e in entries:
        if v.rng.random() < .3:
            e['more'] = 'a'
    T = I.Table(v.choice('as', [list, tuple])(entries))
    order = v.rng.sample(cols, v.int('k', 1, 4))
    request = {c: v.choice('w', few) for c in order}
    if n and v.bool('aimed'):
        aim = v.rng.choice(entries)
        request = {c: aim[c] for c in order}
    say = lambda: f'{entries} {request}'
    if not n:
        v.raises((I.TableKeyError, I.TableLookupError), lambda: T(**request), 'an empty table has no entries')
        return
    left, found = entries, None
    for c in order:
        left = [e for e in left if e[c] == request[c]]
        if len(left) == 1:
            found = left[0]
            break
    if found is not None:
        v.prove(v.call(lambda: T(**request), 'one entry matches') is found, 'the matching entry', say)
    else:
        v.raises(I.AmbiguousRequestError if left else I.TableLookupError, lambda: T(**request), 'no single entry matches')
    every = [e for e in entries if all(e[c] == request[c] for c in order)]
    if len(every) == 1:
        v.prove(v.call(lambda: T(strict=True, **request), 'one entry matches') is every[0], 'strict: the matching entry', say)
    else:
        v.raises(I.TableLookupError, lambda: T(strict=True, **request), 'strict: no single entry matches')
    # Columns, and entries found by value.
    for c in cols:
        v.prove(T[c] == tuple(e[c] for e in entries), 'a column', say)
    common = set(entries[0]).intersection(*entries)
    v.prove(set(T.keys) == common, 'common keys', say)
    if 'more' not in common:
        v.raises(I.TableKeyError, lambda: T['more'], 'a key that some entries lack')
    v.prove(T.get('more', 5) == tuple(e.get('more', 5) for e in entries), 'values or default', say)
    x = v.choice('x', few)
    hits = [e for e in entries if x in e.values()]
    if not hits:
        v.raises(I.MissingValueError, lambda: T.find(x), 'no entry with the value')
        v.raises(I.MissingValueError, lambda: T.find(x, unique=True), 'no entry with the value')
    else:
        v.prove(len(T.find(x)) == len(hits) and all(a is b for a, b in zip(T.find(x), hits)), 'all entries with the value', say)
        if len(hits) == 1:
            v.prove(T.find(x, unique=True) is hits[0], 'the entry with the value', say)
        else:
            v.raises(I.AmbiguousValueError, lambda: T.find(x, unique=True), 'several entries with the value')


@unit('C09', 'columns', TABLE, bound='up to 3 entries of 2 columns; all values', samples=40)
def columns(v):
    I = v.mod('core.iterables')
    n = number(v, 'n', 1, 3)
    cols, entries = table(v, n, 2)
    T = I.Table(entries)
    x = v.atom('x', NAMES)
    for c in cols:
        r = T[c]
        v.prove(len(r) == n and all(a is e[c] for a, e in zip(r, entries)), 'a column holds one value per entry, in order')
        v.prove(T.get(c) == r, 'get a column')
    v.prove('name' in T.keys and 'kind' in T.keys, 'common keys')
    hits = [e for e in entries if any(y == x for y in e.values())]
    if hits:
        r = T.find(x)
        v.prove(len(r) == len(hits) and all(a is b for a, b in zip(r, hits)), 'find every entry with the value')
        if len(hits) == 1:
            v.prove(T.find(x, unique=True) is hits[0], 'find the entry with the value')
        else:
            v.raises(I.AmbiguousValueError, lambda: T.find(x, unique=True), 'several entries with the value')
    else:
        v.raises(I.MissingValueError, lambda: T.find(x), 'no entry with the value')


# -- bijections ---------------------------------------------------------------
@unit('C09', 'bijection', ['core.iterables.Bijection'], bound='up to 4 pairs; all keys and values', samples=80)
def bijection(v):
    I = v.mod('core.iterables')
    n = number(v, 'n', 0, 4)
    keys = [f'k{i}' for i in range(n)]
    vals = [v.atom(f'v{i}', NAMES) for i in range(n)]
    given = dict(zip(keys, vals))
    if len(distinct(v, vals)) < n:
        v.raises(I.InjectiveTypeError, lambda: I.Bijection(given), 'repeated values are refused')
        return
    b = v.call(lambda: I.Bijection(given), 'distinct values are accepted')
    v.prove(len(b) == n and sorted(b) == sorted(keys), 'the given keys')
    for k, x in given.items():
        v.prove(b[k] is x, 'the given values')
    i = b.invert()
    v.prove(len(i) == n, 'inverse: one pair each')
    for k, x in given.items():
        v.prove(i[x] == k, 'inverse: values lead to their keys')
    v.prove(i.invert() == b, 'the inverse of the inverse is the original')
    q = v.atom('q', NAMES)
    if not any(q == x for x in vals):
        v.raises(KeyError, lambda: i[q], 'inverse: an unknown value is missing')
    v.raises(KeyError, lambda: b['no such key'], 'an unknown key is missing')
    given['later'] = 'x'
    v.prove(len(b) == n and 'later' not in b, 'later changes of the source do not matter')


@unit('C09', 'bijection_similar', ['core.iterables.Bijection'], kind='bounded', bound='up to 5 pairs among values that look or compare alike', samples=150)
def bijection_similar(v):
    I = v.mod('core.iterables')
    pool = [1, '1', 1.0, True, 0, '', None, 'None', (1,), '(1,)', int, 'int', 'a', 'A']
    vals = [v.choice('value', pool) for _ in range(v.int('n', 0, 5))]
    given = {f'k{i}': x for i, x in enumerate(vals)}
    if len(set(vals)) < len(vals):
        v.raises(I.InjectiveTypeError, lambda: I.Bijection(given), 'repeated values are refused')
        return
    b = v.call(lambda: I.Bijection(given), 'distinct values are accepted')
    i = b.invert()
    v.prove(len(i) == len(b) == len(vals) and all(i[b[k]] == k and b[k] is x for k, x in given.items()), 'inverse: values lead to their keys', lambda: f'{given}')


# -- connections --------------------------------------------------------------
@unit('C09', 'connections', ['core.iterables.Connections'], bound='up to 2 edges; all nodes and all non-zero weights', samples=60)
def connections(v):
    I = v.mod('core.iterables')
    n = number(v, 'n', 0, 2)
    edges = []
    for i in range(n):
        w = v.real(f'w{i}')
        v.assume(w != 0)
        edges.append((v.atom(f's{i}', NAMES), v.atom(f'e{i}', NAMES), w))
    g = I.Connections()
    want = []
    for s, e, w in edges:
        g.add_connection(s, e, w)
        for a, b, x in ((s, e, w), (e, s, 1 / w)):
            if not any(a == p and b == q for p, q, _ in want):
                want.append((a, b, x))
    v.prove(len(g) == len(want), 'each link once', lambda: f'{edges} {g.connections}')
    for a, b, x in want:
        v.prove((a, b) in g, 'every link is there')
        v.eq(v.call(lambda: g.get_weight(a, b), 'weight of a link'), x, 'the weight given first, and its reciprocal backwards', rel=1e-12)
    q = v.atom('q', NAMES)
    near = [(b, x) for a, b, x in want if a == q]
    adj = g.get_adjacencies(q)
    v.prove(len(adj) == len(near) and all(b in adj for b, _ in near), 'the neighbours of a node')
    for b, x in near:
        v.eq(adj[b], x, 'weights of the neighbours', rel=1e-12)
    nodes = distinct(v, [x for s, e, _ in edges for x in (s, e)])
    v.prove(len(g.nodes) == len(nodes) and all(x in g.nodes for x in nodes), 'the nodes')
    if not any(a == q and b == 'nowhere' for a, b, _ in want):
        v.raises(KeyError, lambda: g.get_weight(q, 'nowhere'), 'no such link')


@unit('C09', 'connections_many', ['core.iterables.Connections'], kind='bounded', bound='up to 12 edges among 5 nodes, weights None and 0 included', samples=200)
def connections_many(v):
    I = v.mod('core.iterables')
    base = {}
    for _ in range(v.int('n', 0, 12)):
        base[(v.choice('s', 'abcde'), v.choice('e', 'abcde'))] = v.choice('w', [None, 0, 1, 2.5, -3, 1e-30, 1e30, 7])
    g = I.Connections(base) if base or v.bool('empty') else I.Connections()
    want = {}
    for (s, e), w in base.items():
        want.setdefault((s, e), w)
        want.setdefault((e, s), 1 / w if w else w)
    v.prove(set(g) == set(want) and len(g) == len(want), 'the links', lambda: f'{base} {g.connections}')
    for (s, e), w in want.items():
        v.prove(g.get_weight(s, e) == w, 'the weights', lambda: f'{base} {g.connections}')
    v.prove(g.nodes == {x for p in base for x in p}, 'the nodes')
    for x in 'abcdef':
        v.prove(g.get_adjacencies(x) == {e: w for (s, e), w in want.items() if s == x}, 'the neighbours', lambda: f'{base} {x} {g.get_adjacencies(x)}')
        for y in 'abcdef':
            v.prove(((x, y) in g) == ((x, y) in want), 'contains exactly the links')
            if (x, y) not in want:
                v.raises(KeyError, lambda: g.get_weight(x, y), 'no such link')


# -- registries ---------------------------------------------------------------
@unit('C09', 'registry', ['core.iterables.ObjectRegistry'], kind='bounded', bound='histories of up to 10 registrations, resets and copies with colliding names', samples=300)
def registry(v):
    I = v.mod('core.iterables')
    key = v.choice('key', ['object', 'method'])
    base = {}
    for name in v.choice('base', [(), ('this',), ('this', 'this_1'), ('f_1', 'f_3'), ('f', 'f_1', 'this')]):
        base[name] = v.choice('form', [[2, 3], {key: 5}, {key: 5, 'unit': 'm'}])
    r = I.ObjectRegistry(base, object_key=key) if key != 'object' or v.bool('explicit') else I.ObjectRegistry(base)
    first = {k: dict(x) if isinstance(x, dict) else {key: x} for k, x in base.items()}
    want = dict(first)
    copies = []
    for _ in range(v.int('n', 0, 10)):
        op = v.choice('op', ['plain', 'plain', 'named', 'meta', 'over', 'reset', 'copy'])
        if op == 'reset':
            r.reset()
            want = dict(first)
        elif op == 'copy':
            copies.append((r.copy(), dict(want)))
        else:
            def obj():
                pass
            obj.__name__ = obj.__qualname__ = v.choice('object', ['f', 'this', 'f_1', 'g'])
            name = v.choice('name', ['f', 'f_2', 'this_1', 'other']) if op in ('named', 'over') else None
            over = op == 'over'
            meta = {'unit': 'm', 'n': v.int('m', 0, 9)} if op == 'meta' else {}
            before = set(want)
            kw = {**({'name': name} if name else {}), **({'overwrite': True} if over else {}), **meta}
            got = r.register(obj) if not kw and v.bool('bare') else r.register(**kw)(obj) if v.bool('decorator') else r.register(obj, **kw)
            v.prove(got is obj, 'registering returns the object')
            new = [k for k in r if r[k].get(key) is obj]
            v.prove(len(new) == 1, 'the object is registered once', lambda: f'{r}')
            k = new[0]
            if name and (over or name not in before):
                v.prove(k == name, 'under the given name', lambda: f'{name} {k}')
            else:
                v.prove(k not in before, 'a default key never replaces another object', lambda: f'{k} in {before}')
                if obj.__name__ not in before:
                    v.prove(k == obj.__name__, 'under its own name', lambda: f'{k} {obj.__name__}')
                else:
                    v.prove(str(k).startswith(obj.__name__), 'under a name based on its own')
            v.prove(dict(r[k]) == {key: obj, **meta}, 'with its metadata')
            want[k] = {key: obj, **meta}
        v.prove(set(r) == set(want) and len(r) == len(want) and all(dict(r[k]) == want[k] for k in want), 'all objects are kept', lambda: f'{r} {want}')
    for c, x in copies:
        v.prove({k: dict(c[k]) for k in c} == x, 'copies are independent')
    v.raises(KeyError, lambda: r['no such key'], 'an unknown key is missing')


# -- guards -------------------------------------------------------------------
@unit('C09', 'guard', ['core.iterables.Guard'], kind='bounded', bound='exceptions of a 4-level hierarchy, up to 3 registered, up to 3 arguments', samples=300)
def guard(v):
    I = v.mod('core.iterables')
    class Own(KeyError):
        pass
    kinds = [Exception, ArithmeticError, ZeroDivisionError, LookupError, KeyError, IndexError, Own, ValueError, TypeError]
    hit = v.choice('raises', kinds + [None] * 3)
    result = object()
    calls = []
    def fn(*args, **kwargs):
        calls.append((args, kwargs))
        if hit is not None:
            raise hit('expected')
        return result
    g = I.Guard(fn)
    known = {}
    import numpy
    for _ in range(v.int('n', 0, 3)):
        e = v.choice('catch', kinds)
        if v.bool('default'):
            g.catch(e)
            known[e] = None
        else:
            known[e] = v.choice('value', [..., 0, 'Bad!', None, (), numpy.zeros(3)])
            g.catch(e, known[e])
    args = tuple(v.choice('arg', [1, 'a', None]) for _ in range(v.int('args', 0, 2)))
    kwargs = {k: 1 for k in 'xy'[:v.int('kwargs', 0, 2)]}
    if hit is None:
        v.prove(g.call(*args, **kwargs) is result, 'the result of the call')
    else:
        near = [e for e in hit.__mro__ if e in known]
        if not near:
            v.raises(hit, lambda: g.call(*args, **kwargs), 'an unknown exception propagates')
        else:
            got = v.call(lambda: g.call(*args, **kwargs), 'a known exception is caught')
            want = known[near[0]]
            if want is not ...:
                v.prove(got is want, 'the registered value', lambda: f'{got} {want}')
            else:
                want = (args, kwargs) if args and kwargs else kwargs if kwargs else args[0] if len(args) == 1 else args
                v.prove(got == want, 'the given arguments', lambda: f'{got} {want}')
    v.prove(calls == [(args, kwargs)], 'called exactly once with the given arguments')


# -- wrapping -----------------------------------------------------------------
def same(a, b):
    return type(a) is type(b) and (a is b or a == b)


@unit('C09', 'unwrap', ['core.iterables.unwrap', 'core.iterables.whole'], bound='wrapped up to 4 deep in any mix of lists and tuples; up to 3 items', samples=80)
def unwrap(v):
    I = v.mod('core.iterables')
    n = number(v, 'n', 0, 3)
    items = [v.atom(f'x{i}', NAMES) for i in range(n)]
    kind = v.choice('kind', [list, tuple])
    obj = kind(items)
    for i in range(number(v, 'depth', 0, 3)):
        obj = v.choice(f'w{i}', [lambda o: [o], lambda o: (o,)])(obj)
    r = I.unwrap(obj)
    if n == 1:
        v.prove(r is items[0], 'a single item is freed of all its wrappers')
    else:
        v.prove(isinstance(r, kind) and len(r) == n and all(a is b for a, b in zip(r, items)), 'several items keep one wrapper')
    for wrap in (list, tuple):
        w = I.unwrap(obj, wrap=wrap)
        v.prove(isinstance(w, wrap) and len(w) == n and all(a is b for a, b in zip(w, items)), 'the items in the given type, in order', lambda: f'{obj} -> {w}')


@unit('C09', 'whole', ['core.iterables.whole', 'core.iterables.distribute', 'core.iterables.unwrap', 'core.iterables.missing', 'core.iterables.naked', 'core.iterables.NonStrIterable'],
      kind='bounded', bound='32 kinds of objects and arrays of 0 to 2 dimensions', samples=300)
def whole(v):
    import numpy
    I = v.mod('core.iterables')
    x = v.choice('x', ODD + [numpy.zeros(0), numpy.zeros(3), numpy.zeros((2, 2)), numpy.zeros((2, 0)), numpy.arange(2)])
    def iterable(o):
        try:
            iter(o)
        except TypeError:
            return False
        return True
    array = isinstance(x, numpy.ndarray)
    v.prove(isinstance(x, I.whole) == (iterable(x) and not isinstance(x, (str, bytes))), 'whole: any iterable but a string', lambda: f'{x!r}')
    members = [] if x is None else [x] if isinstance(x, str) or not iterable(x) else list(x)
    w = I.whole(x)
    v.prove(len(w) == len(members) and all(a is b or numpy.all(a == b) for a, b in zip(w, members)), 'whole: the members, in order', lambda: f'{x!r} -> {list(w)}')
    if not array:
        v.prove(all(m in w for m in members) and object() not in w, 'whole: contains its members')
        r = I.unwrap([(x,)])
        inner = x
        while isinstance(inner, (list, tuple)) and len(inner) == 1:
            inner = inner[0]
        v.prove(same(r, inner), 'unwrap: any object', lambda: f'{x!r} -> {r!r}')
        v.prove(list(I.unwrap([(x,)], wrap=list)) == list(I.whole(inner)), 'unwrap: any object into a list', lambda: f'{x!r}')
    # Missing: null or empty, but not a number.
    want = x.size == 0 if array else False if isinstance(x, (int, float, complex)) else x is None or (hasattr(x, '__len__') and len(x) == 0)
    v.prove(bool(I.missing(x)) == want, 'missing: null or empty, never a number', lambda: f'{x!r} -> {I.missing(x)}')
    for shape in ((), (0,), (1,), (2, 0), (1, 1)):
        for fill in (0, 1.5, ''):
            a = numpy.full(shape, fill)
            v.prove(bool(I.missing(a)) == (a.size == 0), 'missing: an array without elements', lambda: f'{a!r}')
    v.prove(bool(I.naked(x)) == (x is Ellipsis or isinstance(x, (int, float, str, slice, range))), 'naked', lambda: f'{x!r}')
    y = v.choice('y', ODD)
    both = [isinstance(o, (list, tuple, dict, set, frozenset, range, numpy.ndarray)) for o in (x, y)]
    if not any(both):
        v.raises(TypeError, lambda: I.distribute(x, y), 'distribute: nothing to distribute over')
    elif not array:
        r = list(I.distribute(x, y))
        want = list(itertools.product(x if both[0] else [x], y if both[1] else [y]))
        v.prove(r == want, 'distribute: every pair, in order', lambda: f'{x!r} {y!r} -> {r}')
    items = [v.choice('i', ODD) for _ in range(v.int('n', 0, 6))]
    u = I.unique(*items)
    want = []
    for i in items:
        if i not in want:
            want.append(i)
    v.prove(len(u) == len(want) and all(a is b for a, b in zip(u, want)), 'unique: the first of each, in order', lambda: f'{items} -> {u}')
    nums = [v.int('k', 0, 3) for _ in range(v.int('n2', 0, 4))]
    shuffled = list(nums)
    v.rng.shuffle(shuffled)
    v.prove(I.whole(nums) == I.whole(shuffled), 'whole: equal members')
    v.prove(not I.whole(nums) == I.whole(nums + [5]) and I.whole(nums) != I.whole(nums + [5]), 'whole: different members')


@unit('C09', 'types', ['core.iterables.hastype', 'core.iterables.oftype', 'core.iterables.allinstance', 'core.iterables.class_attribute'], kind='bounded',
      bound='32 kinds of objects, up to 3 types and wrappers', samples=400)
def types(v):
    I = v.mod('core.iterables')
    x = v.choice('x', ODD + [[1, 2.0], [1, '2'], ('a', 'b'), [1, 2], (1, 2, 'x'), {1, 2}, [True, 1]])
    kinds = [int, float, str, list, tuple, bool, type(None), set, slice, dict]
    T = tuple(v.rng.sample(kinds, v.int('types', 1, 3)))
    W = tuple(v.rng.sample([list, tuple, set, dict, str], v.int('wrappers', 0, 3)))
    T = T[0] if len(T) == 1 and v.bool('bare') else T
    direct = isinstance(x, T)
    wrapped = isinstance(x, W)
    for strict in (False, True):
        want = direct or (wrapped and (all if strict else any)(isinstance(i, T) for i in x))
        got = I.hastype(x, T, *W, strict=strict) if strict or v.bool('explicit') else I.hastype(x, T, *W)
        v.prove(bool(got) == want, f'hastype strict={strict}', lambda: f'{x!r} {T} {W} -> {got}')
    args = [v.choice('arg', ODD) for _ in range(v.int('n', 1, 3))]
    t = v.choice('t', [int, str, list, float])
    v.prove(bool(I.allinstance(args, t)) == all(isinstance(a, t) for a in args), 'allinstance')
    if all(isinstance(a, t) for a in args):
        r = I.oftype(t)(*args)
        v.prove(r is args[0] if len(args) == 1 else list(r) == args, 'oftype: the accepted arguments')
    else:
        v.raises(TypeError, lambda: I.oftype(t)(*args), 'oftype: other types are refused')
    values = [v.choice('a', [1, 'ab', (2, 3), [4], None]) for _ in range(v.int('depth', 1, 4))]
    cls = object
    for i, a in enumerate(values):
        cls = type(f'C{i}', (cls,), {'attr': a})
    want = [y for a in values for y in ([] if a is None else [a] if isinstance(a, (str, int)) else a)]
    v.prove(I.class_attribute(cls, 'attr') == want, 'class_attribute: from the most basic class on', lambda: f'{values} -> {I.class_attribute(cls, "attr")}')
    v.prove(I.class_attribute(cls, 'no such attribute') == [], 'class_attribute: missing')


@unit('C09', 'lists', ['core.iterables.transpose_list', 'core.iterables.string_to_list', 'core.iterables.show_at_most', 'core.iterables.slice_to_range', 'core.iterables.pop',
                       'core.iterables.extract_single', 'core.iterables.get_nested_element', 'core.iterables.batch_replace', 'core.iterables.apply'], kind='bounded',
      bound='random lists of up to 7 items', samples=400)
def lists(v):
    I = v.mod('core.iterables')
    n, m = v.int('n', 1, 5), v.int('m', 0, 5)
    rows = [[(i, j) for j in range(m)] for i in range(n)]
    t = I.transpose_list(rows)
    v.prove(t == [[(i, j) for i in range(n)] for j in range(m)], 'transpose', lambda: f'{rows} -> {t}')
    if m:
        v.prove(I.transpose_list(t) == rows, 'transposing twice')
    nums = [v.choice('num', [0, 1, -2, 3.5, -1e-3, 2e30, 1 + 2j, 12345678901234567890]) for _ in range(v.int('k', 0, 5))]
    def write(x):
        s = str(x).strip('()')
        s = f"'{s}'" if v.bool('quoted') else s
        return ' ' * v.int('pad', 0, 2) + s + ' ' * v.int('pad2', 0, 2)
    s = '[' + ','.join(write(x) for x in nums) + ']'
    r = v.call(lambda: I.string_to_list(s), 'read a list')
    v.prove(len(r) == len(nums) and all(type(a) is type(b) and a == b for a, b in zip(r, nums)), 'string_to_list: the numbers written', lambda: f'{s!r} -> {r}')
    bad = v.choice('bad', ['1, 2', '', '[1', '1]', '(1, 2)', '[a]', '[1, b]', '{1}', '[1, two]'])
    v.raises(TypeError, lambda: I.string_to_list(bad), 'string_to_list: anything else is an error')
    seq = [v.choice('item', ['a', 'b', 1, 2]) for _ in range(v.int('len', 0, 7))]
    k, sep = v.int('at most', 1, 7), v.choice('sep', [',', ', ', ' '])
    got = I.show_at_most(k, iter(seq) if v.bool('iter') else seq, sep)
    want = seq if len(seq) <= k else seq[:k - 1] + ['...', seq[-1]]
    v.prove(got == sep.join(map(str, want)), 'show_at_most', lambda: f'{k} {seq} -> {got!r}')
    a, b, c = v.choice('start', [None, 0, 1, 2, 7]), v.choice('stop', [None, 0, 3, 6]), v.choice('step', [None, 1, 2, -1, -3])
    size = v.int('size', 0, 9)
    got = I.slice_to_range(slice(a, b, c), size)
    v.prove(list(got) == list(range(a or 0, size if b is None else b, c or 1)), 'slice_to_range', lambda: f'{a, b, c, size} -> {got}')
    v.raises(TypeError, lambda: I.slice_to_range(slice(None), None), 'slice_to_range: no end')
    left = list(seq)
    got = I.pop(left, 'default')
    v.prove(got == (seq[0] if seq else 'default') and left == seq[1:], 'pop: the first item or the default')
    one = v.choice('one', [(1,), [2], 'a', (), [], [1, 2], 'ab', 5, None])
    got = I.extract_single(one)
    v.prove(same(got, one[0] if hasattr(one, '__len__') and len(one) == 1 else one), 'extract_single', lambda: f'{one!r} -> {got!r}')
    path = [v.choice('level', 'abc') for _ in range(v.int('levels', 1, 4))]
    nested = leaf = object()
    for p in reversed(path):
        nested = {p: nested, 'other': {p: 0}}
    v.prove(I.get_nested_element(nested, path) is leaf, 'get_nested_element')
    v.raises(KeyError, lambda: I.get_nested_element(nested, [*path[:-1], 'zzz']), 'get_nested_element: missing')
    text = ''.join(v.choice('char', 'abcd ') for _ in range(v.int('text', 0, 8)))
    rep = {x: x.upper() + 'x' for x in v.rng.sample('abcd', v.int('rep', 0, 4))}
    v.prove(I.batch_replace(text, rep) == ''.join(rep.get(x, x) for x in text), 'batch_replace', lambda: f'{text!r} {rep}')
    results = [v.choice('result', [None, 0, '', (), 5, 'yes', [1]]) for _ in range(v.int('methods', 0, 4))]
    called = []
    def method(i):
        return lambda *args, **kw: (called.append((i, args, kw)), results[i])[1]
    got = I.apply([method(i) for i in range(len(results))], 1, x=2)
    first = next((i for i, x in enumerate(results) if x), None)
    v.prove(got is None if first is None else got is results[first], 'apply: the first result', lambda: f'{results} -> {got}')
    v.prove(called == [(i, (1,), {'x': 2}) for i in range(len(results) if first is None else first + 1)], 'apply: no further calls')


@unit('C09', 'mappings', ['core.iterables.UniformMapping', 'core.iterables.MappingBase', 'core.iterables.CollectionMixin', 'core.iterables.Singleton', 'core.iterables.NothingType',
                          'core.iterables.InstanceSet'], kind='bounded', bound='up to 4 entries', samples=100)
def mappings(v):
    import typing
    I = v.mod('core.iterables')
    class Pair(typing.NamedTuple):
        value: int
        name: str
    class Plain:
        def __init__(self, value, name):
            self.value, self.name = value, name
    m = {k: {f: v.choice('v', [1, 'x', None, 0, '', (), 2.5]) for f in v.rng.sample(['value', 'name', 'other'], v.int('fields', 0, 3))} for k in v.rng.sample('abcd', v.int('n', 0, 4))}
    for T in (Pair, Plain):
        u = I.UniformMapping(m, T)
        v.prove(set(u) == set(m) and len(u) == len(m), 'uniform mapping: the keys')
        for k in m:
            r = u[k]
            v.prove(type(r) is T and r.value == m[k].get('value') and r.name == m[k].get('name'), 'uniform mapping: the values', lambda: f'{k} {m}')
        v.raises(KeyError, lambda: u['z'], 'uniform mapping: missing')
    class Coll(I.CollectionMixin):
        def __init__(self):
            self.collect('members')
    c = Coll()
    v.prove(len(c) == 0 and list(c) == [] and 'a' not in c, 'collection: empty until assigned')
    c.members = dict(m)
    v.prove(len(c) == len(m) and list(c) == list(m) and all(k in c for k in m), 'collection: follows its members')
    c.members['new'] = 1
    v.prove(len(c) == len(m) + 1 and 'new' in c, 'collection: follows updates')
    N = I.Nothing
    v.prove(N is I.NothingType() and N[v.choice('i', ODD[:8])] is None and N(1, x=2) is None and len(N) == 0 and 1 not in N and list(N) == [] and not N, 'nothing')
    class Key(I.InstanceSet):
        def _generate_key(self, *args, **kwargs):
            return (self.__name__, args[0])
    cls = Key(f'K{v.rng.random()}', (), {'__init__': lambda self, x: None})
    v.prove(cls(1) is cls(1) and cls(1) is not cls(2) and cls(2) is cls(2), 'instance set: one instance per key')
