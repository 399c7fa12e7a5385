"""C08: aliased mappings behave as one key per group of names."""
import itertools

from pv.api import unit

MAPPING = ['core.aliased.Mapping.__init__', 'core.aliased.Mapping.__getitem__', 'core.aliased.Mapping._resolve', 'core.aliased.Mapping._flat_keys',
           'core.aliased.Mapping.__contains__', 'core.aliased.Mapping.alias', 'core.aliased.Mapping.flat', 'core.aliased.Mapping.copy',
           'core.aliased.Mapping.__eq__', 'core.aliased.KeysView', 'core.aliased.ValuesView', 'core.aliased.ItemsView', 'core.aliased.Group',
           'core.aliased._build_mapping', 'core.aliased._build_from_aliases']
MUTABLE = MAPPING + ['core.aliased.MutableMapping.__setitem__', 'core.aliased.MutableMapping.__delitem__', 'core.aliased.MutableMapping.alias',
                     'core.aliased.MutableMapping._refresh']
PATTERNS = [(), (1,), (2,), (1, 1), (2, 1), (1, 2), (3,), (2, 2), (1, 1, 1)]


class Value:
    """An opaque value."""
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return f'<value {self.n}>'


NAMES = ['a', 'A', 'b', 'B', 'ab', 'aB', 'c', 'c0', '', 'a b', '1', 'x', 'y', 'a | b', 'aliases', 'A = a']


def names(v, tag, n):
    """n arbitrary, distinct names."""
    if v.symbolic:
        out = [v.atom(f'{tag}{i}') for i in range(n)]
        for a, b in itertools.combinations(out, 2):
            v.assume(v.not_(v.same(a, b)))
        return out
    pool = list(NAMES)
    v.rng.shuffle(pool)
    return pool[:n]


def groups(v, pattern, tag='k'):
    """A state: disjoint groups of names with a value each."""
    flat = names(v, tag, sum(pattern))
    out, at = [], 0
    for i, n in enumerate(pattern):
        out.append((flat[at:at + n], Value(f'{tag}{i}')))
        at += n
    return out


def key(g):
    return g[0] if len(g) == 1 else tuple(g)


def build(v, state, cls='Mapping'):
    return v.attr(v.mod('core.aliased'), cls)({key(g): x for g, x in state})


def where(state, k):
    """The index of the group that holds k (splits the path)."""
    for i, (g, _) in enumerate(state):
        if any(n == k for n in g):
            return i


def setlike(a, b):
    a, b = list(a), list(b)
    return len(a) == len(b) and all(any(x == y for y in b) for x in a) and all(any(x == y for x in a) for y in b)


def holds(v, m, state, label, others=()):
    """The whole observable content of a mapping is the given state."""
    flat = [n for g, _ in state for n in g]
    v.prove(len(m) == len(flat), f'{label}: counts each name once', lambda: f'{len(m)} != {len(flat)}: {m!r}')
    v.prove(setlike(list(m), flat), f'{label}: iterates each name once', lambda: f'{list(m)} {flat}')
    v.prove(setlike(list(m.keys()), flat) and len(m.keys()) == len(flat), f'{label}: keys')
    for g, x in state:
        for n in g:
            v.prove(v.call(lambda: m[n], f'{label}: every name is found') is x, f'{label}: all names of a group reach its value')
            v.prove(n in m, f'{label}: every name is contained')
            v.prove(m.get(n) is x, f'{label}: get')
            v.prove(setlike(m.alias(n, include=True), g), f'{label}: names of the group')
            v.prove(setlike(m.alias(n), [o for o in g if o is not n]), f'{label}: other names of the group')
    items = list(m.items(aliased=True))
    v.prove(len(items) == len(state) and len(m.items(aliased=True)) == len(state), f'{label}: each group once', lambda: f'{items}')
    for g, x in state:
        found = [(k, y) for k, y in items if setlike(list(k), g)]
        v.prove(len(found) == 1 and found[0][1] is x, f'{label}: each group with its value')
        grouped = [k for k in m.keys(aliased=True) if setlike(list(k), g)]
        v.prove(len(grouped) == 1, f'{label}: grouped keys')
        v.prove(v.call(lambda: m[grouped[0]], f'{label}: a group is a key') is x, f'{label}: a group is a key')
    values = list(m.values(aliased=True))
    v.prove(len(values) == len(state) and all(any(y is x for y in values) for _, x in state), f'{label}: each value once')
    v.prove(len(list(m.values())) == len(flat), f'{label}: one value per name')
    for n, x in m.items():
        i = where(state, n)
        v.prove(i is not None and state[i][1] is x, f'{label}: items')
    expanded = m.flat
    v.prove(len(expanded) == len(flat) and all(expanded[n] is x for g, x in state for n in g), f'{label}: flat dictionary')
    v.prove(m == {n: x for g, x in state for n in g}, f'{label}: equals the expanded dictionary')
    for k in others:
        i = where(state, k)
        if i is not None:
            v.prove(m[k] is state[i][1], f'{label}: a known name reaches its value')
            continue
        v.prove(k not in m, f'{label}: an unknown name is not contained')
        v.raises(KeyError, lambda: m[k], f'{label}: an unknown name is missing')
        v.prove(m.get(k, 'default') == 'default', f'{label}: an unknown name has no value')
        v.raises(KeyError, lambda: m.alias(k), f'{label}: an unknown name has no other names')
        v.raises(KeyError, lambda: m.alias(k, include=True), f'{label}: an unknown name has no names')


def read_spec(v, pattern, cls):
    state = groups(v, pattern)
    m = build(v, state, cls)
    k = v.atom('q', NAMES)
    holds(v, m, state, 'as built', [k])
    A = v.mod('core.aliased')
    holds(v, m.copy(), state, 'copy', [k])
    holds(v, A.Mapping(m), state, 'mapping from a mapping', [k])
    holds(v, A.MutableMapping(m), state, 'mutable mapping from a mapping')
    v.prove(m == m.copy() and not (m != m.copy()), 'a copy is equal')
    v.raises(KeyError, lambda: m[A.Group('no such', 'names')], 'an unknown group is missing')
    for g, x in state:
        if len(g) > 1:
            v.prove(m[A.Group(*reversed(g))] is x, 'a group is found in any order')
            v.raises(KeyError, lambda: m[A.Group(g[0])], 'part of a group is not a key')
    holds(v, m, state, 'after reading', [k])


for pattern in PATTERNS:
    for cls in ('Mapping', 'MutableMapping'):
        unit('C08', f"read_{cls}_{'_'.join(map(str, pattern)) or 'empty'}", MAPPING, samples=10, bound=f'group sizes {pattern}; all names and values',
             assumes=['names are compared by equality only'])(lambda v, pattern=pattern, cls=cls: read_spec(v, pattern, cls))


# -- one step of any history: from any state, with any names ------------------
def merged(state, g, x):
    """Assigning x to the names g joins the groups they belong to."""
    hit = [i for i in range(len(state)) if any(n == k for n in state[i][0] for k in g)]
    both = [n for i in hit for n in state[i][0]]
    for k in g:
        if not any(k == n for n in both):
            both.append(k)
    return [s for i, s in enumerate(state) if i not in hit] + [(both, x)]


def step(v, m, state, op, label):
    """Apply an operation; return the state it must leave."""
    A = v.mod('core.aliased')
    k = v.atom('k', NAMES)
    i = where(state, k)
    new = Value('new')
    if op == 'set':
        m[k] = new
        return (merged(state, [k], new)), [k]
    if op == 'set group':
        l = v.atom('l', NAMES)
        form = v.choice('form', ['tuple', 'Group'])
        v.call(lambda: m.__setitem__((k, l) if form == 'tuple' else A.Group(k, l), new), f'{label}: names may be given together')
        return merged(state, [k] if k == l else [k, l], new), [k, l]
    if op == 'delete':
        if i is None:
            v.raises(KeyError, lambda: m.__delitem__(k), f'{label}: deleting an unknown name is an error')
            return state, [k]
        del m[k]
        return state[:i] + state[i + 1:], [k, *state[i][0]]
    if op == 'alias':
        l = v.atom('l', NAMES)
        if i is None:
            if v.symbolic or k != l:
                v.raises((KeyError, TypeError), lambda: m.alias(k, l), f'{label}: an unknown name has no aliases') if not (k == l) else None
            return state, [k, l]
        j = where(state, l)
        if j is not None and j != i:
            v.raises(KeyError, lambda: m.alias(k, l), f'{label}: a name of another group is refused')
            return state, [k, l]
        v.call(lambda: m.alias(k, l), f'{label}: a free name is accepted')
        if j is not None:
            return state, [k, l]
        return state[:i] + state[i + 1:] + [(state[i][0] + [l], state[i][1])], [k, l]
    if op == 'aliases':
        if i is None:
            return state, [k]
        if v.symbolic:
            fresh = [v.atom('f'), v.atom('h')]
            v.assume(v.not_(v.same(*fresh)))
            for n in fresh:
                for o in [k] + [o for g, _ in state for o in g]:
                    v.assume(v.not_(v.same(n, o)))
        else:
            fresh = [n for n in (f'new name {j}' for j in range(99)) if where(state, n) is None][:2]
        m.alias(k, *fresh)
        return state[:i] + state[i + 1:] + [(state[i][0] + fresh, state[i][1])], [k]
    if op == 'pop':
        if i is None:
            v.raises(KeyError, lambda: m.pop(k), f'{label}: popping an unknown name is an error')
            v.prove(m.pop(k, new) is new, f'{label}: default')
            return state, [k]
        v.prove(m.pop(k) is state[i][1], f'{label}: popped value')
        return state[:i] + state[i + 1:], [k]
    if op == 'popitem':
        if not state:
            v.raises(KeyError, lambda: m.popitem(), f'{label}: nothing to pop')
            return state, []
        n, x = m.popitem()
        i = where(state, n)
        v.prove(i is not None and state[i][1] is x, f'{label}: popped item')
        return state[:i] + state[i + 1:], [n]
    if op == 'setdefault':
        got = m.setdefault(k, new)
        if i is None:
            v.prove(got is new, f'{label}: new value')
            return state + [([k], new)], [k]
        v.prove(got is state[i][1], f'{label}: existing value')
        return state, [k]
    if op == 'clear':
        m.clear()
        return [], [k]
    if op == 'update':
        l = v.atom('l', NAMES)
        x2 = Value('new 2')
        m.update([(k, new), (l, x2)])
        return merged(merged(state, [k], new), [l], x2), [k, l]
    raise AssertionError(op)


OPS = ['set', 'set group', 'delete', 'alias', 'aliases', 'pop', 'popitem', 'setdefault', 'clear', 'update']


def step_spec(v, pattern, op):
    state = groups(v, pattern, 's')
    m = build(v, state, 'MutableMapping')
    twin = m.copy()
    A = v.mod('core.aliased')
    made = [A.Mapping(m), A.MutableMapping(m), A.MutableMapping(A.Mapping(m))]
    after, probes = step(v, m, state, op, op)
    q = v.atom('q', NAMES)
    holds(v, m, after, op, [q] if v.symbolic else [q, *probes])
    holds(v, twin, state, f'{op}: a copy made before is unaffected')
    for other in made:
        same(v, other, state, f'{op}: a mapping made from it before is unaffected')


def same(v, m, state, label):
    """The names, values and groups of a mapping (without every other way to read them)."""
    v.prove(len(m) == sum(len(g) for g, _ in state), label, lambda: f'{m!r} {state}')
    v.prove(len(list(m.items(aliased=True))) == len(state), label, lambda: f'{m!r} {state}')
    for g, x in state:
        for n in g:
            v.prove(v.call(lambda: m[n], label) is x, label, lambda: f'{m!r} {state}')


for op in OPS:
    for pattern in [(), (1,), (2,), (1, 2), (2, 2)]:
        if pattern == (2, 2) and op in ('update', 'set group'):
            continue
        unit('C08', f"{op.replace(' ', '_')}_{'_'.join(map(str, pattern)) or 'empty'}", MUTABLE, samples=10,
             bound=f'from group sizes {pattern}; all names and values', assumes=['names are compared by equality only'])(
            lambda v, pattern=pattern, op=op: step_spec(v, pattern, op))


@unit('C08', 'combine', MAPPING + ['core.aliased.Mapping.__or__'], bound='at most two groups of at most two names on each side; all names and values', samples=60,
      assumes=['names are compared by equality only'])
def combine(v):
    p, q = v.choice('left', [(1,), (2,), (1, 1)]), v.choice('right', [(1,), (2,), (1, 1)])
    left, right = groups(v, p, 'l'), groups(v, q, 'r')
    a, b = build(v, left), build(v, right)
    r = v.call(lambda: a | b, 'mappings combine')
    state = list(left)
    for g, x in right:
        state = merged(state, g, x)
    holds(v, r, state, 'combined')
    v.prove(type(r) is type(a), 'combined: kind')
    holds(v, a, left, 'left operand unchanged')
    holds(v, b, right, 'right operand unchanged')


@unit('C08', 'history', MUTABLE + ['core.aliased.Mapping.__or__', 'core.aliased.Mapping.fromkeys'], kind='bounded', samples=500, weight=2,
      bound='random histories of up to 12 operations on up to 3 mappings with 16 similar names')
def history(v):
    A = v.mod('core.aliased')
    pattern = v.choice('pattern', PATTERNS + [(4, 1), (2, 2, 2), (3, 2, 1)])
    state = groups(v, pattern, 's')
    live = [[build(v, state, 'MutableMapping'), state]]
    for _ in range(v.int('steps', 1, 12)):
        at = v.int('at', 0, len(live) - 1)
        m, state = live[at]
        op = v.choice('op', OPS + ['copy', 'or', 'view', 'odd values', 'from groups'])
        if op == 'clear' and v.int('rarely', 0, 3):
            op = 'set'
        if op == 'copy':
            live.append([v.choice('how', [lambda m: m.copy(), lambda m: A.MutableMapping(m)])(m), state])
        elif op == 'or':
            other, its = live[v.int('other', 0, len(live) - 1)]
            r = v.call(lambda: m | other, 'mappings combine')
            combined = list(state)
            for g, x in its:
                combined = merged(combined, list(g), x)
            live.append([r, combined])
        elif op == 'odd values':
            # Values that look like definitions of aliases are values like others.
            x = v.choice('odd', [{'aliases': ('b', 'c')}, {}, None, 0, (), [], {'aliases': 'x', 'n': 1}])
            k = v.choice('name', NAMES)
            m[k] = x
            live[at][1] = merged(state, [k], x)
        elif op == 'from groups':
            keys = [key(g) for g, _ in state]
            v.rng.shuffle(keys)
            fill = Value('fill')
            r = A.MutableMapping.fromkeys(v.choice('as', [keys, A.Groups(*keys), m]), value=fill)
            live.append([r, [(g, fill) for g, _ in state]])
        elif op == 'view':
            pass
        else:
            live[at][1], _ = step(v, m, state, op, op)
        if len(live) > 3:
            live.pop(0)
    for m, state in live:
        odd = [s for s in state if not isinstance(s[1], Value)]
        if not odd:
            holds(v, m, state, 'at the end', NAMES)
        else:
            for g, x in state:
                for n in g:
                    v.prove(n in m and m[n] == x, 'at the end: values', lambda: f'{n}: {m.flat} {state}')
            v.prove(len(m) == sum(len(g) for g, _ in state), 'at the end: names', lambda: f'{m!r} {state}')
            for k in NAMES:
                v.prove((k in m) == (where(state, k) is not None), 'at the end: no other names', lambda: f'{k}: {m!r} {state}')
            c = m.copy()
            v.prove(c == m and len(c) == len(m) and setlike(list(c), list(m)), 'a copy is equal', lambda: f'{c!r} {m!r}')


# -- groups -------------------------------------------------------------------
GROUPS = ['core.aliased.Groups', 'core.aliased.Group']


@unit('C08', 'group', ['core.aliased.Group'], bound='groups of at most three names; all names', samples=60)
def group(v):
    A = v.mod('core.aliased')
    a = names(v, 'a', v.choice('n', [1, 2, 3]))
    b = names(v, 'b', v.choice('m', [1, 2]))
    g, h = A.Group(*a), A.Group(*b)
    inb = [x for x in a if any(x == y for y in b)]
    onlyb = [y for y in b if not any(x == y for x in a)]
    v.prove(setlike(list(g), a) and len(g) == len(a), 'members')
    v.prove(setlike(list(A.Group(a)), a) and setlike(list(A.Group(tuple(a))), a) and setlike(list(A.Group(g)), a), 'every way to create a group')
    v.prove(all(x in g for x in a), 'contains its names')
    v.prove((g == h) == (len(a) == len(b) and not onlyb), 'equality')
    v.prove((g != h) == (not g == h), 'inequality')
    v.prove(g == A.Group(*reversed(a)) and hash(g) == hash(A.Group(*reversed(a))), 'order does not matter')
    v.prove(setlike(list(g | h), a + onlyb), 'union')
    v.prove(setlike(list(g & h), inb), 'intersection')
    v.prove(setlike(list(g - h), [x for x in a if x not in inb]), 'difference')
    v.prove(setlike(list(g ^ h), [x for x in a if x not in inb] + onlyb), 'symmetric difference')
    v.prove(bool(g.isdisjoint(h)) == (not inb), 'disjoint')
    v.prove(setlike(list(g), a) and setlike(list(h), b), 'operands unchanged')
    v.raises(TypeError, lambda: A.Group(), 'a group has at least one name')


@unit('C08', 'groups', GROUPS, bound='at most three groups; all names', samples=60)
def groups_spec(v):
    A = v.mod('core.aliased')
    state = [g for g, _ in groups(v, v.choice('pattern', [(1,), (2,), (1, 2), (2, 2)]), 's')]
    s = A.Groups(*[key(g) for g in state])
    k, l = v.atom('k', NAMES), v.atom('l', NAMES)
    ik = where([(g, 0) for g in state], k)
    il = where([(g, 0) for g in state], l)

    def contains(s, want, label):
        v.prove(len(s) == len(want), f'{label}: number of groups', lambda: f'{s!r} {want}')
        v.prove(all(sum(setlike(list(h), g) for h in s) == 1 for g in want), f'{label}: the groups', lambda: f'{s!r} {want}')
        v.prove(setlike(s.flat, [n for g in want for n in g]), f'{label}: the names', lambda: f'{s.flat} {want}')
    contains(s, state, 'as built')
    v.prove((k in s) == (ik is not None), 'a name is in the groups if it is in one of them')
    found = s.find(k)
    v.prove(found is None if ik is None else setlike(list(found), state[ik]), 'find')
    new = [k] if k == l else [k, l]
    joined = [g for g, _ in merged([(g, 0) for g in state], new, 0)]
    form = key(new)
    contains(v.call(lambda: s.merge(form), 'merge'), joined, 'merge')
    contains(v.call(lambda: s.merge(A.Groups(form)), 'merge'), joined, 'merge groups')
    contains(v.call(lambda: s.merge(k, l), 'merge'), [g for g, _ in merged(merged([(g, 0) for g in state], [k], 0), [l], 0)], 'merge two')
    contains(s, state, 'unchanged by merge')
    contains(s.without(k), [g for i, g in enumerate(state) if i != ik], 'without a name')
    contains(s.without(tuple(state[0])), state[1:], 'without a group')
    contains(s, state, 'unchanged by without')
    t = A.Groups(*[key(g) for g in state])
    t.update(form)
    contains(t, joined, 'update')
    t = A.Groups(*[key(g) for g in state])
    if ik is not None or il is not None:
        v.raises(ValueError, lambda: t.add(form), 'adding a name twice is an error')
        contains(t, state, 'unchanged')
    else:
        v.call(lambda: t.add(form), 'new names are accepted')
        contains(t, state + [new], 'add')
    t = A.Groups(*[key(g) for g in state])
    t.discard(k)
    contains(t, [g for i, g in enumerate(state) if i != ik], 'discard')
    contains(s, state, 'at the end')


@unit('C08', 'groups_history', GROUPS, kind='bounded', bound='random histories of up to 8 operations with 16 similar names', samples=200)
def groups_history(v):
    A = v.mod('core.aliased')
    state = [g for g, _ in groups(v, v.choice('pattern', PATTERNS[1:]), 's')]
    s = A.Groups(*[key(g) for g in state])
    for _ in range(v.int('steps', 1, 8)):
        g = list(dict.fromkeys(v.choice('n', NAMES) for _ in range(v.int('size', 1, 3))))
        op = v.choice('op', ['update', 'merge', 'add', 'discard', 'without', 'or'])
        pairs = [(x, 0) for x in state]
        clash = any(where(pairs, n) is not None for n in g)
        if op == 'update':
            s.update(key(g))
            state = [x for x, _ in merged(pairs, g, 0)]
        elif op == 'merge':
            other = [x for x, _ in groups(v, v.choice('other', [(1,), (2,), (2, 1)]), 'o')]
            s = s.merge(A.Groups(*[key(x) for x in other]))
            for x in other:
                pairs = merged(pairs, x, 0)
            state = [x for x, _ in pairs]
        elif op == 'add':
            if clash:
                v.raises(ValueError, lambda: s.add(key(g)), 'adding a name twice is an error')
            else:
                s.add(key(g))
                state = state + [g]
        elif op == 'discard':
            whole = [x for x in state if len(x) > 1]
            if whole and v.bool('a group'):
                g = v.choice('group', whole)
                part = g[1:] if len(g) > 2 and v.bool('in part') else g
                form = tuple(reversed(part))
                found = s.find(form)
                v.prove(setlike(list(found), g) if part is g else found is None, 'find: a group, not a part of it', lambda: f'{form} {s!r} {found}')
                s.discard(form)
                i = state.index(g) if part is g else None
            else:
                s.discard(g[0])
                i = where(pairs, g[0])
            state = [x for j, x in enumerate(state) if j != i]
        elif op == 'without':
            hit = {where(pairs, n) for n in g}
            s = s.without(*g)
            state = [x for j, x in enumerate(state) if j not in hit]
        elif not clash:
            s = s | A.Groups(key(g))
            state = state + [g]
    v.prove(len(s) == len(state) and all(sum(setlike(list(h), g) for h in s) == 1 for g in state), 'the groups at the end', lambda: f'{s!r} {state}')
    for n in NAMES:
        v.prove((n in s) == (where([(x, 0) for x in state], n) is not None), 'the names at the end', lambda: f'{n} {s!r} {state}')


@unit('C08', 'declared', ['core.aliased._build_from_key', 'core.aliased.keysfrom', 'core.aliased.Mapping.fromkeys', 'core.aliased.Mapping.squeeze'], kind='bounded', samples=200,
      bound='up to 4 entries with up to 3 declared aliases each')
def declared(v):
    """Names declared inside the values, or in separate groups."""
    A = v.mod('core.aliased')
    pattern = v.choice('pattern', [(1,), (2,), (1, 2), (3, 1), (2, 2, 1), (1, 1, 2, 3)])
    state = groups(v, pattern, 's')
    tag = v.choice('key', ['aliases', 'alt'])
    inner = [{'n': Value(i), **({'m': i} if v.bool('more') else {})} for i, _ in enumerate(state)]
    source = {}
    for (g, _), d in zip(state, inner):
        x = dict(d)
        if len(g) > 1 or v.bool('declare none'):
            x[tag] = g[1] if len(g) == 2 and v.bool('bare') else v.choice('as', [tuple, list, set])(g[1:] + ([g[0]] if v.bool('self') else []))
        source[g[0]] = x
    before = repr(source)
    if tag == 'alt' or any(tag in x for x in source.values()):
        m = v.call(lambda: A.Mapping(source, aliases=tag) if tag == 'alt' or v.bool('explicit') else A.Mapping(source), 'declared aliases')
        for (g, _), d in zip(state, inner):
            for n in g:
                v.prove(m[n] == d, 'every declared name reaches the entry', lambda: f'{n}: {m!r}')
        v.prove(len(m) == sum(pattern) and setlike(list(m), [n for g, _ in state for n in g]), 'exactly the declared names')
        filled = A.Mapping.fromkeys(source, key=tag, value=7)
        v.prove(setlike(list(filled), [n for g, _ in state for n in g]) and all(x == 7 for x in filled.values()), 'mapping from the declared keys')
        v.prove(all(setlike(filled.alias(n, include=True), g) for g, _ in state for n in g), 'declared groups')
        if all(len(d) == 1 for d in inner):
            s = m.squeeze(strict=True)
            holds(v, s, [(g, d['n']) for (g, _), d in zip(state, inner)], 'squeezed')
    v.prove(repr(source) == before, 'the definitions are not modified')
    plain = {g[0]: x for g, x in state}
    order = [key(g) for g, _ in state]
    v.rng.shuffle(order)
    unused = [n for n in NAMES if where(state, n) is None]
    by = A.Groups(*order, *([tuple(unused[:2])] if v.bool('unused') and len(unused) > 1 else []))
    holds(v, A.Mapping(plain, aliases=by), state, 'aliases from groups', NAMES)
    holds(v, A.Mapping(plain, aliases=A.Mapping({k: 0 for k in order})), state, 'aliases from a mapping', NAMES)


@unit('C08', 'namemap', ['core.aliased.NameMap'], kind='bounded', bound='up to 4 canonical names with up to 3 aliases each, every form of definition', samples=250)
def namemap(v):
    A = v.mod('core.aliased')
    state = groups(v, v.choice('pattern', [(1,), (2,), (1, 2), (3, 1), (2, 2, 1), (1, 1, 2, 3)]), 's')
    gs = [g for g, _ in state]
    form = v.choice('form', ['iterables', 'mapping', 'nested'])
    tag = v.choice('tag', ['aliases', 'alt'])
    listed = [g for g in gs if len(g) > 1 or v.bool('listed')]
    def rest(g):
        return g[1] if len(g) == 2 and v.bool('bare') else v.choice('as', [list, tuple])(g[1:] + ([g[0]] if v.bool('self') else []))
    refs = [g[0] for g in gs]
    if form == 'iterables':
        defs = [v.choice('as', [list, tuple])(g) for g in listed]
        m = A.NameMap(defs, v.choice('refs', [list, tuple, dict.fromkeys])(refs))
    else:
        defs = {g[0]: rest(g) if form == 'mapping' else {tag: rest(g), 'other': 1} for g in (gs if v.bool('all') else listed)}
        if len(defs) == len(gs) and v.bool('no refs'):
            m = A.NameMap(defs, key=tag)
        else:
            m = A.NameMap(defs, refs, key=tag)
    def check(m, label):
        for g in gs:
            for n in g:
                v.prove(m[n] == g[0], f'{label}: an alias gives its canonical name', lambda: f'{n} -> {m[n]}')
        flat = [n for g in gs for n in g]
        v.prove(len(m) == len(flat) and setlike(list(m), flat), f'{label}: exactly the names', lambda: f'{list(m)}')
        for n in NAMES:
            if n not in flat:
                v.raises(KeyError, lambda: m[n], f'{label}: an unknown name is missing')
        v.prove(dict(m) == {n: g[0] for g in gs for n in g}, f'{label}: as a dictionary')
    check(m, 'name map')
    check(m.copy(), 'copied name map')
    i = m.copy().invert()
    v.prove(all(setlike(i[g[0]], g) for g in gs), 'inverted name map gives all names')
    v.prove(len(i) == len(gs) and setlike(list(i), refs), 'inverted name map has one entry per canonical name', lambda: f'{list(i)}')
    v.prove(setlike(list(i.keys()), refs), 'inverted name map has one key per canonical name')
    check(m, 'unchanged by inverting a copy')
    # Two owners of one name.
    if len(gs) > 1:
        bad = {g[0]: list(g[1:]) for g in gs}
        bad[gs[0][0]] = bad[gs[0][0]] + [gs[1][-1]]
        v.raises(KeyError, lambda: A.NameMap(bad), 'one alias of two names is an error')


@unit('C08', 'declared_overlap', ['core.aliased._build_from_key', 'core.aliased.keysfrom', 'core.aliased._assign', 'core.aliased.Mapping'], kind='bounded', samples=200,
      bound='up to 4 entries with up to 3 declared aliases each, shared or not')
def declared_overlap(v):
    """Names that several entries declare stand for one value."""
    A = v.mod('core.aliased')
    pool = NAMES[:v.int('pool', 3, len(NAMES) - 1)]
    source, state = {}, []
    for i in range(v.int('n', 1, 4)):
        k = v.choice('k', pool)
        if k in source:
            continue
        more = [v.choice('a', pool) for _ in range(v.int('m', 0, 3))]
        source[k] = {'n': i, 'aliases': v.choice('as', [tuple, list])(more)}
    for k, x in source.items():
        g = {k, *x['aliases']}
        joined = [h for h, _ in state if h & g]
        state = [(h, y) for h, y in state if not h & g] + [(g.union(*joined), x['n'])]
    kind = v.choice('kind', [A.Mapping, A.MutableMapping])
    explicit = v.bool('explicit')
    m = v.call(lambda: kind(source, aliases='aliases') if explicit else kind(source), 'declared aliases')
    v.prove(all(m[n] == {'n': x} for g, x in state for n in g), 'every declared name reaches the entry', lambda: f'{source} -> {m!r}')
    m = m.squeeze()
    holds(v, m, [(sorted(g), x) for g, x in state], 'overlapping declarations', NAMES)
    if kind is A.MutableMapping:
        g, _ = v.choice('deleted', state)
        del m[v.choice('name', sorted(g))]
        holds(v, m, [(sorted(h), x) for h, x in state if h is not g], 'after a deletion', NAMES)
