"""C07: indexing and dimension bookkeeping agree with numpy."""
import itertools
import operator

from pv.api import unit
from . import util_ghost as G
from .c05_arithmetic import GHOST, ASSUMED

NAMES = ['x', 'y', 'z', 'w']
READ = ['core.{0}.Array.__getitem__', 'core.{0}.Array._get_array', 'core.{0}.Array._load_array',
        'core.{0}.Array._read_array', 'core.{0}.Array._expand_ellipsis', 'core.{0}.Array._copy_with',
        'core.iterables.unwrap', 'core.iterables.hastype', 'core.iterables.missing']
TARGETS = {
    'variable': [t.format('variable') for t in READ] + ['core.variable.Array._normalize_indices', 'core.variable.Quantity.__getitem__',
                                                        'core.variable.Quantity._update_unit', 'core.variable.Array._get_shape'],
    'physical': [t.format('physical') for t in READ] + ['core.physical.Array._subscript_standard', 'core.physical.Array._subscript_custom',
                                                        'core.physical.Array.apply_unit'],
}


def numpy():
    import numpy
    return numpy


def tensor(v, tag, shape):
    """Arbitrary values with the given shape."""
    np = numpy()
    n = 1
    for s in shape:
        n *= s
    flat = v.reals(tag, n)
    a = np.empty(n, dtype=object if v.symbolic else float)
    for i, x in enumerate(flat):
        a[i] = x
    return a.reshape(shape)


class View:
    """Array-like viewer that reads only what it is asked for (a data file)."""
    def __init__(self, array, strict=False):
        self.array, self.strict = array, strict
        self.shape, self.ndim, self.dtype, self.size = array.shape, array.ndim, array.dtype, array.size

    def __len__(self):
        return len(self.array)

    def __getitem__(self, i):
        if self.strict and isinstance(i, tuple) and any(hasattr(k, '__len__') for k in i):
            raise self.strict('this viewer supports only slices')
        return self.array[i]

    def __array__(self, *a, **k):
        return numpy().asarray(self.array, *a, **k)


def outer(a, index, keep):
    """What an index selects, axis by axis (independent of the code).

    `keep`: an integer leaves an axis of length 1 (variables), else removes it.
    """
    np = numpy()
    index = index if isinstance(index, tuple) else (index,)
    if any(k is Ellipsis for k in index):
        at = [k is Ellipsis for k in index].index(True)
        fill = (slice(None),) * (a.ndim - len(index) + 1)
        index = index[:at] + fill + index[at + 1:]
    index += (slice(None),) * (a.ndim - len(index))
    axis = 0
    for k in index:
        n = a.shape[axis]
        if isinstance(k, slice):
            picks = list(range(n))[k]
        elif isinstance(k, (list, tuple, np.ndarray, range)):
            picks = [list(range(n))[int(j)] for j in k]
        else:
            picks = [list(range(n))[int(k)]]
            if not keep:
                kept = a.shape[:axis] + a.shape[axis + 1:]
                a = a[(slice(None),) * axis + (slice(picks[0], picks[0] + 1),)].reshape(kept)
                continue
        parts = [a[(slice(None),) * axis + (slice(p, p + 1),)] for p in picks]
        a = np.concatenate(parts, axis=axis) if parts else a[(slice(None),) * axis + (slice(0, 0),)]
        axis += 1
    return a


def make(v, kind, data, u, dims=None):
    if kind == 'variable':
        return v.mod('core.variable').Quantity(data, dimensions=dims, unit=G.arg(v, u))
    return v.mod('core.physical').Array(data, unit=G.arg(v, u), name='a')


def contents(q):
    np = numpy()
    if getattr(q, 'ndim', None) == 0 and hasattr(q, '_array'):
        q = q._array
        q = q.reshape(()) if hasattr(q, 'reshape') else q
        return np.asarray(q)
    if type(q).__name__ == 'Scalar':
        d = q.data
        d = d[0] if hasattr(d, '__len__') else d
        a = np.empty((), dtype=object)
        a[()] = d
        return a
    return np.asarray(q)


def agree(v, got, want, label, unitless=False):
    v.prove(got.shape == want.shape, f'{label}: shape', lambda: f'{got.shape} != {want.shape}')
    for x, y in zip(got.ravel(), want.ravel()):
        v.eq(x, y, f'{label}: values', abs_=1e-300)


SLICES = [slice(None), slice(1, None), slice(None, -1), slice(None, None, 2), slice(None, None, -1), slice(0, 1), slice(1, 0), slice(-1, None)]


def catalogue(shape):
    """Index expressions for a small shape: ints, slices, an ellipsis, lists."""
    n = len(shape)
    per = [[0, -1, slice(None), slice(1, None), slice(None, None, -1), [0], list(range(s))[::-1], [0, 0]] for s in shape]
    out = [Ellipsis]
    for k in range(1, n + 1):
        for idx in itertools.product(*per[:k]):
            out.append(idx if len(idx) > 1 else idx[0])
            if k < n:
                out.append((*idx, Ellipsis))
        for idx in itertools.product(*per[n - k:]):
            out.append((Ellipsis, *idx))
    return out


def mixed(index):
    """An integer beside a list: physical arrays do not support it."""
    index = index if isinstance(index, tuple) else (index,)
    return any(isinstance(k, list) for k in index) and any(isinstance(k, int) for k in index)


def expected(kind, a, index):
    return outer(a, index, keep=kind == 'variable')


def probe(v, kind, q, base, index, dims, label):
    """q[index] against what the index selects from base."""
    if kind == 'physical' and mixed(index):
        return None
    r = v.call(lambda: q[index], f'{label}: the index is supported')
    want = expected(kind, base, index)
    if kind == 'physical' and isinstance(index, list) and len(index) == 1:
        # A list of one index is the index.
        got = contents(r)
        v.prove(got.size == want.size, f'{label}: shape')
        agree(v, got.reshape(want.shape), want, label)
    else:
        agree(v, contents(r), want, label)
    if kind == 'variable':
        v.prove(tuple(r.dimensions) == tuple(dims), f'{label}: dimension names match the axes')
        v.prove(r.shape == want.shape and r.ndim == want.ndim, f'{label}: shape attributes', lambda: f'{r.shape} {want.shape}')
        v.prove(list(r.shape_dict.items()) == list(zip(dims, want.shape)), f'{label}: length of each dimension')
    return r


def spec_read(v, kind, shape, source):
    """Every index of the catalogue, from a fresh and from a used object,
    before and after a change of unit."""
    np = numpy()
    a = tensor(v, 'a', shape)
    u = G.make(v, 'u')
    w = G.make(v, 'w', like=u)
    dims = NAMES[:len(shape)]
    indices = catalogue(shape)
    if not v.symbolic:
        v.rng.shuffle(indices)
        indices = indices[:40]
    scale = u.k / w.k
    def fresh():
        data = {'array': lambda: a.copy(), 'list': lambda: a.tolist(), 'view': lambda: View(a.copy()), 'strict view': lambda: View(a.copy(), IndexError), 'wary view': lambda: View(a.copy(), TypeError)}[source]()
        return make(v, kind, data, u, dims)
    used = fresh()
    contents(used)
    converted = used[G.arg(v, w)]
    unread = fresh()[G.arg(v, w)]
    factor = v.mod('core.metadata').Unit
    for index in indices:
        probe(v, kind, fresh(), a, index, dims, 'first read')
        r = probe(v, kind, used, a, index, dims, 'later read')
        if r is not None:
            G.check(v, r.unit, G.meaning(u), 'a subarray has the unit of the array')
        probe(v, kind, converted, scale * a, index, dims, 'read in another unit')
        probe(v, kind, unread, scale * a, index, dims, 'first read in another unit')
    agree(v, contents(used), a, 'the array is unchanged by reading')
    agree(v, contents(converted), scale * a, 'the array is unchanged by reading')


for kind in ('variable', 'physical'):
    for source in ('array', 'list', 'view', 'strict view', 'wary view'):
        for shape in [(3,), (2, 2)] if source != 'array' else [(1,), (3,), (2, 2), (1, 3)]:
            name = f"{kind}_{source.replace(' ', '_')}_{'x'.join(map(str, shape))}"
            unit('C07', name, TARGETS[kind], assumes=ASSUMED + ['numpy selects and scales elements as documented'], stubs=GHOST, samples=6,
                 bound=f'shape {shape}, {len(catalogue(shape))} index expressions; all values and units')(
                lambda v, kind=kind, shape=shape, source=source: spec_read(v, kind, shape, source))


def random_index(v, shape, kind):
    n = len(shape)
    k = v.int('k', 0, n)
    at = v.int('ellipsis', 0, k) if v.bool('has ellipsis') or k == 0 else None
    lists = v.bool('lists')
    parts = []
    np = numpy()
    for i in range(k):
        axis = i if at is None or i < at else n - k + i
        s = shape[axis]
        forms = ['slice', 'full']
        if s and not (kind == 'physical' and lists):
            forms += ['int', 'npint']
        if lists:
            forms += ['list', 'array', 'range'] if s else ['empty']
        f = v.choice('form', forms)
        if f == 'full':
            parts.append(slice(None))
        elif f == 'slice':
            b = [v.choice('bound', [None] + list(range(-s - 1, s + 2))) for _ in range(2)]
            parts.append(slice(b[0], b[1], v.choice('step', [None, 1, 2, -1, -2, 3])))
        elif f == 'int':
            parts.append(v.int('i', -s, s - 1))
        elif f == 'npint':
            parts.append(np.int64(v.int('i', -s, s - 1)))
        elif f == 'empty':
            parts.append([])
        else:
            m = v.int('m', 0, 4)
            picks = [v.int('i', -s, s - 1) for _ in range(m)]
            if f == 'range':
                lo = v.int('lo', 0, s - 1)
                parts.append(range(lo, v.int('hi', lo, s)))
            else:
                parts.append(picks if f == 'list' else np.array(picks, dtype=int))
    if at is not None:
        parts.insert(at, Ellipsis)
    if len(parts) == 1 and v.bool('bare'):
        only = parts[0]
        if kind == 'physical' and hasattr(only, '__len__') and len(only) == 1:
            return only, True
        return only, False
    # A tuple that holds one single-element list is unwrapped too.
    lone = len(parts) == 1 and hasattr(parts[0], '__len__') and len(parts[0]) == 1
    return tuple(parts), lone and kind == 'physical'


def random_shape(v, hi=4):
    n = v.int('ndim', 1, hi)
    return tuple(v.choice('length', [1, 2, 3, 4, 5, 1, 2, 3, 0]) for _ in range(n))


def missing(index):
    """Selecting with nothing at all reads everything."""
    return index == ()


@unit('C07', 'any_index', TARGETS['variable'] + TARGETS['physical'], kind='bounded',
      bound='random shapes up to 4-D, ints, slices, ellipsis, index lists, arrays and ranges; chains of up to 4 reads and unit changes', samples=1500, weight=3)
def any_index(v):
    np = numpy()
    kind = v.choice('kind', ['variable', 'physical'])
    shape = random_shape(v)
    size = 1
    for s in shape:
        size *= s
    a = (np.arange(size) + 1.0).reshape(shape) * v.choice('scale', [1.0, -0.5, 3.0])
    u = G.make(v, 'u')
    dims = NAMES[:len(shape)]
    source = v.choice('source', ['array', 'list', 'view', 'strict', 'wary', 'copy'])
    if size == 0 and source == 'list':
        source = 'array'
    data = {'array': lambda: a.copy(), 'list': lambda: a.tolist(), 'view': lambda: View(a.copy()), 'strict': lambda: View(a.copy(), IndexError), 'wary': lambda: View(a.copy(), TypeError),
            'copy': lambda: make(v, kind, a.copy(), u, dims)}[source]()
    q = make(v, kind, data, u, dims)
    objects = [(q, a, dims, u)]
    for _ in range(v.int('steps', 1, 4)):
        q, base, dims, u = objects[v.int('which', 0, len(objects) - 1)]
        act = v.choice('act', ['index', 'index', 'index', 'unit', 'read', 'copy', 'bad'])
        if act == 'unit':
            w = G.make(v, 'w', like=u)
            q2 = v.call(lambda: q[G.arg(v, w)], 'the unit is supported')
            objects.append((q2, base * (u.k / w.k), dims, w))
        elif act == 'read':
            agree(v, contents(q), base, 'reading everything')
        elif act == 'copy':
            q2 = v.call(lambda: type(q)(q), 'creating an object from an existing one')
            objects.append((q2, base, dims, u))
        elif act == 'bad':
            s = base.shape
            if not s:
                continue
            axis = v.int('axis', 0, len(s) - 1)
            index = (slice(None),) * axis + (v.choice('beyond', [s[axis], -s[axis] - 1]),)
            v.raises(IndexError, lambda: q[index], 'an index beyond the axis is an error')
            v.raises(IndexError, lambda: q[(0,) * (len(s) + 1)], 'more indices than axes is an error')
            before = v.int('before', 0, len(s) + 1)
            many = v.choice('many', [0, slice(None)])
            v.raises(IndexError, lambda: q[(many,) * before + (...,) + (many,) * (len(s) + 1 - before)], 'more indices than axes around an ellipsis is an error')
        else:
            if not base.shape:
                continue
            index, lone = random_index(v, base.shape, kind)
            r = v.call(lambda: q[index], 'the index is supported')
            want = expected(kind, base, index)
            got = contents(r)
            if lone:
                v.prove(got.size == want.size, 'the selected values')
                got = got.reshape(want.shape)
            agree(v, got, want, f'the selected values')
            G.check(v, r.unit, G.meaning(u), 'the unit of the selection')
            if kind == 'variable':
                v.prove(tuple(r.dimensions) == tuple(dims), 'the dimension names of the selection')
                v.prove(r.shape == want.shape and r.ndim == want.ndim, 'the shape of the selection')
            elif type(r).__name__ == 'Scalar' or lone:
                continue
            objects.append((r, want, dims, u))
    for q, base, dims, u in objects:
        agree(v, contents(q), base, 'every object keeps its values')
        G.check(v, q.unit, G.meaning(u), 'every object keeps its unit')
        if kind == 'variable':
            v.prove(q.shape == base.shape and tuple(q.dimensions) == tuple(dims), 'every object keeps its dimensions')


# -- alignment by name --------------------------------------------------------
ALIGN = ['core.variable.Quantity._ufunc_hook', 'core.variable.Array.__array_ufunc__', 'core.metadata.Dimensions.merge',
         'core.metadata.Dimensions.__mul__', 'core.metadata.Dimensions.__truediv__']
LENGTH = {'x': 2, 'y': 3, 'z': 2}
OPS = {'mul': operator.mul, 'truediv': operator.truediv}


def union(*names):
    out = []
    for n in names:
        out += [d for d in n if d not in out]
    return out


def pick(a, names, coords):
    return a[tuple(coords[d] if a.shape[i] > 1 else 0 for i, d in enumerate(names))]


def combined(v, r, op, parts, label, sizes):
    """r[i, j, ...] combines the operands at the same named coordinates."""
    np = numpy()
    dims = union(*[n for _, n in parts])
    got = contents(r)
    v.prove(tuple(r.dimensions) == tuple(dims), f'{label}: dimensions are the ordered union', lambda: f'{r.dimensions}')
    shape = tuple(sizes[d] for d in dims)
    v.prove(got.shape == shape, f'{label}: shape', lambda: f'{got.shape} {shape}')
    for pos in itertools.product(*map(range, shape)):
        coords = dict(zip(dims, pos))
        (a, m), (b, n) = parts
        v.eq(got[pos], op(pick(a, m, coords), pick(b, n, coords)), f'{label}: values at the same named coordinates')


def spec_align(v, m, n):
    u, w = G.make(v, 'u'), G.make(v, 'w')
    a = tensor(v, 'a', [LENGTH[d] for d in m])
    b = tensor(v, 'b', [LENGTH[d] for d in n])
    for x in b.ravel():
        v.assume(x != 0)
    p, q = make(v, 'variable', a.copy(), u, list(m)), make(v, 'variable', b.copy(), w, list(n))
    for name, op in OPS.items():
        r = v.call(lambda: op(p, q), f'{name} is supported')
        combined(v, r, op, [(a, m), (b, n)], name, LENGTH)
        mu, mw = G.meaning(u), G.meaning(w)
        G.check(v, r.unit, G.mul(mu, mw) if name == 'mul' else G.div(mu, mw), f'{name}: unit')
    agree(v, contents(p), a, 'left operand unchanged')
    agree(v, contents(q), b, 'right operand unchanged')
    for name, op in (('add', operator.add), ('sub', operator.sub)):
        q2 = make(v, 'variable', b.copy(), u, list(n))
        if m == n:
            r = v.call(lambda: op(p, q2), f'{name} is supported')
            combined(v, r, op, [(a, m), (b, n)], name, LENGTH)
        else:
            try:
                r = op(p, q2)
            except Exception:
                v.prove(True, f'{name}: other dimensions are rejected')
            else:
                v.prove(False, f'{name}: other dimensions are rejected', lambda: f'{m} {n} gave {r!r}')


for m, n in [('x', 'x'), ('x', 'y'), ('xy', 'x'), ('xy', 'y'), ('y', 'xy'), ('x', 'xy'), ('xy', 'xy'), ('xy', 'yx'), ('xy', 'zx'), ('xy', 'yz'), ('xyz', 'zx'), ('z', 'xyz'), ('xz', 'zx')]:
    unit('C07', f'align_{m}_{n}', ALIGN, assumes=ASSUMED + ['numpy transposes, reshapes and broadcasts as documented'], stubs=GHOST, samples=6,
         bound=f'dimensions {m} and {n}, lengths {LENGTH}; all values and units')(lambda v, m=m, n=n: spec_align(v, m, n))


@unit('C07', 'align_any', ALIGN, kind='bounded', bound='up to 4 named dimensions of length 1 to 4 per operand, any order, also after slicing and unit changes', samples=700, weight=2)
def align_any(v):
    np = numpy()
    sizes = {d: v.choice('length', [1, 2, 3, 4]) for d in NAMES}
    def operand(tag):
        names = list(NAMES)
        v.rng.shuffle(names)
        names = names[:v.int('n', 0 if tag == 'b' else 1, 4)] or names[:1]
        a = np.array([v.rng.choice([1.0, 2.0, -3.0, 0.5, 7.0, 11.0, 4.0]) for _ in range(int(np.prod([sizes[d] for d in names])))]).reshape([sizes[d] for d in names])
        u = G.make(v, tag)
        q = make(v, 'variable', a.copy(), u, names)
        for _ in range(v.int('prepared', 0, 2)):
            if v.bool('unit change'):
                w = G.make(v, f'{tag}w', like=u)
                q, a, u = q[G.arg(v, w)], a * (u.k / w.k), w
            else:
                axis = v.int('axis', 0, a.ndim - 1)
                index = (slice(None),) * axis + (v.int('i', 0, a.shape[axis] - 1),)
                q, a = q[index], outer(a, index, True)
        return q, a, names, u
    p, a, m, u = operand('u')
    q, b, n, w = operand('w')
    name = v.choice('op', list(OPS))
    op = OPS[name]
    real = {d: max([dict(zip(m, a.shape)).get(d, 1), dict(zip(n, b.shape)).get(d, 1)]) for d in union(m, n)}
    r = v.call(lambda: op(p, q), f'{name} is supported')
    combined(v, r, op, [(a, m), (b, n)], name, real)
    r2 = v.call(lambda: op(p, p), f'{name} with itself')
    combined(v, r2, op, [(a, m), (a, m)], f'{name} with itself', dict(zip(m, a.shape)))
    agree(v, contents(p), a, 'left operand unchanged')
    agree(v, contents(q), b, 'right operand unchanged')
    # Lengths that cannot correspond are an error.
    d = v.choice('mismatched', m)
    size = dict(zip(m, a.shape))[d]
    if size > 1:
        wrong = make(v, 'variable', np.ones(size + 1), w, [d])
        for x, y in ((p, wrong), (wrong, p)):
            try:
                r = op(x, y)
            except Exception:
                pass
            else:
                v.prove(False, 'different lengths of one dimension are rejected', lambda: f'{x.shape} {y.shape} gave {r.shape}')


# -- reductions ---------------------------------------------------------------
REDUCE = ['core.variable._mean', 'core.variable._squeeze', 'core.variable._normalize_axes', 'core.variable.Array.__array_function__']


def axes_of(n):
    out = [None]
    for k in range(1, n + 1):
        for c in itertools.combinations(range(n), k):
            for signs in itertools.product((0, 1), repeat=k):
                ax = tuple(i - n if s else i for i, s in zip(c, signs))
                out.append(ax if k > 1 else ax[0])
                if k == 1:
                    out.append(ax)
    return out


def normalized(axis, n):
    if axis is None:
        return list(range(n))
    return sorted({int(i) % n for i in (axis if isinstance(axis, tuple) else (axis,))})


def plain_mean(v, a, axes, keepdims=False):
    np = numpy()
    kept = [i for i in range(a.ndim) if i not in axes]
    shape = tuple(a.shape[i] for i in kept)
    out = np.empty(shape, dtype=object if v.symbolic else float)
    for pos in itertools.product(*map(range, shape)):
        total, count = 0, 0
        for full in itertools.product(*map(range, a.shape)):
            if all(full[i] == pos[j] for j, i in enumerate(kept)):
                total, count = total + a[full], count + 1
        out[pos] = total / count
    return out.reshape([1 if i in axes else a.shape[i] for i in range(a.ndim)]) if keepdims else out


def spec_mean(v, a, u, dims, axis, keepdims, label='mean'):
    np = numpy()
    q = make(v, 'variable', a.copy(), u, dims)
    kw = {} if keepdims is None else {'keepdims': keepdims}
    r = v.call(lambda: np.mean(q, axis=axis, **kw), 'mean is supported')
    axes = normalized(axis, a.ndim)
    want = plain_mean(v, a, axes, keepdims)
    if axis is None:
        if not keepdims:
            v.eq(np.asarray(r).ravel()[0], want.ravel()[0], f'{label} of everything')
        return
    got = contents(r)
    v.prove(got.shape == want.shape, f'{label}: shape', lambda: f'{got.shape} {want.shape} {axis}')
    for x, y in zip(got.ravel(), want.ravel()):
        v.eq(x, y, f'{label}: values along the named axis', abs_=1e-12)
    names = dims if keepdims else [d for i, d in enumerate(dims) if i not in axes]
    v.prove(tuple(r.dimensions) == tuple(names), f'{label}: the dimensions that remain', lambda: f'{axis}: {r.dimensions}')
    G.check(v, r.unit, G.meaning(u), f'{label}: unit')
    agree(v, contents(q), a, f'{label}: operand unchanged')


for shape in [(3,), (2, 3), (2, 2, 2)]:
    @unit('C07', f"mean_{'x'.join(map(str, shape))}", REDUCE, assumes=ASSUMED + ['numpy.ndarray.mean'], stubs=GHOST, samples=4,
          bound=f'shape {shape}, every axis argument; all values and units')
    def mean(v, shape=shape):
        a = tensor(v, 'a', shape)
        u = G.make(v, 'u')
        for axis in axes_of(len(shape)):
            for keep in (None, False, True):
                spec_mean(v, a, u, NAMES[:len(shape)], axis, keep)


@unit('C07', 'reductions_any', REDUCE, kind='bounded', bound='random shapes up to 4-D, all axis arguments, also after slices and unit changes', samples=400)
def reductions_any(v):
    np = numpy()
    n = v.int('ndim', 1, 4)
    shape = tuple(v.choice('length', [1, 1, 2, 3]) for _ in range(n))
    a = np.array([v.rng.uniform(-5, 5) for _ in range(int(np.prod(shape)))]).reshape(shape)
    dims = NAMES[:n]
    v.rng.shuffle(dims)
    u = G.make(v, 'u')
    spec_mean(v, a, u, dims, v.choice('axis', axes_of(n)), v.choice('keepdims', [None, False, True]))
    q = make(v, 'variable', a.copy(), u, dims)
    base = a
    if v.bool('sliced'):
        axis = v.int('at', 0, n - 1)
        index = (slice(None),) * axis + (0,)
        q, base = q[index], outer(a, index, True)
    if v.bool('converted'):
        w = G.make(v, 'w', like=u)
        q, base, u = q[G.arg(v, w)], base * (u.k / w.k), w
    ones = [i for i in range(n) if base.shape[i] == 1]
    axis = v.choice('squeeze', [None, 'some'])
    if axis == 'some' and not ones:
        axis = None
    if axis == 'some':
        some = [i for i in ones if v.bool('i')] or ones[:1]
        signed = tuple(i - n if v.bool('negative') else i for i in some)
        axis, gone = (signed if len(signed) > 1 else v.choice('form', [signed, signed[0]])), some
    else:
        gone = ones
    r = v.call(lambda: np.squeeze(q, axis=axis) if axis is not None else np.squeeze(q), 'squeeze is supported')
    v.prove(tuple(r.dimensions) == tuple(d for i, d in enumerate(dims) if i not in gone), 'squeeze: the dimensions that remain', lambda: f'{r.dimensions} {gone}')
    agree(v, contents(r), base.reshape([s for i, s in enumerate(base.shape) if i not in gone]), 'squeeze')
    G.check(v, r.unit, G.meaning(u), 'squeeze: unit')
    if len(ones) < n:
        k = [i for i in range(n) if base.shape[i] != 1][0]
        v.raises(ValueError, lambda: np.squeeze(q, axis=k), 'squeezing a longer axis is an error')
        e = v.call(lambda: np.squeeze(q[(slice(None),) * k + (slice(0, 0),)]), 'squeezing an empty variable')
        v.prove(tuple(e.dimensions) == tuple(d for i, d in enumerate(dims) if i not in ones), 'squeeze: an empty axis remains', lambda: f'{e.dimensions} {ones}')
    # every reduction numpy knows gives the plain values
    f = v.choice('function', ['sum', 'min', 'max', 'prod', 'cumsum', 'std'])
    ax = v.int('ax', 0, n - 1)
    r = v.call(lambda: getattr(np, f)(q, axis=ax), f'numpy.{f}')
    agree(v, np.asarray(r), getattr(np, f)(base, axis=ax), f'numpy.{f}')
