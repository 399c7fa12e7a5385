"""C18: spelling suggestions are exactly the nearest known words."""
import itertools
import string

from pv.api import unit

CHECK = ['core.spelling.SpellChecker.check', 'core.spelling.SpellChecker._check', 'core.spelling.SpellChecker.get_suggestions']
EDITS = ['core.spelling.SpellChecker.edits', 'core.spelling.SpellChecker.splits', 'core.spelling.SpellChecker.deletes', 'core.spelling.SpellChecker.transposes',
         'core.spelling.SpellChecker.replaces', 'core.spelling.SpellChecker.inserts']
LETTERS = string.ascii_letters


# -- words of arbitrary letters -------------------------------------------------
class Word:
    """A word of known length whose letters are symbolic names."""

    def __init__(self, v, letters):
        self.v = v
        self.letters = tuple(letters)

    def __len__(self):
        return len(self.letters)

    def __getitem__(self, i):
        r = self.letters[i]
        return Word(self.v, r if isinstance(i, slice) else (r,))

    def __iter__(self):
        return (Word(self.v, (c,)) for c in self.letters)

    def __add__(self, other):
        return Word(self.v, self.letters + tuple(getattr(other, 'letters', other)))

    def __radd__(self, other):
        return Word(self.v, tuple(getattr(other, 'letters', other)) + self.letters)

    def key(self):
        return tuple(c if isinstance(c, str) else c.z.get_id() for c in self.letters)

    def __hash__(self):
        return hash(self.key())

    def same(self, other):
        other = tuple(getattr(other, 'letters', other))
        if len(other) != len(self.letters):
            return False
        return self.v.and_(True, *[self.v.same(a, b) for a, b in zip(self.letters, other)])

    def __eq__(self, other):
        if isinstance(other, Word) and self.key() == other.key():
            return True
        r = self.same(other)
        return r if isinstance(r, bool) else bool(r)


def expected(w):
    """Everything one edit away, as sequences of letters."""
    n = len(w)
    for i in range(n):
        yield w[:i] + w[i + 1:]
    for i in range(n - 1):
        yield w[:i] + (w[i + 1], w[i]) + w[i + 2:]
    for i in range(n):
        for c in LETTERS:
            yield w[:i] + (c,) + w[i + 1:]
    for i in range(n + 1):
        for c in LETTERS:
            yield w[:i] + (c,) + w[i:]


def edits_spec(v, n):
    S = v.mod('core.spelling')
    chars = [v.atom(f'letter{i}', list('abcXYZ _1')) for i in range(n)]
    c = S.SpellChecker('known')
    if not v.symbolic:
        w = ''.join(chars)
        got = c.edits(w)
        v.prove({str(x) for x in got} == {''.join(x) for x in expected(tuple(w))}, 'exactly the words one edit away', lambda: f'{w!r}')
        v.prove(c.words == {'known'}, 'the known words are unchanged')
        return
    w = Word(v, chars)
    got = list(v.call(lambda: c.edits(w), 'the edits of a word'))
    want = {Word(v, x) for x in expected(w.letters)}
    for x in got:
        v.prove(x in want or v.or_(*[x.same(y) for y in want]), 'every edit is one edit away')
    found = set(got)
    for y in want:
        v.prove(y in found or v.or_(False, *[x.same(y) for x in got]), 'every word one edit away is an edit')


for n in range(0, 7):
    unit('C18', f'edits_{n}', EDITS, bound=f'words of {n} letters; all letters', samples=30)(lambda v, n=n: edits_spec(v, n))


# -- suggestions, given the edits ---------------------------------------------------
POOL = ['a', 'b', 'c', 'ab', 'd']


def suggest_spec(v, known, first, second):
    """`first`: how many words are one edit away; `second`: how many from each of those."""
    S = v.mod('core.spelling')
    words = [v.atom(f'known{i}', POOL) for i in range(known)]
    name = v.atom('name', POOL + ['x'])
    near = [v.atom(f'near{i}', POOL) for i in range(first)]
    far = [[v.atom(f'far{i}{j}', POOL) for j in range(second)] for i in range(first)]
    v.assume(v.and_(True, *[v.not_(v.same(a, b)) for a, b in itertools.combinations(near + [name], 2)]) if v.symbolic else len(set(near + [name])) == len(near) + 1)

    def edits(self, word):
        if word == name:
            return set(near)
        for w, e in zip(near, far):
            if word == w:
                return set(e)
        return set()
    v.patch('core.spelling:SpellChecker.edits', edits)
    c = S.SpellChecker(*words)
    got = v.call(lambda: c.check(name, mode='suggest'), 'suggestions')
    distinct = []
    for w in words:
        if not any(w == x for x in distinct):
            distinct.append(w)
    if any(w == name for w in distinct):
        want = []
    else:
        want = [w for w in distinct if any(w == n for n in near)] or [w for w in distinct if any(w == x for e in far for x in e)]
    say = lambda: f'{words} {name} {near} {far}: {got} instead of {want}'
    v.prove(len(got) == len(want), 'exactly the nearest known words', say)
    for w in want:
        v.prove(any(w == g for g in got), 'exactly the nearest known words', say)
    v.prove(c.check(name, mode='truth') == (not want), 'correct exactly if there is nothing to suggest', say)
    if want:
        err = v.raises(S.SpellingError, lambda: c.check(name), 'a misspelled word is an error')
        v.prove(err.name == name and len(err.suggested) == len(want), 'the error carries the word and the suggestions')
    else:
        v.prove(c.check(name) is None, 'nothing happens for a correct word')


for known, first, second in [(0, 1, 1), (1, 0, 0), (1, 1, 1), (1, 2, 1), (2, 1, 1), (2, 2, 0), (2, 1, 2), (1, 2, 2)]:
    unit('C18', f'suggest_{known}_{first}_{second}', CHECK, bound=f'{known} known words, {first} words one edit away, {second} from each of these; all words', samples=60,
         assumes=['SpellChecker.edits by its contract: any finite relation between words (edits_0 ... edits_6 relate it to letters)'])(
        lambda v, k=known, f=first, s=second: suggest_spec(v, k, f, s))


# -- run time: the whole checker against an independent definition ---------------------
def near(u, w):
    """True if w is u with one letter inserted, removed, replaced or two swapped."""
    if len(w) == len(u) + 1:
        return any(w[:i] + w[i + 1:] == u and w[i] in LETTERS for i in range(len(w)))
    if len(w) == len(u) - 1:
        return any(u[:i] + u[i + 1:] == w for i in range(len(u)))
    if len(w) != len(u):
        return False
    d = [i for i in range(len(u)) if u[i] != w[i]]
    if len(d) == 0:
        return any(x in LETTERS for x in u) or any(a == b for a, b in zip(u, u[1:]))
    if len(d) == 1:
        return w[d[0]] in LETTERS
    return len(d) == 2 and d[1] == d[0] + 1 and u[d[0]] == w[d[1]] and u[d[1]] == w[d[0]]


def neighbours(u, letters):
    out = set()
    for i in range(len(u) + 1):
        a, b = u[:i], u[i:]
        out.update(a + c + b for c in letters)
        if b:
            out.add(a + b[1:])
            out.update(a + c + b[1:] for c in letters)
        if len(b) > 1:
            out.add(a + b[1] + b[0] + b[2:])
    return out


def nearest(name, words):
    if name in words:
        return set()
    one = {w for w in words if near(name, w)}
    if one:
        return one
    out = set()
    for w in words:
        if abs(len(w) - len(name)) <= 2:
            letters = [c for c in set(w + name + 'q') if c in LETTERS]
            if any(near(x, w) for x in neighbours(name, letters)):
                out.add(w)
    return out


def agree(v, name, words, late=()):
    S = v.mod('core.spelling')
    c = S.SpellChecker(*words)
    if late:
        c.words |= set(late)
    known = set(words) | set(late)
    want = nearest(name, known)
    got = v.call(lambda: c.check(name, mode='suggest'), 'suggestions')
    say = lambda: f'{sorted(known)}, {name!r}: {got} instead of {sorted(want)}'
    v.prove(len(got) == len(set(got)) and set(got) == want, 'exactly the nearest known words', say)
    v.prove(c.check(name, mode='truth') is (not want), 'correct exactly if there is nothing to suggest', say)
    if want:
        err = v.raises(S.SpellingError, lambda: c.check(name), 'a misspelled word is an error')
        v.prove(err.name == name and set(err.suggested) == want, 'the error carries the word and the suggestions', say)
        v.prove(all(w in str(err) for w in want) and name in str(err), 'the message names the word and the suggestions', lambda: str(err))
    else:
        v.prove(c.check(name) is None, 'nothing happens for a correct word', say)
    v.prove(c.words == known, 'checking does not change the known words')
    v.raises(ValueError, lambda: c.check(name, mode='other'), 'an unknown mode is an error')
    v.prove(set(c.known(list(known) + [name + 'zz', 'zz' + name])) == known | ({name + 'zz', 'zz' + name} & known), 'the known words among some words')


@unit('C18', 'short_words', CHECK + EDITS, kind='bounded', bound='every pair of words of up to 3 letters a, b, B', samples=1)
def short_words(v):
    pool = [''.join(x) for n in range(4) for x in itertools.product('abB', repeat=n)]
    S = v.mod('core.spelling')
    c = S.SpellChecker()
    for u in pool:
        e = c.edits(u)
        for w in pool:
            v.prove((w in e) == near(u, w), 'one edit away', lambda: f'{u!r} {w!r}')
    for u in v.rng.sample(pool, 12):
        for w in pool:
            c.words = {w}
            want = nearest(u, {w})
            v.prove(set(c.check(u, mode='suggest')) == want, 'exactly the nearest known words', lambda: f'{u!r} {w!r}')


def blur(rng, w, k, letters):
    for _ in range(k):
        i = rng.randint(0, len(w))
        w = rng.choice([w[:i] + w[i + 1:], w[:i] + rng.choice(letters) + w[i:], w[:i] + rng.choice(letters) + w[i + 1:], w[:i] + w[i + 1:i + 2] + w[i:i + 1] + w[i + 2:]])
    return w


@unit('C18', 'vocabularies', CHECK + EDITS, kind='bounded', bound='random vocabularies of up to 8 words of up to 7 letters and words up to 3 edits from them', samples=60)
def vocabularies(v):
    r = v.rng
    letters = v.choice('letters', ['ab', 'abcde', LETTERS, 'abC _'])
    words = [''.join(r.choice(letters) for _ in range(r.randint(1, 7))) for _ in range(r.randint(0, 8))]
    name = blur(r, r.choice(words), r.randint(0, 3), letters) if words and r.random() < .8 else ''.join(r.choice(letters) for _ in range(r.randint(0, 7)))
    k = r.randint(0, len(words))
    agree(v, name, words[:k], words[k:])


@unit('C18', 'names', CHECK + EDITS, kind='bounded', bound='misspelled names of known physical quantities', samples=12)
def names(v):
    R = v.mod('core.reference')
    words = sorted({n for g in R.ALIASES for n in g}) if not isinstance(next(iter(R.ALIASES), ''), str) else sorted(R.ALIASES)
    words = [w for w in words if len(w) <= 12]
    agree(v, blur(v.rng, v.rng.choice(words), v.rng.choice([0, 1, 1, 2]), 'abcdefg'), words)


# -- observers suggest names -------------------------------------------------------------
@unit('C18', 'observers', ['core.observer.Interface._check_spelling', 'core.observer.Interface.__getitem__'], kind='bounded', bound='misspelled names given to an observer, one after the other', samples=25)
def observers(v):
    import numpy
    S, O, G, V = v.mod('core.spelling'), v.mod('core.observer'), v.mod('core.observing'), v.mod('core.variable')
    pool = ['Vr', 'rho', 'radius', 'energy', 'banana', 'orange', 'apricot', 'br']
    names = v.rng.sample(pool, v.int('n', 1, 5))

    class Context(G.Context):
        def observe(self, name):
            raise NotImplementedError(name)
    data = {n: V.Quantity(numpy.ones(2), unit='1', dimensions=['x']) for n in names}
    limits = {k: 1.0 for k in v.rng.sample(['lambda0', 'papaya'], v.int('k', 0, 2))}
    context = Context(data, constraints=limits)
    o = O.Interface(context=context)
    user = {}
    for i in range(v.int('times', 1, 6)):
        if v.rng.random() < .4:
            # the words are those of the constraints in force
            user = {k: 2.0 for k in v.rng.sample(['mango', 'lychee', 'lambda0'], v.rng.randint(0, 2))}
            context.constrain(user)
        known = {k for g in context.available for k in g}
        v.prove(set(user) | set(limits) <= known, 'the names of constraints are available')
        v.prove(('mango' in known) == ('mango' in user), 'no other constraint is available')
        w = blur(v.rng, v.rng.choice(names + ['mango', 'lychee'] * 2), v.rng.choice([1, 1, 2, 5]), 'abcdefg')
        if w in known:
            continue
        if not w.isalpha():
            continue
        want = nearest(w, known)
        if i == 2 and v.bool('updated'):
            o.update(context)
        say = lambda: f'{sorted(known)} {w!r}: {sorted(want)}'
        if want:
            err = v.raises(S.SpellingError, lambda: o[w], 'a misspelled name is reported')
            v.prove(set(err.suggested) == want, 'the nearest names are suggested', lambda: f'{say()}: {err}')
        else:
            v.raises(KeyError, lambda: o[w], 'an unknown name is an error')
