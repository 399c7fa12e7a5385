"""C16: run parameters have the user's values over the source's defaults."""
import ast
import contextlib
import fractions
import io
import itertools
import json
import math
import pathlib
import re
import tempfile

from pv.api import unit

RT = 'eprem.runtime'
EVAL = [f'{RT}.Runtime.{m}' for m in ('__getitem__', '_evaluate', '_resolve', '_compute_sum', '_get_argument', '_convert')] + [f'{RT}.split_sum']
FILES = [f'{RT}.ConfigFile', f'{RT}.SourceFile', f'{RT}.ConfigurationC', f'{RT}.BaseTypesH', f'{RT}.FunctionCall', f'{RT}.VariableDefinition', f'{RT}.BaseTypeDef',
         'core.iotools.TextFile.extract', 'core.iotools.strip_inline_comments']
BASE = [f'{RT}.BaseTypesH.__getitem__', f'{RT}.BaseTypesH._compute', f'{RT}.BaseTypesH._evaluate']
TABLE = 'the shipped table is replaced by one with arbitrary values through SourceFile.load_from_package'


# -- an independent reading of definitions ---------------------------------------------
class Unknown(Exception):
    """The text has no value here."""


def number(text):
    return fractions.Fraction(text) if re.fullmatch(r'\d+', text) else float(text)


def evaluate(v, text, value):
    """The value of C arithmetic; `value` gives that of a name."""
    text = text.strip()

    def walk(n):
        if isinstance(n, ast.BinOp):
            a, b = walk(n.left), walk(n.right)
            if isinstance(n.op, ast.Add):
                return a + b
            if isinstance(n.op, ast.Sub):
                return a - b
            if isinstance(n.op, ast.Mult):
                return a * b
            if isinstance(n.op, ast.Div):
                return a / b
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            return -walk(n.operand)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.UAdd):
            return walk(n.operand)
        if isinstance(n, ast.Constant):
            return n.value
        if isinstance(n, ast.Name):
            return value(n.id)
        if isinstance(n, ast.Attribute) and n.value.id == 'config':
            return value(n.attr)
        if isinstance(n, ast.Call) and n.func.id == 'sqrt':
            return v.sqrt(walk(n.args[0]))
        raise Unknown(text)

    return walk(ast.parse(text, mode='eval').body)


def environment(v, constants, parameters, user=()):
    """The values of all names: user over default, parameters over constants.

    `parameters`: name -> (kind, name in the config file, default);
    `constants`: name -> definition; definitions are text or values."""
    user = dict(user)
    cache = {}

    def of(name):
        if name not in cache:
            cache[name] = find(name)
        return cache[name]

    def find(name):
        if name in parameters:
            kind, alias, text = parameters[name]
            for key in (alias, name):
                if user.get(key):
                    text = user[key]
                    break
            if not isinstance(text, str):
                return text
            if kind == 'readString':
                return text
            if kind == 'readDoubleArray':
                return [evaluate(v, t, of) for t in text.strip('[]').split(',') if t.strip()]
            return evaluate(v, text, of)
        if name == 'third':
            return 1 / 3
        if name in constants:
            text = constants[name]
            return evaluate(v, text, of) if isinstance(text, str) else text
        raise Unknown(name)

    return of


def agree(v, got, want, label, detail):
    if isinstance(want, str) or want is None:
        v.prove(got == want, label, detail)
    elif isinstance(want, list):
        v.prove(len(got) == len(want), f'{label}: as many values', detail)
        for a, b in zip(got, want):
            v.eq(a, b, label)
    else:
        v.eq(got, want, label, rel=1e-9)


# -- defined constants ------------------------------------------------------------------
def shipped(v):
    R = v.mod(RT)
    return json.loads(pathlib.Path(R.__file__).with_suffix('.json').read_text())


# What EPREM's baseTypes.h defines, as text of C.
DERIVED = {
    'TAU': 'AU / C',
    'DAY': 'TAU / (24.0 * 60.0 * 60.0)',
    'MZERO': 'MP * C * C / GEV',
    'RSAU': 'RSUN / AU',
    'MHD_B_NORM': 'sqrt(MP * MHD_DENSITY_NORM) * C',
    'OM': 'MHD_B_NORM * Q * AU / (MP * C * C)',
    'FCONVERT': '1.0e30 / (C * C * C * C)',
    'MAS_TIME_CONVERT': 'MAS_TIME_NORM / (24.0 * 60.0 * 60.0)',
    'MAS_V_CONVERT': '(MAS_LENGTH_NORM / MAS_TIME_NORM) / C',
    'MAS_RHO_CONVERT': '(MAS_RHO_NORM / MP) / MHD_DENSITY_NORM',
    'MAS_B_CONVERT': 'sqrt(4.0 * PI * MAS_RHO_NORM) * MAS_LENGTH_NORM / MAS_TIME_NORM / MHD_B_NORM',
}


def constant_spec(v, name):
    R = v.mod(RT)
    texts = dict(shipped(v)['_BASETYPES_H'])
    leaves = set()

    def collect(n):
        if n in DERIVED:
            for w in re.findall(r'[A-Z_]+', DERIVED[n]):
                collect(w)
        else:
            leaves.add(n)

    collect(name)
    values = {n: v.real(n, positive=True) for n in sorted(leaves)}
    v.patch(f'{RT}:SourceFile.load_from_package', lambda self, key: {**texts, **values})
    B = R.BaseTypesH()
    of = environment(v, {**DERIVED, **values}, {})
    got = v.call(lambda: B[name], f'{name} has a value')
    tol = 1e-12 if '60.0' in DERIVED[name] else None
    v.eq(got, of(name), f'{name} is {DERIVED[name]}', rel=1e-9, tol=tol)
    v.eq(B[name], of(name), f'{name} is the same again', rel=1e-9, tol=tol)
    for n in sorted(leaves):
        v.eq(B[n], values[n], f'{n} is unchanged')


for _name in DERIVED:
    def constants(v, name=_name):
        constant_spec(v, name)
    unit('C16', f'constant {_name}', BASE, bound='the shipped definition; all positive values of the constants it uses', assumes=[TABLE], samples=20)(constants)


# -- evaluation of parameters -----------------------------------------------------------
TEXTS = [
    'config.a', 'a', 'config.a + config.b', 'config.a - config.b', 'config.a - config.b - config.c', 'config.a-config.b+config.c', 'a + 2', '2 - a', 'a - 0.5 - 1e-3',
    '2.0 * PI', '-1.0 * C', '2 * a', 'a * b', 'config.a * config.b', 'config.a*config.b*config.c', 'config.a / PI', 'a/PI', '(0.5/PI)*C', 'config.a / (PI * C)',
    '-a', '-config.a', '-a * b', '-a - b', '- config.a + 3', 'third', 'third * a', '2 * config.a - config.b / PI + 3', 'a * a', 'config.a * config.a - b', '1.5e2 * a', 'a / 2',
    'a - b * c', 'a * b - c * 0.5 - 2', 'PI', 'C * C', 'C + PI', '1e-2 + a', '1E+2 * a - 1e+1', '0', '0.0', '0 * a', 'a / PI / C', 'a / PI * C', '-2', '-1e-3 * a + 5',
    'a * -2', '2 * -1.5 * a', 'a / -2', '3 - -a', '(-2)*a', 'a * -2 + b', '1 - a * -0.5 - c',
]


def evaluation_spec(v, texts):
    """A parameter defined by text over parameters and constants of any value."""
    R = v.mod(RT)
    real = {n: v.real(n) for n in 'ab'}
    c = v.int('c', -9, 9)
    consts = {n: v.real(n, positive=True) for n in ('PI', 'C')}
    default = lambda mode, d: {'mode': mode, 'default': d, 'minimum': '0', 'maximum': 'BADVALUE'}
    for text in texts:
        table = {**{n: default('readDouble', x) for n, x in real.items()}, 'c': default('readInt', c), 'p': default('readDouble', text), 'q': default('readDouble', 'config.p')}
        v.patch(f'{RT}:SourceFile.load_from_package', lambda self, key: {'_BASETYPES_H': consts, '_CONFIGURATION_C': table}[key])
        kinds = {n: (d['mode'], n, d['default']) for n, d in table.items()}
        of = environment(v, consts, kinds)
        r = R.Runtime()
        for round in ('', ' again'):
            for n in table:
                got = v.call(lambda: r[n], f'{text}: {n} has a value{round}')
                v.eq(got, of(n), f'{text}: value of {n}{round}', rel=1e-9)
        v.prove(sorted(r) == sorted(table), f'{text}: exactly the defined parameters')


for _i in range(5):
    def evaluation(v, part=TEXTS[_i::5]):
        evaluation_spec(v, part)
    unit('C16', f'evaluation {_i}', EVAL, bound=f'{len(TEXTS[_i::5])} definitions (sums and products of up to 4 names and numbers); all values of the parameters and constants',
         assumes=[TABLE], samples=15)(evaluation)


# -- the user's values over the defaults --------------------------------------------------
ASSIGNED = [None, '0.25', '0', '-3', '1e-2', 'config.d * 2', 'PI - config.d', ' ']


def precedence_spec(v, direct):
    """Every parameter: what the file assigns, else the default, for all defaults."""
    R = v.mod(RT)
    x, d, n = v.real('x'), v.real('d'), v.int('n', -99, 99)
    consts = {'PI': v.real('PI', positive=True)}
    table = {
        'x': {'mode': 'readDouble', 'default': x, 'minimum': '0', 'maximum': '1'},
        'n': {'mode': 'readInt', 'default': n, 'alias': 'count', 'minimum': '0', 'maximum': '1'},
        'd': {'mode': 'readDouble', 'default': d, 'minimum': '0', 'maximum': '1'},
        'y': {'mode': 'readDouble', 'default': 'config.x', 'alias': 'why', 'minimum': '0', 'maximum': '1'},
        's': {'mode': 'readString', 'default': 'nothing'},
        'l': {'mode': 'readDoubleArray', 'default': [x, d], 'size': 'config.n'},
    }
    v.patch(f'{RT}:SourceFile.load_from_package', lambda self, key: {'_BASETYPES_H': consts, '_CONFIGURATION_C': table}[key])
    kinds = {k: (t['mode'], t.get('alias', k), t['default']) for k, t in table.items()}
    with tempfile.TemporaryDirectory() as tmp:
        path = pathlib.Path(tmp) / 'input'
        for sx, sy, sn in itertools.product(ASSIGNED, ASSIGNED[:6], [None, '7', '0']):
            user = {}
            if sx is not None:
                user['x'] = sx
            if sy is not None:
                user['y' if direct else 'why'] = sy
            if sn is not None:
                user['n' if direct else 'count'] = sn
                user['s'] = 'text' + sn
                user['l'] = f'[1.5, {sn}]'
            path.write_text('# a comment\n' + ''.join(f'{k} = {t}\n' for k, t in user.items()))
            of = environment(v, consts, kinds, {k: t for k, t in user.items() if t.strip()})
            r = v.call(lambda: R.Runtime(config_path=path), 'runtime')
            order = list(table) if direct else list(reversed(list(table)))
            for k in order + order[::2]:
                agree(v, v.call(lambda: r[k], f'{k} has a value'), of(k), f'{k}: the assigned value, else the default', lambda: f'{user} {k}')


for _direct in (True, False):
    def precedence(v, direct=_direct):
        precedence_spec(v, direct)
    unit('C16', f'precedence {"name" if _direct else "config-file name"}', EVAL + [f'{RT}.ConfigFile'],
         bound='6 parameters of each type, 144 combinations of assigned values; all default values', assumes=[TABLE], samples=3, weight=3)(precedence)


# -- whole files ---------------------------------------------------------------------------
WORDS = ['alpha', 'beta_0', 'x', 'numSteps', 'eMin', 'Rate', 'a1', 'outDir', 'flag', 'q_', 'mhdSpeed', 'obs', 'k', 'width2']
CONSTS = ['PI', 'C', 'AU', 'MP', 'T', 'F', 'TAU', 'BADVALUE', 'MAS_TIME_NORM']


class Writer:
    """Random text of source and configuration files, and what it means."""

    def __init__(self, v):
        self.v = v
        self.r = v.rng

    def num(self):
        r = self.r
        return r.choice([str(r.randrange(0, 50)), f'{r.uniform(0, 9):.3f}', f'{r.uniform(1, 9):.2f}e{r.randrange(-5, 5)}', f'{r.randrange(1, 9)}.0', '1.0e3', f'{r.uniform(1, 9):.1f}E+2'])

    def sp(self):
        return self.r.choice(['', ' ', '  '])

    def product(self, names):
        r = self.r
        out = self.atom(names)
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            if r.random() < .3:
                a = r.choice(self.nonzero)
                out += f' / ({a} * {self.positive()})' if r.random() < .4 else f'{self.sp()}/{self.sp()}{a}'
            else:
                out += f'{self.sp()}*{self.sp()}{self.atom(names)}'
        return out

    def positive(self):
        return f'{self.r.randrange(1, 20)}.5'

    def atom(self, names):
        if not names or self.r.random() < .35:
            return self.num()
        n = self.r.choice(names)
        return n if n in CONSTS or self.r.random() < .3 else f'config.{n}'

    def sum(self, names):
        r = self.r
        out = r.choice(['', '', '', '-']) + self.product(names)
        for _ in range(r.choice([0, 0, 1, 2])):
            out += f'{self.sp()}{r.choice("+-")}{self.sp()}{self.product(names)}'
        return out

    def source(self):
        """baseTypes.h, configuration.c and what they define."""
        r = self.r
        consts = {}
        for n in r.sample(CONSTS, r.randrange(2, len(CONSTS))):
            kind = r.random()
            known = [c for c in consts if c not in 'TF']
            if n in ('T', 'F'):
                consts[n] = '1' if n == 'T' else '0'
            elif kind < .6 or not known:
                consts[n] = f'{r.uniform(.5, 9):.4f}e{r.randrange(-3, 4)}'
            else:
                consts[n] = f'( {r.choice(known)} * {r.uniform(1, 5):.2f} / {r.choice(known)} )'
        self.nonzero = [c for c in consts if c not in 'TF'] or ['2.5']
        header = ['#ifndef BASE_H', '#define BASE_H', '', '/* constants */']
        for n, t in consts.items():
            header.append(f'{self.sp()}#define {self.sp()}{n} {self.sp()}{t}{r.choice(["", "", "  ", " // note", " /* note */"])}')
            if r.random() < .3:
                header.append(r.choice(['', '// #define NOTHING 3', 'typedef double Scalar_t;', 'struct s { int x; };']))
        params, lines, arrays = {}, ['#include "x.h"', 'void f(void) {', '  int config = 0;'], []
        names = r.sample(WORDS, r.randrange(3, 9))
        known = []
        for i, n in enumerate(names):
            mode = r.choice(['readInt', 'readDouble', 'readDouble', 'readDouble', 'readString', 'readDoubleArray'])
            alias = n if r.random() < .7 else f'{n}Option'
            sp = self.sp
            if mode == 'readInt':
                default = r.choice([str(r.randrange(-5, 99)), r.choice([c for c in 'TF' if c in consts] or ['3'])])
                args = f'{default},{sp()}0,{sp()}BADINT'
            elif mode == 'readDouble':
                default = self.sum(known + list(consts))
                args = f'{default},{sp()}0.0,{sp()}BADVALUE'
            elif mode == 'readString':
                default = r.choice(['', 'a.txt', 'some/dir', 'x,y', 'a b'])
                args = f'"{default}"'
            else:
                k = r.randrange(1, 4)
                default = '[' + ', '.join(r.choice(['', '-']) + f'{r.uniform(0, 5):.2f}' for _ in range(k)) + ']'
                arrays.append(f'  Scalar_t {sp()}def{i}[{k}]{sp()}={sp()}{{{default[1:-1]}}};')
                args = f'config.n,{sp()}def{i}'
            cast = '(char*)' if mode == 'readString' else ''
            lines.append(f'{sp()}config.{n}{sp()}={sp()}{cast}{mode}({sp()}"{alias}"{r.choice(["", " "])},{sp()}{args}{sp()}){r.choice(["", " "])};{r.choice(["", "", "  // why"])}')
            if r.random() < .2:
                lines.append(r.choice(['', '  // config.old = readInt("old", 1, 0, 2);', '  config.other = 3;', '  printf("config.y = %d", 3);']))
            params[n] = (mode, alias, default)
            if mode in ('readInt', 'readDouble'):
                known.append(n)
        r.shuffle(arrays)
        self.known = known
        return '\n'.join(header) + '\n', '\n'.join(lines[:2] + arrays + lines[2:] + ['}', '']), consts, params

    def config(self, params, consts, comments):
        """A configuration file and what it assigns."""
        r = self.r
        user, lines = {}, []
        c = lambda: r.choice(comments)
        for n in r.sample(list(params), r.randrange(0, len(params) + 1)):
            mode, alias, _ = params[n]
            key = r.choice([alias, alias, n])
            before = self.known[:self.known.index(n)] if n in self.known else []
            if mode == 'readInt':
                text = str(r.randrange(-50, 50))
            elif mode == 'readDouble':
                text = self.sum(before + list(consts)) if r.random() < .6 else r.choice(['', '-']) + self.num()
            elif mode == 'readString':
                text = r.choice(['out.txt', '/a/path', 'a=b', 'two words'])
            else:
                text = '[' + ', '.join(f'{r.uniform(-5, 5):.2f}' for _ in range(r.randrange(1, 4))) + ']'
            if r.random() < .15:
                lines.append(f'{key} = 99')
            if r.random() < .1:
                text = ''
            if alias != n and r.random() < .2:
                # The configuration-file name decides when both are given.
                other = n if key == alias else alias
                extra = {'readInt': '77', 'readDouble': '77.5', 'readString': 'other', 'readDoubleArray': '[7.5]'}[mode]
                user[other] = extra
                lines.append(f'{other} = {extra}')
            user[key] = text
            lines.append(f'{self.sp()}{key}{self.sp()}={self.sp()}{text}{self.sp()}{r.choice(["", "", f"{c()} note", f" {c()}{c()} x = 3"])}')
            if r.random() < .5:
                lines.append(r.choice(['', '   ', f'{c()} comment', f'  {c()} {key} = 12345', c()]))
        if r.random() < .3:
            user['notAParameter'] = '3'
            lines.append('notAParameter = 3')
        return '\n'.join(lines) + r.choice(['', '\n', '\n\n']), user


def whole(v, check):
    """Random files in a scratch directory."""
    with tempfile.TemporaryDirectory() as tmp:
        tmp = pathlib.Path(tmp)
        w = Writer(v)
        header, source, consts, params = w.source()
        (tmp / 'baseTypes.h').write_text(header)
        (tmp / 'configuration.c').write_text(source)
        comments = v.rng.choice([['#'], ['#'], ['!'], ['#', '!']])
        text, user = w.config(params, consts, comments)
        (tmp / 'input').write_text(text)
        check(w, tmp, consts, params, user, comments, f'{header}\n{source}\n{text}')


@unit('C16', 'files', EVAL + FILES + BASE, kind='bounded', bound='random source files of up to 9 constants and 8 parameters with random configuration files', samples=120, weight=2)
def files(v):
    R = v.mod(RT)

    def check(w, tmp, consts, params, user, comments, text):
        say = lambda: text
        options = {} if comments == ['#'] else {'comments': comments}
        f = R.ConfigFile(tmp / 'input', **options)
        v.prove(dict(f) == user and len(f) == len(user), 'every assignment of the file, and nothing else', lambda: f'{dict(f)} {user}\n{text}')
        for k in user:
            v.prove(f[k] == user[k], 'the assigned text', say)
        B = R.BaseTypesH(tmp)
        of = environment(v, consts, {})
        v.prove(sorted(B) == sorted(consts), 'every defined constant', lambda: f'{sorted(B)}\n{text}')
        for k in v.rng.sample(list(consts), len(consts)) * 2:
            v.eq(B[k], of(k), f'value of a constant', rel=1e-9)
        C = R.ConfigurationC(tmp)
        v.prove(sorted(C) == sorted(params), 'every parameter of the source', lambda: f'{sorted(C)} {sorted(params)}\n{text}')
        for k, (mode, alias, default) in params.items():
            v.prove(C[k]['default'].strip() == default.strip() or mode == 'readDoubleArray', 'its default', lambda: f'{k} {C[k]}\n{text}')
            v.prove(C[k].get('alias', k) == alias, 'its name in configuration files', lambda: f'{k} {C[k]}\n{text}')
            v.prove(C[k]['type'] is {'readInt': int, 'readDouble': float, 'readString': str, 'readDoubleArray': list}[mode], 'its type', say)
        plain = environment(v, consts, params)
        of = environment(v, consts, params, user)
        r = R.Runtime(tmp, tmp / 'input', **options)
        d = R.Runtime(source_path=tmp)
        order = list(params) * 2
        v.rng.shuffle(order)
        for k in order:
            agree(v, v.call(lambda: r[k], f'a value\n{text}'), of(k), 'the value in the file, else the default', lambda: f'{k}: {r[k]} not {of(k)}\n{text}')
            agree(v, v.call(lambda: d[k], f'a value\n{text}'), plain(k), 'the default', lambda: f'{k}: {d[k]} not {plain(k)}\n{text}')
            if params[k][0] == 'readInt':
                v.prove(isinstance(r[k], int), 'an integer', lambda: f'{k}: {r[k]!r}\n{text}')
            if params[k][0] == 'readString':
                v.prove(isinstance(r[k], str), 'a string', lambda: f'{k}: {r[k]!r}\n{text}')
        v.prove(sorted(r) == sorted(params), 'exactly the parameters of the source', say)
        for bad in ('nothing', 'notAParameter', '', *(c for c in consts if c not in params)):
            v.raises(KeyError, lambda: r[bad], f'{bad!r} is not a parameter')
        for m in (f, B, C):
            v.raises(KeyError, lambda: m['nothing'], 'an unknown name is an error')
        # Changing the paths changes the values to those of the new files.
        d.path_to(config=tmp / 'input')
        if options:
            return
        for k in params:
            agree(v, v.call(lambda: d[k], 'a value'), of(k), 'values follow the configuration path', lambda: f'{k}\n{text}')
        d.path_to(config=None)
        for k in params:
            agree(v, v.call(lambda: d[k], 'a value'), plain(k), 'values follow the configuration path back', lambda: f'{k}\n{text}')
        e = R.Runtime()
        e['lamo']
        e.path_to(source=tmp)
        v.prove(sorted(e) == sorted(params), 'names follow the source path', say)
        for k in params:
            agree(v, v.call(lambda: e[k], 'a value'), plain(k), 'values follow the source path', lambda: f'{k}\n{text}')

    whole(v, check)


@unit('C16', 'comparison', [f'{RT}.compare_arguments', f'{RT}.generate_defaults', f'{RT}.BaseTypesH.get', f'{RT}.ConfigurationC.get', *FILES, *EVAL], kind='bounded',
      bound='random source files with one to three random configuration files', samples=40)
def comparison(v):
    R = v.mod(RT)

    def shown(files, **options):
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            v.call(lambda: R.compare_arguments(files, **options), 'configuration files are compared')
        return {lines[0].strip(): lines[2:] for block in out.getvalue().strip('\n').split('\n\n') if (lines := block.splitlines())}

    def same(value, text, unit):
        if isinstance(value, str):
            return text in (repr(value), repr([value])) or bool(unit) and text.startswith(value)
        if isinstance(value, list):
            got = re.findall(r'-?\d[^,\s\]]*', text.split("'")[0])
            return len(got) == len(value) and all(abs(float(a) - b) <= 1e-6 * abs(b) for a, b in zip(got, value))
        return abs(float(text.split()[0]) - value) <= 1e-6 * abs(value)

    def check(w, tmp, consts, params, user, comments, text):
        (tmp / 'sub').mkdir()
        files = {}
        for name in v.rng.sample(['one', 'sub/two', 'three'], v.rng.randint(1, 3)):
            body, given = w.config(params, consts, ['#']) if not files or v.rng.random() < .8 else last
            last = body, given
            (tmp / name).write_text(body)
            files[name] = given
            text += f'\n-- {name}:\n{body}'
        base = [pathlib.Path(n).parent for n in files]
        start = pathlib.Path('sub') if all(str(b) == 'sub' for b in base) else pathlib.Path('.')
        names = {n: str(pathlib.Path(n).relative_to(start)) for n in files}
        values = {n: environment(v, consts, params, given) for n, given in files.items()}
        plain = environment(v, consts, params)
        is_given = lambda n, k: k in files[n] or params[k][1] in files[n]
        say = lambda: text
        paths = [v.rng.choice([str, pathlib.Path])(tmp / n) for n in files]
        action = v.rng.choice([None, 'show', 'diff'])
        blocks = shown(paths, source=tmp, action=action)
        differ = {k for k in params if any(is_given(n, k) != is_given(m, k) or (is_given(n, k) and values[n](k) != values[m](k)) for n in files for m in files)}
        if action == 'diff':
            # Values that differ by rounding may be displayed as equal.
            close = {k for k in differ if not isinstance(plain(k), (str, list)) and all(is_given(n, k) for n in files)}
            v.prove(differ - close <= set(blocks) <= differ, 'the parameters that differ, and only those', lambda: f'{sorted(blocks)} {sorted(differ)}\n{text}')
        else:
            v.prove(set(blocks) == set(params), 'every parameter', lambda: f'{sorted(blocks)} {sorted(params)}\n{text}')
        for k, lines in blocks.items():
            cells = {}
            for line in lines:
                for n in ('default', *names.values()):
                    if line.startswith(n + ' '):
                        cells[n] = line[len(n):].strip()
            v.prove(set(cells) == {'default', *names.values()} and len(lines) == len(cells), 'the default and the value of each file', lambda: f'{k}: {lines}\n{text}')
            unit = R._UNITS.get(k)
            v.prove(same(plain(k), cells['default'], unit), 'the default', lambda: f'{k}: {cells} {plain(k)}\n{text}')
            for n, shownas in names.items():
                if is_given(n, k):
                    v.prove(same(values[n](k), cells[shownas], unit), 'the value in each file', lambda: f'{k}: {cells} {values[n](k)}\n{text}')
                else:
                    v.prove(cells[shownas] == 'None', 'no value where none is given', lambda: f'{k}: {cells}\n{text}')
        # A database made from the source says what the source says.
        v.call(lambda: R.generate_defaults(tmp, tmp / 'db'), 'a database is generated')
        loaded = json.loads((tmp / 'db.json').read_text())
        v.prove(sorted(loaded) == ['_BASETYPES_H', '_CONFIGURATION_C'], 'constants and parameters')
        v.prove(sorted(loaded['_BASETYPES_H']) == sorted(consts) and sorted(loaded['_CONFIGURATION_C']) == sorted(params), 'every constant and parameter of the source', lambda: f'{loaded}\n{text}')
        stored = environment(v, loaded['_BASETYPES_H'], {k: (d['mode'], d.get('alias', k), d['default']) for k, d in loaded['_CONFIGURATION_C'].items()})
        for k in (*consts, *params):
            agree(v, stored(k), plain(k), 'the same value as the source', lambda: f'{k}: {stored(k)} {plain(k)}\n{text}')
        for k, (mode, alias, _) in params.items():
            v.prove((loaded['_CONFIGURATION_C'][k]['mode'], loaded['_CONFIGURATION_C'][k].get('alias', k)) == (mode, alias), 'the same type and name as the source', lambda: f'{k}\n{text}')
        for bad in ('other', 'Show'):
            v.raises(ValueError, lambda: R.compare_arguments(paths, action=bad), 'an unknown comparison is an error')
            v.raises(ValueError, lambda: R.generate_defaults(tmp, tmp / 'db', action=bad), 'an unknown way to make a database is an error')

    whole(v, check)


# -- the shipped parameters ------------------------------------------------------------------
UNITS = {
    'minimum_energy': 'MeV', 'reference energy': 'MeV', 'reference radius': 'au',
    'boundaryFunctAmplitude': '1 / (cm^2 * s * sr * (MeV/nuc))', 'boundaryFunctXi': '1', 'boundaryFunctBeta': '1', 'boundaryFunctGamma': '1', 'boundaryFunctEcutoff': 'MeV',
    'kperxkpar': '1', 'lamo': 'au', 'mfpRadialPower': '1', 'rigidityPower': '1', 'flowMag': 'km/s', 'mhdDensityAu': 'cm^-3', 'mhdBAu': 'G', 'omegaSun': 'rad * cm / (au * s)',
    'mass': 'nucleon', 'charge': 'e', 'minInjectionEnergy': 'MeV', 'maxInjectionEnergy': 'MeV', 'shockInjectionFactor': '1', 'shockDetectPercent': '1', 'rScale': 'au',
    'simStartTime': 'day', 'simStopTime': 'day', 'eMin': 'MeV/nuc', 'eMax': 'MeV/nuc', 'numObservers': '1', 'obsR': 'au', 'obsTheta': 'rad', 'obsPhi': 'rad', 'idw_p': '1',
    'idealShockSharpness': '1', 'idealShockScaleLength': 'au', 'idealShockJump': '1', 'idealShockSpeed': 'km/s', 'idealShockInitTime': 'day', 'idealShockTheta': 'rad',
    'idealShockPhi': 'rad', 'idealShockWidth': 'rad', 'tDel': 'day', 'gammaElow': '1', 'gammaEhigh': '1', 'masInitTimeStep': 'day', 'masStartTime': 'day',
    'epEquilibriumCalcDuration': 'day', 'preEruptionDuration': 'day',
}
ALIASES = {
    'minimum_energy': ['Emin', 'minimum energy'], 'reference energy': ['energy0'], 'reference radius': ['r0'], 'boundaryFunctAmplitude': ['J0'], 'boundaryFunctXi': ['xi'],
    'boundaryFunctBeta': ['beta'], 'boundaryFunctGamma': ['gamma'], 'boundaryFunctEcutoff': ['E0'], 'kperxkpar': ['kper_kpar', 'kper/kpar', 'kper / kpar'],
    'lamo': ['lam0', 'lambda0'], 'mfpRadialPower': ['mfp_radial_power'], 'rigidityPower': ['rigidity_power'],
}
LOCAL = {'minimum_energy': 0.0, 'reference energy': 1.0, 'reference radius': 1.0}


def defaults(v, user=()):
    loaded = shipped(v)
    params = {k: (d['mode'], d.get('alias', k), d['default']) for k, d in loaded['_CONFIGURATION_C'].items()}
    of = environment(v, loaded['_BASETYPES_H'], params, user)

    def value(k):
        if k in LOCAL:
            return LOCAL[k]
        try:
            return of(k)
        except Unknown as e:
            if 'N_PROCS' in str(e):
                return None
            raise
    return list(params), params, value


@unit('C16', 'shipped defaults', EVAL + BASE + [f'{RT}.Interface', f'{RT}.Arguments'], kind='finite', bound='all shipped parameters and aliases', samples=1)
def shipped_defaults(v):
    names, params, of = defaults(v)
    interface_spec(v, names, params, of, None)
    R = v.mod(RT)
    r = R.Runtime()
    for k in names:
        agree(v, r[k], of(k), f'default of {k}', lambda: f'{k} {r[k]} {of(k)}')
    v.prove(sorted(r) == sorted(names), 'exactly the shipped parameters')
    B, text = R.BaseTypesH(), shipped(v)['_BASETYPES_H']
    value = environment(v, text, {})
    for k in text:
        v.eq(B[k], value(k), f'constant {k}', rel=1e-12)


def interface_spec(v, names, params, of, path, user=(), **options):
    R = v.mod(RT)
    U = v.mod('core.metadata').Unit
    i = R.Interface(path, **options) if path else R.Interface()
    a = R.Arguments(config_path=path, **options) if path else R.Arguments()
    if v.rng.random() < .5:
        a = v.call(lambda: R.Arguments(R.Runtime(config_path=path, **options)), 'arguments from run parameters')
    order = [*names, *LOCAL]
    v.rng.shuffle(order)
    for k in order + order[:10]:
        want = of(k)
        for n in (k, *ALIASES.get(k, [])):
            x = v.call(lambda: i[n], f'{n} has a value')
            data = x.data
            if isinstance(want, list):
                data = list(x)
            agree(v, data, want, f'value of {n}', lambda: f'{n}: {data!r}, not {want!r} ({dict(user)})')
            u = UNITS.get(k)
            v.prove(x.unit is None if u is None else x.unit == U(u), f'unit of {n}', lambda: f'{n}: {x.unit}')
            v.prove(n in i and (want is None or i.get(n) == x), f'{n} is known', lambda: n)
            y = v.call(lambda: a[n], f'{n} is an argument')
            got = [float(t) for t in y.data] if u else y.value
            agree(v, got, want if isinstance(want, list) or not u else [want], f'argument {n}', lambda: f'{n}: {got!r}, not {want!r}')
            if u:
                v.prove(y.unit == U(u), f'unit of argument {n}', lambda: f'{n}: {y.unit}')
            given = any(user.get(m) is not None for m in (params[k][1], k)) if k in params and user else False
            c = i.config(n, 'not given')
            v.prove((c == x) if given else c == 'not given', f'{n}: given by the user or not', lambda: f'{n}: {c!r} {dict(user)}')
    for bad in ('nothing', '', 'Lamo', 'lam', 'PI'):
        v.raises(KeyError, lambda: i[bad], f'no parameter {bad!r}')
        v.raises(KeyError, lambda: a[bad], f'no argument {bad!r}')
        v.prove(bad not in i and i.get(bad, 5) == 5, f'{bad!r} is not known')


@unit('C16', 'shipped with user values', EVAL + [f'{RT}.Interface', f'{RT}.Arguments', f'{RT}.ConfigFile'], kind='bounded', bound='shipped parameters with up to 12 assigned values', samples=24, weight=2)
def shipped_user(v):
    names, params, _ = defaults(v)
    w = Writer(v)
    w.nonzero = ['PI', 'C', 'TAU', 'eMin', 'config.rScale']
    w.known = []
    safe = ['eMin', 'rScale', 'tDel', 'PI', 'AU', 'mhdBAu', 'BADVALUE']
    user, lines = {}, []
    r = v.rng
    pick = [n for n in names if n not in ('eMin', 'rScale', 'tDel', 'mhdBAu', 'simStartTime')]
    for n in r.sample(pick, r.randrange(0, 9)) + r.sample([n for n in ALIASES if n in params], 2) + (['numNodesPerStream'] if r.random() < .5 else []):
        mode, alias, _ = params[n]
        key = r.choice([n, alias])
        if mode == 'readInt':
            text = str(r.randrange(0, 9))
        elif mode == 'readDouble':
            text = r.choice([w.num(), w.sum([c for c in safe if c in CONSTS or c in names])])
        elif mode == 'readString':
            text = r.choice(['a.txt', '/x/y'])
        else:
            text = r.choice(['[1.0, 4.0]', '[2.5]', '[0.1, 0.2, 0.3]'])
        if any(k in user for k in (n, alias)):
            continue
        user[key] = text
        lines.append(f'{key}={text}')
    _, _, of = defaults(v, user)
    with tempfile.TemporaryDirectory() as tmp:
        path = pathlib.Path(tmp) / 'input'
        mark = r.choice('#!')
        path.write_text(''.join(f'{t}{r.choice(["", f" {mark} note", f" {mark} x = 3"])}\n' for t in [*lines, f'{mark} lamo = 77']))
        interface_spec(v, names, params, of, path, user, **({} if mark == '#' else {'comments': ['!']}))


# -- reading text ------------------------------------------------------------------------------
@unit('C16', 'comments', ['core.iotools.strip_inline_comments', f'{RT}.ConfigFile'], kind='bounded', bound='random lines of up to 12 characters', samples=150)
def comments(v):
    I, R = v.mod('core.iotools'), v.mod(RT)
    r = v.rng
    marks = r.choice([['#'], ['!'], ['#', '!'], ['!', ';', '#']])
    text = ''.join(r.choice('ab =1#!; ') for _ in range(r.randrange(0, 13)))
    cut = min((text.index(m) for m in marks if m in text), default=len(text))
    v.prove(I.strip_inline_comments(text, marks) == text[:cut].strip(), 'the text before the first comment', lambda: f'{text!r} {marks} {I.strip_inline_comments(text, marks)!r}')
    lines, want = [], {}
    for i in range(r.randrange(0, 9)):
        kind = r.random()
        if kind < .2:
            lines.append(r.choice(['', ' ', '\t', '  \t ']))
        elif kind < .4:
            lines.append(r.choice(['', ' ', '\t']) + r.choice(marks) + ''.join(r.choice('ab = #!;') for _ in range(r.randrange(0, 9))))
        else:
            k = r.choice(['a', 'b', 'name', 'x_1', 'Long Name'])
            t = ''.join(r.choice('ab=1.[],-/ ') for _ in range(r.randrange(0, 9))).strip()
            want[k] = t
            lines.append(f'{r.choice(["", " ", chr(9)])}{k}{r.choice(["", " "])}={r.choice(["", " ", chr(9)])}{t}{r.choice(["", " ", f" {marks[0]} c = 4"])}')
    with tempfile.TemporaryDirectory() as tmp:
        p = pathlib.Path(tmp) / 'input'
        p.write_text('\n'.join(lines) + r.choice(['', '\n']))
        f = R.ConfigFile(p, comments=marks)
        v.prove(dict(f) == want and len(f) == len(want), 'exactly the assignments of the file', lambda: f'{lines} {marks}: {dict(f)} not {want}')
        v.prove(dict(R.ConfigFile(str(p), comments=marks)) == want, 'by path or text', lambda: f'{lines}')
        v.prove(f.diff(p, comments=marks)['keys'] == {0: set(), 1: set()}, 'no difference from itself')
        v.prove(f.compare(p, comments=marks) == {k: (t, t) for k, t in want.items()}, 'equal to itself', lambda: f'{lines}')
