"""pv.loader -- load goats from /repo's working tree for symbolic execution.

The text that is verified is the text of /repo/src/goats at the moment of the
run.  Mechanical changes made to it, all of them listed here:

* calls of the names float, int, len, isinstance, range, enumerate, zip, list,
  tuple, set, sorted, any, all, sum, str, bool, max, min, reversed, iter, dict
  are routed through `pv.shims` (identical to the builtin on ordinary values),
  as are calls of a parameter that is bound to the builtin float, int or round;
* `for` loops and single-`for` comprehensions inside functions ask `pv.seq`
  whether the iterable is an unbounded symbolic sequence; if it is not, the
  original statement runs unchanged;
* the module globals `fractions`/`Fraction`, `math`, `functools` and `numpy`
  are replaced by look-alikes that differ from the originals only on symbolic
  arguments (for numpy: array constructors keep symbolic numbers as objects).

Nothing is dropped.  Callees replaced by their contract are named by the
contract (`stubs`) and reported in the evidence.
"""
import ast
import fractions
import functools
import importlib
import importlib.abc
import importlib.util
import math
import os
import sys

from .api import Inapplicable

SRC = os.environ.get('PV_SRC', '/repo/src')

SHIMMED = {'float', 'int', 'len', 'isinstance', 'range', 'enumerate', 'zip', 'list',
           'tuple', 'set', 'sorted', 'any', 'all', 'sum', 'str', 'max', 'min',
           'reversed', 'iter', 'dict', 'round', 'pow', 'map', 'filter'}


class Transform(ast.NodeTransformer):
    def __init__(self, modname):
        self.modname = modname
        self.scope = []
        self.fdepth = 0
        self.loopno = {}
        self.params = set()

    # names bound in the module shadow builtins: leave those alone
    def visit_ClassDef(self, node):
        self.scope.append(node.name)
        depth, self.fdepth = self.fdepth, 0
        self.generic_visit(node)
        self.fdepth = depth
        self.scope.pop()
        return node

    def visit_FunctionDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args = self.visit(node.args)
        self.scope.append(node.name)
        self.fdepth += 1
        saved, self.assigned = getattr(self, 'assigned', None), node
        params, self.params = self.params, {a.arg for a in node.args.args + node.args.posonlyargs + node.args.kwonlyargs}
        node.body = self._block(node.body)
        self.assigned, self.params = saved, params
        self.fdepth -= 1
        self.scope.pop()
        return node

    def _block(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            out.extend(r if isinstance(r, list) else [r])
        return out

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Name) and f.id in SHIMMED:
            node.func = ast.copy_location(ast.Name(f'_pv_{f.id}', ast.Load()), f)
        elif isinstance(f, ast.Name) and f.id in self.params:
            # a function passed as an argument may be one of the builtins above
            node.func = ast.copy_location(_call('_pv_fn', [f]), f)
            ast.fix_missing_locations(node.func)
        return node

    def visit_For(self, node):
        node.iter = self.visit(node.iter)
        node.target = self.visit(node.target)
        node.body = self._block(node.body)
        node.orelse = self._block(node.orelse)
        if not self.fdepth:
            return node
        qual = '.'.join([self.modname] + self.scope)
        n = self.loopno.get(qual, 0)
        self.loopno[qual] = n + 1
        if qual not in LOOP_FUNCTIONS:
            node.iter = _call('_pv_forbid', [node.iter, ast.Constant(f'{qual}#{n}')])
            return ast.fix_missing_locations(node)
        # invariant rule
        names = sorted(_stored(node.body) - _stored_targets(node.target))
        L = f'_pv_L{n}'
        snap = ast.Dict([ast.Constant(x) for x in names],
                        [ast.Call(ast.Name('_pv_peek', ast.Load()),
                                  [ast.Lambda(_noargs(), ast.Name(x, ast.Load()))], []) for x in names])
        allsnap = ast.Call(ast.Name('locals', ast.Load()), [], [])
        pre = [ast.Assign([ast.Name(L, ast.Store())],
                          _call('_pv_loop', [node.iter, ast.Constant(f'{qual}#{n}')]))]
        plain = ast.For(node.target, ast.Attribute(ast.Name(L, ast.Load()), 'items', ast.Load()),
                        node.body, node.orelse, None)
        import copy
        body2 = copy.deepcopy(node.body)
        abstract = [ast.Expr(_meth(L, 'enter', [allsnap]))]
        for x in names:
            abstract.append(ast.Assign([ast.Name(x, ast.Store())],
                                       _meth(L, 'havoc', [ast.Constant(x), ast.Call(ast.Name('_pv_peek', ast.Load()), [ast.Lambda(_noargs(), ast.Name(x, ast.Load()))], [])])))
        abstract.append(ast.Expr(_meth(L, 'assume', [copy.deepcopy(allsnap)])))
        step = ast.For(copy.deepcopy(node.target), _meth(L, 'one', []), body2,
                       [ast.Expr(_meth(L, 'leave', [copy.deepcopy(allsnap)]))], None)
        abstract.append(ast.If(_meth(L, 'more', []), [step],
                               [ast.Expr(_meth(L, 'exit', [copy.deepcopy(allsnap)]))] + copy.deepcopy(node.orelse)))
        stmt = ast.If(ast.Attribute(ast.Name(L, ast.Load()), 'abstract', ast.Load()), abstract, [plain])
        res = pre + [stmt]
        for r in res:
            ast.copy_location(r, node)
            ast.fix_missing_locations(r)
        return res

    def _comp(self, node, kind):
        self.generic_visit(node)
        if not self.fdepth or len(node.generators) != 1:
            for g in node.generators:
                if self.fdepth:
                    g.iter = _call('_pv_forbid', [g.iter, ast.Constant('comprehension')])
            return ast.fix_missing_locations(node)
        g = node.generators[0]
        if g.is_async or any(isinstance(x, (ast.NamedExpr, ast.Yield, ast.Await)) for x in ast.walk(node)):
            return node
        import copy
        elt = ast.Tuple([node.key, node.value], ast.Load()) if kind == 'dict' else node.elt
        cond = None
        if g.ifs:
            cond = g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(ast.And(), list(g.ifs))

        def one(e):
            inner = ast.ListComp(copy.deepcopy(e), [ast.comprehension(
                copy.deepcopy(g.target), ast.Tuple([ast.Name('_pv_x', ast.Load())], ast.Load()), [], 0)])
            return ast.Lambda(_args(['_pv_x']), ast.Subscript(inner, ast.Constant(0), ast.Load()))
        it = g.iter
        native = copy.copy(node)
        native.generators = [ast.comprehension(g.target, ast.Name('_pv_it', ast.Load()), g.ifs, 0)]
        new = _call('_pv_comp', [ast.Constant(kind), it, one(elt),
                                  one(cond) if cond is not None else ast.Constant(None),
                                  ast.Lambda(_args(['_pv_it']), native)])
        ast.copy_location(new, node)
        return ast.fix_missing_locations(new)

    def visit_List(self, node):
        """[*a, b]: the list of the elements of a and b, where a may be of any length."""
        self.generic_visit(node)
        if not self.fdepth or not isinstance(node.ctx, ast.Load) or not any(isinstance(e, ast.Starred) for e in node.elts):
            return node
        parts = [ast.Tuple([ast.Constant(isinstance(e, ast.Starred)), e.value if isinstance(e, ast.Starred) else e], ast.Load()) for e in node.elts]
        return ast.fix_missing_locations(ast.copy_location(_call('_pv_display', parts), node))

    def visit_ListComp(self, node): return self._comp(node, 'list')
    def visit_SetComp(self, node): return self._comp(node, 'set')
    def visit_GeneratorExp(self, node): return self._comp(node, 'gen')
    def visit_DictComp(self, node): return self._comp(node, 'dict')


def _noargs():
    return _args([])


def _args(names):
    return ast.arguments(posonlyargs=[], args=[ast.arg(n, None) for n in names], vararg=None,
                         kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[])


def _call(name, args):
    return ast.Call(ast.Name(name, ast.Load()), args, [])


def _meth(obj, name, args):
    return ast.Call(ast.Attribute(ast.Name(obj, ast.Load()), name, ast.Load()), args, [])


def _stored(body):
    out = set()
    for s in body:
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                out.add(x.id)
            if isinstance(x, ast.FunctionDef):
                out.add(x.name)
    return {x for x in out if not x.startswith('_pv_')}


def _stored_targets(t):
    return {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}


LOOP_FUNCTIONS = set()


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, owner):
        self.owner = owner

    def find_spec(self, name, path=None, target=None):
        if name != 'goats' and not name.startswith('goats.'):
            return None
        rel = os.path.join(SRC, *name.split('.'))
        if os.path.isfile(rel + '.py'):
            return importlib.util.spec_from_file_location(name, rel + '.py', loader=self)
        init = os.path.join(rel, '__init__.py')
        if os.path.isfile(init):
            return importlib.util.spec_from_file_location(
                name, init, loader=self, submodule_search_locations=[rel])
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        path = module.__spec__.origin
        with open(path, encoding='utf-8') as fp:
            text = fp.read()
        tree = ast.parse(text, path)
        tree = Transform(module.__name__).visit(tree)
        ast.fix_missing_locations(tree)
        from . import shims
        shims.install(module.__dict__)
        exec(compile(tree, path, 'exec'), module.__dict__)
        shims.patch_globals(module)
        self.owner.loaded[module.__name__] = path


class Loader:
    def __init__(self):
        self.loaded = {}
        self.finder = Finder(self)
        self.saved = []
        self.stub_specs = {}
        self.loop_specs = {}
        self.used_stubs = set()
        sys.meta_path.insert(0, self.finder)

    def module(self, name):
        return importlib.import_module(name)

    def configure(self, unit):
        self.stub_specs = unit.stubs
        self.loop_specs = unit.loops
        self.used_stubs = set()

    def begin(self, v):
        from . import seq
        seq.CURRENT = (self, v)
        for target, factory in self.stub_specs.items():
            obj, attr = self.resolve(target)
            if not hasattr(obj, attr):
                raise Inapplicable(f'{target} does not exist')
            old = obj.__dict__[attr] if attr in vars(obj) else None
            self.saved.append((obj, attr, old))
            setattr(obj, attr, factory(v))
            self.used_stubs.add(target)

    def end(self):
        while self.saved:
            obj, attr, old = self.saved.pop()
            if old is None:
                delattr(obj, attr)
            else:
                setattr(obj, attr, old)

    def resolve(self, target):
        """'core.symbolic:Expression.__init__' -> (class, '__init__')"""
        modname, path = target.split(':')
        obj = self.module(f'goats.{modname}')
        parts = path.split('.')
        for p in parts[:-1]:
            if not hasattr(obj, p):
                raise Inapplicable(f'{target} does not exist')
            obj = getattr(obj, p)
        return obj, parts[-1]
