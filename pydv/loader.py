"""Mechanical extraction of the repository code.

Every run reads /repo's current source, parses it and rewrites only:
  * `for` / `while` headers inside functions -> cut-point protocol (loops.py); bodies are untouched
  * list comprehensions / generator expressions with one `for` and no `if` -> map protocol
  * a one-line probe at function entry (records which functions were executed)
  * the module's builtins and its `import numpy / torch / tqdm` -> shims.py
Docstrings, comments and annotations are dropped; nothing else changes.
"""
import ast
import copy
import importlib.abc
import importlib.util
import os
import sys

REPO = os.environ.get('PYDV_REPO', '/repo')


class Assigned(ast.NodeVisitor):
    def __init__(self):
        self.names = []

    def add(self, n):
        if n not in self.names:
            self.names.append(n)

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.add(n.id)

    def visit_FunctionDef(self, n):
        self.add(n.name)

    def visit_Lambda(self, n):
        pass

    def visit_ListComp(self, n):
        pass

    visit_GeneratorExp = visit_SetComp = visit_DictComp = visit_ListComp

    def visit_ExceptHandler(self, n):
        self.generic_visit(n)


def assigned(stmts):
    a = Assigned()
    for s in stmts:
        a.visit(s)
    return a.names


class Xform(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.qual = []
        self.ord = []
        self.infn = 0
        self.uid = 0
        self.locs = []

    def visit_ClassDef(self, n):
        self.qual.append(n.name)
        old, self.infn = self.infn, 0
        self.generic_visit(n)
        self.infn = old
        self.qual.pop()
        return n

    def visit_FunctionDef(self, n):
        self.qual.append(n.name)
        q = self.mod + '.' + '.'.join(self.qual)
        self.ord.append([0])
        self.infn += 1
        self.locs.append(set(assigned(n.body)))
        # annotations dropped
        n.returns = None
        for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs:
            a.annotation = None
        self.generic_visit(n)
        self.infn -= 1
        self.locs.pop()
        self.ord.pop()
        self.qual.pop()
        body = n.body
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) \
                and isinstance(body[0].value.value, str):
            body = body[1:] or [ast.Pass()]
        probe = ast.parse(f'__pydv__.enter({q!r})').body
        n.body = probe + body
        return n

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Lambda(self, n):
        self.generic_visit(n)
        return n

    def _mutated(self, n, names, v):
        """locals mutated in place by the loop: a contract may replace the object by an arbitrary one"""
        mut = []
        for x in ast.walk(n):
            b = None
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name):
                b = x.func.value.id
            elif isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name):
                b = x.value.id
            if b and b in self.locs[-1] and b not in names and b not in mut:
                mut.append(b)
        out = []
        for b in mut:
            out += ast.parse(f'if {v}.cut and {b!r} in {v}.new: {b} = {v}.new[{b!r}]').body
        return out

    def _loop_id(self):
        k = self.ord[-1][0]
        self.ord[-1][0] += 1
        return self.mod + '.' + '.'.join(self.qual) + f'#{k}'

    def visit_For(self, n):
        if not self.infn:
            return self.generic_visit(n)
        lid = self._loop_id()
        names = assigned([n])
        self.generic_visit(n)
        self.uid += 1
        v = f'__pv{self.uid}'
        pre = ast.parse(f'{v} = __pydv__.enter_for(None, {lid!r}, locals(), {tuple(names)!r})').body[0]
        pre.value.args[0] = n.iter
        out = [pre]
        if names:
            blk = '\n'.join(f'    {x} = {v}.h({x!r})' for x in names)
            out += ast.parse(f'if {v}.cut:\n{blk}').body
        out += self._mutated(n, names, v)
        n.iter = ast.parse(f'{v}.run()').body[0].value
        out.append(n)
        return out

    def visit_While(self, n):
        if not self.infn:
            return self.generic_visit(n)
        lid = self._loop_id()
        names = assigned([n])
        self.generic_visit(n)
        self.uid += 1
        v = f'__pv{self.uid}'
        out = ast.parse(f'{v} = __pydv__.enter_while({lid!r}, locals(), {tuple(names)!r})').body
        if names:
            blk = '\n'.join(f'    {x} = {v}.h({x!r})' for x in names)
            out += ast.parse(f'if {v}.cut:\n{blk}').body
        out += self._mutated(n, names, v)
        test = ast.If(test=ast.UnaryOp(op=ast.Not(), operand=n.test), body=[ast.Break()], orelse=[])
        if n.orelse:
            test.body = n.orelse + [ast.Break()]
        loop = ast.For(target=ast.Name(id=f'{v}x', ctx=ast.Store()), iter=ast.parse(f'{v}.run()').body[0].value,
                       body=[test] + n.body, orelse=[])
        out.append(loop)
        return out

    def _comp(self, n, kind):
        self.generic_visit(n)
        if not self.infn or len(n.generators) != 1 or n.generators[0].ifs or n.generators[0].is_async:
            return n
        for sub in ast.walk(n):
            if isinstance(sub, (ast.NamedExpr, ast.Yield, ast.Await)):
                return n
        it = n.generators[0].iter
        inner = ast.ListComp(elt=n.elt, generators=[ast.comprehension(target=n.generators[0].target,
                             iter=ast.Name(id='__pvi', ctx=ast.Load()), ifs=[], is_async=0)])
        call = ast.parse(f'__pydv__.comp(0, lambda __pvi: 0, {kind!r})').body[0].value
        call.args[0] = it
        call.args[1].body = inner
        return call

    def visit_ListComp(self, n):
        return self._comp(n, 'list')

    def visit_GeneratorExp(self, n):
        return self._comp(n, 'gen')


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, runtime, builtins_ns):
        self.rt = runtime
        self.bi = builtins_ns
        self.files = {}

    def find_spec(self, name, path, target=None):
        if name != 'mushroom_rl' and not name.startswith('mushroom_rl.'):
            return None
        base = os.path.join(REPO, *name.split('.'))
        if os.path.isdir(base) and os.path.exists(os.path.join(base, '__init__.py')):
            f, pkg = os.path.join(base, '__init__.py'), [base]
        elif os.path.exists(base + '.py'):
            f, pkg = base + '.py', None
        else:
            return None
        spec = importlib.util.spec_from_file_location(name, f, loader=self, submodule_search_locations=pkg)
        return spec

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        fn = module.__spec__.origin
        src = open(fn).read()
        self.files[module.__name__] = fn
        tree = ast.parse(src, fn)
        tree = Xform(module.__name__).visit(tree)
        ast.fix_missing_locations(tree)
        code = compile(tree, fn, 'exec')
        module.__dict__['__builtins__'] = self.bi
        module.__dict__['__pydv__'] = self.rt
        exec(code, module.__dict__)


def install(runtime):
    import builtins
    from . import shims
    bi = dict(shims.BUILTINS)
    real_import = builtins.__import__

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0:
            root = name.split('.')[0]
            if root in ('numpy', 'torch', 'tqdm', 'math'):
                top = {'numpy': shims.np, 'torch': shims.torch, 'tqdm': shims.tqdm_mod, 'math': shims.math_mod}[root]
                if not fromlist:
                    if '.' in name:
                        real_import(name, globals, locals, fromlist, level)
                    return top
                m = top
                for p in name.split('.')[1:]:
                    m = getattr(m, p)
                return m
        return real_import(name, globals, locals, fromlist, level)
    bi['__import__'] = imp
    f = Finder(runtime, bi)
    sys.meta_path.insert(0, f)
    return f
