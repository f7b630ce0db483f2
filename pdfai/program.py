'''Load the source: modules, functions, classes; lexical facts (locals, captured names).'''

import ast
import os


def free_names(fn):
    '''names of outer scopes a function (with the functions in it) uses'''
    a = fn.args
    own = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x is not None}
    used, nonl = set(), set()
    holder = ast.Module(body=[ast.Expr(value=fn.body)] if isinstance(fn, ast.Lambda) else fn.body, type_ignores=[])
    for x in walk_scope(holder):
        if isinstance(x, ast.Name): (used if isinstance(x.ctx, ast.Load) else own).add(x.id)
        elif isinstance(x, (ast.FunctionDef, ast.Lambda)):
            used |= free_names(x)
            if isinstance(x, ast.FunctionDef): own.add(x.name)
        elif isinstance(x, ast.ClassDef):
            used |= {y.id for y in ast.walk(x) if isinstance(y, ast.Name)}
            own.add(x.name)
        elif isinstance(x, (ast.Nonlocal, ast.Global)): nonl |= set(x.names)
    out = (used - own) | nonl
    for d in list(a.defaults) + [d for d in a.kw_defaults if d is not None]:
        out |= {y.id for y in ast.walk(d) if isinstance(y, ast.Name)}
    return out


class FuncInfo:
    __slots__ = ('fid', 'node', 'module', 'cls', 'qual', 'parent', 'locals', 'captured', 'is_gen',
                 'params', 'vararg', 'kwarg', 'kwonly', 'globals', 'body', 'is_lambda', 'nonlocals')

    def __repr__(self): return self.qual


class ClassInfo:
    __slots__ = ('name', 'node', 'module', 'bases', 'mro', 'qual', 'outer')


class Module:
    __slots__ = ('name', 'path', 'tree', 'src', 'is_pkg', 'lines')


def walk_scope(node):
    '''nodes of the same scope (don't enter nested functions, classes, lambdas; comprehension entered).'''
    stack = list(ast.iter_child_nodes(node))
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            if not isinstance(n, ast.Lambda):
                stack.extend(n.decorator_list)
            if not isinstance(n, ast.ClassDef):
                stack.extend(d for d in n.args.defaults + n.args.kw_defaults if d is not None)
            continue
        stack.extend(ast.iter_child_nodes(n))


class Program:
    def __init__(self, root, package='pdf2docx', overlay=None, extra=None):
        self.root = root
        self.package = package
        self.extra = extra or {}         # additional modules (entry points)
        self.overlay = overlay or {}     # relative path -> source text (sensitivity audit)
        self.modules = {}
        self.funcs = []
        self.func_of_node = {}
        self.classes = {}
        self.nodes = []
        self.node_func = {}
        self.errors = []
        self.load()

    def load(self):
        base = os.path.join(self.root, self.package)
        for dirpath, dirs, files in os.walk(base):
            dirs.sort()
            dirs[:] = [d for d in dirs if d != '__pycache__']
            for f in sorted(files):
                if not f.endswith('.py'): continue
                path = os.path.join(dirpath, f)
                rel = os.path.relpath(path, self.root)
                name = rel[:-3].replace(os.sep, '.')
                is_pkg = name.endswith('.__init__')
                if is_pkg: name = name[:-9]
                src = self.overlay.get(rel)
                if src is None:
                    with open(path, encoding='utf-8') as fp: src = fp.read()
                m = Module()
                m.name, m.path, m.src, m.is_pkg = name, rel, src, is_pkg
                m.tree = ast.parse(src, rel)
                m.lines = src.split('\n')
                self.modules[name] = m
        for rel, src in self.extra.items():
            m = Module()
            m.name, m.path, m.src, m.is_pkg = rel[:-3].replace('/', '.'), rel, src, False
            m.tree = ast.parse(src, rel)
            m.lines = src.split('\n')
            self.modules[m.name] = m
        for m in self.modules.values():
            stack = [m.tree]
            while stack:
                n = stack.pop()
                n._id = len(self.nodes)
                n._mod = m
                self.nodes.append(n)
                stack.extend(reversed(list(ast.iter_child_nodes(n))))
            self.scan(m.tree, m, None, None, m.name)
        # fields used as a flag
        self.flags = {t.attr for n in self.nodes if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant) and n.value.value is False
                      for t in n.targets if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name)}

    def scan(self, node, m, cls, parent, prefix):
        for n in ast.iter_child_nodes(node):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                name = getattr(n, 'name', f'<lambda:{n.lineno}>')
                fi = self.add_func(n, m, cls, parent, f'{prefix}.{name}')
                self.scan(n, m, None, fi, f'{prefix}.{name}')
            elif isinstance(n, ast.ClassDef):
                c = ClassInfo()
                c.name = n.name
                c.qual = f'{prefix}.{n.name}'
                key = n.name
                while key in self.classes: key += "'"
                c.name = key
                c.node, c.module, c.mro, c.outer = n, m, None, parent
                self.classes[key] = c
                n._cname = key
                self.scan(n, m, key, parent, c.qual)
            else:
                self.scan(n, m, cls, parent, prefix)

    def add_func(self, n, m, cls, parent, qual):
        fi = FuncInfo()
        fi.fid = len(self.funcs)
        fi.node, fi.module, fi.cls, fi.parent = n, m, cls, parent
        fi.qual = qual[len(self.package) + 1:] if qual.startswith(self.package + '.') else qual
        fi.is_lambda = isinstance(n, ast.Lambda)
        a = n.args
        fi.params = [x.arg for x in a.posonlyargs + a.args]
        fi.kwonly = [x.arg for x in a.kwonlyargs]
        fi.vararg = a.vararg.arg if a.vararg else None
        fi.kwarg = a.kwarg.arg if a.kwarg else None
        loc = set(fi.params) | set(fi.kwonly)
        if fi.vararg: loc.add(fi.vararg)
        if fi.kwarg: loc.add(fi.kwarg)
        glob, nonl = set(), set()
        fi.is_gen = False
        body = [n.body] if fi.is_lambda else n.body
        fi.body = body
        holder = ast.Module(body=[ast.Expr(value=n.body)] if fi.is_lambda else n.body, type_ignores=[])
        for x in walk_scope(holder):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)): loc.add(x.id)
            elif isinstance(x, (ast.FunctionDef, ast.ClassDef)): loc.add(x.name)
            elif isinstance(x, ast.Global): glob |= set(x.names)
            elif isinstance(x, ast.Nonlocal): nonl |= set(x.names)
            elif isinstance(x, (ast.Yield, ast.YieldFrom)): fi.is_gen = True
            elif isinstance(x, ast.ExceptHandler) and x.name: loc.add(x.name)
            elif isinstance(x, (ast.Import, ast.ImportFrom)):
                for al in x.names: loc.add((al.asname or al.name).split('.')[0])
            elif isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name: loc.add(x.name)
        fi.locals = loc - glob - nonl
        fi.globals, fi.nonlocals = glob, nonl
        fi.captured = set()
        for x in walk_scope(holder):
            if isinstance(x, (ast.FunctionDef, ast.Lambda)): fi.captured |= free_names(x) & fi.locals
            elif isinstance(x, ast.ClassDef): fi.captured |= {y.id for y in ast.walk(x) if isinstance(y, ast.Name)} & fi.locals
        self.funcs.append(fi)
        self.func_of_node[n] = fi
        return fi

    def find(self, qual):
        '''functions by qualified name suffix, e.g. Page.parse'''
        return [f for f in self.funcs if f.qual == qual or f.qual.endswith('.' + qual)]

    def where(self, node):
        m = getattr(node, '_mod', None)
        return f'{m.path}:{getattr(node, "lineno", 1)}' if m else '?'
