'''Ownership of collection elements: where the elements of a sequence are at the end of a function, on every path.

An abstract interpreter over the syntax tree with a finite domain: collections hold up to a few abstract elements (tokens), everything else
(geometry, text, settings) is opaque, and every test on something opaque may turn out either way (consistently within a path).  Nothing of
the analysed program is executed.  A construct which is not modelled raises Unsupported: nothing is concluded about the function.'''

import ast
import time
from collections import deque, defaultdict


class Unsupported(Exception): pass


class Abort(Exception):
    '''the path raises an exception'''


class Return(Exception):
    def __init__(self, v): self.v = v


class Break(Exception): pass
class Continue(Exception): pass


class Tok:
    '''an element'''
    def __init__(self, name, family, parent=None):
        self.name, self.family, self.up = name, family, parent
        self.fields, self.content, self.children, self.kids = {}, [], {}, {}

    def __repr__(self): return self.name
    def __hash__(self): return hash(self.name)
    def __eq__(self, o): return self is o


class Opq:
    '''unknown value'''
    __slots__ = ('key', 'refs')

    def __init__(self, key, refs=()): self.key, self.refs = key, tuple(refs)
    def __repr__(self): return f'<{self.key}>'
    def __hash__(self): return hash(self.key)
    def __eq__(self, o): return isinstance(o, Opq) and o.key == self.key


class Stored:
    '''something given to an unknown object'''
    def __init__(self, where, v): self.where, self.v = where, v


class Inst:
    '''object of a class of the program'''
    count = 0

    def __init__(self, cls, run):
        self.cls, self.fields, self.content = cls, {}, []
        run.n += 1
        self.id = run.n

    def __repr__(self): return f'{self.cls}#{self.id}'


class Cls:
    def __init__(self, name): self.name = name
    def __repr__(self): return self.name
    def __eq__(self, o): return isinstance(o, Cls) and o.name == self.name
    def __hash__(self): return hash(self.name)


class Enum:
    def __init__(self, cls, name): self.cls, self.name = cls, name
    def __repr__(self): return f'{self.cls}.{self.name}'
    def __eq__(self, o): return isinstance(o, Enum) and (o.cls, o.name) == (self.cls, self.name)
    def __hash__(self): return hash((self.cls, self.name))


class Func:
    def __init__(self, fi, env=None, recv=None): self.fi, self.env, self.recv = fi, env, recv
    def __repr__(self): return f'function {self.fi.qual}'


class Scope(dict):
    def __init__(self, parent=None, fi=None):
        super().__init__()
        self.parent, self.fi, self.out = parent, fi, None


ADD = ('add', 'append', 'extend', 'insert', 'reset', 'assign', 'update', 'set_', 'union', 'join', 'merge', 'put', 'push', 'collect', 'attach', 'move', 'absorb')
OPAQUE = {'bbox', 'text', 'text_direction', 'is_horizontal_text', 'is_vertical_text', 'parent', 'working_bbox', 'width', 'height', 'outer_bbox', 'inner_bbox'}
SKIP = {'plot', 'store', 'make_docx'}
CHILDREN = ('lines', 'spans', 'chars', 'blocks', 'shapes')
KINDS = {'BlockType': ('TEXT', 'IMAGE', 'LATTICE_TABLE', 'STREAM_TABLE')}
EXCLUSIVE = [('Stroke', 'Fill', 'Hyperlink'), ('TextSpan', 'ImageSpan'), ('TextBlock', 'TableBlock', 'ImageBlock')]
FAMILY_CLASS = {'block': 'Block', 'line': 'Line', 'span': 'TextSpan', 'char': 'Char', 'shape': 'Shape', 'table': 'TableBlock', 'cell': 'Cell'}
NEXT = {'lines': 'line', 'spans': 'span', 'chars': 'char', 'blocks': 'block', 'shapes': 'shape'}
PYTYPES = {'list': list, 'tuple': tuple, 'dict': dict, 'set': set, 'str': str, 'int': int, 'float': float, 'bool': bool}
OPS = {ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b, ast.Mult: lambda a, b: a * b, ast.Div: lambda a, b: a / b, ast.FloorDiv: lambda a, b: a // b,
       ast.Mod: lambda a, b: a % b, ast.BitAnd: lambda a, b: a & b, ast.BitOr: lambda a, b: a | b, ast.BitXor: lambda a, b: a ^ b, ast.Pow: lambda a, b: a ** b,
       ast.LShift: lambda a, b: a << b, ast.RShift: lambda a, b: a >> b}
CMP = {ast.Lt: lambda a, b: a < b, ast.LtE: lambda a, b: a <= b, ast.Gt: lambda a, b: a > b, ast.GtE: lambda a, b: a >= b}


def plain(v): return v is None or isinstance(v, (bool, int, float, str, bytes))


def geometry(name):
    '''a method which only takes the place of its arguments'''
    return any(x in name for x in ('bbox', 'rect', 'space', 'spacing', 'position')) and not name.startswith(('append', 'add', 'insert', 'extend', 'reset', 'assign'))


def key(v):
    if plain(v): return repr(v)
    if isinstance(v, Opq): return v.key
    if isinstance(v, (Tok, Cls, Enum)): return repr(v)
    if isinstance(v, Inst): return f'{v.cls}#{v.id}'
    if isinstance(v, (list, tuple)): return '[' + ','.join(key(x) for x in v) + ']'
    if isinstance(v, Func): return v.fi.qual
    return type(v).__name__


def reach(v, seen=None, out=None):
    '''elements reachable from a value'''
    if seen is None: seen, out = set(), set()
    stack = [v]
    while stack:
        x = stack.pop()
        if plain(x) or isinstance(x, (Cls, Enum)) or id(x) in seen: continue
        seen.add(id(x))
        if isinstance(x, Tok):
            out.add(x)
            stack += list(x.fields.values()) + x.content
            for c in x.children.values(): stack.append(c)
        elif isinstance(x, Stored): stack.append(x.v)
        elif isinstance(x, Inst): stack += list(x.fields.values()) + x.content
        elif isinstance(x, Opq): stack += [r for r in x.refs]
        elif isinstance(x, dict): stack += list(x.values()) + list(x.keys())
        elif isinstance(x, (list, tuple, set, frozenset, deque)): stack += list(x)
    return out


class Run:
    '''one path'''
    def __init__(self, an, prefix, random=None):
        self.an, self.prefix, self.random = an, prefix, random
        self.n = self.steps = self.depth = 0
        self.taken, self.memo, self.log = [], {}, []
        self.escaped, self.calls = [], []
        self.dead = set()   # elements of no size: the next collection drops them

    # ------------------------------------------------------------ choices
    def choose(self, k, n=2):
        if k in self.memo: return self.memo[k]
        i = len(self.taken)
        if self.random is not None:
            self.random = (self.random * 1103515245 + 12345) % 2147483648
            c = (self.random >> 16) % n
        else: c = self.prefix[i] if i < len(self.prefix) else 0
        self.taken.append((c, n))
        self.memo[k] = c
        return c

    def decide(self, k, *on):
        # True first
        r = self.choose(k) == 0
        if not any(x[0] == k for x in self.log): self.log.append((k, r))
        return r

    def tick(self):
        self.steps += 1
        if self.steps > self.an.max_steps: raise Unsupported('too long')

    # ------------------------------------------------------------ truth, iteration
    def truth(self, v):
        if plain(v): return bool(v)
        if isinstance(v, Tok) and v.family == 'cell': return self.decide(f'{v} exists')
        if isinstance(v, (Tok, Cls, Enum, Func)): return True
        if isinstance(v, Opq): return True if v.refs and v.key.endswith('[*]') else self.decide(v.key)
        if isinstance(v, (list, tuple, dict, set, deque, range)): return len(v) > 0
        if isinstance(v, Inst):
            if self.collection(v.cls): return len(self.items(v)) > 0
            return True
        raise Unsupported(f'truth of {type(v).__name__}')

    def collection(self, cls): return self.an.collection(cls)

    def items(self, v):
        if isinstance(v, (list, tuple, set, deque, range)): return list(v)
        if isinstance(v, dict): return list(v)
        if isinstance(v, str): return list(v)
        if isinstance(v, Inst):
            if self.collection(v.cls): return self.items(v.fields.get(self.an.items_field, []))
            return list(v.content)
        if isinstance(v, Opq):
            if v.key.endswith('bbox') or v.key.endswith('rect'): return [Opq(f'{v.key}[{i}]') for i in range(4)]
            return [Opq(f'{v.key}[*]', v.refs)]
        if isinstance(v, Tok): return [Opq(f'{v}[{i}]') for i in range(4)] if v.family not in ('table',) else [Opq(f'{v}[*]', (v,))]
        raise Unsupported(f'iterating over {type(v).__name__}')

    # ------------------------------------------------------------ calls
    def call_func(self, f, args, kwargs):
        fi = f.fi
        if self.depth > 25: raise Unsupported('recursion')
        sc = Scope(f.env, fi)
        params = list(fi.params)
        if f.recv is not None: args = [f.recv] + list(args)
        rest = list(args)
        a = fi.node.args
        defaults = a.defaults
        names = [x.arg for x in a.posonlyargs + a.args]
        for i, p in enumerate(names):
            if rest: sc[p] = rest.pop(0)
            elif p in kwargs: sc[p] = kwargs.pop(p)
            elif i >= len(names) - len(defaults): sc[p] = self.expr(defaults[i - len(names) + len(defaults)], Scope())
            else: sc[p] = Opq(f'{fi.qual}:{p}')
        if a.vararg: sc[a.vararg.arg] = tuple(rest)
        elif rest: raise Unsupported('arguments')
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            sc[x.arg] = kwargs.pop(x.arg) if x.arg in kwargs else self.expr(d, Scope()) if d is not None else Opq(f'{fi.qual}:{x.arg}')
        if a.kwarg: sc[a.kwarg.arg] = dict(kwargs)
        elif kwargs: raise Unsupported('arguments')
        self.depth += 1
        try:
            if fi.is_lambda: return self.expr(fi.node.body, sc)
            if fi.is_gen: sc.out = []
            try: self.body(fi.node.body, sc)
            except Return as r:
                if not fi.is_gen: return r.v
            return sc.out if fi.is_gen else None
        finally: self.depth -= 1

    def method(self, cls, name):
        for c in self.an.mro(cls):
            fi = self.an.methods.get((c, name))
            if fi is not None: return fi
        return None

    def construct(self, cls, args, kwargs):
        o = Inst(cls, self)
        if self.collection(cls):
            init = self.method(cls, '__init__')
            if init is not None: self.call_func(Func(init, None, o), args, kwargs)
        else: o.content += list(args) + list(kwargs.values())
        return o

    def absorb(self, recv, args, name=''):
        if geometry(name): return
        if isinstance(recv, (Tok, Inst)):
            for x in args:
                if x is not recv and not plain(x): recv.content.append(x)
        else: self.escaped += [x for x in args if not plain(x)]

    def call(self, node, sc, stmt=False):
        self.tick()
        fn = node.func
        args, kwargs = [], {}

        def arguments():
            for x in node.args:
                if isinstance(x, ast.Starred): args.extend(self.items(self.expr(x.value, sc)))
                else: args.append(self.expr(x, sc))
            for k in node.keywords:
                v = self.expr(k.value, sc)
                if k.arg is None:
                    if isinstance(v, dict): kwargs.update(v)
                    elif not isinstance(v, Opq): raise Unsupported('**')
                else: kwargs[k.arg] = v
        if isinstance(fn, ast.Name):
            if fn.id == 'super' and not node.args: return Opq('super')
            v = self.name(fn.id, sc, node)
            arguments()
            return self.apply(v, fn.id, args, kwargs, sc, stmt, node)
        if isinstance(fn, ast.Attribute):
            if isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == 'super':
                arguments()
                me = self.find_self(sc)
                fi = self.super_method(sc, fn.attr)
                if fi is None or fi.qual.endswith('.__init__') and not self.collection(getattr(me, 'cls', '')): return None
                return self.call_func(Func(fi, None, me), args, kwargs)
            recv = self.expr(fn.value, sc)
            arguments()
            return self.invoke(recv, fn.attr, args, kwargs, sc, stmt, node)
        v = self.expr(fn, sc)
        arguments()
        return self.apply(v, '', args, kwargs, sc, stmt, node)

    def find_self(self, sc):
        while sc is not None:
            if sc.fi is not None and sc.fi.cls and sc.fi.params: return sc.get(sc.fi.params[0])
            sc = sc.parent
        raise Unsupported('super')

    def super_method(self, sc, name):
        s = sc
        while s is not None and not (s.fi is not None and s.fi.cls): s = s.parent
        me = self.find_self(sc)
        mro = self.an.mro(getattr(me, 'cls', s.fi.cls))
        i = mro.index(s.fi.cls) if s.fi.cls in mro else -1
        for c in mro[i + 1:]:
            if (c, name) in self.an.methods: return self.an.methods[(c, name)]
        return None

    def apply(self, v, name, args, kwargs, sc, stmt, node):
        if isinstance(v, Func):
            if self.an.skip is not None and self.an.skip(v.fi):
                # any pairs may be connected
                for g in args:
                    if isinstance(g, list) and g and all(isinstance(x, set) for x in g):
                        for i in range(len(g)):
                            for j in range(i + 1, len(g)):
                                if self.decide(f'{i} and {j} of {len(g)} are connected'): g[i].add(j), g[j].add(i)
                return Opq(f'{v.fi.qual}()')
            return self.call_func(v, args, dict(kwargs))
        if isinstance(v, Cls): return self.construct(v.name, args, dict(kwargs))
        if isinstance(v, tuple) and v and v[0] == 'builtin': return self.builtin(v[1], args, kwargs, sc, node)
        if isinstance(v, tuple) and v and v[0] == 'bound':
            return self.invoke(v[1], v[2], args, kwargs, sc, stmt, node)
        vals = list(args) + list(kwargs.values())
        if stmt and name not in ('print',): self.escaped += [x for x in vals if not plain(x)]
        return Opq(f'{key(v)}({",".join(key(x) for x in vals)})', [x for x in vals if not plain(x)])

    def invoke(self, recv, name, args, kwargs, sc, stmt, node):
        vals = list(args) + list(kwargs.values())
        if not isinstance(recv, (list, dict, set, deque, str)): self.calls.append((recv, name, list(args), dict(kwargs), len(self.log)))
        if isinstance(recv, (list, dict, set, deque, tuple, str)) and not (isinstance(recv, tuple) and recv and recv[0] in ('builtin', 'bound')):
            return self.python(recv, name, args, kwargs)
        if isinstance(recv, Inst):
            if name == '__class__': return self.construct(recv.cls, args, dict(kwargs))
            if name in recv.fields: return self.apply(recv.fields[name], name, args, kwargs, sc, stmt, node)
            fi = self.method(recv.cls, name)
            if name == 'copy' and not args:
                o = Inst(recv.cls, self)
                o.fields.update({k: list(v) if isinstance(v, list) else v for k, v in recv.fields.items()})
                o.content = list(recv.content)
                return o
            if fi is not None and (self.collection(recv.cls) or recv is self.an.me) and name not in SKIP:
                if self.an.skip is not None and self.an.skip(fi): pass
                elif any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in fi.node.decorator_list): return self.call_func(Func(fi), args, dict(kwargs))
                elif self.an.returns_self(name) and not self.collection(recv.cls) and fi is not self.an.fi:
                    self.absorb(recv, vals, name)
                    return recv
                else: return self.call_func(Func(fi, None, recv), args, dict(kwargs))
            if stmt or name.startswith(ADD): self.absorb(recv, vals, name)
            if self.an.returns_self(name): return recv
            return Opq(f'{key(recv)}.{name}({",".join(key(x) for x in vals)})', [recv] + [x for x in vals if not plain(x)])
        if isinstance(recv, Tok):
            fi = self.method(FAMILY_CLASS.get(recv.family, ''), name)
            if fi is not None and not vals and len(self.an.code(fi)) == 1 and isinstance(self.an.code(fi)[0], ast.Return) and fi.params:
                return self.call_func(Func(fi, None, recv), [], {})
            if name == 'update_bbox' and args and isinstance(args[0], (tuple, list)) and all(plain(x) and not x for x in args[0]): self.dead.add(recv)
            if stmt or name.startswith(ADD): self.absorb(recv, vals, name)
            if self.an.returns_self(name): return recv
            if name == 'copy' and not vals:
                c = Opq(f'{recv}.copy()', [recv])
                return c
            return Opq(f'{recv}.{name}({",".join(key(x) for x in vals)})', [recv] + [x for x in vals if not plain(x)] if name not in OPAQUE else ())
        if isinstance(recv, Cls):
            fi = self.method(recv.name, name)
            if fi is not None and self.collection(recv.name):
                return self.call_func(Func(fi), args, dict(kwargs))
        if isinstance(recv, Opq):
            if name in ('reset', 'clear'): self.escaped = [x for x in self.escaped if not (isinstance(x, Stored) and x.where == recv.key)]
            if stmt and not geometry(name): self.escaped += [Stored(recv.key, x) for x in vals if not plain(x)]
            if recv.key == 'copy' and name in ('copy', 'deepcopy') and len(args) == 1 and isinstance(args[0], Inst): return self.invoke(args[0], 'copy', [], {}, sc, False, node)
            return Opq(f'{recv.key}.{name}({",".join(key(x) for x in vals)})', list(recv.refs) + [x for x in vals if not plain(x)])
        raise Unsupported(f'method {name} of {type(recv).__name__}')

    def python(self, recv, name, args, kwargs):
        if name == 'sort': return None
        if name in ('extend', 'update', 'extendleft') and len(args) == 1 and not isinstance(args[0], dict): args = [self.items(args[0])]
        if isinstance(recv, str):
            if name == 'join': return Opq(f'join({key(args[0])})')
            return Opq(f'str.{name}({key(recv)})')
        if isinstance(recv, (list, deque)) and name in ('index', 'remove', 'count') or name in ('pop', 'insert') and args and not isinstance(args[0], int) and not isinstance(recv, (dict, set)):
            if name in ('index', 'remove') and isinstance(args[0], Tok):
                i = next((i for i, x in enumerate(recv) if x is args[0]), None)
                if i is None: raise Abort()
                if name == 'index': return i
                del recv[i]
                return None
            raise Unsupported(f'list.{name}')
        m = getattr(recv, name, None)
        if m is None: raise Unsupported(f'method {name}')
        try:
            r = m(*args, **kwargs)
        except (IndexError, KeyError, ValueError): raise Abort()
        except TypeError: raise Unsupported(f'method {name}')
        if type(r).__name__ in ('dict_items', 'dict_keys', 'dict_values'): return [tuple(x) if isinstance(x, tuple) else x for x in r]
        return r

    def builtin(self, name, args, kwargs, sc, node):
        def f(x, *a): return self.apply(x, '', list(a), {}, sc, False, node)
        if name == 'print': return None
        if name in ('list', 'tuple', 'iter', 'sorted', 'reversed', 'set', 'frozenset', 'deque'):
            s = self.items(args[0]) if args else []
            if name == 'reversed': s = s[::-1]
            if name in ('set', 'frozenset'): return set(x for x in s) if all(not isinstance(x, (list, dict, set)) for x in s) else s
            if name == 'deque': return deque(s)
            return tuple(s) if name == 'tuple' else s
        if name == 'dict':
            return dict(kwargs) if not args else dict(args[0]) if isinstance(args[0], dict) else _un('dict()')
        if name == 'defaultdict':
            d = {}
            return DefaultDict(args[0] if args else None, self, sc, node)
        if name == 'len':
            if isinstance(args[0], (Opq, Tok)): return Opq(f'len({key(args[0])})')
            return len(self.items(args[0]) if isinstance(args[0], Inst) else args[0])
        if name == 'range':
            if all(isinstance(x, int) for x in args): return range(*args)
            return [Opq(f'range({",".join(key(x) for x in args)})[*]')]
        if name == 'enumerate':
            st = args[1] if len(args) > 1 else kwargs.get('start', 0)
            return [(i + st, x) for i, x in enumerate(self.items(args[0]))]
        if name == 'zip': return [tuple(x) for x in zip(*[self.items(x) for x in args])]
        if name == 'filter': return [x for x in self.items(args[1]) if self.truth(f(args[0], x) if args[0] is not None else x)]
        if name == 'map': return [f(args[0], *x) for x in zip(*[self.items(y) for y in args[1:]])]
        if name in ('any', 'all'):
            for x in self.items(args[0]):
                if self.truth(x) == (name == 'any'): return name == 'any'
            return name == 'all'
        if name == 'bool': return self.truth(args[0]) if args else False
        if name in ('min', 'max', 'sum', 'abs', 'round', 'int', 'float', 'str', 'hash', 'divmod', 'pow'):
            vals = args if len(args) > 1 or name not in ('min', 'max', 'sum') else self.items(args[0])
            if all(isinstance(x, (int, float)) for x in vals) and vals and 'key' not in kwargs:
                try: return {'min': min, 'max': max, 'sum': lambda *x: sum(x), 'abs': abs, 'round': round, 'int': int, 'float': float, 'str': str}[name](*vals)
                except KeyError: pass
            if name == 'sum' and not vals: return 0
            return Opq(f'{name}({",".join(key(x) for x in vals)})', [x for x in vals if not plain(x)] if name in ('min', 'max') else ())
        if name == 'isinstance': return self.isinstance(args[0], args[1])
        if name == 'hasattr': return Opq(f'hasattr({key(args[0])},{args[1]})')
        if name == 'getattr':
            if isinstance(args[1], str): return self.attr(args[0], args[1])
            raise Unsupported('getattr')
        if name == 'next':
            if isinstance(args[0], list):
                if args[0]: return args[0].pop(0)
                if len(args) > 1: return args[1]
                raise Abort()
            return Opq(f'next({key(args[0])})')
        if name == 'type':
            if isinstance(args[0], Inst): return Cls(args[0].cls)
            return Opq(f'type({key(args[0])})')
        if name == 'id': return Opq(f'id({key(args[0])})')
        if name == 'chain': return [y for x in args for y in self.items(x)]
        raise Unsupported(name)

    def isinstance(self, v, c):
        cs = list(c) if isinstance(c, tuple) and not (c and c[0] == 'builtin') else [c]
        out = False
        for x in cs:
            if isinstance(x, tuple) and x and x[0] == 'builtin':
                t = PYTYPES.get(x[1])
                if t is None: raise Unsupported('isinstance')
                if isinstance(v, (Opq,)): out = out or self.decide(f'isinstance({v.key},{x[1]})')
                else: out = out or isinstance(v, t)
                continue
            name = x.name if isinstance(x, Cls) else x.key.rsplit('.', 1)[-1] if isinstance(x, Opq) else None
            if name is None: raise Unsupported('isinstance')
            if name in ('Iterable', 'Sequence', 'Sized', 'Collection') and not isinstance(x, Cls):
                out = out or isinstance(v, (list, tuple, set, dict)) or isinstance(v, Inst) and self.collection(v.cls)
            elif isinstance(v, Inst): out = out or name in self.an.mro(v.cls)
            elif isinstance(v, Tok):
                fam = FAMILY_CLASS.get(v.family, '')
                if name in self.an.mro(fam) and not any(name in g for g in EXCLUSIVE): out = True
                elif self.collection(name): pass
                else:
                    g = next((g for g in EXCLUSIVE if name in g), None)
                    if g is None: out = out or self.decide(f'isinstance({v},{name})')
                    else:
                        i = self.choose(f'class of {v}', len(g))
                        if not any(k[0] == f'class of {v}' for k in self.log): self.log.append((f'class of {v}', g[i]))
                        out = out or g[i] == name
            elif isinstance(v, Opq): out = out or self.decide(f'isinstance({v.key},{name})')
            if out: return True
        return out

    # ------------------------------------------------------------ names, attributes
    def name(self, n, sc, node):
        s = sc
        while s is not None:
            if n in s: return s[n]
            s = s.parent
        if n in PYTYPES or n in BUILTINS: return ('builtin', n)
        mod = getattr(node, '_mod', None)
        g = self.an.globals_of(mod, n)
        return g if g is not None else Opq(n)

    def attr(self, v, name):
        self.tick()
        if isinstance(v, Inst):
            if name in v.fields: return v.fields[name]
            if name == '__class__': return Cls(v.cls)
            if name == '__dict__': return {}
            if name in OPAQUE: return Opq(f'{key(v)}.{name}')
            fi = self.method(v.cls, name)
            if fi is not None:
                decs = {d.id if isinstance(d, ast.Name) else getattr(d, 'attr', '') for d in fi.node.decorator_list}
                if not decs & {'property', 'lazyproperty', 'cached_property'}: return ('bound', v, name)
                if self.collection(v.cls) or v is self.an.me: return self.call_func(Func(fi, None, v), [], {})
            if self.collection(v.cls) or v is self.an.me:
                return Opq(f'{key(v)}.{name}')
            return v       # part of an object holding elements
        if isinstance(v, Tok):
            if name in v.fields: return v.fields[name]
            if name in ('_type',):
                kinds = self.an.kinds(v.family)
                if kinds is not None:
                    i = self.choose(f'{name} of {v}', len(kinds))
                    v.fields[name] = kinds[i]
                    self.log.append((f'{name} of {v}', kinds[i].name))
                    return kinds[i]
            if name == 'parent' and v.up is not None: return v.up
            if name in CHILDREN and v.family in ('block', 'line', 'span', 'cell', 'table'):
                if name not in v.children:
                    kids = [Tok(f'{v}.{name}{i}', NEXT[name], v) for i in range(2)]
                    v.kids[name] = list(kids)
                    cls = name.capitalize()
                    if self.collection(cls):
                        o = Inst(cls, self)
                        o.fields.update({self.an.items_field: kids, '_parent': v})
                        v.children[name] = o
                    else: v.children[name] = kids
                return v.children[name]
            fi = self.method(FAMILY_CLASS.get(v.family, ''), name)
            if fi is not None:
                decs = {d.id if isinstance(d, ast.Name) else getattr(d, 'attr', '') for d in fi.node.decorator_list}
                if not decs & {'property', 'lazyproperty', 'cached_property'}: return ('bound', v, name)
            return Opq(f'{v}.{name}')
        if isinstance(v, Cls):
            if self.an.is_enum(v.name): return Enum(v.name, name)
            if name == '__name__': return v.name
            fi = self.method(v.name, name)
            if fi is not None: return Func(fi)
            return Opq(f'{v.name}.{name}')
        if isinstance(v, Enum): return Opq(f'{v}.{name}')
        if isinstance(v, Opq): return Opq(f'{v.key}.{name}', v.refs if name not in OPAQUE else ())
        if isinstance(v, (list, dict, set, deque, str)): return ('bound', v, name)
        raise Unsupported(f'attribute {name}')

    # ------------------------------------------------------------ expressions
    def expr(self, n, sc):
        self.tick()
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None: raise Unsupported(type(n).__name__)
        return m(n, sc)

    def e_Constant(self, n, sc): return n.value
    def e_Name(self, n, sc): return self.name(n.id, sc, n)
    def e_Attribute(self, n, sc): return self.attr(self.expr(n.value, sc), n.attr)
    def e_Call(self, n, sc): return self.call(n, sc)
    def e_List(self, n, sc): return self.seq(n.elts, sc)
    def e_Tuple(self, n, sc): return tuple(self.seq(n.elts, sc))
    def e_Set(self, n, sc): return set(self.seq(n.elts, sc))

    def seq(self, elts, sc):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred): out += self.items(self.expr(x.value, sc))
            else: out.append(self.expr(x, sc))
        return out

    def e_Dict(self, n, sc):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                x = self.expr(v, sc)
                if isinstance(x, dict): d.update(x)
            else: d[self.expr(k, sc)] = self.expr(v, sc)
        return d

    def e_JoinedStr(self, n, sc): return Opq('text')
    def e_Lambda(self, n, sc): return Func(self.an.prog.func_of_node[n], sc)
    def e_IfExp(self, n, sc): return self.expr(n.body if self.truth(self.expr(n.test, sc)) else n.orelse, sc)

    def e_NamedExpr(self, n, sc):
        v = self.expr(n.value, sc)
        self.assign(n.target, v, sc)
        return v

    def e_Starred(self, n, sc): raise Unsupported('*')

    def e_BoolOp(self, n, sc):
        v = None
        for x in n.values:
            v = self.expr(x, sc)
            t = self.truth(v)
            if t == isinstance(n.op, ast.Or): return v if not isinstance(v, Opq) else v if t else False
        return v

    def e_UnaryOp(self, n, sc):
        v = self.expr(n.operand, sc)
        if isinstance(n.op, ast.Not): return not self.truth(v)
        if isinstance(v, (int, float)): return -v if isinstance(n.op, ast.USub) else v if isinstance(n.op, ast.UAdd) else ~v
        return Opq(f'-{key(v)}')

    def e_BinOp(self, n, sc): return self.binop(type(n.op), self.expr(n.left, sc), self.expr(n.right, sc))

    def binop(self, op, a, b):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)) or isinstance(a, (list, tuple, set)) and type(a) is type(b) or \
           isinstance(a, (list, tuple)) and isinstance(b, int) and op is ast.Mult:
            try: return OPS[op](a, b)
            except ZeroDivisionError: raise Abort()
            except (KeyError, TypeError): raise Unsupported('operator')
        if isinstance(a, list) and isinstance(b, Inst) and self.collection(b.cls): raise Unsupported('operator')
        return Opq(f'({key(a)} {op.__name__} {key(b)})', ())

    def e_Compare(self, n, sc):
        a = self.expr(n.left, sc)
        for op, x in zip(n.ops, n.comparators):
            b = self.expr(x, sc)
            if not self.compare(op, a, b): return False
            a = b
        return True

    def compare(self, op, a, b):
        if isinstance(op, (ast.NotEq, ast.NotIn, ast.IsNot)):
            return not self.compare({ast.NotEq: ast.Eq, ast.NotIn: ast.In, ast.IsNot: ast.Is}[type(op)](), a, b)
        if isinstance(op, ast.Is) and (b is None or a is None):
            x = a if b is None else b
            if isinstance(x, Opq): return self.decide(f'{x.key} is None')
            return x is None
        if isinstance(op, (ast.Eq, ast.Is)):
            if isinstance(a, (Tok, Inst)) or isinstance(b, (Tok, Inst)):
                if isinstance(a, Opq) or isinstance(b, Opq): return self.decide(f'{key(a)}=={key(b)}')
                return a is b
            if isinstance(a, Opq) or isinstance(b, Opq):
                if isinstance(a, Opq) and isinstance(b, Opq) and a.key == b.key: return True
                e = a if isinstance(a, Enum) else b if isinstance(b, Enum) else None
                o = a if isinstance(a, Opq) else b
                if e is not None and self.memo.get(f'{o.key}==', e) != e: return False
                r = self.decide(f'{key(a)}=={key(b)}' if isinstance(a, Opq) else f'{key(b)}=={key(a)}')
                if r and e is not None: self.memo[f'{o.key}=='] = e
                return r
            try: return a == b
            except Exception: raise Unsupported('==')
        if isinstance(op, ast.In):
            if isinstance(b, (Opq, Tok)) or isinstance(b, str) and not isinstance(a, str): return self.decide(f'{key(a)} in {key(b)}')
            if isinstance(b, (dict, set)) and not isinstance(a, (Opq, list)): return a in b
            return any(self.compare(ast.Eq(), a, x) for x in self.items(b))
        if isinstance(a, (int, float)) and isinstance(b, (int, float)): return CMP[type(op)](a, b)
        k = f'{key(a)} {type(op).__name__} {key(b)}'
        # the same test seen from the other side
        flip = {'Lt': 'Gt', 'Gt': 'Lt', 'LtE': 'GtE', 'GtE': 'LtE'}
        neg = {'Lt': 'GtE', 'GtE': 'Lt', 'Gt': 'LtE', 'LtE': 'Gt'}
        nm = type(op).__name__
        k2 = f'{key(b)} {flip[nm]} {key(a)}'
        if k2 in self.memo: return self.memo[k2] == 0
        for k3 in (f'{key(a)} {neg[nm]} {key(b)}', f'{key(b)} {flip[neg[nm]]} {key(a)}'):
            if k3 in self.memo: return self.memo[k3] != 0
        return self.decide(k)

    def e_Subscript(self, n, sc):
        v = self.expr(n.value, sc)
        if isinstance(n.slice, ast.Slice):
            p = [self.expr(x, sc) if x is not None else None for x in (n.slice.lower, n.slice.upper, n.slice.step)]
            if isinstance(v, Inst) and self.collection(v.cls): v = self.items(v)
            if isinstance(v, (list, tuple, str)):
                if all(x is None or isinstance(x, int) for x in p): return v[slice(*p)]
                raise Unsupported('slice')
            return Opq(f'{key(v)}[:]', v.refs if isinstance(v, Opq) else ())
        i = self.expr(n.slice, sc)
        return self.index(v, i)

    def index(self, v, i):
        if isinstance(v, Inst) and self.collection(v.cls): v = self.items(v)
        if isinstance(v, (list, tuple, deque, str, range)):
            if isinstance(i, int):
                try: return v[i]
                except IndexError: raise Abort()
            if isinstance(i, Opq) and v and all(plain(x) for x in v): return Opq(f'{key(v)}[{i.key}]')
            raise Unsupported('index')
        if isinstance(v, DefaultDict): return v.get_item(i)
        if isinstance(v, dict):
            try:
                if i in v: return v[i]
            except TypeError: raise Unsupported('key')
            if isinstance(i, Opq): raise Unsupported('key')
            raise Abort()
        return Opq(f'{key(v)}[{key(i)}]', v.refs if isinstance(v, Opq) else ())

    def comp(self, n, sc, make):
        out = []

        def go(k, s):
            if k == len(n.generators):
                out.append(make(s))
                return
            g = n.generators[k]
            for x in self.items(self.expr(g.iter, s)):
                t = Scope(s)
                self.assign(g.target, x, t)
                if all(self.truth(self.expr(c, t)) for c in g.ifs): go(k + 1, t)
        go(0, Scope(sc))
        return out

    def e_ListComp(self, n, sc): return self.comp(n, sc, lambda s: self.expr(n.elt, s))
    def e_GeneratorExp(self, n, sc): return self.comp(n, sc, lambda s: self.expr(n.elt, s))
    def e_SetComp(self, n, sc): return set(self.comp(n, sc, lambda s: self.expr(n.elt, s)))
    def e_DictComp(self, n, sc): return dict(self.comp(n, sc, lambda s: (self.expr(n.key, s), self.expr(n.value, s))))

    def e_Yield(self, n, sc):
        v = self.expr(n.value, sc) if n.value is not None else None
        s = sc
        while s is not None and s.out is None: s = s.parent
        if s is None: raise Unsupported('yield')
        s.out.append(v)
        return None

    def e_YieldFrom(self, n, sc):
        s = sc
        while s is not None and s.out is None: s = s.parent
        if s is None: raise Unsupported('yield')
        s.out += self.items(self.expr(n.value, sc))
        return None

    # ------------------------------------------------------------ statements
    def body(self, stmts, sc):
        for s in stmts:
            self.tick()
            m = getattr(self, 's_' + type(s).__name__, None)
            if m is None: raise Unsupported(type(s).__name__)
            m(s, sc)

    def s_Expr(self, s, sc):
        if isinstance(s.value, ast.Call): self.call(s.value, sc, stmt=True)
        elif not isinstance(s.value, ast.Constant): self.expr(s.value, sc)

    def s_Assign(self, s, sc):
        v = self.expr(s.value, sc)
        for t in s.targets: self.assign(t, v, sc)

    def s_AnnAssign(self, s, sc):
        if s.value is not None: self.assign(s.target, self.expr(s.value, sc), sc)

    def s_AugAssign(self, s, sc):
        t = s.target
        if isinstance(t, ast.Name): cur = self.name(t.id, sc, t)
        elif isinstance(t, ast.Attribute): cur = self.attr(self.expr(t.value, sc), t.attr)
        else: cur = self.index(self.expr(t.value, sc), self.expr(t.slice, sc))
        v = self.expr(s.value, sc)
        if isinstance(cur, list) and isinstance(s.op, ast.Add):
            cur += self.items(v)
            return
        self.assign(t, self.binop(type(s.op), cur, v), sc)

    def assign(self, t, v, sc):
        if isinstance(t, ast.Name):
            s = sc
            if sc.fi is not None and t.id in (sc.fi.nonlocals or ()):
                s = sc.parent
                while s is not None and t.id not in s: s = s.parent
                if s is None: raise Unsupported('nonlocal')
            s[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, (Opq, Tok)): vals = [Opq(f'{key(v)}[{i}]', v.refs if isinstance(v, Opq) else ()) for i in range(len(t.elts))]
            else: vals = self.items(v)
            if any(isinstance(x, ast.Starred) for x in t.elts):
                i = next(i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred))
                k = len(t.elts) - i - 1
                if len(vals) < len(t.elts) - 1: raise Abort()
                for x, y in zip(t.elts[:i], vals): self.assign(x, y, sc)
                self.assign(t.elts[i].value, list(vals[i:len(vals) - k]), sc)
                for x, y in zip(t.elts[i + 1:], vals[len(vals) - k:]): self.assign(x, y, sc)
                return
            if len(vals) != len(t.elts): raise Abort()
            for x, y in zip(t.elts, vals): self.assign(x, y, sc)
        elif isinstance(t, ast.Attribute):
            o = self.expr(t.value, sc)
            if isinstance(o, (Tok, Inst)): 
                if isinstance(o, Tok) and t.attr in o.children: o.children[t.attr] = v
                else: o.fields[t.attr] = v
            elif isinstance(o, Opq): self.escaped += [x for x in [v] if not plain(x)]
            else: raise Unsupported('assignment')
        elif isinstance(t, ast.Subscript):
            o = self.expr(t.value, sc)
            if isinstance(t.slice, ast.Slice):
                p = [self.expr(x, sc) if x is not None else None for x in (t.slice.lower, t.slice.upper, t.slice.step)]
                if isinstance(o, Inst) and self.collection(o.cls): o = o.fields.get(self.an.items_field)
                if isinstance(o, list) and all(x is None or isinstance(x, int) for x in p):
                    o[slice(*p)] = self.items(v)
                    return
                raise Unsupported('slice')
            i = self.expr(t.slice, sc)
            if isinstance(o, Inst) and self.collection(o.cls): o = o.fields.get(self.an.items_field)
            if isinstance(o, list) and isinstance(i, int):
                try: o[i] = v
                except IndexError: raise Abort()
            elif isinstance(o, dict):
                try: o[i] = v
                except TypeError: raise Unsupported('key')
            elif isinstance(o, (Tok, Inst)): o.content.append(v)
            elif isinstance(o, Opq): self.escaped += [x for x in [v] if not plain(x)]
            else: raise Unsupported('assignment')
        else: raise Unsupported('assignment')

    def s_If(self, s, sc): self.body(s.body if self.truth(self.expr(s.test, sc)) else s.orelse, sc)

    def s_For(self, s, sc):
        for x in self.items(self.expr(s.iter, sc)):
            self.assign(s.target, x, sc)
            try: self.body(s.body, sc)
            except Break: break
            except Continue: continue
        else: self.body(s.orelse, sc)

    def s_While(self, s, sc):
        n = 0
        while self.truth(self.expr(s.test, sc)):
            n += 1
            if n > 40: raise Unsupported('loop')
            try: self.body(s.body, sc)
            except Break: break
            except Continue: continue
        else: self.body(s.orelse, sc)

    def s_Return(self, s, sc): raise Return(self.expr(s.value, sc) if s.value is not None else None)
    def s_Break(self, s, sc): raise Break()
    def s_Continue(self, s, sc): raise Continue()
    def s_Pass(self, s, sc): pass
    def s_Raise(self, s, sc): raise Abort()
    def s_Assert(self, s, sc): pass
    def s_Import(self, s, sc): pass
    def s_ImportFrom(self, s, sc): pass
    def s_Global(self, s, sc): pass
    def s_Nonlocal(self, s, sc): pass

    def s_FunctionDef(self, s, sc):
        sc[s.name] = Func(self.an.prog.func_of_node[s], sc)

    def s_With(self, s, sc):
        for i in s.items:
            v = self.expr(i.context_expr, sc)
            if i.optional_vars is not None: self.assign(i.optional_vars, v, sc)
        self.body(s.body, sc)

    def s_Try(self, s, sc):
        try:
            self.body(s.body, sc)
            self.body(s.orelse, sc)
        except Abort:
            if not s.handlers: raise
            self.body(s.handlers[0].body, sc)
        finally:
            if s.finalbody: self.body(s.finalbody, sc)

    def s_Delete(self, s, sc):
        for t in s.targets:
            if isinstance(t, ast.Name): sc.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.expr(t.value, sc)
                if isinstance(o, Inst) and self.collection(o.cls): o = o.fields.get(self.an.items_field)
                i = self.expr(t.slice, sc) if not isinstance(t.slice, ast.Slice) else None
                if isinstance(t.slice, ast.Slice):
                    p = [self.expr(x, sc) if x is not None else None for x in (t.slice.lower, t.slice.upper, t.slice.step)]
                    if not isinstance(o, list) or not all(x is None or isinstance(x, int) for x in p): raise Unsupported('del')
                    del o[slice(*p)]
                elif isinstance(o, list) and isinstance(i, int) or isinstance(o, dict):
                    try: del o[i]
                    except (IndexError, KeyError): raise Abort()
                else: raise Unsupported('del')
            elif isinstance(t, ast.Attribute):
                o = self.expr(t.value, sc)
                if isinstance(o, (Inst, Tok)): o.fields.pop(t.attr, None)


class DefaultDict(dict):
    def __init__(self, factory, run, sc, node):
        super().__init__()
        self.factory, self.run, self.sc, self.node = factory, run, sc, node

    def get_item(self, i):
        try:
            if i not in self: self[i] = self.run.apply(self.factory, '', [], {}, self.sc, False, self.node)
        except TypeError: raise Unsupported('key')
        return self[i]


BUILTINS = {'print', 'iter', 'sorted', 'reversed', 'frozenset', 'deque', 'defaultdict', 'len', 'range', 'enumerate', 'zip', 'filter', 'map', 'any', 'all', 'min', 'max',
            'sum', 'abs', 'round', 'hash', 'isinstance', 'hasattr', 'getattr', 'next', 'type', 'id', 'pow', 'divmod', 'chain'}


def _un(s): raise Unsupported(s)


class Analysis:
    def __init__(self, q, max_paths=1200, max_steps=6000, seconds=6.0):
        self.q, self.prog = q, q.prog
        self.max_paths, self.max_steps, self.seconds = max_paths, max_steps, seconds
        self.methods = {}
        for f in self.prog.funcs:
            if f.cls and not f.is_lambda and f.parent is None: self.methods.setdefault((f.cls, f.node.name), f)
        self.modfuncs = {}
        for f in self.prog.funcs:
            if not f.cls and f.parent is None and not f.is_lambda: self.modfuncs.setdefault(f.node.name, []).append(f)
        self._mro, self._coll, self._self = {}, {}, {}
        self.items_field = '_instances'
        self.me = self.fi = self.skip = None

    def mro(self, cls):
        if cls not in self._mro:
            try: self._mro[cls] = [c if isinstance(c, str) else getattr(c, 'name', str(c)) for c in self.q.I.mro(cls)] if cls in self.prog.classes else [cls]
            except Exception: self._mro[cls] = [cls]
        return self._mro[cls]

    def collection(self, cls):
        if cls not in self._coll:
            self._coll[cls] = any(isinstance(t, ast.Attribute) and t.attr == self.items_field for c in self.mro(cls) for f in [self.methods.get((c, '__init__'))] if f is not None
                                  for n in ast.walk(f.node) if isinstance(n, (ast.Assign, ast.AnnAssign)) for t in (n.targets if isinstance(n, ast.Assign) else [n.target]))
        return self._coll[cls]

    def is_enum(self, cls): return cls in self.prog.classes and any('Enum' in ast.unparse(b) for b in self.prog.classes[cls].node.bases)

    def kinds(self, family):
        if family in ('block', 'table') and 'BlockType' in self.prog.classes:
            return [Enum('BlockType', n) for n in (KINDS['BlockType'] if family == 'block' else KINDS['BlockType'][2:])]
        return None

    def code(self, fi):
        b = fi.node.body
        return b[1:] if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) else b

    def returns_self(self, name):
        if name not in self._self:
            fs = [f for (c, n), f in self.methods.items() if n == name]
            ok = bool(fs)
            for f in fs:
                rs = [x for x in ast.walk(f.node) if isinstance(x, ast.Return)]
                if not rs or not all(isinstance(r.value, ast.Name) and f.params and r.value.id == f.params[0] for r in rs): ok = False
            self._self[name] = ok
        return self._self[name]

    def globals_of(self, mod, n):
        if n in self.prog.classes: return Cls(n)
        fs = self.modfuncs.get(n)
        if fs: return Func(next((f for f in fs if f.module is mod), fs[0]))
        return None

    def paths(self, fi, setup):
        '''Run fi for every combination of choices: yields (run, roots, tokens, aborted).
        setup(run) -> (self object or None, arguments, keyword arguments, tokens, roots(self, args, result))'''
        prefix = []
        n = 0
        start = time.time()
        while n < self.max_paths and time.time() - start < self.seconds:
            # all combinations; if there are too many, a fixed sample of the rest
            run = Run(self, prefix, None if n < self.max_paths * 2 // 3 else 7919 * n + 17)
            me, args, kwargs, toks, roots = setup(run)
            self.me, self.fi = me, fi
            n += 1
            try:
                r = run.call_func(Func(fi, None, me), args, dict(kwargs))
                roots = roots(me, args, r)
                for x in roots:
                    if isinstance(x, Inst) and run.dead and self.collection(x.cls):
                        x.fields[self.items_field] = [e for e in run.items(x) if e not in run.dead]
                yield run, toks, reach([roots, run.escaped])
            except Abort: pass
            except RecursionError: raise Unsupported('recursion')
            if run.random is not None: continue
            t = run.taken
            while t and t[-1][0] + 1 >= t[-1][1]: t.pop()
            if not t: return
            prefix = [c for c, _ in t[:-1]] + [t[-1][0] + 1]


def kept(tok, have):
    '''the element itself, or all its parts'''
    if tok in have: return True
    return any(all(kept(k, have) for k in ks) for ks in tok.kids.values())
