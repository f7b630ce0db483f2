'''Value of an extracted term when its leaves have given values: decides whether two expressions are the same function.'''

import base64
import math
import os
import re


class Unknown(Exception):
    '''the term has a part with unknown meaning'''


class Raises(Exception):
    '''the expression raises for these leaf values'''


class Obj(dict):
    '''a record standing for an object: leaf values of its fields'''


BUILTIN_TYPES = {'str': str, 'bytes': bytes, 'int': int, 'float': float, 'list': list, 'tuple': tuple, 'dict': dict, 'bool': bool}
CONST_DICTS = {}    # constant dicts of the program: ('cd', node id)
LEAF = ('leaf',)   # hook of an environment: function(term, env) -> value or None


def ev(t, env, depth=0):
    '''env: {term: value} and optionally 'leaf': function(term) -> value or raise Unknown'''
    if depth > 400: raise Unknown('deep')
    if t in env: return env[t]
    if LEAF in env:
        r = env[LEAF](t, env)
        if r is not None: return r
    k = t[0]
    d = depth + 1
    if k == 'c': return t[1]
    if k == 'new': return Token(t)
    if k == 'carry':
        if ('carryenv', t[1]) not in env: raise Unknown(t)
        return env[('carryenv', t[1])](t[2])
    if k == 'aff':
        r = t[2]
        for x, c in t[1]:
            v = num(ev(x, env, d))
            r = r + c * v
        return r
    if k in ('min', 'max') and isinstance(t[1], frozenset):
        vs = [num(ev(x, env, d)) for x in t[1]]
        return min(vs) if k == 'min' else max(vs)
    if k == 'if': return ev(t[2] if truth(ev(t[1], env, d)) else t[3], env, d)
    if k == 'not': return not truth(ev(t[1], env, d))
    if k == 'cmp': return cmp(t[1], ev(t[2], env, d), ev(t[3], env, d))
    if k in ('map', 'filter'):
        seq = sequence(ev(t[2] if k == 'map' else t[1], env, d))
        out = []
        body = t[1] if k == 'map' else t[2]
        for i, x in enumerate(seq):
            e2 = Env(env, {('var',): x, ('pos',): i})
            r = ev(body, e2, d)
            if k == 'map': out.append(r)
            elif truth(r): out.append(x)
        return out
    if k == 'tup': return [ev(x, env, d) for x in t[1:]]
    if k == 'dict': return {}
    if k == 'cd': return CONST_DICTS[t[1]]
    if k == 'slice': return slice(*[ev(x, env, d) for x in t[1:4]])
    if k in ('ld', 'at'):
        base = ev(t[1], env, d)
        if isinstance(base, Obj):
            if t[2] in base: return base[t[2]]
        if base is None: raise Raises(f'None.{t[2]}')
        raise Unknown(t)
    if k == 'ix':
        base = ev(t[1], env, d)
        i = ev(t[2], env, d)
        if isinstance(base, Obj) and '__iter__' in base: base = base['__iter__']
        if isinstance(base, (list, tuple, str, range, dict)):
            try: return base[i]
            except (IndexError, KeyError) as e: raise Raises(repr(e))
            except TypeError: raise Unknown(t)
        if base is None: raise Raises('None[]')
        raise Unknown(t)
    if k == 'fmt':
        out = ''
        for p in t[1]:
            v = ev(p, env, d)
            if not isinstance(v, (str, int, float)): raise Unknown(t)
            out += str(v)
        return out
    if k == 'fv':
        v = ev(t[1], env, d)
        if not isinstance(v, (str, int, float)) or not isinstance(t[2], str): raise Unknown(t)
        try: return format(v, t[2])
        except ValueError: raise Unknown(t)
    if k == 'disp':
        base = ev(t[1], env, d)
        if isinstance(base, Obj) and '__cls__' in base:
            for c, x in t[2]:
                if c == base['__cls__'][0]: return ev(x, env, d)
        raise Unknown(t)
    if k == 'fn': return fn(t, env, d)
    raise Unknown(t)


class Env(dict):
    def __init__(self, parent, new):
        dict.__init__(self, new)
        self.parent = parent

    def __missing__(self, k): return self.parent[k]

    def __contains__(self, k): return dict.__contains__(self, k) or k in self.parent


def num(v):
    if isinstance(v, (int, float)): return v
    if v is None or isinstance(v, (str, list)): raise Raises('not a number')
    raise Unknown(v)


class Token(Obj):
    '''an object of which only the identity is known'''
    def __init__(self, key):
        Obj.__init__(self)
        self.key = key

    def __eq__(self, o): return isinstance(o, Token) and o.key == self.key

    def __ne__(self, o): return not self == o

    def __hash__(self): return hash(self.key)

    def __repr__(self): return f'<{self.key}>'


def truth(v):
    if isinstance(v, Token): return True
    if isinstance(v, Obj) and '__iter__' in v: return bool(v['__iter__'])
    if isinstance(v, Obj) and not v: raise Unknown(v)
    if v is None or isinstance(v, (bool, int, float, str, bytes, list, tuple, dict, range)): return bool(v)
    raise Unknown(v)


def sequence(v):
    if isinstance(v, (list, tuple, range, str)): return list(v)
    if v is None: raise Raises('None is not iterable')
    if isinstance(v, Obj) and '__iter__' in v: return list(v['__iter__'])
    raise Unknown(v)


def collection(*items):
    '''an object holding elements'''
    return Obj(_instances=list(items), __iter__=list(items))


def cmp(op, a, b):
    if op in ('is', '=='):
        if isinstance(a, (list, Obj)) or isinstance(b, (list, Obj)):
            if op == 'is': return a is b
        if op == 'is' and (a is None or b is None): return a is b
        return a == b
    if op in ('is not', '!='): return not cmp('is' if op == 'is not' else '==', a, b)
    try:
        if op == '<': return a < b
        if op == '<=': return a <= b
        if op == '>': return a > b
        if op == '>=': return a >= b
        if op == 'in': return a in b
        if op == 'not in': return a not in b
    except TypeError as e: raise Raises(str(e))
    raise Unknown(op)


def fn(t, env, d):
    name = t[1]
    if name == 'and':
        return connective(t, env, d, False)
    if name == 'or':
        return connective(t, env, d, True)
    if name == 'dcopy':
        r = ev(t[2], env, d)
        if not isinstance(r, dict): raise Unknown(t)
        return type(r)({k: v for k, v in r.items() if k not in t[3][1]}) if type(r) in (dict, Obj) else r
    if name == 'get':
        try: r = ev(t[2], env, d)
        except Raises: r = None
        return ev(t[3], env, d) if r is None else r
    a = [ev(x, env, d) for x in t[2:]]
    if name == 'isinstance' and isinstance(a[0], Obj) and '__cls__' in a[0] and isinstance(a[1], (tuple, list)):
        return any(c in a[0]['__cls__'] for c in a[1])
    if name == 'isinstance' and not isinstance(a[0], Obj):
        cs = a[1] if isinstance(a[1], (tuple, list)) else (a[1],)
        ts = [BUILTIN_TYPES.get(str(c).rsplit('.', 1)[-1]) if 'builtins' in str(c) else None for c in cs]
        if ts and None not in ts and isinstance(a[0], (str, bytes, int, float, list, tuple, dict, type(None))): return isinstance(a[0], tuple(ts))
        raise Unknown(t)
    if name == 'b64e':
        if isinstance(a[0], bytes): return base64.b64encode(a[0]).decode()
        raise Raises('not bytes') if isinstance(a[0], (str, list, int, float, type(None))) else Unknown(t)
    if name == 'b64d':
        if isinstance(a[0], str):
            try: return base64.b64decode(a[0].encode())
            except ValueError as e: raise Raises(str(e))
        raise Unknown(t)
    if name == 'len': return len(sequence(a[0]) if not isinstance(a[0], dict) or '__iter__' in a[0] else a[0])
    if name == 'bool': return truth(a[0])
    if name in ('int', 'float', 'round', 'abs'):
        if name == 'float' and isinstance(a[0], str): raise Unknown(t)
        if name == 'int' and isinstance(a[0], str):
            try: return int(*a)
            except ValueError as e: raise Raises(str(e))
            except TypeError: raise Unknown(t)
        num(a[0])
        try: return {'int': int, 'float': float, 'round': round, 'abs': abs}[name](*a)
        except Exception: raise Unknown(t)
    if name in ('list', 'tuple', 'iter'): return sequence(a[0])
    if name == 'sorted' and len(a) == 1: return sorted(sequence(a[0]))
    if name == 'set': return sorted(set(sequence(a[0])))
    if name == 'reversed': return sequence(a[0])[::-1]
    if name == 'range':
        try: return range(*[int(num(x)) for x in a])
        except Exception: raise Unknown(t)
    if name == 'reversed': return list(reversed(sequence(a[0])))
    if name == 'enumerate': return [[i + (a[1] if len(a) > 1 else 0), x] for i, x in enumerate(sequence(a[0]))]
    if name == 'zip': return [list(x) for x in zip(*[sequence(x) for x in a])]
    if name == 'cat': return sequence(a[0]) + sequence(a[1])
    if name in ('min', 'max', 'sum', 'any', 'all'):
        s = sequence(a[0]) if len(a) == 1 else a
        if not s and name in ('min', 'max'): raise Raises('empty')
        return {'min': min, 'max': max, 'sum': sum, 'any': any, 'all': all}[name](s)
    if name in ('mul', 'div', '&', '|', '^', '//', '%', '<<', '>>', '**'):
        x, y = a
        if not isinstance(x, (int, float)) or not isinstance(y, (int, float)): raise Unknown(t)
        try:
            return {'mul': lambda: x * y, 'div': lambda: x / y, '&': lambda: x & y, '|': lambda: x | y, '^': lambda: x ^ y,
                    '//': lambda: x // y, '%': lambda: x % y, '<<': lambda: x << y, '>>': lambda: x >> y, '**': lambda: x ** y}[name]()
        except ZeroDivisionError: raise Raises('division by zero')
        except TypeError: raise Unknown(t)
    if name in ('mmul', 'minv', 'fitz.Matrix'): return matrix(name, a, t)
    if name in ('RGBColor', 'RGBColor*'):
        a = sequence(a[0]) if name[-1] == '*' else a
        if len(a) != 3 or not all(isinstance(x, int) and 0 <= x <= 255 for x in a): raise Raises('RGBColor')
        return ('RGBColor',) + tuple(a)
    if name in ('Pt', 'str', 'hex'):
        if name == 'str': return str(a[0]) if isinstance(a[0], (str, int, float)) else _u(t)
        if name == 'hex': return hex(a[0]) if isinstance(a[0], int) else _u(t)
        return ('Pt', num(a[0]))
    if name in ('os.path.splitext', 'os.path.split', 'os.path.join', 'os.path.basename', 'os.path.dirname'):
        if all(isinstance(x, str) for x in a):
            r = getattr(os.path, name.rsplit('.', 1)[1])(*a)
            return list(r) if isinstance(r, tuple) else r
        raise Unknown(t)
    if name.startswith('str.') and a and isinstance(a[0], str):
        m = getattr(str, name[4:], None)
        if m is not None and name[4:] in ('replace', 'strip', 'lstrip', 'rstrip', 'lower', 'upper', 'split', 'startswith', 'endswith',
                                          'find', 'rfind', 'join', 'count', 'title', 'format', 'rsplit', 'zfill', 'rjust', 'ljust'):
            try: return m(*a)
            except TypeError: raise Unknown(t)
    if name == 're.sub' and len(a) == 3 and all(isinstance(x, str) for x in a):
        try: return re.sub(*a)
        except re.error: raise Unknown(t)
    if name == 'join' and isinstance(a[0], str):
        try: return a[0].join(sequence(a[1]))
        except TypeError: raise Unknown(t)
    raise Unknown(t)


def matrix(name, a, t):
    '''arithmetic of rectangles (4 numbers), points (2) and matrices (6)'''
    if name == 'fitz.Matrix' and len(a) == 1 and isinstance(a[0], (int, float)):
        c, s = math.cos(math.radians(a[0])), math.sin(math.radians(a[0]))
        return [round(c, 9), round(s, 9), round(-s, 9), round(c, 9), 0.0, 0.0]
    if name == 'fitz.Matrix' and len(a) in (0, 6): return list(a) or [0.0] * 6
    if name == 'fitz.Matrix' and len(a) == 2: return [a[0], 0.0, 0.0, a[1], 0.0, 0.0]
    v = [list(x) if isinstance(x, (list, tuple)) else x for x in a]
    if any(isinstance(x, list) and not all(isinstance(y, (int, float)) for y in x) for x in v): raise Unknown(t)
    if name == 'fitz.Matrix':
        if len(v) == 1 and isinstance(v[0], list) and len(v[0]) == 6: return v[0]
        raise Unknown(t)
    if name == 'minv':
        if not isinstance(v[0], list) or len(v[0]) != 6: raise Unknown(t)
        a, b, c, d, e, f = v[0]
        k = a * d - b * c
        if not k: return [0.0] * 6
        return [d / k, -b / k, -c / k, a / k, (c * f - d * e) / k, (b * e - a * f) / k]
    x, m = v
    if isinstance(m, (int, float)) and isinstance(x, list): return [y * m for y in x]
    if not isinstance(x, list) or not isinstance(m, list) or len(m) != 6: raise Unknown(t)
    def point(p, q): return [p * m[0] + q * m[2] + m[4], p * m[1] + q * m[3] + m[5]]
    if len(x) == 2: return point(*x)
    if len(x) == 4:
        ps = [point(p, q) for p in (x[0], x[2]) for q in (x[1], x[3])]
        return [min(p[0] for p in ps), min(p[1] for p in ps), max(p[0] for p in ps), max(p[1] for p in ps)]
    if len(x) == 6: return [x[0] * m[0] + x[1] * m[2], x[0] * m[1] + x[1] * m[3], x[2] * m[0] + x[3] * m[2], x[2] * m[1] + x[3] * m[3],
                            x[4] * m[0] + x[5] * m[2] + m[4], x[4] * m[1] + x[5] * m[3] + m[5]]
    raise Unknown(t)


def connective(t, env, d, stop):
    unknown = None
    r = not stop
    for x in t[2:]:
        try:
            r = ev(x, env, d)
            if truth(r) == stop: return r
        except Unknown as e: unknown = e
        except Raises:
            if unknown is not None: raise unknown
            raise
    if unknown is not None: raise unknown
    return r


def _u(t): raise Unknown(t)


def value(t, env):
    '''('ok', value) | ('raises',) | ('unknown', part)'''
    try: return ('ok', ev(t, env))
    except Raises: return ('raises',)
    except Unknown as e: return ('unknown', e.args[0] if e.args else None)
    except RecursionError: return ('unknown', 'deep')
