'''Abstract values: atoms (what it can be), labels (where it comes from), terms (how it is computed).

Atoms are tuples:
  ('c', x)            constant None/bool/int/float/str/bytes
  ('ty', name)        some value of a scalar type: int float str bool bytes
  ('o', oid)          object allocated by analyzed code (instance, list, dict, set), index into heap objects
  ('t', (V, ...))     tuple with known positions
  ('f', fid, clo)     function (closure context)
  ('b', fid, clo, selfatom)  bound function
  ('k', cname)        analyzed class
  ('m', modname)      analyzed module
  ('e', cname, name)  enum member
  ('x', path)         external function, class or module, by dotted path
  ('xo', type)        instance of an external type
  ('r', root, key)    data from outside: raw dict, stored layout, options
  ('p', ...)          property/static/class method descriptors
  ('tm', text)        string built from a template with this constant text
  ('u',)              unknown
'''

EMPTY = frozenset()
MAXC = 10     # constants kept apart
MAXT = 4      # term alternatives


class V:
    __slots__ = ('atoms', 'labels', 'terms', '_h')

    def __init__(self, atoms=EMPTY, labels=EMPTY, terms=None):
        self.atoms = atoms if type(atoms) is frozenset else frozenset(atoms)
        self.labels = labels if type(labels) is frozenset else frozenset(labels)
        self.terms = terms  # None: unknown; frozenset of term tuples
        self._h = hash((self.atoms, self.labels, self.terms))

    def __hash__(self): return self._h

    def __eq__(self, o):
        return self is o or (type(o) is V and self._h == o._h and self.atoms == o.atoms and
                             self.labels == o.labels and self.terms == o.terms)

    def __repr__(self):
        return f'V({sorted(map(str, self.atoms))}, {sorted(map(str, self.labels))}, {self.terms})'

    def with_labels(self, labels):
        if labels <= self.labels: return self
        return V(self.atoms, self.labels | labels, self.terms)

    def with_terms(self, terms):
        return V(self.atoms, self.labels, terms)

    def with_atoms(self, atoms):
        return V(atoms, self.labels, self.terms)

    @property
    def is_bottom(self): return not self.atoms


BOT = V(EMPTY, EMPTY, EMPTY)


def covers(b, a):
    '''atom b includes atom a'''
    if a == b: return True
    if b[0] == 'ty':
        if a[0] == 'c':
            x = a[1]
            if x is None: return False
            t = type(x).__name__
            return t == b[1] or b[1] == 'num' and t in ('int', 'float')
        if a[0] == 'ty': return b[1] == 'num' and a[1] in ('int', 'float')
        if a[0] in ('tm', 'sh'): return b[1] == 'str'
        return False
    if a[0] == 't' and b[0] == 't' and len(a[1]) == len(b[1]):
        return all(leq(x, y) for x, y in zip(a[1], b[1]))
    return False


def leq(v, w):
    '''v adds nothing to w'''
    if v is w: return True
    if not v.labels <= w.labels: return False
    if w.terms is not None and v.atoms and (v.terms is None or not v.terms <= w.terms): return False
    if v.atoms <= w.atoms: return True
    for a in v.atoms - w.atoms:
        if not any(covers(b, a) for b in w.atoms): return False
    return True


def widen_atoms(atoms):
    cs = [a for a in atoms if a[0] == 'c']
    if len(cs) > MAXC:
        keep = [a for a in atoms if a[0] != 'c']
        for a in cs:
            x = a[1]
            if x is None or isinstance(x, bool): keep.append(a)
            else: keep.append(('ty', type(x).__name__))
        atoms = frozenset(keep)
    tys = [a for a in atoms if a[0] == 'ty']
    if tys:
        atoms = frozenset(a for a in atoms if a[0] not in ('c', 'ty', 'tm', 'sh') or not any(b != a and covers(b, a) for b in tys))
    ts = [a for a in atoms if a[0] == 't']
    if len(ts) > 1:
        keep = [a for a in atoms if a[0] != 't']
        by = {}
        for a in ts: by.setdefault(len(a[1]), []).append(a)
        for n, group in by.items():
            if len(group) > 1:
                group = [a for i, a in enumerate(group)
                         if not any(b is not a and covers(b, a) and not (j > i and covers(a, b)) for j, b in enumerate(group))]
            if len(group) > 3:
                group = [('t', tuple(join(*[g[1][i] for g in group]) for i in range(n)))]
            keep.extend(group)
        atoms = frozenset(keep)
    tms = [a for a in atoms if a[0] in ('tm', 'sh')]
    if len(tms) > 8:
        atoms = frozenset([a for a in atoms if a[0] not in ('tm', 'sh')] + [('ty', 'str')])
    return frozenset(atoms)


def join(*vs):
    vs = [v for v in vs if v is not BOT and v.atoms or v.labels]
    if not vs: return BOT
    r = vs[0]
    if all(v is r or v == r for v in vs[1:]): return r
    if len(vs) == 2:
        if leq(vs[1], r): return r
        if leq(r, vs[1]): return vs[1]
    atoms = frozenset().union(*[v.atoms for v in vs])
    labels = frozenset().union(*[v.labels for v in vs])
    if any(v.terms is None for v in vs): terms = None
    else:
        terms = frozenset().union(*[v.terms for v in vs])
        if len(terms) > MAXT: terms = None
    if len(atoms) > 1: atoms = widen_atoms(atoms)
    return V(atoms, labels, terms)


UNK = V([('u',)])


def const(x, labels=EMPTY):
    return V([('c', x)], labels, frozenset([('c', x)]))


NONE = const(None)
TRUE = const(True)
FALSE = const(False)


def ty(name, labels=EMPTY, terms=None):
    return V([('ty', name)], labels, terms)


BOOL = V([('c', True), ('c', False)], EMPTY, None)


def boolv(labels=EMPTY): return V([('c', True), ('c', False)], labels, None)


def ext(path, labels=EMPTY): return V([('x', path)], labels)


def xo(tp, labels=EMPTY, terms=None): return V([('xo', tp)], labels, terms)


# ---------------------------------------------------------------- terms
def tsize(t):
    if not isinstance(t, tuple): return 1
    return 1 + sum(tsize(x) for x in t if isinstance(x, (tuple, frozenset)))


def tlimit(t):
    '''None if too large.'''
    n = 0
    stack = [t]
    while stack:
        x = stack.pop()
        n += 1
        if n > 600: return None
        if isinstance(x, (tuple, frozenset)): stack.extend(x)
    return t


def is_num(x): return isinstance(x, (int, float)) and not isinstance(x, bool)


def aff(parts, c):
    '''affine form from {term: coef}, const'''
    parts = {t: k for t, k in parts.items() if k != 0}
    if not parts: return ('c', c)
    if c == 0 and len(parts) == 1:
        (t, k), = parts.items()
        if k == 1: return t
    return ('aff', frozenset(parts.items()), c)


def as_aff(t):
    if t[0] == 'c' and is_num(t[1]): return {}, t[1]
    if t[0] == 'aff': return dict(t[1]), t[2]
    return {t: 1}, 0


def t_add(a, b, sign=1):
    pa, ca = as_aff(a)
    pb, cb = as_aff(b)
    p = dict(pa)
    for t, k in pb.items(): p[t] = p.get(t, 0) + sign * k
    return aff(p, ca + sign * cb)


def t_mul(a, b):
    pa, ca = as_aff(a)
    pb, cb = as_aff(b)
    if not pb: pa, ca, pb, cb = pb, cb, pa, ca
    if not pa:
        try: return aff({t: k * ca for t, k in pb.items()}, cb * ca)
        except Exception: return ('fn', 'mul', a, b)
    return ('fn', 'mul', *sorted((a, b), key=repr))


def t_div(a, b):
    if b[0] == 'c' and is_num(b[1]) and b[1]:
        pa, ca = as_aff(a)
        try: return aff({t: k / b[1] for t, k in pa.items()}, ca / b[1])
        except Exception: pass
    return ('fn', 'div', a, b)


def t_minmax(op, ts):
    flat = set()
    for t in ts:
        if t[0] == op: flat |= set(t[1])
        else: flat.add(t)
    nums = [t for t in flat if t[0] == 'c' and is_num(t[1])]
    if len(nums) > 1:
        for t in nums: flat.discard(t)
        flat.add(('c', (max if op == 'max' else min)(t[1] for t in nums)))
    if len(flat) == 1: return next(iter(flat))
    return (op, frozenset(flat))


def lift(f, *vals):
    '''apply f to all combinations of terms'''
    combos = [()]
    for v in vals:
        if v.terms is None or not v.terms: return None
        combos = [c + (t,) for c in combos for t in v.terms]
        if len(combos) > 8: return None
    out = set()
    for c in combos:
        try: t = f(*c)
        except Exception: return None
        if t is None: return None
        t = tlimit(t)
        if t is None: return None
        out.add(t)
    if len(out) > MAXT: return None
    return frozenset(out)


def t_leaves(t, out=None):
    '''leaf symbols of a term: ('ld', loc), ('s', name)'''
    if out is None: out = set()
    if isinstance(t, (tuple, frozenset)):
        if isinstance(t, tuple) and t and t[0] in ('ld', 's'):
            out.add(t)
        else:
            for x in t: t_leaves(x, out)
    return out


def one(v):
    '''the only term of a value'''
    if v is None or not v.terms or len(v.terms) != 1: return None
    return next(iter(v.terms))


def t_sub(t, old, new):
    if t == old: return new
    if isinstance(t, tuple): return tuple(t_sub(x, old, new) for x in t)
    if isinstance(t, frozenset): return frozenset(t_sub(x, old, new) for x in t)
    return t


def t_has(t, pred):
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            if pred(x): return True
            stack.extend(y for y in x if isinstance(y, (tuple, frozenset)))
        elif isinstance(x, frozenset): stack.extend(y for y in x if isinstance(y, (tuple, frozenset)))
    return False


def t_if(c, a, b):
    if a == b: return a
    if c is None: return None
    if c[0] == 'not': c, a, b = c[1], b, a
    if c[0] == 'fn' and c[1] == 'bool': c = c[2]
    return tlimit(('if', c, a, b))


def gated(c, a, b):
    '''terms of: a if c else b'''
    if a is None or b is None: return None
    if a == b: return a
    if c is not None and len(a) == 1 and len(b) == 1:
        t = t_if(c, next(iter(a)), next(iter(b)))
        return frozenset([t]) if t is not None else None
    return frozenset() if False else None if len(a | b) > MAXT else a | b


SELF = frozenset([('s', 'self')])
SELVES = (('s', 'self'), ('s', 'up1'), ('s', 'up2'), None)


def rename_selves(v, table, depth=0):
    '''replace the symbols of current objects (None: unknown)'''
    ts = v.terms
    if ts:
        out = set()
        for t in ts:
            if t_has(t, lambda x: len(x) == 2 and x in table):
                t = t_selves(t, table)
                t = tlimit(t) if t is not None else None
                if t is None: out = None; break
            out.add(t)
        ts = frozenset(out) if out is not None else None
    atoms = v.atoms
    if depth < 3 and any(a[0] == 't' for a in atoms):
        atoms = frozenset(('t', tuple(rename_selves(x, table, depth + 1) if x is not None else x for x in a[1]))
                          if a[0] == 't' else a for a in atoms)
    if ts == v.terms and atoms == v.atoms: return v
    return V(atoms, v.labels, ts)


class _Gone(Exception): pass


def t_selves(t, table):
    def go(t):
        if isinstance(t, tuple):
            if len(t) == 2 and t in table:
                x = table[t]
                if x is None: raise _Gone
                return x
            return tuple(go(x) if isinstance(x, (tuple, frozenset)) else x for x in t)
        return frozenset(go(x) for x in t)
    try: return go(t)
    except _Gone: return None


SHIFT = {SELVES[i]: SELVES[i + 1] for i in range(3)}


_shifted, _unselfed = {}, {}


def shift(v):
    if v.terms is None and not any(a[0] == 't' for a in v.atoms): return v
    r = _shifted.get(v)
    if r is None: r = _shifted[v] = rename_selves(v, SHIFT)
    return r


UNSHIFT = {SELVES[1]: SELVES[0], SELVES[2]: SELVES[1]}
_unshifted = {}


def unshift(v):
    if v.terms is None and not any(a[0] == 't' for a in v.atoms): return v
    r = _unshifted.get(v)
    if r is None: r = _unshifted[v] = rename_selves(v, UNSHIFT)
    return r


def unself(v, terms):
    '''result of a method in terms of the object it was called for'''
    if v.terms is None and not any(a[0] == 't' for a in v.atoms): return v
    r = _unselfed.get((v, terms))
    if r is None:
        real = next(iter(terms)) if len(terms) == 1 else None
        r = _unselfed[(v, terms)] = rename_selves(v, {SELVES[0]: real, SELVES[1]: SELVES[0], SELVES[2]: SELVES[1]})
    return r
