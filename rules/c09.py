'''C09: the output does not depend on chance.'''

import ast

from pdfai.values import V

IDENTITY = ('a memory address', 'a hash value')
HARMLESS = ('the environment',)
NEUTRAL_CALLS = {'sorted', 'set', 'frozenset', 'len', 'sum', 'any', 'all', 'bool', 'isinstance', 'Counter', 'id', 'type'}
ORDERED_CALLS = {'list', 'tuple', 'enumerate', 'filter', 'map', 'reversed', 'iter', 'zip', 'deque'}
ADDERS = {'add', 'discard', 'remove', 'update', 'setdefault', 'debug', 'info', 'warning', 'error', 'exception', 'close', 'result', 'unlink', 'rmtree'}
SINK_EXT = ('docx.',)
EFFECTS = ('write', 'classset', 'modset', 'mutate', 'keyset', 'extset', 'emit', 'break', 'raise', 'yield', 'return')


def check(q, rep):
    chance(q, rep)
    order(q, rep)


def nd(v, control=False):
    '''kinds of chance a value depends on'''
    out = set()
    for l in (v.labels if isinstance(v, V) else ()):
        if l[0] == 'ND': out.add(l[1])
        elif control and l[0] == 'C' and l[1][0] == 'ND' and l[1][1] not in IDENTITY: out.add(l[1][1])
    if isinstance(v, V):
        for a in v.atoms:
            if a[0] == 't':
                for p in a[1]: out |= nd(p, control)
    return out - set(HARMLESS)


def identity_test(node):
    '''comparison for equality or membership, which does not depend on the value of an address or a hash'''
    if isinstance(node, ast.Compare): return all(isinstance(o, (ast.Eq, ast.NotEq, ast.In, ast.NotIn, ast.Is, ast.IsNot)) for o in node.ops)
    if isinstance(node, ast.UnaryOp): return identity_test(node.operand)
    if isinstance(node, ast.BoolOp): return all(identity_test(x) or not any(isinstance(y, ast.Call) for y in ast.walk(x)) for x in node.values)
    return False


def chance(q, rep):
    rep.rule('chance', 'No value computed from random numbers, the clock, a memory address, a hash value, a default representation of an object, the process or thread id, directory order or the order '
             'in which workers finish is stored in a field, given to python-docx, stored in or serialized to layout data, used to sort or returned by the converter, and no test of such a value '
             'decides about anything but messages and the debug plot (comparing two addresses or hash values for equality is no such test).')
    seen = set()

    def bad(e, why, what):
        k = (e.node._id if e.node is not None else 0, tuple(sorted(why)))
        if k in seen: return
        seen.add(k)
        rep.bad(f'{e.kind}-{e.ctx.fi.qual}-{e.name}', q.at(e), f'{what} depends on {", ".join(sorted(why))}')
    n = 0
    for e in q.events('write', 'classset', 'modset'):
        n += 1
        w = nd(e.val, True)
        if w: bad(e, w, f'the value stored in {".".join(str(e.name).split(".")[-2:])}')
    for e in q.events('extset'):
        n += 1
        w = nd(e.val, True)
        if w: bad(e, w, f'the value given to {e.name}')
    for e, k, v in q.keysets():
        n += 1
        w = nd(v, True)
        if w: bad(e, w, f'the value of "{k}"')
    for e in q.events('ext'):
        if not e.name.startswith(SINK_EXT): continue
        n += 1
        w = set()
        for v in list(e.args or ()) + list((e.kwargs or {}).values()): w |= nd(v, True)
        if w: bad(e, w, f'an argument of {e.name}')
    for e in q.events('sort'):
        n += 1
        w = set()
        for v in e.args or (): w |= nd(v)
        if w: bad(e, w, 'the order of the sorted elements')
    entries = {c.id for c in q.a.entries.values()}
    direct = {t for e in q.events('call') if e.ctx.id in entries for t in e.targets or ()}
    for e in q.events('return'):
        if e.ctx.id not in direct: continue
        n += 1
        w = nd(e.val, True)
        if w: bad(e, w, 'the result')
    # default representation
    for e in q.events('nondet'):
        if not str(e.name).startswith('repr of '): continue
        n += 1
        parent = parents(q).get(e.node)
        if isinstance(parent, ast.Call) and ast.unparse(parent.func).split('.')[0] in ('logging', 'print'): continue
        bad(e, {'a memory address'}, f'the text of an object of {str(e.name)[8:].rsplit(".", 1)[-1]}')
    # tests
    for e in q.events(*EFFECTS, 'ext'):
        for f in e.facts:
            w = {l[1] for l in f.labels if l[0] == 'ND'} | {l[1][1] for l in f.labels if l[0] == 'C' and l[1][0] == 'ND' and l[1][1] not in IDENTITY}
            w -= set(HARMLESS)
            if w and w <= set(IDENTITY) and identity_test(f.node): w = set()
            if not w: continue
            if e.kind == 'ext' and not e.name.startswith(SINK_EXT + ('fitz.',)): continue
            k = ('test', f.nid)
            if k in seen: continue
            seen.add(k)
            rep.bad(f'test-{e.ctx.fi.qual}', q.where(f.node) if isinstance(f.node, ast.AST) and hasattr(f.node, '_id') else q.at(e),
                    f'a test deciding about {q.at(e)} depends on {", ".join(sorted(w))}')
    if n: rep.ok(f'{n} values stored, written, sorted by or returned', n)
    else: rep.skip('nothing is written')


# ---------------------------------------------------------------- order of sets
def parents(q):
    if getattr(q, '_parents', None) is None:
        q._parents = {}
        for n in q.prog.nodes if not isinstance(q.prog.nodes, dict) else q.prog.nodes.values():
            if n is None: continue
            for c in ast.iter_child_nodes(n): q._parents[c] = n
    return q._parents


def unordered_kinds(q, v):
    '''types of the elements of a set whose order is not fixed'''
    out = set()
    for a in (v.atoms if v is not None else ()):
        if a[0] == 'c':
            if isinstance(a[1], (str, bytes)): out.add('text')
        elif a[0] == 'e': out.add('enumeration constants')
        elif a == ('ty', 'str') or a[0] in ('tm', 'sh', 'fb'): out.add('text')
        elif a == ('ty', 'bytes'): out.add('bytes')
        elif a[0] == 'o': out.add('objects')
        elif a[0] == 'xo': out.add('objects')
        elif a[0] == 'k' or a[0] == 'f': out.add('classes')
        elif a[0] == 'r' and a[2] not in ('color', 'size', 'flags', 'bbox', 'origin', 'width', 'x', 'y', 'c', 'xref'): out.add('data')
        elif a[0] == 't':
            for p in a[1]: out |= unordered_kinds(q, p)
    return out


class Use:
    '''whether the order of the elements of an expression matters'''

    def __init__(self, q): self.q, self.up = q, parents(q)

    def function(self, n):
        while n is not None and not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.Module)): n = self.up.get(n)
        return n

    def single(self, n):
        '''only done for a set of one element'''
        def test(t):
            return any(isinstance(c, ast.Compare) and len(c.ops) == 1 and any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'len' for x in (c.left, c.comparators[0])) and
                       any(isinstance(x, ast.Constant) and x.value in (1, 2) for x in (c.left, c.comparators[0])) for c in ast.walk(t))
        x = n
        while x is not None and not isinstance(x, (ast.FunctionDef, ast.Lambda, ast.Module)):
            p = self.up.get(x)
            if isinstance(p, (ast.If, ast.IfExp)) and x is not p.test and test(p.test): return True
            if isinstance(p, ast.BoolOp) and any(test(v) for v in p.values if v is not x): return True
            for name in ('body', 'orelse', 'finalbody'):
                body = getattr(p, name, None)
                if isinstance(body, list) and x in body:
                    for s in body[:body.index(x)]:
                        if isinstance(s, ast.If) and test(s.test) and s.body and isinstance(s.body[-1], (ast.Return, ast.Continue, ast.Raise, ast.Break)): return True
            x = p
        return False

    def free(self, n, depth=0):
        '''the order does not matter for the use of this expression'''
        if depth > 8: return False
        if self.single(n): return True
        p = self.up.get(n)
        if isinstance(p, ast.Starred): return self.free(p, depth + 1)
        if isinstance(p, ast.Call):
            if p.func is n: return False
            name = p.func.id if isinstance(p.func, ast.Name) else p.func.attr if isinstance(p.func, ast.Attribute) else ''
            if name in NEUTRAL_CALLS: return True
            if name in ('min', 'max'): return not p.keywords
            if name in ORDERED_CALLS: return self.free(p, depth + 1)
            if isinstance(p.func, ast.Attribute) and name in ('update', 'union', 'intersection', 'difference', 'issubset', 'issuperset', 'isdisjoint', 'symmetric_difference', 'symmetric_difference_update', 'intersection_update', 'difference_update'): return True
            if ast.unparse(p.func).split('.')[0] == 'logging': return True
            return False
        if isinstance(p, ast.comprehension):
            c = self.up.get(p)
            return isinstance(c, ast.SetComp) or self.free(c, depth + 1)
        if isinstance(p, ast.For) and p.iter is n: return all(self.neutral(s) for s in p.body + p.orelse)
        if isinstance(p, (ast.Assign, ast.AnnAssign, ast.NamedExpr)):
            ts = p.targets if isinstance(p, ast.Assign) else [p.target]
            if not all(isinstance(t, ast.Name) for t in ts): return False
            f = self.function(p)
            names = {t.id for t in ts}
            uses = [x for x in ast.walk(f) if isinstance(x, ast.Name) and x.id in names and isinstance(x.ctx, ast.Load)]
            if any(isinstance(self.up.get(x), ast.Attribute) and self.up[x].attr == 'sort' for x in uses): return True
            return all(self.free(x, depth + 1) for x in uses)
        if isinstance(p, ast.Compare): return p.left is not n or all(isinstance(o, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)) for o in p.ops)
        if isinstance(p, ast.Attribute): return p.attr in ADDERS | {'append', 'clear', 'count', 'reverse', 'sort', 'isdisjoint', 'issubset'}
        if isinstance(p, (ast.If, ast.While, ast.IfExp)) and p.test is n or isinstance(p, ast.UnaryOp): return True
        if isinstance(p, ast.Expr): return True
        if isinstance(p, ast.BoolOp): return self.free(p, depth + 1)
        return False

    def neutral(self, s):
        if isinstance(s, (ast.Pass, ast.Continue, ast.Raise)): return True
        if isinstance(s, ast.Expr):
            c = s.value
            return isinstance(c, ast.Constant) or isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in ADDERS
        if isinstance(s, ast.AugAssign): return isinstance(s.op, (ast.BitOr, ast.BitAnd, ast.BitXor)) or isinstance(s.op, (ast.Add, ast.Sub)) and isinstance(s.value, ast.Constant)
        if isinstance(s, ast.If): return all(self.neutral(x) for x in s.body + s.orelse)
        if isinstance(s, ast.Try): return all(self.neutral(x) for x in s.body + s.orelse + s.finalbody + [y for h in s.handlers for y in h.body])
        if isinstance(s, ast.Return): return s.value is None or isinstance(s.value, ast.Constant)
        if isinstance(s, ast.Delete): return True
        if isinstance(s, ast.For): return all(self.neutral(x) for x in s.body)
        return False


def order(q, rep):
    rep.rule('order', 'Where the elements of a set of texts, objects or enumeration constants (whose order depends on the hash seed or on addresses), the files of a directory or results in the order '
             'in which workers finish are taken one by one, the order does not matter: they are sorted, counted, tested, put into another set, or there is just one.')
    use = Use(q)
    done = set()
    n = 0
    for e in q.events('setiter'):
        how, _, why = e.name.partition(':')
        if not why:
            kinds = unordered_kinds(q, e.val) | nd(e.val)
            if not kinds: continue
            why = f'a set of {" and ".join(sorted(kinds))}'
        node = e.data if isinstance(e.data, ast.AST) else e.node
        key = (node._id, why)
        if key in done: continue
        done.add(key)
        n += 1
        if isinstance(node, ast.For): free = use.single(node) or all(use.neutral(s) for s in node.body)
        elif isinstance(node, ast.Call) and how in ('join', 'extend'): free = use.single(node) or how == 'extend' and use.free(node.func.value if isinstance(node.func, ast.Attribute) else node)
        elif how in ('pop', 'next'): free = use.single(node)
        elif isinstance(node, ast.SetComp): free = True
        else: free = use.free(node)
        if free: rep.ok(f'{why} at {q.at(e)}')
        else: rep.bad(f'order-{e.ctx.fi.qual}', q.at(e), f'the result depends on the order of {why}')
    if not n: rep.ok('nothing is taken one by one from an unordered collection')
