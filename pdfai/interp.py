'''Whole-program abstract interpretation of the source.

Nothing of the analyzed program is executed: every function is evaluated over sets of possible
values (types, constants, origins) joined at every merge of control flow until nothing changes.
'''

import ast
import heapq
import os
import sys
from collections import deque

from .values import *   # noqa
from .terms import CONST_DICTS, Obj as Rec, value as term_value

sys.setrecursionlimit(60000)

CTX_CAP = 48       # contexts per function before they are merged
BINOPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%',
          ast.Pow: '**', ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>',
          ast.MatMult: '@'}
BINDUNDER = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'truediv', '//': 'floordiv', '%': 'mod', '&': 'and', '|': 'or',
             '^': 'xor'}
CMPOPS = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Is: 'is',
          ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}


class Fact:
    '''A test that holds (or not) whenever control gets here.'''
    __slots__ = ('nid', 'pol', 'labels', 'terms', 'node', '_h')

    def __init__(self, nid, pol, labels, terms, node):
        self.nid, self.pol, self.labels, self.terms, self.node = nid, pol, labels, terms, node
        self._h = hash((nid, pol))

    def __hash__(self): return self._h
    def __eq__(self, o): return self.nid == o.nid and self.pol == o.pol


class State:
    __slots__ = ('vars', 'facts', 'must', 'open', 'dead', 'refs', 'may')

    def __init__(self):
        self.vars = {}
        self.facts = EMPTY
        self.must = EMPTY
        self.open = EMPTY
        self.may = EMPTY
        self.refs = {}
        self.dead = False

    def copy(self):
        s = State()
        s.vars = dict(self.vars)
        s.facts, s.must, s.open, s.dead, s.may = self.facts, self.must, self.open, self.dead, self.may
        s.refs = dict(self.refs)
        return s

    def set(self, o):
        self.vars, self.facts, self.must, self.open, self.dead, self.refs, self.may = \
            o.vars, o.facts, o.must, o.open, o.dead, o.refs, o.may


def gate(exits, depth=0):
    '''term of a value returned at several places, each under its conditions'''
    ts = {one(v) for v, _ in exits}
    if None in ts or depth > 5: return None
    if len(ts) == 1: return next(iter(ts))
    common = None
    for _, fs in exits:
        ids = {f.nid for f in fs if isinstance(f.node, ast.expr) and f.terms is not None and len(f.terms) == 1}
        common = ids if common is None else common & ids
    for nid in sorted(common or ()):
        pos, neg, term = [], [], None
        for v, fs in exits:
            f = [x for x in fs if x.nid == nid]
            if len(f) != 1: break
            term = next(iter(f[0].terms))
            (pos if f[0].pol else neg).append((v, fs))
        else:
            if pos and neg:
                a, b = gate(pos, depth + 1), gate(neg, depth + 1)
                return t_if(term, a, b) if a is not None and b is not None else None
    return None


def ctl(labels):
    return frozenset(l if l[0] == 'C' else ('C', l) for l in labels)


def merge_states(a, b, implicit=EMPTY, cond=None):
    '''join; values that differ depend on the test'''
    if a.dead: return b
    if b.dead: return a
    s = State()
    for k in a.vars.keys() | b.vars.keys():
        x, y = a.vars.get(k), b.vars.get(k)
        if x is None: s.vars[k] = y if not implicit else y.with_labels(implicit)
        elif y is None: s.vars[k] = x if not implicit else x.with_labels(implicit)
        elif x is y or x == y: s.vars[k] = x
        else:
            v = join(x, y)
            if cond is not None and x.terms and y.terms and x.atoms and y.atoms and (len(x.terms) == 1 and len(y.terms) == 1):
                g = gated(cond, x.terms, y.terms)
                if g != v.terms: v = V(v.atoms, v.labels, g)
            s.vars[k] = v.with_labels(implicit) if implicit else v
    s.facts = a.facts & b.facts
    s.must = a.must & b.must
    s.open = a.open | b.open
    s.may = a.may | b.may
    for k, x in a.refs.items():
        y = b.refs.get(k)
        if y is not None: s.refs[k] = x if x == y else join(x, y)
    return s


def small(t, limit=120):
    n = 0
    stack = [t]
    while stack:
        x = stack.pop()
        n += 1
        if n > limit: return None
        if isinstance(x, (tuple, frozenset)): stack.extend(x)
    return t


class Obj:
    __slots__ = ('id', 'kind', 'cls', 'site', 'hctx', 'node', 'extra')

    def __repr__(self): return f'<{self.kind} {self.cls or ""}@{self.site}/{self.hctx}>'


class Event:
    __slots__ = ('kind', 'node', 'name', 'recv', 'args', 'kwargs', 'facts', 'must', 'frames', 'ctx', 'val', 'data', 'open',
                 'targets', 'may')

    def __repr__(self): return f'Event({self.kind} {self.name} line {getattr(self.node, "lineno", 0)})'


class Ctx:
    __slots__ = ('id', 'fi', 'clo', 'selfatom', 'args', 'ret', 'events', 'callers', 'calls', 'must', 'exc', 'exc_must',
                 'open', 'exc_open', 'closed', 'evaluated', 'active', 'generic', 'hsig', 'selfoid', 'state_vars', 'exits',
                 'evals', 'spawned', 'depth', 'may', 'exc_may')

    def __repr__(self): return f'Ctx#{self.id}({self.fi.qual if self.fi else "?"})'


class Frame:
    __slots__ = ('ctx', 'fi', 'module', 'cls', 'loops', 'tries', 'rets', 'frames', 'excs', 'mute', 'yields', 'classns', 'base')

    def __init__(self):
        self.loops = []
        self.tries = []
        self.rets = []
        self.frames = ()
        self.excs = []
        self.mute = 0
        self.yields = []
        self.classns = None
        self.base = EMPTY


DEBUG = bool(os.environ.get('PDFAI_DEBUG'))


class Interp:
    def __init__(self, prog, model):
        self.prog = prog
        self.model = model
        model.bind(self)
        self.heap = {}
        self._fields = {}
        self.excluded = {}   # dict object -> keys it certainly lacks unless set
        self.readers = {}
        self.objs = []
        self.obj_key = {}
        self.deps = {}            # (cls, field) -> labels
        self.writes = {}          # (cls, field) -> {(ctx id, node id): V}
        self.ctxs = []
        self.failed = {}
        self.dyn = None          # attribute name of setattr being executed
        self.ctx_key = {}
        self.by_func = {}
        self.generic = {}
        self.work = []
        self.queued = set()
        self.stack = []
        self.mod_ctx = {}
        self.class_obj = {}
        self.unknown = {}
        self.unsupported = set()
        self.n_evals = 0
        self.enum_members = {}
        self.site_info = {}

    # ------------------------------------------------ objects and heap
    def obj(self, kind, cls, site, hctx=None, node=None, extra=None):
        key = (kind, cls, site, hctx)
        o = self.obj_key.get(key)
        if o is None:
            o = Obj()
            o.id, o.kind, o.cls, o.site, o.hctx, o.node, o.extra = len(self.objs), kind, cls, site, hctx, node, extra
            self.objs.append(o)
            self.obj_key[key] = o
        return o

    def load(self, loc):
        if self.stack:
            r = self.readers.get(loc)
            if r is None: r = self.readers[loc] = set()
            r.add(self.stack[-1].id)
        return self.heap.get(loc, BOT)

    def peek(self, oid, field): return self.heap.get((oid, field), BOT)

    def store(self, loc, v):
        # terms are relative to the running function
        if v.terms and (type(loc[0]) is not int or self.objs[loc[0]].kind != 'env') and not all(t[0] == 'c' for t in v.terms):
            v = V(v.atoms, v.labels, None)
        if type(loc[0]) is not int or self.objs[loc[0]].kind != 'env': v = plain_items(v)
        old = self.heap.get(loc)
        if old is None: new = v
        else:
            if old == v: return
            new = join(old, v)
            if new == old: return
        if not new.atoms and not new.labels: return
        if old is None:
            self._fields.setdefault(loc[0], []).append(loc[1])
            for c in self.readers.get((loc[0], '#fields'), ()): self.enqueue(self.ctxs[c])
        self.heap[loc] = new
        for c in self.readers.get(loc, ()): self.enqueue(self.ctxs[c])

    def enqueue(self, c):
        if c.id not in self.queued:
            self.queued.add(c.id)
            heapq.heappush(self.work, c.id)

    # ------------------------------------------------ contexts
    def get_ctx(self, fi, clo, selfatom, args, generic=False):
        key = (fi.fid, clo, selfatom, args)
        c = self.ctx_key.get(key)
        if c is not None: return c
        fam = self.by_func.setdefault((fi.fid, clo, selfatom), [])
        if len(fam) >= CTX_CAP:
            g = self.generic.get((fi.fid, clo, selfatom))
            if g is None:
                g = self.new_ctx(fi, clo, selfatom, args)
                g.generic = True
                self.generic[(fi.fid, clo, selfatom)] = g
            else:
                merged = tuple(self.generalize(a, b) for a, b in zip(g.args, args))
                if merged != g.args:
                    g.args = merged
                    self.enqueue(g)
            return g
        c = self.new_ctx(fi, clo, selfatom, args)
        self.ctx_key[key] = c
        fam.append(c)
        return c

    def generalize(self, a, b):
        if a is None: return b
        if b is None: return a
        return join(a, b)

    def new_ctx(self, fi, clo, selfatom, args):
        c = Ctx()
        c.id = len(self.ctxs)
        c.fi, c.clo, c.selfatom, c.args = fi, clo, selfatom, args
        c.ret = BOT
        c.events, c.callers, c.calls = {}, set(), {}
        c.must = c.exc_must = None
        c.exc = False
        c.open = c.exc_open = EMPTY
        c.may = c.exc_may = EMPTY
        c.closed = EMPTY
        c.evaluated = c.active = c.generic = False
        c.evals = 0
        c.exits = []
        c.spawned = set()
        c.state_vars = {}
        c.selfoid = selfatom[1] if selfatom and selfatom[0] == 'o' else None
        if c.selfoid is not None:
            c.hsig = ('self', c.selfoid)
        elif selfatom:
            c.hsig = ('cls', selfatom[1])
        else:
            sig = set()
            for a in args:
                if a is None: continue
                for at in a.atoms:
                    if at[0] == 'k': sig.add(at[1])
                    elif at[0] == 'o': sig.add(self.objs[at[1]].cls or self.objs[at[1]].id)
                    elif at[0] == 'f': sig.add(at[1])
            if clo is not None and not sig: sig.add(clo)
            c.hsig = ('args', tuple(sorted(map(str, sig)))[:6])
        self.ctxs.append(c)
        return c

    def run(self):
        while self.work:
            c = self.ctxs[heapq.heappop(self.work)]
            self.queued.discard(c.id)
            if c.active: continue
            self.evaluate(c)

    def evaluate(self, c):
        if c.active: return
        if isinstance(c.fi, _ModFunc): return self.run_module(c)
        c.active = True
        self.queued.discard(c.id)
        self.stack.append(c)
        self.n_evals += 1
        c.evals += 1
        if c.evals > 200:
            self.failed[c.fi.qual] = 'no fixpoint'
            self.stack.pop()
            c.active = False
            c.evaluated = True
            return
        old = (c.ret, c.must, c.exc, c.exc_must, c.open, c.exc_open, c.may)
        c.events = {}
        c.calls = {}
        c.exits = []
        c.spawned = set()
        fr = Frame()
        fr.ctx, fr.fi = c, c.fi
        fr.module = c.fi.module if c.fi else None
        fr.cls = c.fi.cls if c.fi else None
        st = State()
        n_stack = len(self.stack)
        try:
            self.run_body(c, fr, st)
        except (Exception, RecursionError) as e:
            # outside the analysed fragment: nothing is concluded about this function
            if DEBUG: raise
            self.failed[c.fi.qual if c.fi else '?'] = repr(e)[:200]
            c.ret = UNK
        finally:
            del self.stack[n_stack - 1:]
            c.active = False
        c.evaluated = True
        new = (c.ret, c.must, c.exc, c.exc_must, c.open, c.exc_open, c.may)
        if new != old:
            for i in c.callers: self.enqueue(self.ctxs[i])

    def run_body(self, c, fr, st):
        fi = c.fi
        names = fi.params + fi.kwonly + ([fi.vararg] if fi.vararg else []) + ([fi.kwarg] if fi.kwarg else [])
        for n, v in zip(names, c.args):
            self.assign_name(n, v if v is not None else BOT, st, fr)
        if fi.is_lambda:
            v = self.eval(fi.node.body, st, fr)
            fr.rets.append((v, st))
        else:
            self.block(fi.node.body, st, fr)
            if not st.dead: fr.rets.append((NONE, st))
        self.finish(c, fr)

    def finish(self, c, fr):
        ret, must, opn, may = BOT, None, EMPTY, EMPTY
        first = None
        differ = False
        for v, s in fr.rets:
            if s.dead: continue
            if first is None: first = v
            elif v != first: differ = True
        for v, s in fr.rets:
            if s.dead: continue
            if differ:
                lab = frozenset().union(*[f.labels for f in s.facts]) if s.facts else EMPTY
                v = v.with_labels(ctl(lab))
            ret = join(ret, v)
            must = s.must if must is None else must & s.must
            opn |= s.open
            may |= s.may
        if differ and ret.atoms:
            g = gate([(v, s.facts) for v, s in fr.rets if not s.dead and v.atoms])
            if g is not None: ret = V(ret.atoms, ret.labels, frozenset([g]))
        c.exits = [(v, s.facts, s.must, s.open) for v, s in fr.rets if not s.dead]
        if c.fi is not None and c.fi.is_gen:
            o = self.obj('list', None, ('gen', c.fi.fid), c.hsig, c.fi.node)
            y = join(BOT, *fr.yields)
            self.store((o.id, '*'), y)
            ret = V([('o', o.id)], EMPTY, self.yielded(c, fr))
        if c.generic and c.ret is not BOT: ret = join(c.ret, ret)
        c.ret = ret
        c.must = must
        c.open = opn
        exc_must, exc_open, exc_may = None, EMPTY, EMPTY
        for m, o, y in fr.excs:
            exc_must = m if exc_must is None else exc_must & m
            exc_open |= o
            exc_may |= y
        c.exc = bool(fr.excs)
        c.exc_must, c.exc_open = exc_must, exc_open
        c.may = may | exc_may

    def yielded(self, c, fr):
        '''for e in seq: if c: yield f(e)'''
        evs = [ev for ev in c.events.values() if ev.kind == 'yield']
        if len(evs) != 1 or not isinstance(evs[0].node, ast.Yield) or len(evs[0].frames) != 1 or evs[0].frames[0][0] != 'loop' or evs[0].val is None: return None
        ev = evs[0]
        s, it = ev.frames[0][1], ev.frames[0][2]
        if not isinstance(s, ast.For) or any(isinstance(n, (ast.Break, ast.Return)) for n in ast.walk(s)): return None
        conds = []
        for f in sorted(ev.facts, key=lambda f: f.nid):
            if f.node is s: continue
            if not isinstance(f.node, ast.expr) or f.terms is None or len(f.terms) != 1: return None
            t = next(iter(f.terms))
            conds.append(t if f.pol else _negate(t))
        if one(ev.val) is None: return None
        t = map_term(one(ev.val), s._id, one(it), conds)
        if t is None or t_has(t, lambda x: x == ('it', s._id)): return None
        return frozenset([t])

    # ------------------------------------------------ events
    def event(self, kind, node, name, st, fr, recv=None, args=(), kwargs=None, val=None, data=None, targets=None):
        if fr.mute: return None
        key = (node._id, kind, name)
        if self.dyn is not None and kind in ('extset', 'write', 'badset'): data = ('dyn', self.dyn)
        ev = fr.ctx.events.get(key)
        if ev is None:
            ev = Event()
            ev.kind, ev.node, ev.name, ev.ctx = kind, node, name, fr.ctx
            ev.recv, ev.args, ev.kwargs, ev.val, ev.data = recv, list(args), dict(kwargs or {}), val, data
            ev.facts, ev.must, ev.frames, ev.open, ev.may = st.facts, st.must, fr.frames, st.open, st.may
            ev.targets = targets
            fr.ctx.events[key] = ev
            return ev
        if recv is not None: ev.recv = recv if ev.recv is None else join(ev.recv, recv)
        for i, a in enumerate(args):
            if i < len(ev.args): ev.args[i] = join(ev.args[i], a)
            else: ev.args.append(a)
        for k, a in (kwargs or {}).items():
            ev.kwargs[k] = join(ev.kwargs[k], a) if k in ev.kwargs else a
        if val is not None: ev.val = val if ev.val is None else join(ev.val, val)
        ev.facts &= st.facts
        ev.must &= st.must
        ev.open |= st.open
        ev.may |= st.may
        return ev

    def raise_point(self, st, fr, must=None, opn=None, may=None):
        '''an exception may leave from here'''
        if fr.mute or st.dead: return
        m = st.must if must is None else must
        o = st.open if opn is None else opn
        y = st.may if may is None else may
        for t in reversed(fr.tries):
            if t.get('with') is not None:
                s = st.copy()
                s.must, s.open, s.may = m, o, y
                t['escapes'].append((m, o, y, s))
                return
            if t['phase'] == 'body':
                s = st.copy()
                s.must, s.open, s.may = m, o, y
                t['states'] = s if t['states'] is None else merge_states(t['states'], s)
                if t['catch_all']: return
                # goes on outwards, after the finally block
                if t['final']:
                    t['escapes'].append((m, o, y, s))
                    return
            elif t['final'] and t['phase'] in ('handler', 'else'):
                s = st.copy()
                s.must, s.open, s.may = m, o, y
                t['escapes'].append((m, o, y, s))
                return
        fr.excs.append((m, o, y))

    # ------------------------------------------------ names
    def assign_name(self, name, v, st, fr):
        if fr.classns is not None:
            self.store((fr.classns, name), v)
            st.vars[name] = v
            return
        fi = fr.fi
        if fi is None or name in fi.globals:
            o = self.mod_obj(fr.module.name)
            if fi is not None: self.write_global(fr.module.name, name, v, st, fr)
            self.store((o.id, name), v)
            if fi is None: st.vars[name] = v
            return
        if name in fi.nonlocals:
            p, clo = fi.parent, fr.ctx.clo
            while p is not None and name not in p.locals:
                clo = self.objs[clo].extra if clo is not None else None
                p = p.parent
            if clo is not None: self.store((clo, name), v)
            return
        st.vars[name] = v
        if st.refs:
            for k in [k for k in st.refs if k[0] == name]: del st.refs[k]
        if name in fi.captured:
            if v.terms is not None and any(a[0] == 'o' and self.objs[a[1]].kind == 'list' for a in v.atoms): v = v.with_terms(None)
            self.store((self.env_obj(fr.ctx).id, name), v)

    def write_global(self, mod, name, v, st, fr): pass

    def env_obj(self, c):
        sig = (c.hsig, tuple(V(frozenset(a for a in x.atoms if a[0] in 'cfkx')) if x is not None else None for x in c.args))
        return self.obj('env', None, ('env', c.fi.fid), sig, None, c.clo)

    def mod_obj(self, name): return self.obj('mod', name, 'mod')

    def lookup(self, name, st, fr, node=None):
        v = st.vars.get(name)
        if v is not None: return v
        if fr.classns is not None:
            v = self.load((fr.classns, name))
            if v.atoms: return v
        fi = fr.fi
        if fi is not None:
            if name in fi.locals:
                return BOT if name not in fi.captured else self.load((self.env_obj(fr.ctx).id, name))
            p, clo = fi.parent, fr.ctx.clo
            while p is not None:
                if name in p.locals:
                    return self.load((clo, name)) if clo is not None else UNK
                clo = self.objs[clo].extra if clo is not None else None
                p = p.parent
        return self.global_name(fr.module.name, name)

    def global_name(self, mod, name):
        self.ensure_module(mod)
        o = self.mod_obj(mod)
        v = self.load((o.id, name))
        if v.terms is None and len(v.atoms) == 1: v = self.const_dict(v)
        if v.atoms: return v
        if name in self.model.builtins: return V([('x', 'builtins.' + name)])
        if name in ('__name__', '__file__', '__doc__'): return ty('str')
        return BOT

    def const_dict(self, v):
        '''a dict of constants nobody changes'''
        a = next(iter(v.atoms))
        if a[0] != 'o' or self.objs[a[1]].kind != 'dict': return v
        n = self.objs[a[1]].node
        if not isinstance(n, ast.Dict) or not n.keys or not all(isinstance(x, ast.Constant) for x in n.keys + n.values): return v
        d = {k.value: x.value for k, x in zip(n.keys, n.values)}
        if any(f != '#k' and not (isinstance(f, tuple) and f[0] == 'k' and f[1] in d and
                                  all(x[0] == 'c' for x in self.load((a[1], f)).atoms)) for f in self.fields(a[1])): return v
        CONST_DICTS[n._id] = d
        return v.with_terms(frozenset([('cd', n._id)]))

    # ------------------------------------------------ modules and classes
    def ensure_module(self, name):
        if name in self.mod_ctx or name not in self.prog.modules: return
        m = self.prog.modules[name]
        c = self.new_ctx(_ModFunc(m), None, None, ())
        self.mod_ctx[name] = c
        self.run_module(c)

    def run_module(self, c):
        m = c.fi.module
        c.active = True
        self.stack.append(c)
        c.events, c.calls = {}, {}
        fr = Frame()
        fr.ctx, fr.fi, fr.module, fr.cls = c, None, m, None
        st = State()
        self.block(m.tree.body, st, fr)
        self.finish(c, fr)
        self.stack.pop()
        c.active = False
        c.evaluated = True

    def resolve_import(self, mod, node, alias):
        '''-> module path and attribute'''
        if isinstance(node, ast.Import):
            return alias.name, None
        base = node.module or ''
        if node.level:
            parts = mod.name.split('.')
            if not mod.is_pkg: parts = parts[:-1]
            if node.level > 1: parts = parts[:-(node.level - 1)]
            base = '.'.join(parts + ([base] if base else []))
        return base, alias.name

    def do_import(self, node, st, fr):
        for al in node.names:
            path, attr = self.resolve_import(fr.module, node, al)
            if attr is None:
                if path in self.prog.modules:
                    self.ensure_module(path)
                    name = al.asname or path.split('.')[0]
                    tgt = path if al.asname else path.split('.')[0]
                    v = V([('m', tgt)])
                else:
                    name = al.asname or path.split('.')[0]
                    v = V([('x', path if al.asname else path.split('.')[0])])
                self.assign_name(name, v, st, fr)
                continue
            name = al.asname or attr
            if path in self.prog.modules:
                self.ensure_module(path)
                if attr == '*':
                    o = self.mod_obj(path)
                    for (oid, f), v in list(self.heap.items()):
                        if oid == o.id and isinstance(f, str): self.assign_name(f, self.load((oid, f)), st, fr)
                    continue
                sub = f'{path}.{attr}'
                v = self.load((self.mod_obj(path).id, attr))
                if not v.atoms and sub in self.prog.modules:
                    self.ensure_module(sub)
                    v = V([('m', sub)])
                self.assign_name(name, v, st, fr)
            else:
                self.assign_name(name, self.model.ext_value(f'{path}.{attr}'), st, fr)

    def class_def(self, node, st, fr):
        name = node._cname
        ci = self.prog.classes[name]
        bases = []
        for b in node.bases:
            v = self.eval(b, st, fr)
            for a in v.atoms:
                if a[0] in ('k', 'x'): bases.append(a)
        ci.bases = bases
        ci.mro = None
        o = self.obj('class', name, 'class')
        self.class_obj[name] = o
        sub = Frame()
        sub.ctx, sub.fi, sub.module, sub.cls = fr.ctx, fr.fi, fr.module, name
        sub.classns = o.id
        sub.excs = fr.excs
        s2 = st.copy()
        if fr.fi is None: s2.vars = {}
        self.block(node.body, s2, sub)
        if self.is_enum(name):
            for n in node.body:
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Name): self.enum_members.setdefault(name, {})[t.id] = s2.vars.get(t.id, UNK)
        v = V([('k', name)])
        for d in reversed(node.decorator_list): self.eval(d, st, fr)
        self.assign_name(node.name, v, st, fr)

    def mro(self, name):
        ci = self.prog.classes.get(name)
        if ci is None: return [name]
        if ci.mro: return ci.mro
        if not hasattr(ci, 'bases') or getattr(ci, 'bases', None) is None: return [name]
        seqs = [self.mro(b[1]) if b[0] == 'k' else [b[1]] for b in ci.bases] + \
               [[b[1] for b in ci.bases]]
        res = [name]
        seqs = [list(s) for s in seqs if s]
        while seqs:
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs): break
            else:
                h = seqs[0][0]
            res.append(h)
            seqs = [[x for x in s if x != h] for s in seqs]
            seqs = [s for s in seqs if s]
        ci.mro = res
        return res

    def is_enum(self, name):
        return any(c in ('enum.Enum', 'enum.IntEnum', 'enum.Flag', 'enum.IntFlag') for c in self.mro(name))

    def is_subclass(self, name, other): return other in self.mro(name)

    def class_attr(self, name, attr):
        '''-> (V, class) through the MRO'''
        for c in self.mro(name):
            o = self.class_obj.get(c)
            if o is None:
                if c in self.prog.classes: self.ensure_module(self.prog.classes[c].module.name)
                o = self.class_obj.get(c)
                if o is None: continue
            v = self.load((o.id, attr))
            if v.atoms: return v, c
        return None, None

    def ext_bases(self, name):
        return [c for c in self.mro(name) if c not in self.prog.classes]

    # ------------------------------------------------ statements
    def block(self, stmts, st, fr):
        for s in stmts:
            if st.dead: return
            m = getattr(self, 's_' + type(s).__name__, None)
            if m is None:
                self.unsupported.add(type(s).__name__)
                for n in ast.iter_child_nodes(s):
                    if isinstance(n, ast.expr): self.eval(n, st, fr)
            else: m(s, st, fr)

    def s_Expr(self, s, st, fr): self.eval(s.value, st, fr)
    def s_Pass(self, s, st, fr): pass
    def s_Import(self, s, st, fr): self.do_import(s, st, fr)
    def s_ImportFrom(self, s, st, fr): self.do_import(s, st, fr)
    def s_Global(self, s, st, fr): pass
    def s_Nonlocal(self, s, st, fr): pass
    def s_ClassDef(self, s, st, fr): self.class_def(s, st, fr)

    def s_FunctionDef(self, s, st, fr):
        fi = self.prog.func_of_node[s]
        v = V([('f', fi.fid, self.clo_for(fi, fr))])
        for d in reversed(s.decorator_list):
            dn = d.id if isinstance(d, ast.Name) else None
            if isinstance(d, ast.Attribute) and d.attr in ('setter', 'getter', 'deleter'):
                base = self.eval(d.value, st, fr)
                out = set()
                for a in base.atoms:
                    if a[0] == 'p' and a[1] == 'prop':
                        f = next(iter(v.atoms))
                        out.add(('p', 'prop', a[2] if d.attr != 'getter' else f, f if d.attr == 'setter' else a[3]))
                    else: out.add(a)
                v = V(out)
                continue
            dv = self.eval(d, st, fr)
            out = BOT
            for a in dv.atoms:
                if a[0] == 'x' and a[1].startswith('builtins.') or a[0] == 'x' and a[1] in self.model.decorators:
                    k = a[1].split('.')[-1]
                    f = next(iter(v.atoms), None)
                    if f is None: continue
                    if k in ('property', 'cached_property', 'abstractproperty'):
                        out = join(out, V([('p', 'prop' if k != 'cached_property' else 'cprop', f, None)]))
                    elif k == 'staticmethod': out = join(out, V([('p', 'static', f, None)]))
                    elif k == 'classmethod': out = join(out, V([('p', 'class', f, None)]))
                    else:
                        if k in ('lru_cache', 'cache'):
                            self.event('lru_cache', s, a[1], st, fr, val=v)
                        out = join(out, v)
                elif a[0] == 'x': out = join(out, v)
                elif a[0] in ('u', 'vm'):
                    out = join(out, v)
                else:
                    out = join(out, self.call(V([a]), [v], {}, d, st, fr))
            v = out if out.atoms else v
        self.assign_name(s.name, v, st, fr)

    s_AsyncFunctionDef = s_FunctionDef

    def clo_for(self, fi, fr):
        return self.env_obj(fr.ctx).id if fr.fi is not None else None

    def s_Return(self, s, st, fr):
        v = self.eval(s.value, st, fr) if s.value is not None else NONE
        if st.dead: return
        ev = self.event('return', s, 'return', st, fr, val=v)
        s2 = st.copy()
        self.run_finals(s2, fr, 0)
        if not s2.dead: fr.rets.append((v, s2))
        st.dead = True

    def run_finals(self, st, fr, down_to):
        '''leaving try blocks by return/break/continue'''
        saved = list(fr.tries)
        while len(fr.tries) > down_to:
            t = fr.tries.pop()
            if t.get('with') is not None: self.model.with_exit(t['with'], t['node'], st, fr)
            elif t['final'] and t['phase'] != 'final': self.block(t['final'], st, fr)
        fr.tries = saved

    def s_Assign(self, s, st, fr):
        v = self.eval(s.value, st, fr)
        for t in s.targets: self.assign(t, v, st, fr)

    def s_AnnAssign(self, s, st, fr):
        if s.value is not None: self.assign(s.target, self.eval(s.value, st, fr), st, fr)

    def s_AugAssign(self, s, st, fr):
        op = BINOPS.get(type(s.op), '?')
        cur = self.eval(_load(s.target), st, fr)
        v = self.eval(s.value, st, fr)
        # in-place on containers
        cont = [a for a in cur.atoms if a[0] == 'o' and self.objs[a[1]].kind in ('list', 'dict', 'set')
                or a[0] == 'r']
        if cont and op in ('+', '|', '-', '&'):
            meth = {'list': 'extend', 'dict': 'update', 'set': 'update'}
            for a in cont:
                k = self.objs[a[1]].kind if a[0] == 'o' else 'list'
                if a[0] == 'r' and not any(x[0] in ('o', 'r', 't', 'u') for x in v.atoms): continue
                self.call_method(V([a], cur.labels, cur.terms), meth[k], [v], {}, s, st, fr)
            rest = cur.atoms - set(cont)
            res = V(cont, cur.labels | v.labels, None)
            if rest or any(a[0] == 'r' for a in cont): res = join(res, self.binop(op, cur, v, s, st, fr))
        else:
            res = self.binop(op, cur, v, s, st, fr)
        self.assign(s.target, res, st, fr, aug=True)

    def s_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                base = self.eval(t.value, st, fr)
                idx = self.eval(t.slice, st, fr)
                self.mutate(base, '__delitem__', [idx], t, st, fr)
                for a in base.atoms:
                    if a[0] == 'vm' and a[2] == '__dict__':
                        for n in [x[1] for x in idx.atoms if x[0] == 'c'] or ['*']: self.event('delattr', t, n, st, fr, recv=a[1])
            elif isinstance(t, ast.Name): st.vars.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                base = self.eval(t.value, st, fr)
                self.event('delattr', t, t.attr, st, fr, recv=base)

    def assign(self, t, v, st, fr, aug=False):
        if isinstance(t, ast.Name):
            if fr.loops and t.id in (getattr(fr.loops[-1]['node'], '_car', None) or ()): self.event('carry', t, f"{fr.loops[-1]['node']._id}:{t.id}", st, fr, val=v)
            self.assign_name(t.id, v, st, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = next((i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)), None)
            parts = self.unpack(v, len(t.elts), star, t, st, fr)
            for e, p in zip(t.elts, parts):
                self.assign(e.value if isinstance(e, ast.Starred) else e, p, st, fr)
        elif isinstance(t, ast.Attribute):
            base = self.eval(t.value, st, fr)
            self.set_attr(base, t.attr, v, t, st, fr)
            if isinstance(t.value, ast.Name) and all(a[0] == 'o' and self.plain_field(a, t.attr) for a in base.atoms) and base.atoms:
                labs = frozenset(('F', self.objs[a[1]].cls, t.attr) for a in base.atoms)
                cls = next(iter(labs))[1]
                st.refs[(t.value.id, t.attr)] = V(v.atoms, labs, self.ld(base, cls, t.attr))
        elif isinstance(t, ast.Subscript):
            base = self.eval(t.value, st, fr)
            idx = self.eval(t.slice, st, fr)
            self.set_item(base, idx, v, t, st, fr)
        elif isinstance(t, ast.Starred): self.assign(t.value, v, st, fr)

    def plain_field(self, a, name):
        o = self.objs[a[1]]
        if o.kind != 'inst': return False
        cv, _ = self.class_attr(o.cls, name)
        return cv is None

    def unpack(self, v, n, star, node, st, fr):
        res = [BOT] * n
        for a in v.atoms:
            if a[0] == 't' and star is None and len(a[1]) == n:
                parts = [p.with_labels(v.labels) for p in a[1]]
            elif a[0] == 't' and star is not None and len(a[1]) >= n - 1:
                k = len(a[1]) - (n - 1)
                mid = V([('t', a[1][star:star + k])])
                parts = list(a[1][:star]) + [mid] + list(a[1][star + k:])
            elif a[0] == 't' and star is None and len(a[1]) != n: continue
            elif a[0] == 'o' and self.objs[a[1]].kind == 'list' and star is None:
                parts = [self.index(V([a], v.labels, v.terms), const(i), node, st, fr) for i in range(n)]
            elif a[0] in ('r', 'xo', 'ty', 'u') and star is None:
                parts = []
                for i in range(n):
                    p = self.index(V([a], v.labels, v.terms), const(i), node, st, fr)
                    parts.append(p)
            else:
                e = self.elements(V([a], v.labels), node, st, fr)
                parts = [e] * n
            for i in range(n): res[i] = join(res[i], parts[i])
        if not v.atoms: return [BOT] * n
        t = one(v)
        if t is not None and star is not None and t[0] in ('at', 'ld', 's'):
            for i in range(n):
                if i == star or not res[i].atoms: continue
                x = tlimit(t_index(t, ('c', i if i < star else i - n)))
                if x is not None: res[i] = res[i].with_terms(frozenset([x]))
        if t is not None and star is None:
            for i in range(n):
                if res[i].atoms and (res[i].terms is None or len(res[i].terms) != 1):
                    x = tlimit(t_index(t, ('c', i)))
                    if x is not None: res[i] = res[i].with_terms(frozenset([x]))
        return res

    def s_Assert(self, s, st, fr):
        self.eval(s.test, st, fr)
        self.raise_point(st, fr)
        self.assume(s.test, True, st, fr)

    def s_Raise(self, s, st, fr):
        if s.exc is not None: self.eval(s.exc, st, fr)
        self.event('raise', s, 'raise', st, fr)
        self.raise_point(st, fr)
        st.dead = True

    def s_If(self, s, st, fr):
        v = self.eval(s.test, st, fr)
        if st.dead: return
        t, f = st.copy(), st
        tv = self.truth(v, s.test, st, fr)
        ft = Fact(s.test._id, True, v.labels, v.terms, s.test)
        ff = Fact(s.test._id, False, v.labels, v.terms, s.test)
        if True in tv:
            self.assume(s.test, True, t, fr)
            if not t.dead:
                t.facts = t.facts | {ft}
                self.block(s.body, t, fr)
        else: t.dead = True
        e = f.copy()
        if False in tv:
            self.assume(s.test, False, e, fr)
            if not e.dead:
                e.facts = e.facts | {ff}
                self.block(s.orelse, e, fr)
        else: e.dead = True
        st.set(merge_states(t, e, ctl(v.labels), one(v)))

    def s_Match(self, s, st, fr):
        v = self.eval(s.subject, st, fr)
        outs = []
        for case in s.cases:
            c = st.copy()
            for n in ast.walk(case.pattern):
                if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name: self.assign_name(n.name, v, c, fr)
                elif isinstance(n, ast.MatchMapping) and n.rest: self.assign_name(n.rest, v, c, fr)
                elif isinstance(n, ast.MatchValue): self.eval(n.value, c, fr)
            if case.guard is not None: self.eval(case.guard, c, fr)
            self.block(case.body, c, fr)
            outs.append(c)
        r = st
        for c in outs: r = merge_states(r, c, ctl(v.labels))
        st.set(r)

    def loop(self, s, st, fr, enter):
        '''enter(state) -> state in which the body starts (or None); loop until stable'''
        lp = {'breaks': [], 'continues': [], 'tries': len(fr.tries), 'node': s}
        head = st.copy()
        ind = self.inductions(s, head, fr)
        car = self.carried(s, head, ind, st, fr)
        n = 0
        while True:
            n += 1
            lp['breaks'], lp['continues'] = [], []
            fr.loops.append(lp)
            saved = fr.frames
            body, exit_state, itv = enter(head)
            fr.frames = saved + (('loop', s, itv, s._id),)
            if body is not None and not body.dead:
                self.block(s.body, body, fr)
            fr.frames = saved
            fr.loops.pop()
            back = body
            if back is None:
                back = State(); back.dead = True
            for c in lp['continues']: back = merge_states(back, c)
            new = merge_states(head, back)
            new.facts = head.facts if back.dead else head.facts & back.facts
            for k in ind: new.vars[k] = head.vars[k]
            for k in car:
                if k in new.vars: new.vars[k] = new.vars[k].with_terms(car[k])
            for k, v in new.vars.items():
                if k in ind or k in car: continue
                o = head.vars.get(k)
                if o is not v and v.terms and self.loop_sym(v.terms, s): new.vars[k] = v.with_terms(None)
                elif o is not None and o != v and n > 2: new.vars[k] = V(widen_atoms(v.atoms), v.labels, None)
            if new.vars == head.vars and new.must == head.must and new.open == head.open and new.facts == head.facts \
                    and new.may == head.may:
                break
            if n > 12: break
            head = new
        out = exit_state if exit_state is not None else State()
        if exit_state is None: out.dead = True
        for k in car:
            if k in out.vars: out.vars[k] = out.vars[k].with_terms(None)
        if s.orelse and not out.dead:
            fr.frames = saved + (('forelse', s, itv, s._id),)
            self.block(s.orelse, out, fr)
            fr.frames = saved
        for b in lp['breaks']: out = merge_states(out, b)
        for k, last in ind.items():
            if k in out.vars: out.vars[k] = out.vars[k].with_terms(last(one(itv)) if not lp['breaks'] else None)
        if not lp['breaks'] and isinstance(s, ast.For) and not out.dead and not fr.mute: self.collected(s, head, itv, out, fr, saved)
        st.set(out)

    def inductions(self, s, head, fr):
        '''counters: variables changed only by one unconditional x += c in the body of a loop'''
        info = getattr(s, '_ind', None)
        if info is None:
            assigned = {}
            for b in s.body:
                for x in ast.walk(b):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)): assigned.setdefault(x.id, []).append(x)
            if isinstance(s, ast.For):
                for x in ast.walk(s.target):
                    if isinstance(x, ast.Name): assigned.setdefault(x.id, []).append(x)
            conts = any(isinstance(x, ast.Continue) for b in s.body for x in ast.walk(b))
            simple, counted = {}, set()
            for b in s.body:
                for x in ast.walk(b):
                    if not isinstance(x, ast.AugAssign) or not isinstance(x.target, ast.Name) or not isinstance(x.op, (ast.Add, ast.Sub)): continue
                    if not isinstance(x.value, ast.Constant) or not isinstance(x.value.value, (int, float)) or isinstance(x.value.value, bool): continue
                    k = x.target.id
                    if all(isinstance(getattr(y, '_aug', None), ast.AugAssign) or y is x.target for y in assigned[k]): counted.add(k)
                    if x is b and len(assigned[k]) == 1 and not conts and isinstance(s, ast.For):
                        simple[k] = x.value.value if isinstance(x.op, ast.Add) else -x.value.value
            info = s._ind = (simple, counted)
        out = {}
        for k in info[0].keys() | info[1]:
            v = head.vars.get(k)
            if v is None or not v.atoms or not all(a[0] == 'c' and isinstance(a[1], (int, float)) and not isinstance(a[1], bool) or a in (('ty', 'int'), ('ty', 'num')) for a in v.atoms): continue
            num = all(a[0] == 'c' and isinstance(a[1], int) or a == ('ty', 'int') for a in v.atoms)
            at = frozenset([('ty', 'int' if num else 'num')])
            if k in info[0]:
                c = info[0][k]
                t = one(v)
                if not isinstance(c, int): at = frozenset([('ty', 'num')])
                if t is None: terms = None
                else: terms = frozenset([t_add(t, t_mul(('it', s._id), ('c', c)))])
                head.vars[k] = V(at, v.labels, terms)
                out[k] = lambda it, t=t, c=c: frozenset([t_add(t, t_mul(('fn', 'len', it), ('c', c)))]) if t is not None and it is not None else None
            elif k not in out: head.vars[k] = V(v.atoms | at, v.labels, None)
        return out

    def carried(self, s, head, ind, st, fr):
        '''variables set by plain assignments in the body of a for loop: at the start of an iteration they have the value of the one before'''
        if not isinstance(s, ast.For) or fr.fi is None: return {}
        names = getattr(s, '_car', None)
        if names is None:
            plain, other = set(), set()

            def visit(x, nested):
                if isinstance(x, ast.Assign):
                    for t in x.targets:
                        if isinstance(t, ast.Name): (other if nested else plain).add(t.id)
                        else: visit(t, nested)
                    visit(x.value, nested)
                    return
                if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)): return
                if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)): other.add(x.id)
                inner = nested or isinstance(x, (ast.For, ast.While, ast.Try))
                for y in ast.iter_child_nodes(x): visit(y, inner)
            for b in s.body: visit(b, False)
            for x in ast.walk(s.target):
                if isinstance(x, ast.Name): other.add(x.id)
            names = s._car = plain - other - set(fr.fi.captured) - set(fr.fi.nonlocals) - set(fr.fi.globals)
        out = {}
        for k in sorted(names):
            v = head.vars.get(k)
            if v is None or k in ind or not v.atoms: continue
            self.event('carry', s, f'{s._id}:{k}:init', st, fr, val=v)
            out[k] = frozenset([('carry', s._id, k)])
            head.vars[k] = v.with_terms(out[k])
        return out

    def collected(self, s, head, itv, out, fr, saved):
        '''x = []; for e in seq: if c: x.append(f(e))  ->  x is [f(e) for e in seq if c]'''
        muts = None
        for k, v in out.vars.items():
            if len(v.atoms) != 1 or v.terms is not None: continue
            a = next(iter(v.atoms))
            if a[0] != 'o' or self.objs[a[1]].kind != 'list': continue
            n = self.objs[a[1]].node
            if not (isinstance(n, ast.List) and not n.elts or isinstance(n, ast.Call) and not n.args): continue
            if muts is None: muts = [ev for ev in fr.ctx.events.values() if ev.kind in ('mutate', 'call')]
            mine = [ev for ev in muts if (a in ev.recv.atoms if ev.kind == 'mutate' else any(a in x.atoms for x in ev.args))]
            if len(mine) != 1 or mine[0].kind != 'mutate' or mine[0].name != 'append' or mine[0].recv.atoms != v.atoms: continue
            ev = mine[0]
            if len(ev.frames) != len(saved) + 1 or ev.frames[-1][1] is not s: continue
            body = one(ev.args[0]) if ev.args else None
            conds = []
            for f in sorted(ev.facts - head.facts, key=lambda f: f.nid):
                if f.node is s: continue
                if not isinstance(f.node, ast.expr) or f.terms is None or len(f.terms) != 1: conds = None; break
                c = next(iter(f.terms))
                conds.append(c if f.pol else _negate(c))
            if body is None or conds is None: continue
            t = map_term(body, s._id, one(itv), conds)
            if t is not None and not t_has(t, lambda x: x == ('it', s._id)): out.vars[k] = v.with_terms(frozenset([t]))

    def loop_sym(self, terms, s):
        stack = list(terms)
        while stack:
            t = stack.pop()
            if isinstance(t, tuple):
                if len(t) == 2 and t[0] == 'it' and t[1] == s._id or len(t) == 3 and t[0] == 'carry' and t[1] == s._id: return True
                stack.extend(x for x in t if isinstance(x, (tuple, frozenset)))
            elif isinstance(t, frozenset): stack.extend(t)
        return False

    def s_For(self, s, st, fr):
        itv = self.eval(s.iter, st, fr)
        if st.dead: return

        def enter(head):
            body = head.copy()
            el = self.iterate(itv, s.iter, s, body, fr)
            exit_state = head.copy()
            if not el.atoms and not el.labels:
                return None, exit_state, itv
            self.assign(s.target, el, body, fr)
            body.facts = body.facts | {Fact(s._id, True, itv.labels, None, s)}
            return body, exit_state, itv
        self.loop(s, st, fr, enter)

    s_AsyncFor = s_For

    def s_While(self, s, st, fr):
        def enter(head):
            body = head.copy()
            v = self.eval(s.test, body, fr)
            tv = self.truth(v, s.test, body, fr)
            ex = body.copy()
            if True in tv:
                self.assume(s.test, True, body, fr)
                body.facts = body.facts | {Fact(s.test._id, True, v.labels, v.terms, s.test)}
            else: body.dead = True
            if False in tv: self.assume(s.test, False, ex, fr)
            else: ex.dead = True
            return body, ex, v
        self.loop(s, st, fr, enter)

    def s_Break(self, s, st, fr):
        lp = fr.loops[-1]
        self.event('break', s, 'break', st, fr)
        c = st.copy()
        self.run_finals(c, fr, lp['tries'])
        if not c.dead: lp['breaks'].append(c)
        st.dead = True

    def s_Continue(self, s, st, fr):
        lp = fr.loops[-1]
        c = st.copy()
        self.run_finals(c, fr, lp['tries'])
        if not c.dead: lp['continues'].append(c)
        st.dead = True

    def s_Try(self, s, st, fr):
        catch_all = False
        for h in s.handlers:
            if h.type is None: catch_all = True
            else:
                names = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                if any(isinstance(n, ast.Name) and n.id in ('Exception', 'BaseException') for n in names): catch_all = True
        rec = {'phase': 'body', 'states': None, 'catch_all': catch_all, 'final': s.finalbody, 'escapes': [], 'node': s}
        fr.tries.append(rec)
        saved = fr.frames
        fr.frames = saved + (('try', s, None),)
        entry = st.copy()
        body = st.copy()
        self.block(s.body, body, fr)
        rec['phase'] = 'else'
        fr.frames = saved + (('else', s, None),)
        if not body.dead and s.orelse: self.block(s.orelse, body, fr)
        out = body
        # handlers
        rec['phase'] = 'handler'
        hs = rec['states']
        for h in s.handlers:
            if hs is None: 
                continue
            c = hs.copy()
            fr.frames = saved + (('handler', s, h),)
            if h.type is not None: self.eval(h.type, c, fr)
            if h.name: self.assign_name(h.name, xo('Exception'), c, fr)
            self.event('handler', h, 'handler', c, fr)
            c.facts = c.facts | {Fact(h._id, True, EMPTY, None, h)}
            self.block(h.body, c, fr)
            out = merge_states(out, c)
        if hs is not None and not catch_all and not s.finalbody: pass
        rec['phase'] = 'final'
        fr.frames = saved + (('finally', s, None),)
        if s.finalbody:
            if not out.dead: self.block(s.finalbody, out, fr)
            # exceptional way out: through the finally block
            escapes = list(rec['escapes'])
            fr.tries.pop()
            if escapes:
                m, o, y = None, EMPTY, EMPTY
                es = None
                for a, b, c2, s2 in escapes: es = s2 if es is None else merge_states(es, s2)
                self.block(s.finalbody, es, fr)
                fr.frames = saved
                if not es.dead: self.raise_point(es, fr)
        else:
            fr.tries.pop()
        fr.frames = saved
        st.set(out)

    s_TryStar = s_Try

    def s_With(self, s, st, fr):
        ctxs = []
        saved = fr.frames
        pushed = 0
        for it in s.items:
            v = self.eval(it.context_expr, st, fr)
            if st.dead: break
            entered = self.model.with_enter(v, it.context_expr, st, fr)
            if it.optional_vars is not None: self.assign(it.optional_vars, entered, st, fr)
            rec = {'phase': 'body', 'states': None, 'catch_all': False, 'final': True, 'escapes': [], 'node': it.context_expr,
                   'with': v}
            ctxs.append((v, it.context_expr, rec))
            fr.tries.append(rec)
            fr.frames = fr.frames + (('with', it.context_expr, v),)
            pushed += 1
        if not st.dead: self.block(s.body, st, fr)
        for v, node, rec in reversed(ctxs):
            fr.tries.pop()
            fr.frames = fr.frames[:-1]
            if rec['escapes']:
                es = None
                for _, _, _, s2 in rec['escapes']: es = s2 if es is None else merge_states(es, s2)
                self.model.with_exit(v, node, es, fr)
                self.raise_point(es, fr)
            if not st.dead: self.model.with_exit(v, node, st, fr)
        fr.frames = saved

    s_AsyncWith = s_With

    # ------------------------------------------------ truth and refinement
    def truth(self, v, node=None, st=None, fr=None):
        out = set()
        if not v.atoms: return {True, False} if v.labels else set()
        for a in v.atoms:
            k = a[0]
            if k == 'c': out.add(bool(a[1]))
            elif k == 't': out.add(len(a[1]) > 0)
            elif k in ('f', 'b', 'k', 'm', 'x', 'e', 'p', 'vm'): out.add(True)
            elif k == 'o':
                o = self.objs[a[1]]
                if o.kind == 'inst':
                    bv, _ = self.class_attr(o.cls, '__bool__')
                    if bv is None: bv, _ = self.class_attr(o.cls, '__len__')
                    if bv is None and not self.ext_bases(o.cls): out.add(True)
                    else: out |= {True, False}
                else: out |= {True, False}
            elif k == 'tm': out.add(True)
            else: return {True, False}
            if len(out) == 2: return out
        return out

    def assume(self, test, pol, st, fr):
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.assume(test.operand, not pol, st, fr)
        if isinstance(test, ast.BoolOp):
            conj = isinstance(test.op, ast.And)
            if conj == pol:
                for x in test.values:
                    self.assume(x, pol, st, fr)
                    if st.dead: return
            else:
                # at least one has that polarity: join of the possible first ones
                outs = []
                cur = st.copy()
                for x in test.values:
                    a = cur.copy()
                    self.assume(x, pol, a, fr)
                    if not a.dead: outs.append(a)
                    self.assume(x, not pol, cur, fr)
                    if cur.dead: break
                if outs:
                    r = outs[0]
                    for o in outs[1:]: r = merge_states(r, o)
                    facts = st.facts
                    st.set(r)
                    st.facts = facts
            return
        if isinstance(test, ast.NamedExpr):
            if isinstance(test.target, ast.Name): self.refine_truth(test.target, pol, st, fr)
            return
        if isinstance(test, (ast.Name, ast.Attribute)):
            self.refine_truth(test, pol, st, fr)
            if isinstance(test, ast.Attribute): self.split(test, pol, st, fr)
            return
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            self.refine_cmp(test, pol, st, fr)
            if not st.dead: self.refine_class(test, pol, st, fr)
            return
        if isinstance(test, ast.Call):
            self.split(test, pol, st, fr)

    def refine_class(self, test, pol, st, fr):
        '''variables whose class is limited by the test of the result of one of their methods'''
        fr.mute += 1
        try: v = self.eval(test, st, fr)
        finally: fr.mute -= 1
        if v.terms is None or len(v.terms) != 1: return
        t = next(iter(v.terms))
        found = []
        t_has(t, lambda x: len(x) == 3 and x[0] == 'disp' and found.append(x))
        for d in found:
            names = [n for n, x in st.vars.items() if x.terms == frozenset([d[1]]) and len(x.atoms) > 1]
            if not names: continue
            out = set()
            for c, _ in d[2]:
                who = Rec(__cls__=tuple(self.mro(c)))
                r = term_value(t, {d[1]: who})
                if r[0] == 'ok' and isinstance(r[1], bool) and r[1] != pol: out.add(c)
            if not out: continue
            for n in names:
                x = st.vars[n]
                keep = [a for a in x.atoms if not (a[0] == 'o' and self.objs[a[1]].cls in out)]
                if keep and len(keep) != len(x.atoms):
                    st.vars[n] = self.narrow(x, keep)
                    st.refs = {k: y for k, y in st.refs.items() if k[0] != n}

    def get_ref(self, node, st, fr):
        if isinstance(node, ast.Name): return st.vars.get(node.id)
        if isinstance(node, ast.Attribute) and isinstance(node.value, ast.Name):
            k = (node.value.id, node.attr)
            if k in st.refs: return st.refs[k]
            fr.mute += 1
            try: return self.eval(node, st, fr)
            finally: fr.mute -= 1
        return None

    def set_ref(self, node, v, st, fr):
        if isinstance(node, ast.Name):
            if node.id in st.vars: st.vars[node.id] = v
        else:
            st.refs[(node.value.id, node.attr)] = v

    def refine_truth(self, node, pol, st, fr):
        v = self.get_ref(node, st, fr)
        if v is None or len(v.atoms) < 2: return
        keep = []
        for a in v.atoms:
            if pol in self.truth(V([a]), node, st, fr):
                if a == ('ty', 'bool'): a = ('c', pol)
                keep.append(a)
        if not keep:
            return
        if len(keep) != len(v.atoms) or frozenset(keep) != v.atoms:
            self.set_ref(node, self.narrow(v, keep), st, fr)

    def narrow(self, v, keep):
        t = v.terms
        if t is not None:
            gone = v.atoms - set(keep)
            cs = [('c', a[1]) for a in gone if a[0] == 'c']
            if cs:
                t2 = frozenset(x for x in t if x not in cs)
                if t2: t = t2
        return V(keep, v.labels, t)

    def refine_cmp(self, test, pol, st, fr):
        op = CMPOPS[type(test.ops[0])]
        if op in ('!=', 'is not', 'not in'):
            op = {'!=': '==', 'is not': 'is', 'not in': 'in'}[op]
            pol = not pol
        l, r = test.left, test.comparators[0]
        if op in ('==', 'is'):
            for x, y in ((l, r), (r, l)):
                if isinstance(x, (ast.Name, ast.Attribute)):
                    v = self.get_ref(x, st, fr)
                    if v is None: continue
                    fr.mute += 1
                    w = self.eval(y, st, fr)
                    fr.mute -= 1
                    keep = []
                    for a in v.atoms:
                        res = self.eq_atoms(a, w, op)
                        if pol in res: keep.append(a)
                    if not keep and v.atoms:
                        st.dead = True
                        return
                    if len(keep) != len(v.atoms): self.set_ref(x, self.narrow(v, keep), st, fr)
        elif op == 'in' and isinstance(l, (ast.Name, ast.Attribute)):
            v = self.get_ref(l, st, fr)
            if v is not None and len(v.atoms) > 1:
                fr.mute += 1
                w = self.eval(r, st, fr)
                el = self.elements(w, r, st, fr) if not any(a[0] == 'c' for a in w.atoms) else UNK
                fr.mute -= 1
                if pol and el.atoms and all(a[0] in ('c', 'e', 'k') for a in el.atoms):
                    keep = [a for a in v.atoms if True in self.eq_atoms(a, el, '==')]
                    if keep: self.set_ref(l, self.narrow(v, keep), st, fr)
        if op in ('==', 'is', 'in') and not (isinstance(l, ast.Name) and isinstance(r, (ast.Name, ast.Constant))):
            self.split(test, pol if CMPOPS[type(test.ops[0])] == op else not pol, st, fr)

    def eq_atoms(self, a, w, op):
        '''possible results of a == w'''
        out = set()
        for b in w.atoms:
            if a[0] == 'c' and b[0] == 'c':
                out.add(a[1] == b[1] if op == '==' else a[1] is b[1] or (a[1] == b[1] and type(a[1]) == type(b[1])))
            elif a[0] == 'e' and b[0] == 'e': out.add(a == b)
            elif {a[0], b[0]} <= {'e', 'c', 'o', 't', 'k', 'f', 'x'} and a[0] != b[0]:
                out.add(False)
            elif a[0] == 'k' and b[0] == 'k': out.add(a == b)
            elif a[0] in ('ty', 'xo', 'tm') and b == ('c', None) or b[0] in ('ty', 'xo', 'tm') and a == ('c', None):
                out.add(False)
            elif a[0] == 'ty' and b[0] == 'e' or a[0] == 'e' and b[0] == 'ty': out.add(False)
            elif op == 'is' and a[0] == 'c' and b[0] == 'o': out.add(False)
            else: out |= {True, False}
            if len(out) == 2: break
        return out or {True, False}

    def split(self, test, pol, st, fr):
        '''refine variables in the test by the atoms with which the test can have this outcome'''
        names = []
        for n in ast.walk(test):
            if isinstance(n, ast.Name) and n.id in st.vars and n.id not in names: names.append(n.id)
            if isinstance(n, (ast.Lambda, ast.ListComp, ast.GeneratorExp)): return
        if len(names) > 4: return
        for name in names:
            v = st.vars[name]
            if len(v.atoms) < 2 or len(v.atoms) > 14: continue
            if not any(a[0] in ('o', 'e', 'k', 't') for a in v.atoms): continue
            keep = []
            for a in v.atoms:
                s2 = st.copy()
                s2.vars[name] = V([a], v.labels, v.terms)
                s2.refs = {k: x for k, x in s2.refs.items() if k[0] != name}
                fr.mute += 1
                try: r = self.eval(test, s2, fr)
                finally: fr.mute -= 1
                t = self.truth(r)
                if pol in t or not r.atoms: keep.append(a)
            if not keep: continue
            if len(keep) != len(v.atoms):
                st.vars[name] = self.narrow(v, keep)
                st.refs = {k: x for k, x in st.refs.items() if k[0] != name}

    # ------------------------------------------------ expressions
    def eval(self, e, st, fr):
        if st.dead: return BOT
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            self.unsupported.add(type(e).__name__)
            labs = EMPTY
            for n in ast.iter_child_nodes(e):
                if isinstance(n, ast.expr): labs |= self.eval(n, st, fr).labels
            return V([('u',)], labs)
        return m(e, st, fr)

    def e_Constant(self, e, st, fr):
        x = e.value
        if x is Ellipsis or isinstance(x, complex): return UNK
        return const(x)

    def e_Name(self, e, st, fr): return self.lookup(e.id, st, fr, e)

    def e_NamedExpr(self, e, st, fr):
        v = self.eval(e.value, st, fr)
        self.assign(e.target, v, st, fr)
        return v

    def e_Starred(self, e, st, fr): return self.eval(e.value, st, fr)

    def e_Tuple(self, e, st, fr):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            parts = []
            for x in e.elts:
                v = self.eval(x, st, fr)
                if isinstance(x, ast.Starred):
                    ts = [a for a in v.atoms if a[0] == 't']
                    self.model.set_consumed(v, 'star', x, st, fr)
                    if len(ts) == 1 and len(v.atoms) == 1: parts.extend(ts[0][1])
                    else:
                        el = self.elements(v, x, st, fr)
                        o = self.obj('list', None, e._id, fr.ctx.hsig, e)
                        self.store((o.id, '*'), join(el, *parts))
                        for y in e.elts:
                            yv = self.eval(y, st, fr)
                            self.store((o.id, '*'), self.elements(yv, y, st, fr) if isinstance(y, ast.Starred) else yv)
                        return V([('o', o.id)])
                else: parts.append(v)
            return V([('t', tuple(parts))])
        vs = tuple(self.eval(x, st, fr) for x in e.elts)
        terms = lift(lambda *t: ('tup',) + t, *vs) if len(vs) <= 6 else None
        return V([('t', vs)], EMPTY, terms)

    def new_list(self, e, fr, kind='list'):
        return self.obj(kind, None, e._id, fr.ctx.hsig, e)

    def e_List(self, e, st, fr):
        o = self.new_list(e, fr)
        pos = 0
        vs = []
        for x in e.elts:
            v = self.eval(x, st, fr)
            if isinstance(x, ast.Starred):
                self.model.set_consumed(v, 'star', x, st, fr)
                self.store((o.id, '*'), self.elements(v, x, st, fr))
                pos = None
            elif pos is not None and pos < 12:
                self.store((o.id, ('i', pos)), v)
                pos += 1
            else: self.store((o.id, '*'), v)
            vs.append(v)
        terms = None
        if pos and pos == len(vs) <= 6: terms = lift(lambda *t: ('tup',) + t, *vs)
        return V([('o', o.id)], EMPTY, terms)

    def e_Set(self, e, st, fr):
        o = self.new_list(e, fr, 'set')
        for x in e.elts:
            v = self.eval(x, st, fr)
            self.store((o.id, '*'), self.elements(v, x, st, fr) if isinstance(x, ast.Starred) else v)
        return V([('o', o.id)])

    def e_Dict(self, e, st, fr):
        o = self.new_list(e, fr, 'dict')
        for k, x in zip(e.keys, e.values):
            v = self.eval(x, st, fr)
            if k is None:
                self.event('dictspread', x, 'spread', st, fr, recv=V([('o', o.id)]), args=[v])
                self.dict_update(o.id, v, x, st, fr)
            else:
                kv = self.eval(k, st, fr)
                self.event('keyset', x, 'key', st, fr, recv=V([('o', o.id)]), args=[kv], val=v)
                self.dict_set(o.id, kv, v)
        return V([('o', o.id)], EMPTY, None if e.keys else frozenset([('dict',)]))

    def dict_set(self, oid, kv, v):
        self.store((oid, '#k'), V(kv.atoms, kv.labels))
        if kv.atoms and all(a[0] in ('c', 'e') for a in kv.atoms):
            for a in kv.atoms: self.store((oid, ('k', a[1] if a[0] == 'c' else a)), v)
        else: self.store((oid, '*'), v)

    def dict_update(self, oid, v, node, st, fr):
        for a in v.atoms:
            if a[0] == 'o' and self.objs[a[1]].kind == 'dict':
                src = a[1]
                if src == oid: continue
                self.copy_fields(src, oid)
            elif a[0] == 'r': self.store((oid, 'fb'), V([a]))
            elif a[0] == 'c': continue
            else:
                el = self.elements(V([a], v.labels), node, st, fr)
                if el.atoms:
                    kv, vv = self.unpack(el, 2, None, node, st, fr)
                    self.dict_set(oid, kv, vv)

    def fields(self, oid):
        '''fields of an object known so far (registers interest in new ones)'''
        r = self.readers.setdefault((oid, '#fields'), set())
        if self.stack: r.add(self.stack[-1].id)
        fs = self._fields.get(oid)
        return list(fs) if fs else []

    def copy_fields(self, src, dst):
        for f in self.fields(src): self.store((dst, f), self.load((src, f)))

    def e_JoinedStr(self, e, st, fr):
        labels = EMPTY
        parts, tparts, kinds = [], [], []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(str(x.value))
                tparts.append(('c', str(x.value)))
                kinds.append(('c', str(x.value)))
            else:
                v = self.eval(x.value, st, fr)
                labels |= v.labels
                spec = ''
                if x.format_spec is not None:
                    spec = ''.join(str(y.value) if isinstance(y, ast.Constant) else '?' for y in x.format_spec.values)
                self.str_convert(v, x, st, fr)
                sh = self.model.format_shape(v, spec)
                if sh: kinds.append(('sh', sh))
                elif len(v.atoms) == 1 and next(iter(v.atoms))[0] == 'c' and not spec and x.conversion == -1:
                    kinds.append(('c', str(next(iter(v.atoms))[1])))
                elif len(v.atoms) == 1 and next(iter(v.atoms))[0] == 'tm': kinds.append(('c', next(iter(v.atoms))[1]))
                elif len(v.atoms) == 1 and next(iter(v.atoms))[0] == 'sh': kinds.append(next(iter(v.atoms)))
                else: kinds.append(('?',))
                t = next(iter(v.terms)) if v.terms and len(v.terms) == 1 else ('lab', v.labels)
                tparts.append(('fv', t, spec) if spec else t)
        return self.template(kinds, tparts, labels)

    def template(self, kinds, tparts, labels):
        '''string built from pieces'''
        if all(k[0] == 'c' and '\0' not in k[1] for k in kinds):
            return const(''.join(k[1] for k in kinds), labels)
        if all(k[0] == 'sh' and k[1].startswith('hex') and k[1][3:].isdigit() for k in kinds):
            t = tlimit(('fmt', tuple(tparts)))
            return V([('sh', 'hex%d' % sum(int(k[1][3:]) for k in kinds))], labels, frozenset([t]) if t is not None else None)
        text = ''.join(k[1] if k[0] == 'c' else '\0' for k in kinds)
        t = tlimit(('fmt', tuple(tparts)))
        return V([('tm', text)], labels, frozenset([t]) if t is not None else None)

    def str_convert(self, v, node, st, fr):
        '''objects converted to str: repr of objects with default repr contains an address'''
        for a in v.atoms:
            if a[0] == 'o' and self.objs[a[1]].kind == 'inst':
                for nm in ('__str__', '__repr__'):
                    m, c = self.class_attr(self.objs[a[1]].cls, nm)
                    if m is not None:
                        self.call_method(V([a]), nm, [], {}, node, st, fr)
                        break
                else:
                    self.event('nondet', node, 'repr of ' + self.objs[a[1]].cls, st, fr)

    def e_FormattedValue(self, e, st, fr): return self.eval(e.value, st, fr)

    def e_Lambda(self, e, st, fr):
        fi = self.prog.func_of_node[e]
        return V([('f', fi.fid, self.clo_for(fi, fr))])

    def e_IfExp(self, e, st, fr):
        v = self.eval(e.test, st, fr)
        if st.dead: return BOT
        tv = self.truth(v)
        t, f = st.copy(), st.copy()
        a = b = BOT
        if True in tv:
            self.assume(e.test, True, t, fr)
            t.facts = t.facts | {Fact(e.test._id, True, v.labels, v.terms, e.test)}
            a = self.eval(e.body, t, fr) if not t.dead else BOT
        else: t.dead = True
        if False in tv:
            self.assume(e.test, False, f, fr)
            f.facts = f.facts | {Fact(e.test._id, False, v.labels, v.terms, e.test)}
            b = self.eval(e.orelse, f, fr) if not f.dead else BOT
        else: f.dead = True
        vars_, refs = st.vars, st.refs
        s2 = merge_states(t, f)
        st.set(s2)
        if not s2.dead:
            st.vars, st.refs = dict(vars_), dict(refs)
            for n in ast.walk(e):
                if isinstance(n, ast.NamedExpr) and n.target.id in s2.vars: st.vars[n.target.id] = s2.vars[n.target.id]
        r = join(a, b)
        if a.atoms and b.atoms and a != b:
            r = V(r.atoms, r.labels | ctl(v.labels), gated(one(v), a.terms, b.terms) if a.terms and b.terms else None)
        return r

    def e_BoolOp(self, e, st, fr):
        conj = isinstance(e.op, ast.And)
        cur = st.copy()
        res = BOT
        labels = EMPTY
        terms = []
        for i, x in enumerate(e.values):
            v = self.eval(x, cur, fr)
            if i == 0:
                st.must, st.open, st.may = cur.must, cur.open, cur.may
                for n in ast.walk(x):
                    if isinstance(n, ast.NamedExpr) and n.target.id in cur.vars: st.vars[n.target.id] = cur.vars[n.target.id]
            labels |= v.labels
            terms.append(v)
            last = i == len(e.values) - 1
            if last:
                res = join(res, v)
                break
            tv = self.truth(v)
            # short cut
            keep = [a for a in v.atoms if (not conj) in self.truth(V([a]))]
            if keep:
                k2 = []
                for a in keep:
                    if a == ('ty', 'bool'): a = ('c', not conj)
                    k2.append(a)
                res = join(res, self.narrow(v, k2) if not conj else V(k2, v.labels, None))
            if conj not in tv: break
            self.assume(x, conj, cur, fr)
            cur.facts = cur.facts | {Fact(x._id, conj, v.labels, v.terms, x)}
            if cur.dead: break
        else: pass
        st.open |= cur.open
        st.may |= cur.may
        # x or default, a and b: term
        ts = lift(lambda *t: ('fn', 'and' if conj else 'or') + t, *terms) if len(terms) == len(e.values) else None
        if len(terms) == 1: ts = terms[0].terms
        return V(res.atoms, res.labels | ctl(labels), ts)

    def e_UnaryOp(self, e, st, fr):
        v = self.eval(e.operand, st, fr)
        if isinstance(e.op, ast.Not):
            t = self.truth(v)
            terms = lift(_negate, v)
            if t == {True}: return V([('c', False)], v.labels, terms)
            if t == {False}: return V([('c', True)], v.labels, terms)
            if not t: return BOT
            return V([('c', True), ('c', False)], v.labels, terms)
        if isinstance(e.op, ast.USub):
            if len(v.atoms) == 1:
                a = next(iter(v.atoms))
                if a[0] == 'c' and is_num(a[1]): return const(-a[1], v.labels)
            atoms = set()
            for a in v.atoms:
                if a[0] == 'c' and isinstance(a[1], (int, float)): atoms.add(('c', -a[1]))
                elif a[0] in ('ty', 'xo', 'u'): atoms.add(a)
                else: atoms.add(('ty', 'num'))
            return V(atoms, v.labels, lift(lambda t: t_mul(('c', -1), t), v))
        if isinstance(e.op, ast.Invert) and any(a[0] == 'xo' for a in v.atoms): return V(v.atoms, v.labels, lift(lambda t: ('fn', 'minv', t), v))
        return V([a if a[0] in ('ty', 'u') else ('ty', 'num') for a in v.atoms], v.labels,
                 v.terms if isinstance(e.op, ast.UAdd) else None)

    def e_BinOp(self, e, st, fr):
        a = self.eval(e.left, st, fr)
        b = self.eval(e.right, st, fr)
        return self.binop(BINOPS.get(type(e.op), '?'), a, b, e, st, fr)

    def binop(self, op, a, b, node, st, fr):
        if not a.atoms or not b.atoms: return V(EMPTY, a.labels | b.labels)
        labels = a.labels | b.labels
        la, lb = (next(iter(a.atoms)) if len(a.atoms) == 1 else None), (next(iter(b.atoms)) if len(b.atoms) == 1 else None)
        if la and lb and la[0] == 'c' and lb[0] == 'c':
            r = _fold(op, la[1], lb[1])
            if r is not None: return const(r[0], labels)
        # sequences
        if op == '+':
            if la and lb and la[0] == 't' and lb[0] == 't': return V([('t', la[1] + lb[1])], labels)
            lists = [x for x in a.atoms if x[0] == 'o' and self.objs[x[1]].kind == 'list']
            if lists:
                o = self.obj('list', None, node._id, fr.ctx.hsig, node)
                self.store((o.id, '*'), join(self.elements(a, node, st, fr), self.elements(b, node, st, fr)))
                return V([('o', o.id)], EMPTY, lift(lambda s, t: ('fn', 'cat', s, t), a, b))
            sa, sb = self.piece(a), self.piece(b)
            if (sa and sb) and (sa[0] != '?' or sb[0] != '?') and (sa[0] in ('c', 'tm', 'sh', '?')):
                if self.is_str(a) or self.is_str(b):
                    self.str_op(a, b)
                    ta = next(iter(a.terms)) if a.terms and len(a.terms) == 1 else ('lab', a.labels)
                    tb = next(iter(b.terms)) if b.terms and len(b.terms) == 1 else ('lab', b.labels)
                    pa = list(ta[1]) if ta[0] == 'fmt' else [ta]
                    pb = list(tb[1]) if tb[0] == 'fmt' else [tb]
                    ka = [('c', sa[1])] if sa[0] in ('c', 'tm') else [sa]
                    kb = [('c', sb[1])] if sb[0] in ('c', 'tm') else [sb]
                    if sa[0] == 'tm' or sb[0] == 'tm':
                        text = (sa[1] if sa[0] in ('c', 'tm') else '\0') + (sb[1] if sb[0] in ('c', 'tm') else '\0')
                        t = tlimit(('fmt', tuple(pa + pb)))
                        return V([('tm', text)], labels, frozenset([t]) if t is not None else None)
                    return self.template(ka + kb, pa + pb, labels)
        if op == '%' and la and la[0] in ('c', 'tm') and isinstance(la[1], str):
            return self.model.percent_format(la[1], a, b, labels)
        if op == '|' and all(any(x[0] == 'o' and self.objs[x[1]].kind == 'dict' or x[0] == 'r' for x in v.atoms) for v in (a, b)):
            o = self.obj('dict', None, node._id, fr.ctx.hsig, node)
            for k, v in enumerate((a, b)):
                self.event('dictspread', node, f'merge:{k}', st, fr, recv=V([('o', o.id)]), args=[v])
                self.dict_update(o.id, v, node, st, fr)
            return V([('o', o.id)], a.labels | b.labels)
        if op == '*' and any(x[0] == 'o' and self.objs[x[1]].kind == 'list' for x in a.atoms):
            o = self.obj('list', None, node._id, fr.ctx.hsig, node)
            self.store((o.id, '*'), self.elements(a, node, st, fr))
            return V([('o', o.id)])
        atoms = set()
        res = BOT
        for x in a.atoms:
            if x[0] == 'o':
                o = self.objs[x[1]]
                if o.kind == 'inst' and op in BINDUNDER:
                    m, _ = self.class_attr(o.cls, f'__{BINDUNDER[op]}__')
                    if m is not None:
                        res = join(res, self.call_method(V([x], a.labels, a.terms), f'__{BINDUNDER[op]}__', [b], {}, node, st, fr))
                        continue
                if o.kind in ('set', 'dict', 'list') and op in '|&-^':
                    n = self.obj(o.kind, None, node._id, fr.ctx.hsig, node)
                    for src in (a, b):
                        if o.kind == 'dict': self.dict_update(n.id, src, node, st, fr)
                        elif op not in ('-', '&') or src is a: self.store((n.id, '*'), self.elements(src, node, st, fr))
                    atoms.add(('o', n.id))
                    continue
                atoms.add(('u',))
            elif x[0] == 'xo': atoms |= self.model.binop_type(op, x, b)
            elif x[0] in ('ty',) and x[1] == 'str' or x[0] in ('tm', 'sh') or x[0] == 'c' and isinstance(x[1], str):
                atoms.add(('ty', 'str'))
            elif x[0] == 't' and op == '+': atoms.add(('u',))
            elif x[0] == 'u': atoms.add(('u',))
            else:
                ys = set()
                for y in b.atoms:
                    if y[0] == 'xo': ys |= self.model.binop_type(op, y, a)
                    elif y[0] == 'u' : ys.add(('u',) if x[0] in ('r', 'u') else ('ty', 'num'))
                    elif y[0] == 'o' and self.objs[y[1]].kind == 'inst':
                        m, _ = self.class_attr(self.objs[y[1]].cls, f'__r{BINDUNDER.get(op, "")}__')
                        if m is not None:
                            res = join(res, self.call_method(V([y], b.labels), f'__r{BINDUNDER[op]}__', [a], {}, node, st, fr))
                        else: ys.add(('u',))
                    elif x[0] == 'r' and y[0] in ('r', 'o', 't') and op in '|+': ys.add(('u',))
                    elif x[0] == 'c' and y[0] == 'c':
                        f = _fold(op, x[1], y[1])
                        ys.add(('c', f[0]) if f is not None else ('ty', 'num'))
                    elif op in ('&', '|') and {x[0], y[0]} <= {'c', 'ty'} and (
                            x[0] == 'ty' and x[1] == 'bool' or x[0] == 'c' and isinstance(x[1], bool)) and (
                            y[0] == 'ty' and y[1] == 'bool' or y[0] == 'c' and isinstance(y[1], bool)):
                        ys.add(('ty', 'bool'))
                    elif x[0] in ('ty', 'c') and y[0] in ('ty', 'c') and _isint(x) and _isint(y) and op != '/':
                        ys.add(('ty', 'int'))
                    else: ys.add(('ty', 'num'))
                atoms |= ys
        terms = None
        if op == '*' and any(x == ('xo', 'fitz.Matrix') for x in b.atoms): self.event('xmul', node, 'matrix', st, fr, args=[a, b])
        if op == '+': terms = lift(t_add, a, b)
        elif op == '-': terms = lift(lambda s, t: t_add(s, t, -1), a, b)
        elif op == '*': terms = lift((lambda s, t: ('fn', 'mmul', s, t)) if any(x[0] == 'xo' for x in a.atoms | b.atoms) else t_mul, a, b)
        elif op == '/': terms = lift(t_div, a, b)
        else: terms = lift(lambda s, t: ('fn', op, s, t), a, b)
        r = V(widen_atoms(atoms) if len(atoms) > 3 else atoms, labels, terms)
        return r if res is BOT else (join(res, r) if atoms else res)

    def piece(self, v):
        if len(v.atoms) == 1:
            a = next(iter(v.atoms))
            if a[0] in ('c', 'tm', 'sh') and isinstance(a[1], str): return a
            if a[0] == 'c': return None
        if all(a[0] in ('ty', 'r', 'c', 'tm', 'sh', 'u', 'xo') for a in v.atoms): return ('?',)
        return None

    def is_str(self, v):
        return bool(v.atoms) and all(a[0] in ('tm', 'sh') or a == ('ty', 'str') or a[0] == 'c' and isinstance(a[1], str)
                                     for a in v.atoms)

    def str_op(self, a, b): pass

    def e_Compare(self, e, st, fr):
        left = self.eval(e.left, st, fr)
        labels = left.labels
        res = None
        terms = []
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, st, fr)
            labels = labels | right.labels
            o = CMPOPS[type(op)]
            out = self.compare(o, left, right, e, st, fr)
            if not out: return V(EMPTY, labels)
            res = out if res is None else ({x and y for x in res for y in out})
            terms.append(lift(lambda s, t: _cmp_term(o, s, t), left, right))
            left = right
        ts = None
        if all(t is not None for t in terms):
            ts = terms[0] if len(terms) == 1 else None
            if len(terms) > 1 and all(len(t) == 1 for t in terms):
                ts = frozenset([('fn', 'and') + tuple(next(iter(t)) for t in terms)])
        return V([('c', x) for x in res], labels, ts)

    def compare(self, o, l, r, node, st, fr):
        if not l.atoms or not r.atoms: return set() if not (l.labels or r.labels) else {True, False}
        neg = o in ('!=', 'is not', 'not in')
        if o in ('==', '!=', 'is', 'is not'):
            out = set()
            for a in l.atoms:
                out |= self.eq_atoms(a, r, '==' if o in ('==', '!=') else 'is')
                if len(out) == 2: break
            return {not x for x in out} if neg else out
        if o in ('in', 'not in'):
            self.contains(l, r, node, st, fr)
            if all(a[0] == 'c' for a in l.atoms):
                out = set()
                for b in r.atoms:
                    if b[0] == 'o' and self.objs[b[1]].kind == 'dict':
                        fs = self.fields(b[1])
                        known = {f[1] for f in fs if isinstance(f, tuple) and f[0] == 'k'}
                        ex = self.excluded.get(b[1], ())
                        if '*' in fs or 'fb' in fs and not all(a[1] in ex and a[1] not in known for a in l.atoms): out |= {True, False}
                        else:
                            for a in l.atoms: out |= ({True, False} if a[1] in known else {False})
                    elif b[0] == 'c' and isinstance(b[1], str) and all(isinstance(a[1], str) for a in l.atoms):
                        out |= {a[1] in b[1] for a in l.atoms}
                    elif b[0] == 't' and all(p.atoms and all(x[0] == 'c' for x in p.atoms) and len(p.atoms) == 1 for p in b[1]):
                        cs = [next(iter(p.atoms))[1] for p in b[1]]
                        out |= {a[1] in cs for a in l.atoms}
                    else: out |= {True, False}
                return {not x for x in out} if neg else out
            if all(a[0] == 'e' for a in l.atoms) and all(b[0] == 't' for b in r.atoms):
                out = set()
                for b in r.atoms:
                    for a in l.atoms:
                        got = False
                        for p in b[1]:
                            res = self.eq_atoms(a, p, '==')
                            if res == {True}: got = True
                            elif True in res: got = None if not got else got
                        if got is None: out |= {True, False}
                        else: out.add(bool(got))
                return {not x for x in out} if neg else out
            return {True, False}
        if len(l.atoms) == 1 and len(r.atoms) == 1:
            a, b = next(iter(l.atoms)), next(iter(r.atoms))
            if a[0] == 'c' and b[0] == 'c':
                try:
                    x = {'<': a[1] < b[1], '<=': a[1] <= b[1], '>': a[1] > b[1], '>=': a[1] >= b[1]}[o]
                    return {x}
                except TypeError: return {True, False}
        return {True, False}

    def contains(self, l, r, node, st, fr):
        for b in r.atoms:
            if b[0] == 'o' and self.objs[b[1]].kind == 'inst':
                m, _ = self.class_attr(self.objs[b[1]].cls, '__contains__')
                if m is not None: self.call_method(V([b]), '__contains__', [l], {}, node, st, fr)

    # comprehensions
    def comp(self, e, st, fr, emit):
        s = st.copy()
        saved = fr.frames
        ok = True
        must = st.must
        conds = []
        iters = None
        for i, g in enumerate(e.generators):
            it = self.eval(g.iter, s, fr)
            iters = one(it)
            if s.dead:
                ok = False
                break
            if i == 0: must = s.must
            el = self.iterate(it, g.iter, g, s, fr)
            if not el.atoms and not el.labels:
                ok = False
                break
            fr.frames = fr.frames + (('loop', e, it, g._id),)
            self.comp_assign(g.target, el, s, fr)
            s.facts = s.facts | {Fact(g._id, True, it.labels, None, e)}
            for c in g.ifs:
                v = self.eval(c, s, fr)
                tv = self.truth(v)
                if True not in tv:
                    ok = False
                    break
                conds.append(one(v))
                self.assume(c, True, s, fr)
                s.facts = s.facts | {Fact(c._id, True, v.labels, v.terms, c)}
                if s.dead: ok = False
            if not ok: break
        if ok: emit(s)
        self.comp_iter, self.comp_conds = iters, conds
        fr.frames = saved
        st.open |= s.open
        st.may |= s.may
        st.must = must

    def comp_assign(self, target, v, s, fr):
        '''comprehension variables are local to it; env write for lambdas inside'''
        if isinstance(target, ast.Name):
            s.vars[target.id] = v
            for k in [k for k in s.refs if k[0] == target.id]: del s.refs[k]
            if fr.fi is not None and target.id in fr.fi.captured: self.store((self.env_obj(fr.ctx).id, target.id), v)
        elif isinstance(target, (ast.Tuple, ast.List)):
            star = next((i for i, x in enumerate(target.elts) if isinstance(x, ast.Starred)), None)
            for t, p in zip(target.elts, self.unpack(v, len(target.elts), star, target, s, fr)):
                self.comp_assign(t.value if isinstance(t, ast.Starred) else t, p, s, fr)

    def comp_list(self, e, st, fr, kind):
        o = self.new_list(e, fr, kind)
        out = []

        def emit(s):
            v = self.eval(e.elt, s, fr)
            self.event('emit', e, kind, s, fr, val=v)
            self.store((o.id, '*'), v)
            out.append(v)
        self.comp(e, st, fr, emit)
        terms = None
        if len(e.generators) == 1 and out and one(out[0]) is not None:
            g = e.generators[0]
            t = map_term(one(out[0]), g._id, self.comp_iter, self.comp_conds)
            if t is not None: terms = frozenset([t])
        labels = EMPTY
        return V([('o', o.id)], labels, terms)

    def e_ListComp(self, e, st, fr): return self.comp_list(e, st, fr, 'list')
    def e_SetComp(self, e, st, fr): return self.comp_list(e, st, fr, 'set')
    def e_GeneratorExp(self, e, st, fr): return self.comp_list(e, st, fr, 'list')

    def dict_copy_spec(self, e):
        '''{k: v for k, v in D.items() if k != 'a'}: (D, keys left out) or None'''
        if len(e.generators) != 1: return None
        g = e.generators[0]
        if not (isinstance(g.iter, ast.Call) and not g.iter.args and not g.iter.keywords and isinstance(g.iter.func, ast.Attribute) and g.iter.func.attr == 'items' and
                isinstance(g.iter.func.value, ast.Name) and isinstance(g.target, ast.Tuple) and len(g.target.elts) == 2 and
                all(isinstance(x, ast.Name) for x in g.target.elts) and isinstance(e.key, ast.Name) and isinstance(e.value, ast.Name)): return None
        k, v = (x.id for x in g.target.elts)
        if (e.key.id, e.value.id) != (k, v) or k == v: return None
        out = set()

        def test(c):
            if isinstance(c, ast.BoolOp) and isinstance(c.op, ast.And): return all(test(x) for x in c.values)
            if isinstance(c, ast.UnaryOp) and isinstance(c.op, ast.Not) and isinstance(c.operand, ast.Compare) and len(c.operand.ops) == 1:
                o, neg = c.operand, True
            elif isinstance(c, ast.Compare) and len(c.ops) == 1: o, neg = c, False
            else: return False
            op = type(o.ops[0])
            if neg: op = {ast.Eq: ast.NotEq, ast.In: ast.NotIn}.get(op)
            l, r = o.left, o.comparators[0]
            if op is ast.NotEq:
                if isinstance(r, ast.Name): l, r = r, l
                if isinstance(l, ast.Name) and l.id == k and isinstance(r, ast.Constant):
                    out.add(r.value)
                    return True
            if op is ast.NotIn and isinstance(l, ast.Name) and l.id == k and isinstance(r, (ast.Tuple, ast.List, ast.Set)) and all(isinstance(x, ast.Constant) for x in r.elts):
                out.update(x.value for x in r.elts)
                return True
            return False
        if not all(test(c) for c in g.ifs): return None
        return g.iter.func.value, frozenset(out)

    def e_DictComp(self, e, st, fr):
        o = self.new_list(e, fr, 'dict')
        spec = self.dict_copy_spec(e)
        if spec is not None:
            base = self.eval(spec[0], st.copy(), fr)
            if base.atoms and all(a[0] == 'r' or a[0] == 'o' and self.objs[a[1]].kind == 'dict' for a in base.atoms):
                self.excluded[o.id] = spec[1]
                for a in base.atoms:
                    if a[0] == 'r': self.store((o.id, 'fb'), V([a]))
                    else:
                        for f in self.fields(a[1]):
                            if not (isinstance(f, tuple) and f[0] == 'k' and f[1] in spec[1]): self.store((o.id, f), self.load((a[1], f)))
                t = one(base)
                return V([('o', o.id)], base.labels, None if t is None else frozenset([('fn', 'dcopy', t, ('c', tuple(sorted(map(str, spec[1])))))]))

        def emit(s):
            k = self.eval(e.key, s, fr)
            v = self.eval(e.value, s, fr)
            self.event('emit', e, 'dict', s, fr, args=[k], val=v)
            self.dict_set(o.id, k, v)
        self.comp(e, st, fr, emit)
        return V([('o', o.id)])

    def e_Yield(self, e, st, fr):
        v = self.eval(e.value, st, fr) if e.value is not None else NONE
        self.event('yield', e, 'yield', st, fr, val=v)
        fr.yields.append(v)
        return UNK

    def e_YieldFrom(self, e, st, fr):
        v = self.eval(e.value, st, fr)
        el = self.elements(v, e, st, fr)
        self.event('yield', e, 'yield', st, fr, val=el)
        fr.yields.append(el)
        return UNK

    def e_Await(self, e, st, fr): return self.eval(e.value, st, fr)

    def e_Slice(self, e, st, fr):
        parts = tuple(self.eval(x, st, fr) if x is not None else NONE for x in (e.lower, e.upper, e.step))
        return V([('slice', parts)], EMPTY, lift(lambda *t: ('slice',) + t, *parts))

    def e_Subscript(self, e, st, fr):
        base = self.eval(e.value, st, fr)
        idx = self.eval(e.slice, st, fr)
        r = self.index(base, idx, e, st, fr)
        nd = [l for l in idx.labels if l[0] == 'ND']
        return r.with_labels(frozenset(nd)) if nd else r

    def e_Attribute(self, e, st, fr):
        if isinstance(e.value, ast.Name):
            k = (e.value.id, e.attr)
            if k in st.refs and e.value.id in st.vars: return st.refs[k]
        base = self.eval(e.value, st, fr)
        return self.get_attr(base, e.attr, e, st, fr)

    # ------------------------------------------------ attributes
    def get_attr(self, base, name, node, st, fr):
        res = BOT
        alts = []
        for a in base.atoms:
            r = self.get_attr1(a, base, name, node, st, fr)
            if r is not None:
                res = join(res, r)
                alts.append((a, r))
        if not base.atoms and base.labels: return V(EMPTY, base.labels)
        if len(alts) > 1 and (res.terms is None or len(res.terms) > 1) and base.terms is not None and len(base.terms) == 1 and \
                all(a[0] == 'o' and self.objs[a[1]].kind == 'inst' for a, r in alts) and not any(x[0] in ('f', 'b', 'p', 'vm') for x in res.atoms):
            res = self.dispatch(base.terms, [(self.objs[a[1]].cls, r) for a, r in alts], res)
        if res.atoms and not res.terms and len(base.atoms) > 1 and base.terms and \
                not any(a[0] in ('f', 'b', 'p', 'vm') for a in res.atoms) and any(a[0] == 'o' for a in base.atoms):
            res = res.with_terms(self.ld(base, None, name))
        return res

    def bind(self, v, selfatom, cls, terms, node, st, fr, inst=True):
        '''value of a class attribute seen through an instance or class'''
        out = BOT
        for a in v.atoms:
            if a[0] == 'f': r = V([('b', a[1], a[2], selfatom, terms)] if inst else [a])
            elif a[0] == 'p':
                kind = a[1]
                if kind in ('prop', 'cprop'):
                    if not inst: r = UNK
                    else: r = self.call(self._atomv(a[2]), [V([selfatom], EMPTY, terms)], {}, node, st, fr, bound=True)
                elif kind == 'static': r = V([a[2]]) if a[2][0] == 'f' else self._atomv(a[2])
                else:
                    c = cls
                    f = a[2]
                    r = V([('b', f[1], f[2], ('k', c), None)]) if f[0] == 'f' else self._atomv(f)
            elif a[0] == 'o' and self.objs[a[1]].kind == 'inst' and inst:
                g, _ = self.class_attr(self.objs[a[1]].cls, '__get__')
                if g is not None:
                    r = self.call_method(V([a]), '__get__', [V([selfatom], EMPTY, terms), V([('k', cls)])], {}, node, st, fr)
                else: r = V([a])
            else: r = V([a], v.labels, v.terms)
            out = join(out, r)
        return out

    def _atomv(self, a): return V([a]) if isinstance(a, tuple) else a

    def get_attr1(self, a, base, name, node, st, fr):
        k = a[0]
        if k == 'o':
            o = self.objs[a[1]]
            if o.kind != 'inst':
                if o.kind == 'super': return self.super_attr(o, a, name, node, st, fr)
                return V([('vm', V([a], base.labels, base.terms), name)])
            if name == '__class__': return V([('k', o.cls)])
            if name == '__dict__':
                return V([('vm', V([a], base.labels, base.terms), '__dict__')])
            cv, owner = self.class_attr(o.cls, name)
            if cv is not None:
                res = BOT
                # descriptors and methods
                special = V([x for x in cv.atoms if x[0] in ('f', 'p') or x[0] == 'o' and self.objs[x[1]].kind == 'inst'])
                plain = V([x for x in cv.atoms if x not in special.atoms], cv.labels, cv.terms)
                if special.atoms:
                    res = self.bind(special, a, o.cls, base.terms, node, st, fr)
                    hv = self.load((a[1], name))
                    if hv.atoms and not any(x[0] == 'p' for x in special.atoms):
                        res = join(res, V(hv.atoms, frozenset([('F', o.cls, name)])))
                if plain.atoms:
                    hv = self.load((a[1], name))
                    res = join(res, V(plain.atoms | hv.atoms, plain.labels | {('F', o.cls, name)}, self.ld(base, o.cls, name)))
                return res
            hv = self.load((a[1], name))
            if not hv.atoms:
                for x in self.ext_bases(o.cls):
                    if x != 'builtins.object':
                        return V([('xo', x + '.' + name)], base.labels)
                q = self.load((a[1], '?'))
                if q.atoms: return V(q.atoms, frozenset([('F', o.cls, name)]))
                ga, _ = self.class_attr(o.cls, '__getattr__')
                if ga is not None: return self.call_method(V([a]), '__getattr__', [const(name)], {}, node, st, fr)
                return BOT
            return V(hv.atoms, frozenset([('F', o.cls, name)]), self.ld(base, o.cls, name))
        if k == 'k':
            if name == '__name__': return const(self.prog.classes[a[1]].node.name)
            if name == '__members__': return UNK
            if a[1] in self.enum_members and name in self.enum_members[a[1]]:
                return V([('e', a[1], name)], EMPTY, frozenset([('c', f'{a[1]}.{name}')]))
            cv, owner = self.class_attr(a[1], name)
            if cv is None: return BOT
            r = self.bind(cv, a, a[1], None, node, st, fr, inst=False)
            fs = V([x for x in r.atoms if x[0] in ('f', 'b', 'p', 'k')])
            if fs.atoms == r.atoms: return r
            return V(r.atoms, r.labels | {('F', owner, name)}, frozenset([('ld', ('k', owner), name)]))
        if k == 'e':
            if name == 'value':
                return self.enum_members.get(a[1], {}).get(a[2], UNK)
            if name == 'name': return const(a[2])
            cv, _ = self.class_attr(a[1], name)
            if cv is not None: return self.bind(cv, a, a[1], None, node, st, fr)
            return UNK
        if k == 'm':
            sub = f'{a[1]}.{name}'
            v = self.global_name(a[1], name) if a[1] in self.prog.modules else BOT
            if v.atoms: return v
            if sub in self.prog.modules:
                self.ensure_module(sub)
                return V([('m', sub)])
            return BOT
        if k == 'x': return self.model.ext_value(f'{a[1]}.{name}')
        if k == 'xo': return self.model.xo_attr(a, V([a], base.labels, base.terms), name, node, st, fr)
        if k == 'b' or k == 'f':
            if name == '__name__':
                return const(getattr(self.prog.funcs[a[1]].node, 'name', '<lambda>'))
            if name == '__self__' and k == 'b': return V([a[3]])
            return UNK
        if k == 'u': return V([('u',)], base.labels)
        if k == 'c' and a[1] is None:
            self.event('noneattr', node, name, st, fr, recv=base)
            return BOT
        if k == 'super': return UNK
        return V([('vm', V([a], base.labels, base.terms), name)])

    def ld(self, base, cls, name):
        if base.terms is None or len(base.terms) != 1: return None
        t = tlimit(('ld', next(iter(base.terms)), name))
        return frozenset([t]) if t is not None else None

    def super_attr(self, o, a, name, node, st, fr):
        cls, selfatom = o.extra
        start = self.objs[selfatom[1]].cls if selfatom[0] == 'o' else selfatom[1]
        mro = self.mro(start)
        if cls in mro: mro = mro[mro.index(cls) + 1:]
        for c in mro:
            co = self.class_obj.get(c)
            if co is None:
                if c not in self.prog.classes and c != 'builtins.object':
                    return V([('xo', c + '.' + name)])
                continue
            v = self.load((co.id, name))
            if v.atoms: return self.bind(v, selfatom, start, None if selfatom[0] == 'k' else frozenset([('s', 'self')]), node, st, fr, inst=True)
        return V([('x', 'builtins.object.' + name)])

    def set_attr(self, base, name, v, node, st, fr):
        st.refs.clear() if len(st.refs) > 40 else None
        for k in [k for k in st.refs if k[1] == name]: del st.refs[k]
        for a in base.atoms:
            if a[0] == 'o':
                o = self.objs[a[1]]
                if o.kind != 'inst': continue
                cv, owner = self.class_attr(o.cls, name)
                if cv is not None:
                    props = [x for x in cv.atoms if x[0] == 'p' and x[1] == 'prop']
                    if props:
                        for p in props:
                            if p[3] is not None:
                                self.call(V([p[3]]), [V([a], EMPTY, base.terms), v], {}, node, st, fr, bound=True)
                            else: self.event('badset', node, name, st, fr, recv=V([a]), val=v)
                        continue
                self.write_field(a[1], o.cls, name, v, node, st, fr, base.terms)
            elif a[0] == 'k':
                cv, owner = self.class_attr(a[1], name)
                co = self.class_obj.get(a[1])
                self.store((co.id, name), V(v.atoms, EMPTY, None))
                self.add_dep(a[1], name, v, st)
                self.event('classset', node, f'{a[1]}.{name}', st, fr, recv=V([a]), val=v)
                self.did(('w', a[1], name, None), st, fr)
            elif a[0] == 'm': 
                self.store((self.mod_obj(a[1]).id, name), v)
                self.event('modset', node, f'{a[1]}.{name}', st, fr, val=v)
            elif a[0] in ('xo', 'u', 'x', 'r'):
                tp = a[1] if a[0] != 'u' else '?'
                self.event('extset', node, f'{tp}.{name}', st, fr, recv=V([a], base.labels, base.terms), val=v)
                self.did(('set', f'{tp}.{name}'), st, fr)
                self.raise_point(st, fr)

    def did(self, what, st, fr):
        st.must = st.must | {what}
        st.may = st.may | {what}

    def add_dep(self, cls, name, v, st):
        labs = v.labels
        if st is not None and st.facts:
            labs = labs | ctl(frozenset().union(*[f.labels for f in st.facts]))
        d = self.deps.get((cls, name))
        self.deps[(cls, name)] = labs if d is None else d | labs

    def write_field(self, oid, cls, name, v, node, st, fr, terms=None):
        self.store((oid, name), V(v.atoms, EMPTY, None))
        if fr.mute: return
        self.event('write', node, f'{cls}.{name}', st, fr, recv=V([('o', oid)], EMPTY, terms), val=v)
        c = next(iter(v.atoms)) if len(v.atoms) == 1 else None
        self.did(('w', cls, name, c if c is not None and c[0] in ('c', 'e') else None), st, fr)
        if name in self.prog.flags:
            site = ('flag', f'{cls}.{name}')
            if c == ('c', False):
                st.open -= {site}
                st.must |= {('closed', site)}
            else:
                st.open |= {site}
                st.must -= {('closed', site)}

    # ------------------------------------------------ items
    def index(self, base, idx, node, st, fr):
        res = BOT
        ia = next(iter(idx.atoms)) if len(idx.atoms) == 1 else None
        is_slice = any(a[0] == 'slice' for a in idx.atoms)
        for a in base.atoms:
            k = a[0]
            one = V([a], base.labels, base.terms)
            if k == 't':
                if ia and ia[0] == 'c' and isinstance(ia[1], int):
                    if -len(a[1]) <= ia[1] < len(a[1]): r = a[1][ia[1]].with_labels(base.labels)
                    else: continue
                elif is_slice:
                    p = next(iter(x for x in idx.atoms if x[0] == 'slice'))[1]
                    cs = [next(iter(x.atoms))[1] if len(x.atoms) == 1 and next(iter(x.atoms))[0] == 'c' else '?' for x in p]
                    if '?' in cs: r = V([('t', a[1])], base.labels)
                    else: r = V([('t', a[1][slice(*cs)])], base.labels)
                else: r = join(BOT, *a[1]).with_labels(base.labels)
            elif k == 'o':
                o = self.objs[a[1]]
                if o.kind == 'inst':
                    m, _ = self.class_attr(o.cls, '__getitem__')
                    r = self.call_method(one, '__getitem__', [idx], {}, node, st, fr) if m is not None else UNK
                elif o.kind == 'list':
                    if is_slice: r = self.slice_list(a[1], idx, node, fr).with_terms(lift(t_index, base, idx))
                    else: r = self.list_get(a[1], idx)
                    if not is_slice and base.terms:
                        t = lift(t_index, base, idx)
                        if t: r = r.with_terms(t)
                elif o.kind == 'dict':
                    if any(l[0] == 'ND' for l in idx.labels): self.store((a[1], '#k'), V(idx.atoms, idx.labels))
                    r = self.dict_get(a[1], idx, node, st, fr, terms=base.terms)
                    if base.terms and (r.terms is None or len(r.terms) > 1) and all(t[0] == 'cd' for t in base.terms):
                        r = r.with_terms(lift(lambda b, k: ('ix', b, k), base, idx))
                    self.event('keyread', node, 'getitem', st, fr, recv=one, args=[idx], val=r)
                else: r = UNK
            elif k == 'r': r = self.raw_get(a, one, idx, node, st, fr)
            elif k == 'xo': r = self.model.xo_index(a, one, idx, node, st, fr)
            elif k in ('c', 'tm', 'sh') or a == ('ty', 'str'):
                if k == 'c' and isinstance(a[1], str) and ia and ia[0] == 'c' and isinstance(ia[1], int):
                    r = const(a[1][ia[1]], base.labels) if -len(a[1]) <= ia[1] < len(a[1]) else BOT
                elif k == 'sh' and is_slice: r = self.model.shape_slice(a, idx, base)
                elif k == 'c' and a[1] is None: 
                    continue
                else:
                    r = ty('str', base.labels)
            elif k == 'ty': r = V([('ty', 'num')], base.labels, lift(t_index, one, idx))
            elif k == 'k':
                m = self.enum_members.get(a[1])
                r = V([('e', a[1], n) for n in m], idx.labels) if m else UNK
            else: r = V([('u',)], base.labels | idx.labels)
            res = join(res, r)
        if not base.atoms: return V(EMPTY, base.labels)
        if (res.terms is None or len(res.terms) > 1) and res.atoms and (not is_slice or one_term(base) is not None and one_term(base)[0] in ('ld', 'at') or not any(a[0] == 't' for a in base.atoms)) and one_term(base) is not None and one_term(idx) is not None and \
                (any(a[0] == 't' for a in base.atoms) or one_term(base)[0] in ('ix', 'ld', 'at') and
                 not any(a[0] == 'o' and self.objs[a[1]].kind == 'inst' for a in base.atoms)):
            x = tlimit(t_index(one_term(base), one_term(idx)))
            if x is not None: res = res.with_terms(frozenset([x]))
        return res

    def list_get(self, oid, idx):
        ia = next(iter(idx.atoms)) if len(idx.atoms) == 1 else None
        star = self.load((oid, '*'))
        if ia and ia[0] == 'c' and isinstance(ia[1], int) and not isinstance(ia[1], bool):
            n = ia[1]
            if n < 0:
                ks = sorted(f[1] for f in self.fields(oid) if isinstance(f, tuple) and f[0] == 'i')
                if not star.atoms and ks and ks == list(range(len(ks))) and -n <= len(ks): n = len(ks) + n
                else: return self.all_elements(oid)
            return join(star, self.load((oid, ('i', n))))
        return self.all_elements(oid)

    def all_elements(self, oid):
        vs = [self.load((oid, '*'))]
        for f in self.fields(oid):
            if isinstance(f, tuple) and f[0] == 'i': vs.append(self.load((oid, f)))
        v = join(BOT, *vs)
        return v

    def slice_list(self, oid, idx, node, fr):
        o = self.obj('list', None, node._id, fr.ctx.hsig, node)
        p = next(iter(x for x in idx.atoms if x[0] == 'slice'))[1]
        cs = [next(iter(x.atoms))[1] if len(x.atoms) == 1 and next(iter(x.atoms))[0] == 'c' else '?' for x in p]
        if cs == [None, None, None]:
            self.copy_fields(oid, o.id)
        elif '?' not in cs and not self.load((oid, '*')).atoms:
            ks = sorted(f[1] for f in self.fields(oid) if isinstance(f, tuple) and f[0] == 'i')
            for j, i in enumerate(ks[slice(*cs)]): self.store((o.id, ('i', j)), self.load((oid, ('i', i))))
        else: self.store((o.id, '*'), self.all_elements(oid))
        return V([('o', o.id)])

    def dict_get(self, oid, idx, node, st, fr, default=None, terms=None):
        res = BOT
        if idx.atoms and all(a[0] in ('c', 'e') for a in idx.atoms):
            for a in idx.atoms:
                key = a[1] if a[0] == 'c' else a
                res = join(res, self.load((oid, ('k', key))))
                fb = self.load((oid, 'fb'))
                if key in self.excluded.get(oid, ()): continue
                for x in fb.atoms: res = join(res, self.raw_get(x, fb if terms is None else V(fb.atoms, fb.labels, terms), idx, node, st, fr))
        else:
            for f in self.fields(oid):
                if isinstance(f, tuple) and f[0] == 'k': res = join(res, self.load((oid, f)))
            fb = self.load((oid, 'fb'))
            for x in fb.atoms: res = join(res, self.raw_get(x, fb if terms is None else V(fb.atoms, fb.labels, terms), idx, node, st, fr))
        res = join(res, self.load((oid, '*')))
        if default is not None: res = join(res, default)
        return res.with_labels(ctl(idx.labels)) if idx.labels and res.atoms else res

    def raw_get(self, a, base, idx, node, st, fr):
        '''item of outside data'''
        root, key, own = a[1], a[2], a[3]
        ia = next(iter(idx.atoms)) if len(idx.atoms) == 1 else None
        if ia and ia[0] == 'c' and isinstance(ia[1], str):
            nk = ia[1]
            self.event('rawread', node, f'{root}:{nk}', st, fr, recv=base, args=[idx])
            r = V([('r', root, nk, own)], frozenset([('R', root, nk)]), self.ix(base, ('c', nk)))
            ov = self.load((('r', root, key), ('k', nk)))
            return join(r, ov) if ov.atoms else r
        if any(x[0] == 'slice' for x in idx.atoms):
            return V([('r', root, key, 1)], base.labels or frozenset([('R', root, key)]), None)
        t = lift(t_index, base, idx)
        r = V([a], base.labels or frozenset([('R', root, key)]), t)
        ov = self.load((('r', root, key), '*'))
        return join(r, ov) if ov.atoms else r

    def ix(self, base, k):
        if base.terms is None or len(base.terms) != 1: return None
        t = tlimit(t_index(next(iter(base.terms)), k))
        return frozenset([t]) if t is not None else None

    def set_item(self, base, idx, v, node, st, fr):
        self.mutate(base, '__setitem__', [idx, v], node, st, fr)
        for a in base.atoms:
            if a[0] == 'o':
                o = self.objs[a[1]]
                if o.kind == 'inst':
                    m, _ = self.class_attr(o.cls, '__setitem__')
                    if m is not None: self.call_method(V([a], base.labels, base.terms), '__setitem__', [idx, v], {}, node, st, fr)
                elif o.kind == 'dict':
                    self.dict_set(a[1], idx, v)
                else:
                    ia = next(iter(idx.atoms)) if len(idx.atoms) == 1 else None
                    if any(x[0] == 'slice' for x in idx.atoms): v2 = self.elements(v, node, st, fr)
                    else: v2 = v
                    if ia and ia[0] == 'c' and isinstance(ia[1], int) and ia[1] >= 0: self.store((a[1], ('i', ia[1])), v2)
                    else: self.store((a[1], '*'), v2)
            elif a[0] == 'r':
                if all(x[0] == 'c' for x in idx.atoms) and idx.atoms:
                    for x in idx.atoms: self.store((('r', a[1], a[2]), ('k', x[1])), v)
                else: self.store((('r', a[1], a[2]), '*'), v)
            elif a[0] in ('xo', 'u'):
                tp = a[1] if a[0] == 'xo' else '?'
                self.event('extset', node, f'{tp}[]', st, fr, recv=V([a], base.labels, base.terms), args=[idx], val=v)
                self.raise_point(st, fr)

    def mutate(self, base, name, args, node, st, fr):
        '''record a change of a container'''
        if fr.mute: return
        self.event('mutate', node, name, st, fr, recv=base, args=args)
        objs = {a for a in base.atoms if a[0] == 'o'}
        if objs:
            for k, v in st.vars.items():
                if v.terms is not None and not objs.isdisjoint(v.atoms): st.vars[k] = v.with_terms(None)

    # ------------------------------------------------ iteration
    def elements(self, v, node, st, fr):
        '''join of the elements of an iterable'''
        res = BOT
        for a in v.atoms:
            k = a[0]
            if k == 't': r = join(BOT, *a[1]).with_labels(v.labels)
            elif k == 'o':
                o = self.objs[a[1]]
                if o.kind == 'list' or o.kind == 'set': r = self.all_elements(a[1]).with_labels(v.labels)
                elif o.kind == 'dict':
                    r = self.load((a[1], '#k')).with_labels(v.labels)
                    if self.load((a[1], 'fb')).atoms: r = join(r, ty('str'))
                elif o.kind == 'inst':
                    m, _ = self.class_attr(o.cls, '__iter__')
                    if m is not None:
                        it = self.call_method(V([a], v.labels, v.terms), '__iter__', [], {}, node, st, fr)
                        if any(x[0] == 'o' and self.objs[x[1]].kind == 'inst' for x in it.atoms):
                            r = self.call_method(it, '__next__', [], {}, node, st, fr)
                        else: r = self.elements(it, node, st, fr)
                    else:
                        m, _ = self.class_attr(o.cls, '__getitem__')
                        r = self.call_method(V([a]), '__getitem__', [ty('int')], {}, node, st, fr) if m is not None else UNK
                else: r = UNK
            elif k == 'r':
                r = V([a], v.labels or frozenset([('R', a[1], a[2])]))
                ov = self.load((('r', a[1], a[2]), '*'))
                r = join(r, ov) if ov.atoms else r
            elif k == 'xo': r = self.model.xo_iter(a, V([a], v.labels, v.terms), node, st, fr)
            elif k == 'c':
                if isinstance(a[1], str): r = join(BOT, *[const(x) for x in sorted(set(a[1]))[:6]]) if a[1] else BOT
                else: r = BOT
            elif k in ('tm', 'sh') or a == ('ty', 'str'): r = ty('str', v.labels)
            elif k == 'ty': r = V([('ty', 'num')], v.labels)
            elif k == 'k':
                m = self.enum_members.get(a[1])
                r = V([('e', a[1], n) for n in m]) if m else UNK
            elif k == 'vm' and a[2] == '__dict__': r = ty('str')
            else: r = V([('u',)], v.labels)
            res = join(res, r)
        return res

    def iterate(self, v, node, loopnode, st, fr):
        for a in v.atoms:
            if a[0] == 'o' and self.objs[a[1]].kind == 'set':
                self.event('setiter', node, 'set', st, fr, recv=V([a]), val=self.all_elements(a[1]), data=loopnode)
        for l in v.labels:
            if l in self.model.unordered: self.event('setiter', node, 'loop:' + l[1], st, fr, recv=v, data=loopnode)
        el = self.elements(v, node, st, fr)
        t = one(v) or ('seq', loopnode._id)
        it = ('it', loopnode._id)
        if any(a[0] == 't' for a in el.atoms):
            atoms = []
            for a in el.atoms:
                if a[0] == 't':
                    ps = []
                    for i, p in enumerate(a[1]):
                        x = tlimit(t_elem(t, it, i))
                        ps.append(V(p.atoms, p.labels, frozenset([x]) if x is not None else None))
                    atoms.append(('t', tuple(ps)))
                else: atoms.append(a)
            x = tlimit(t_elem(t, it))
            return V(atoms, el.labels, frozenset([x]) if x is not None else None)
        x = tlimit(t_elem(t, it))
        return V(el.atoms, el.labels, frozenset([x]) if x is not None else None)

    # ------------------------------------------------ calls
    def e_Call(self, e, st, fr):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and 'super' not in st.vars:
            return self.make_super(e, st, fr)
        fn = self.eval(e.func, st, fr)
        args, kwargs, star, star2 = [], {}, [], []
        seq = None
        for a in e.args:
            v = self.eval(a, st, fr)
            if isinstance(a, ast.Starred):
                ts = [x for x in v.atoms if x[0] == 't']
                if len(v.atoms) == 1 and ts and not star: args.extend(ts[0][1])
                elif len(v.atoms) == 1 and not star and self.fixed_list(v):
                    oid = next(iter(v.atoms))[1]
                    args.extend(self.load((oid, ('i', i))) for i in range(self.fixed_list(v)))
                else:
                    star.append(self.star_elem(v, a, st, fr))
                    seq = v
            elif star: star.append(v)
            else: args.append(v)
        for kw in e.keywords:
            v = self.eval(kw.value, st, fr)
            if kw.arg is None: star2.append(v)
            else: kwargs[kw.arg] = v
        if st.dead: return BOT
        self.star_seq = seq
        return self.call(fn, args, kwargs, e, st, fr, star=star, star2=star2)

    def fixed_list(self, v):
        a = next(iter(v.atoms))
        if a[0] != 'o' or self.objs[a[1]].kind != 'list': return 0
        if self.load((a[1], '*')).atoms: return 0
        return sum(1 for f in self.fields(a[1]) if isinstance(f, tuple) and f[0] == 'i')

    def star_elem(self, v, node, st, fr):
        self.model.set_consumed(v, 'star', node, st, fr)
        el = self.elements(v, node, st, fr)
        return V(el.atoms, el.labels, None)

    def make_super(self, e, st, fr):
        fi = fr.fi
        while fi is not None and fi.cls is None: fi = fi.parent
        cls = fi.cls if fi else None
        out = []
        if len(e.args) == 2:
            kv = self.eval(e.args[0], st, fr)
            selfv = self.eval(e.args[1], st, fr)
            cls = next((a[1] for a in kv.atoms if a[0] == 'k'), cls)
        else:
            first = fr.fi.params[0] if fr.fi and fr.fi.params else None
            selfv = st.vars.get(first, BOT) if first else BOT
        for a in selfv.atoms:
            if a[0] in ('o', 'k'):
                o = self.obj('super', None, (cls, a), None, None, (cls, a))
                out.append(('o', o.id))
        return V(out)

    def unpackable(self, v):
        for a in v.atoms:
            if a[0] == 't': return a[1]
        return [UNK]

    def call(self, fn, args, kwargs, node, st, fr, star=(), star2=(), bound=False):
        res = BOT
        n = len(fn.atoms)
        if n == 0:
            labs = fn.labels
            for a in args: labs |= a.labels
            return V(EMPTY, labs)
        multi = n > 1
        merged = None
        alts = []
        for a in sorted(fn.atoms, key=_akey):
            s = st.copy() if multi else st
            r = self.call1(a, fn, args, kwargs, node, s, fr, star, star2)
            if multi:
                merged = s if merged is None else merge_states(merged, s)
                if not s.dead: alts.append((a, r))
            res = join(res, r)
        if multi and merged is not None: st.set(merged)
        if multi and res.atoms and (res.terms is None or len(res.terms) > 1): res = self.dispatched(alts, res)
        if multi and res.atoms and (res.terms is None or len(res.terms) > 1) and not kwargs and not star and \
                all(a[0] in ('vm', 'u') for a in fn.atoms):
            # one term for all alternatives
            names = {a[2] for a in fn.atoms if a[0] == 'vm'}
            bases = {a[1].terms for a in fn.atoms if a[0] == 'vm'}
            if len(bases) == 1 and len(names) == 1:
                base, name = V(res.atoms, EMPTY, next(iter(bases))), next(iter(names))
                ts = None
                if name == 'get' and args:
                    ts = lift(lambda b, k, x: ('fn', 'get', t_index(b, k), x), base, args[0], self.model.default(args[1]) if len(args) > 1 else NONE)
                elif name in STR_PURE: ts = lift(lambda *t: ('fn', 'str.' + name) + t, base, *args)
                res = res.with_terms(ts)
        if res.atoms and not res.terms and all(a[0] in ('f', 'b') for a in fn.atoms): res = self.opaque(fn, args, kwargs, node, res)
        return res

    def opaque(self, fn, args, kwargs, node, res):
        """term of an unknown result: the call with its arguments"""
        def arg(v): return next(iter(v.terms)) if v.terms is not None and len(v.terms) == 1 else ('unk',)
        recvs = {a[4] for a in fn.atoms if a[0] == 'b'}
        if len(recvs) > 1: return res
        name = {self.prog.funcs[a[1]].qual.rsplit('.', 1)[-1] for a in fn.atoms}
        t = ('res', node._id, next(iter(name)) if len(name) == 1 else '')
        recv = next(iter(recvs)) if recvs else None
        if recv is not None: t += (next(iter(recv)) if len(recv) == 1 else ('unk',),)
        full = t + tuple(arg(v) for v in args) + tuple(('kw', k, arg(v)) for k, v in sorted(kwargs.items()))
        t = small(full) or t
        return res.with_terms(frozenset([t]))

    def dispatched(self, alts, res):
        '''one term for the results of a method depending on the class of the receiver'''
        recv = None
        per = []
        for a, r in alts:
            if a[0] != 'b' or not a[3] or a[3][0] != 'o' or a[4] is None or len(a[4]) != 1: return res
            if recv is None: recv = a[4]
            elif recv != a[4]: return res
            per.append((self.objs[a[3][1]].cls, r))
        return self.dispatch(recv, per, res)

    def dispatch(self, recv, alts, res):
        per = {}
        for c, r in alts:
            t = r.terms if r.terms is not None and len(r.terms) == 1 else frozenset([None])
            per.setdefault(c, set()).update(t)
        if len(per) < 2 and not any(len(ts) > 1 for ts in per.values()): return res
        for c, ts in per.items():    # not known for some of the objects only
            known = {t for t in ts if t is not None and t[0] != 'res'}
            if len(known) == 1: per[c] = known
        if len(per) == 1:
            ts = next(iter(per.values()))
            return res.with_terms(frozenset(ts)) if len(ts) == 1 and None not in ts else res
        tab = tuple(sorted((c, next(iter(ts)) if len(ts) == 1 and None not in ts else ('unk',)) for c, ts in per.items()))
        if all(t == ('unk',) for c, t in tab): return res
        t = tlimit(('disp', next(iter(recv)), tab))
        return res.with_terms(frozenset([t])) if t is not None else res

    def call1(self, a, fn, args, kwargs, node, st, fr, star, star2):
        k = a[0]
        if k == 'f':
            return self.call_func(a[1], a[2], None, args, kwargs, node, st, fr, star, star2)
        if k == 'b':
            if a[3] and a[3][0] == 'o' and a[4] is not None:
                if a[4] == SELF:
                    return self.call_func(a[1], a[2], a[3], [V([a[3]], EMPTY, SELF)] + list(args), kwargs, node, st, fr, star, star2)
                r = self.call_func(a[1], a[2], a[3], [V([a[3]], EMPTY, SELF)] + [shift(x) for x in args],
                                   {k: shift(x) for k, x in kwargs.items()}, node, st, fr,
                                   [shift(x) for x in star], [shift(x) for x in star2], recv=V([a[3]], EMPTY, a[4]))
                return unself(r, a[4])
            return self.call_func(a[1], a[2], a[3], [V([a[3]], EMPTY, a[4])] + list(args), kwargs, node, st, fr, star, star2)
        if k == 'k': return self.instantiate(a[1], args, kwargs, node, st, fr, star, star2)
        if k == 'x': return self.model.call_ext(a[1], args, kwargs, node, st, fr, star, star2)
        if k == 'vm':
            return self.call_method(a[1], a[2], args, kwargs, node, st, fr, star, star2)
        if k == 'xo':
            return self.model.call_xo_value(a, fn, args, kwargs, node, st, fr)
        if k == 'o':
            o = self.objs[a[1]]
            if o.kind == 'inst':
                m, _ = self.class_attr(o.cls, '__call__')
                if m is not None: return self.call_method(V([a]), '__call__', args, kwargs, node, st, fr, star, star2)
            elif o.kind == 'partial':
                f, pa, pk = o.extra
                return self.call(f, list(pa) + list(args), {**dict(pk), **kwargs}, node, st, fr, star, star2)
        if k == 'p' and a[1] == 'static': return self.call(self._atomv(a[2]), args, kwargs, node, st, fr, star, star2)
        labs = fn.labels
        for x in args: labs |= x.labels
        for x in kwargs.values(): labs |= x.labels
        if k == 'u':
            self.escape(args, kwargs, node, st, fr)
            self.event('ucall', node, '?', st, fr, args=args, kwargs=kwargs)
            self.raise_point(st, fr)
            return V([('u',)], labs)
        return V(EMPTY, EMPTY)

    def escape(self, args, kwargs, node, st, fr):
        '''functions passed to unknown code may be called'''

    def call_method(self, recv, name, args, kwargs, node, st, fr, star=(), star2=()):
        '''method of a value; instances of analyzed classes through their class'''
        res = BOT
        for a in recv.atoms:
            one = V([a], recv.labels, recv.terms)
            if a[0] in ('o',) and self.objs[a[1]].kind in ('inst', 'super') or a[0] in ('k', 'm', 'x', 'e'):
                f = self.get_attr(one, name, node, st, fr)
                r = self.call(f, list(args), kwargs, node, st, fr, star, star2)
            else:
                r = self.model.builtin_method(a, one, name, args, kwargs, node, st, fr, star, star2)
            res = join(res, r)
        return res

    def bind_args(self, fi, args, kwargs, node, st, fr, star, star2, clo):
        '''-> tuple of V per parameter'''
        params = fi.params
        vals = {}
        extra = []
        for i, a in enumerate(args):
            if i < len(params): vals[params[i]] = a
            else: extra.append(a)
        nstar = len(args)
        if star:
            sv = join(BOT, *star)
            for i in range(nstar, len(params)):
                if params[i] not in kwargs: vals[params[i]] = sv
        kwextra = {}
        for k, v in kwargs.items():
            if k in params or k in fi.kwonly: vals[k] = v
            else: kwextra[k] = v
        defaults = self.defaults(fi, clo)
        kwobj = None
        missing = [p for p in params + fi.kwonly if p not in vals]
        for sv in star2:
            for p in missing:
                got = BOT
                maybe = False
                for a in sv.atoms:
                    if a[0] == 'o' and self.objs[a[1]].kind == 'dict':
                        x = join(self.load((a[1], ('k', p))), self.load((a[1], '*')))
                        fb = self.load((a[1], 'fb'))
                        if fb.atoms: x = join(x, self.raw_get(next(iter(fb.atoms)), fb, const(p), node, st, fr)); maybe = True
                        got = join(got, x)
                    elif a[0] == 'r':
                        got = join(got, self.raw_get(a, sv, const(p), node, st, fr))
                        maybe = True
                    elif a[0] == 'u': got = join(got, V([('u',)], sv.labels)); maybe = True
                if got.atoms:
                    if maybe and p in defaults: got = join(got, defaults[p])
                    vals[p] = got
        res = []
        for p in params + fi.kwonly:
            v = vals.get(p)
            if v is None: v = defaults.get(p, BOT)
            res.append(v)
        if fi.vararg:
            if star:
                o = self.obj('list', None, ('va', fi.fid), node._id, node)
                self.store((o.id, '*'), join(BOT, *star, *extra))
                res.append(V([('o', o.id)]))
            else: res.append(V([('t', tuple(extra))]))
        if fi.kwarg:
            o = self.obj('dict', None, ('kw', fi.fid), node._id, node)
            for k, v in kwextra.items(): self.dict_set(o.id, const(k), v)
            for sv in star2: self.dict_update(o.id, sv, node, st, fr)
            res.append(V([('o', o.id)], EMPTY, star2[0].terms if len(star2) == 1 and not kwextra else None))
        return tuple(res)

    def defaults(self, fi, clo):
        a = fi.node.args
        out = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        names = list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) if a.defaults else []
        names += [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        for n, d in names:
            if isinstance(d, ast.Constant):
                out[n] = const(d.value) if d.value is not Ellipsis else UNK
                continue
            f2 = Frame()
            f2.ctx = self.stack[-1] if self.stack else None
            f2.fi = fi.parent
            f2.module, f2.cls = fi.module, fi.cls
            f2.mute = 1
            if fi.parent is not None and clo is not None:
                c = Ctx()
                c.clo = self.objs[clo].extra
                c.hsig = ('default', fi.fid)
                c.fi, c.args, c.events, c.id = fi.parent, (), {}, -1
                f2.ctx = c
                s = State()
                for nm in fi.parent.locals:
                    v = self.load((clo, nm))
                    if v.atoms: s.vars[nm] = v
                out[n] = self.eval(d, s, f2)
            else:
                f2.fi = None
                s = State()
                c = Ctx()
                c.clo, c.hsig, c.fi, c.args, c.events, c.id = None, ('default', fi.fid), None, (), {}, -1
                c.calls, c.spawned = {}, set()
                f2.ctx = c
                if fi.cls and fi.cls in self.class_obj: f2.classns = self.class_obj[fi.cls].id
                out[n] = self.eval(d, s, f2)
        return out

    def call_func(self, fid, clo, selfatom, args, kwargs, node, st, fr, star=(), star2=(), recv=None):
        fi = self.prog.funcs[fid]
        if fi.parent is not None and clo is None: pass
        vals_ = self.bind_args(fi, args, kwargs, node, st, fr, star, star2, clo)
        c = self.get_ctx(fi, clo, selfatom, vals_)
        return self.apply(c, node, st, fr, recv=recv)

    def apply(self, c, node, st, fr, recv=None):
        me = fr.ctx
        if me.id >= 0: c.callers.add(me.id)
        if not c.evaluated and not c.active:
            self.evaluate(c)
        if not fr.mute:
            me.calls.setdefault((node._id, c.id), None)
            if recv is None: args = [a if a is not None else BOT for a in c.args]
            else: args = [recv] + [unshift(a) if a is not None else BOT for a in c.args[1:]]
            ev = self.event('call', node, c.fi.qual, st, fr, args=args, targets=set())
            if ev is not None:
                if ev.targets is None: ev.targets = set()
                ev.targets.add(c.id)
        # effects
        if not fr.mute:
            self.did(('start', c.fi.qual), st, fr)
            if c.exc:
                self.raise_point(st, fr, must=st.must | (c.exc_must or EMPTY), opn=self.thru(st.open, c.exc_open, c.exc_must),
                                 may=st.may | c.may)
            elif c.evaluated and c.calls and getattr(c.fi.node, 'name', '') != '__init__':
                # anything longer can fail, which matters when something has to be released
                held = {s for s in st.open if s[0] != 'flag'}
                if held and not any(m[0] == 'closed' and m[1] in held for m in c.must or ()):
                    self.raise_point(st, fr, must=st.must, opn=st.open, may=st.may | c.may)
            if c.must is None:
                # never returns normally (or not known yet)
                if c.evaluated and not c.active and not c.ret.atoms: st.dead = True
                return c.ret
            if st.refs and c.may:
                w = {m[2] for m in c.may if m[0] == 'w'}
                for k in [k for k in st.refs if k[1] in w]: del st.refs[k]
            st.open = self.thru(st.open, c.open, c.must)
            st.must = st.must | c.must | {('call', c.fi.qual)}
            st.may = st.may | c.may | {('call', c.fi.qual)}
        return c.ret

    def thru(self, opn, callee_open, callee_must):
        closed = {m[1] for m in (callee_must or ()) if m[0] == 'closed'}
        return frozenset(o for o in opn if o not in closed) | callee_open

    def instantiate(self, cname, args, kwargs, node, st, fr, star=(), star2=()):
        if self.is_enum(cname):
            m = self.enum_members.get(cname, {})
            labs = args[0].labels if args else EMPTY
            out = []
            if args and all(a[0] == 'c' for a in args[0].atoms):
                for n, v in m.items():
                    if v.atoms & args[0].atoms: out.append(('e', cname, n))
            terms = lift(lambda t: ('fn', 'enum', t), args[0]) if args else None
            if args:
                # Enum(x.value) is x
                def back(t): return t[2] if t[0] == 'fn' and t[1] == 'enumvalue' else ('fn', 'enum', t)
                terms = lift(back, args[0])
            return V(out or [('e', cname, n) for n in m], labs, terms)
        ext = [b for b in self.ext_bases(cname) if b not in ('builtins.object',)]
        o = self.obj('inst', cname, self.alloc_site(cname, node, fr), self.alloc_ctx(fr), node)
        v = V([('o', o.id)], EMPTY, frozenset([('new', node._id)]))
        init, owner = self.class_attr(cname, '__init__')
        self.event('new', node, cname, st, fr, recv=v, args=args, kwargs=kwargs)
        if init is not None:
            f = self.bind(init, ('o', o.id), cname, frozenset([('new', node._id)]), node, st, fr)
            self.call(f, args, kwargs, node, st, fr, star, star2)
        elif ext:
            self.model.call_ext(ext[0], args, kwargs, node, st, fr, star, star2)
        self.did(('new', cname), st, fr)
        return v

    def alloc_site(self, cname, node, fr): return cname

    def alloc_ctx(self, fr):
        c = fr.ctx
        if c.selfoid is not None:
            return self.objs[c.selfoid].cls
        if c.fi is not None and getattr(c.fi, 'cls', None): return c.fi.cls
        if c.fi is not None and c.fi.module.path.endswith('__driver__.py'): return 'entry'
        return getattr(c.fi, 'qual', None)


class _ModFunc:
    '''pseudo function of a module body'''
    def __init__(self, m):
        self.module = m
        self.qual = m.name
        self.cls = None
        self.parent = None
        self.params, self.kwonly, self.vararg, self.kwarg = [], [], None, None
        self.fid = -1
        self.is_gen = False
        self.locals = self.captured = self.globals = self.nonlocals = frozenset()
        self.node = m.tree
        self.is_lambda = False


def _akey(a): return str(a[:3])


def _load(t):
    import copy
    n = copy.copy(t)
    n.ctx = ast.Load()
    return n


def _isint(a): return a == ('ty', 'int') or a[0] == 'c' and isinstance(a[1], int) and not isinstance(a[1], bool)


def _fold(op, x, y):
    try:
        if op == '+': r = x + y
        elif op == '-': r = x - y
        elif op == '*': r = x * y
        elif op == '/': r = x / y
        elif op == '//': r = x // y
        elif op == '%': r = x % y
        elif op == '**':
            if abs(y) > 64: return None
            r = x ** y
        elif op == '&': r = x & y
        elif op == '|': r = x | y
        elif op == '^': r = x ^ y
        elif op == '<<':
            if y > 64: return None
            r = x << y
        elif op == '>>': r = x >> y
        else: return None
    except Exception: return None
    if isinstance(r, (str, bytes)) and len(r) > 5000: return None
    return (r,)


NEG = {'==': '!=', '!=': '==', '<': '>=', '>=': '<', '>': '<=', '<=': '>', 'is': 'is not', 'is not': 'is', 'in': 'not in',
       'not in': 'in'}


def _negate(t):
    if t[0] == 'cmp':
        op = NEG[t[1]]
        return _cmp_term(op, t[2], t[3])
    if t[0] == 'not': return t[1]
    if t[0] == 'c': return ('c', not t[1])
    if t[0] == 'fn' and t[1] in ('and', 'or'):
        return ('fn', 'or' if t[1] == 'and' else 'and') + tuple(_negate(x) for x in t[2:])
    return ('not', t)


def _cmp_term(op, a, b):
    if op in ('>', '>='):
        op, a, b = {'>': '<', '>=': '<='}[op], b, a
    elif op in ('==', '!=', 'is', 'is not') and repr(a) > repr(b): a, b = b, a
    return ('cmp', op, a, b)


def t_elem(t, it, i=None):
    '''element of sequence t in the iteration it (its i-th component)'''
    if t[0] == 'fn' and t[1] == 'enumerate':
        start = t[3] if len(t) > 3 else ('c', 0)
        if i == 0: return t_add(it, start)
        x = t_elem(t[2], it)
        if i == 1: return x
        return ('tup', t_add(it, start), x)
    if t[0] == 'fn' and t[1] == 'zip':
        if i is not None and i + 2 < len(t): return t_elem(t[2 + i], it)
        return ('tup',) + tuple(t_elem(x, it) for x in t[2:])
    if t[0] == 'fn' and t[1] == 'range' and len(t) in (4,) : x = t_add(t[2], it)
    elif t[0] == 'fn' and t[1] in ('list', 'tuple', 'iter'): return t_elem(t[2], it, i)
    elif t[0] == 'map': x = t_sub(t_sub(t[1], ('var',), t_elem(t[2], it)), ('pos',), it)
    else: x = ('ix', t, it)
    if i is None: return x
    if x[0] == 'tup' and i + 1 < len(x): return x[i + 1]
    return ('ix', x, ('c', i))


def map_term(body, gid, itert, conds):
    '''[body for x in itert if conds] with the element written as ('var',)'''
    if itert is None: itert = ('seq', gid)
    it = ('it', gid)
    el = t_elem(itert, it)

    def norm(t): return t_sub(t_sub(t, el, ('var',)), it, ('pos',))
    if itert[0] == 'fn' and itert[1] == 'enumerate': 
        src = itert[2]
        start = itert[3] if len(itert) > 3 else ('c', 0)
        el = t_elem(src, it)
        itert = src
    if any(c is None for c in conds): return None
    if conds:
        cs = tuple(norm(c) for c in conds)
        itert = ('filter', itert, cs[0] if len(cs) == 1 else ('fn', 'and') + cs)
        if t_has(body, lambda x: x == it) and t_has(norm(body), lambda x: x == ('pos',)): return None
    b = norm(body)
    if b == ('var',): return tlimit(itert)
    return tlimit(('map', b, itert))


def t_ix(t, i):
    if t[0] == 'tup' and -len(t) < i < len(t) - 1: return t[i + 1] if i >= 0 else t[i]
    if t[0] == 'map' and not t_has(t[1], lambda x: x == ('pos',)):
        return t_sub(t[1], ('var',), t_ix(t[2], i))
    if t[0] == 'map' and i >= 0: return t_sub(t_sub(t[1], ('var',), t_ix(t[2], i)), ('pos',), ('c', i))
    if t[0] == 'if' and t[2][0] in ('tup', 'if', 'map') or t[0] == 'if' and t[3][0] in ('tup', 'if', 'map'):
        return ('if', t[1], t_ix(t[2], i), t_ix(t[3], i))
    if t[0] == 'fn' and t[1] in ('list', 'tuple'): return t_ix(t[2], i)
    return ('ix', t, ('c', i))


def one_term(v): return one(v)


def plain_items(v, depth=0):
    '''without the terms of the items of tuples (constants are kept)'''
    if depth > 3 or not any(a[0] == 't' for a in v.atoms): return v
    out = []
    for a in v.atoms:
        if a[0] == 't':
            a = ('t', tuple(plain_items(x if x is None or x.terms is None or all(t[0] == 'c' for t in x.terms) else x.with_terms(None), depth + 1)
                            if x is not None else x for x in a[1]))
        out.append(a)
    return V(out, v.labels, v.terms)


STR_PURE = {'strip', 'lstrip', 'rstrip', 'replace', 'upper', 'lower', 'title', 'split', 'rsplit', 'startswith', 'endswith', 'zfill', 'find'}


def t_index(t, k):
    if k[0] == 'c' and isinstance(k[1], int) and not isinstance(k[1], bool): return t_ix(t, k[1])
    if k[0] in ('slice', 'c'): return ('ix', t, k)
    return t_elem(t, k)
