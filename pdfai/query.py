'''Questions about the analysed program.'''

import ast
import itertools

from .terms import value, ev, Unknown, Raises, Env, sequence
from .values import t_has, one


class Query:
    def __init__(self, a):
        self.a, self.I, self.prog = a, a.I, a.prog
        self._callers = None
        self._closure = {}
        self._ev = {}
        for e in a.events(): self._ev.setdefault(e.kind, []).append(e)

    # ---------------------------------------------------------- basics
    def events(self, *kinds, name=None, func=None):
        for k in kinds:
            for e in self._ev.get(k, ()):
                if name is not None and not (e.name == name if isinstance(name, str) else name(e.name)): continue
                if func is not None and not self.is_func(e.ctx.fi, func): continue
                yield e

    def is_func(self, fi, name):
        '''function given as Class.method or function name'''
        q = fi.qual
        return q == name or q.endswith('.' + name)

    def calls(self, name):
        '''calls of a function of the program'''
        for e in self._ev.get('call', ()):
            if self.named(e.name, name): yield e

    def keysets(self):
        '''values given to constant keys of dicts: (event, key, value)'''
        if getattr(self, '_keysets', None) is None:
            out = []
            for e in self._ev.get('keyset', ()):
                for a in e.args[0].atoms:
                    if a[0] == 'c': out.append((e, a[1], e.val))
            for e in self._ev.get('mutate', ()):
                if e.name in ('__setitem__', 'setdefault') and len(e.args) == 2:
                    for a in e.args[0].atoms:
                        if a[0] == 'c': out.append((e, a[1], e.args[1]))
            self._keysets = out
        return self._keysets

    def named(self, full, name): return full == name or full.endswith('.' + name)

    def where(self, node): return self.prog.where(node)

    def at(self, e): return f'{self.where(e.node)} ({e.ctx.fi.qual})'

    @property
    def callers(self):
        if self._callers is None:
            self._callers = {}
            for e in self._ev.get('call', ()):
                for c in e.targets or (): self._callers.setdefault(c, []).append(e)
        return self._callers

    def chains(self, ctx, entry=None, limit=400, stop=None, only=None):
        '''call chains (outermost call first) from an entry point to a context, without recursion;
        only: chains inside the call tree of this context'''
        inside = None
        if only is not None:
            k = ('sub', only.id)
            inside = self._closure.get(k)
            if inside is None: inside = self._closure[k] = self.subtree([only])
        roots = {c.id for n, c in self.a.entries.items() if entry is None or n == entry}
        out = []
        stack = [(ctx.id, ())]
        while stack:
            cid, path = stack.pop()
            if only is None and cid in roots or stop is not None and stop(self.I.ctxs[cid]):
                out.append(path)
                if len(out) > limit: return None
                continue
            for e in self.callers.get(cid, ()):
                if e in path: continue
                if inside is not None and e.ctx.id not in inside: continue
                stack.append((e.ctx.id, (e,) + path))
            if len(stack) > 20000: return None
        return out

    def subtree(self, ctxs):
        '''contexts reachable from these'''
        seen = {c.id for c in ctxs}
        work = list(seen)
        while work:
            c = self.I.ctxs[work.pop()]
            for (_, t) in c.calls:
                if t not in seen:
                    seen.add(t)
                    work.append(t)
        return seen

    def contexts(self, name): return [c for c in self.a.ctxs if self.is_func(c.fi, name)]

    def cls_objs(self, v, cls=None):
        out = []
        for a in v.atoms:
            if a[0] == 'o':
                o = self.I.objs[a[1]]
                if o.kind == 'inst' and (cls is None or self.I.is_subclass(o.cls, cls)): out.append(o)
        return out

    def elems(self, v):
        '''values of the elements of list objects'''
        out = []
        for a in v.atoms:
            if a[0] == 'o' and self.I.objs[a[1]].kind in ('list', 'set'):
                for f in self.I._fields.get(a[1], ()): out.append(self.I.heap.get((a[1], f)))
        return [x for x in out if x is not None]

    # ---------------------------------------------------------- origins
    def deps(self):
        '''(class, field) -> labels of everything written to it, with the tests deciding about it'''
        if getattr(self, '_deps', None) is None:
            d = {}
            for e in self._ev.get('write', ()):
                cls, f = e.name.rsplit('.', 1)
                labs = set(e.val.labels)
                for x in e.facts: labs |= {('C',) + (l,) if l[0] != 'C' else l for l in x.labels}
                d.setdefault((cls, f), set()).update(labs)
            for k, v in self.I.deps.items(): d.setdefault(k, set()).update(v)
            self._deps = d
        return self._deps

    def origins(self, labels, control=False, stop=()):
        '''labels with everything they were computed from'''
        deps = self.deps()
        seen = set()
        work = list(labels)
        while work:
            l = work.pop()
            if l[0] == 'C':
                if not control: continue
                l = l[1]
            if l in seen or l in stop: continue
            seen.add(l)
            if l[0] == 'F': work.extend(deps.get((l[1], l[2]), ()))
        return seen

    # ---------------------------------------------------------- executions
    def runs(self, event, entry, env, allowed=None):
        '''Evaluate the receiver of a call for all iterations of the loops around it, along all call chains from the entry:
        list of (value tuple, event) in order; raises Unknown when a deciding part is not known.'''
        chains = self.chains(event.ctx, entry)
        if chains is None: raise Unknown('too many call chains')
        out = []
        for ch in chains:
            if any(f[0] == 'spawn' for e in ch + (event,) for f in e.frames): continue
            out.extend(self.run_chain(ch + (event,), env))
        return out

    def option_test(self, fact, env):
        '''test of a single boolean option of the caller'''
        labs = [l for l in fact.labels if l[0] != 'K']
        if isinstance(fact.node, (ast.Call, ast.Subscript, ast.Name)) and labs and all(l[0] == 'R' and l[1] == 'kwargs' for l in labs):
            keys = {l[2] for l in labs}
            kw = env[('s', 'kwargs')] if ('s', 'kwargs') in env else None
            if len(keys) == 1 and isinstance(kw, dict): return bool(kw.get(next(iter(keys)), False))
        return None

    def run_chain(self, chain, env):
        loops, guards = [], []
        for e in chain:
            for f in e.frames:
                if f[0] == 'loop': loops.append(f)
            for f in e.facts:
                if isinstance(f.node, ast.expr) and f.nid == f.node._id: guards.append((f, e))
        out = []

        def go(i, env):
            if i < len(loops):
                f = loops[i]
                t = one(f[2]) if f[2] is not None else None
                if not isinstance(f[1], (ast.For, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp, ast.Call)) or t is None:
                    raise Unknown(f'loop {self.where(f[1])}')
                n = len(sequence(ev(t, env)))
                for k in range(n): go(i + 1, Env(env, {('it', f[3]): k}))
                return
            for g, e in guards:
                t = next(iter(g.terms)) if g.terms is not None and len(g.terms) == 1 else None
                if t is None:
                    r = self.option_test(g, env)
                    if r is None: raise Unknown(f'test {self.where(g.node)}')
                    if r != g.pol: return
                    continue
                if bool(ev(t, env)) != g.pol: return
            v = chain[-1].args[0]
            t = one(v)
            if t is None: raise Unknown(f'receiver {self.where(chain[-1].node)}')
            try: out.append((ev(t, env), chain[-1]))
            except Raises: out.append((None, chain[-1]))
        try: go(0, env)
        except Raises: pass
        return out
