'''Which effects a function has on its objects for given field values, from the extracted terms of its call tree.

Nothing is executed: the guards, loop sequences, receivers and arguments recorded for an effect are expressions over the
fields of the anchor object; they are tabulated for given leaf values and compared with the specification.'''

import ast
import itertools

from .terms import ev, Unknown, Raises, Obj, Env, sequence, truth
from .values import one, EMPTY


class Effect:
    __slots__ = ('event', 'env', 'order')

    def __init__(self, event, env, order):
        self.event, self.env, self.order = event, env, order

    def get(self, v):
        t = one(v)
        if t is None: raise Unknown(f'value at line {getattr(self.event.node, "lineno", 0)}')
        return ev(t, self.env)

    def recv(self): return self.get(self.event.recv)

    def val(self): return self.get(self.event.val)

    def arg(self, i, name=None):
        e = self.event
        if name is not None and name in e.kwargs: return self.get(e.kwargs[name])
        if i is not None and i < len(e.args): return self.get(e.args[i])
        return None


def level_env(env, e, callee):
    '''symbols of the callee of a call event'''
    if callee.selfatom is None or callee.selfatom[0] != 'o' or not e.args: return env
    t = one(e.args[0])
    if t == ('s', 'self'): return env
    new = {}
    try: new[('s', 'self')] = ev(t, env) if t is not None else _raise()
    except (Unknown, Raises): new[('s', 'self')] = Opaque()
    for a, b in ((('s', 'up1'), ('s', 'self')), (('s', 'up2'), ('s', 'up1'))):
        if b in env: new[a] = env[b]
    return Env(env, new)


def _raise(): raise Unknown('receiver')


class Opaque(Obj):
    def __contains__(self, k): return False


OPTION = object()


def fact_value(q, f, env, assume):
    t = next(iter(f.terms)) if f.terms is not None and len(f.terms) == 1 else None
    if t is not None:
        try: return truth(ev(t, env))
        except Unknown as e:
            if assume is None: raise
            r = assume(f, env)
            if r is None: raise
            return r
    if assume is not None:
        r = assume(f, env)
        if r is not None: return r
    raise Unknown(f'test {q.where(f.node)}')


def effects(q, anchor, events, env, assume=None, limit=200, avoid=None):
    '''effects (in order) among the events, in the call tree of the context anchor; avoid: functions not looked into'''
    out = []
    for e in events:
        cs = q.chains(e.ctx, stop=lambda c: c is anchor, limit=limit, only=anchor)
        if cs is None: raise Unknown('too many call chains')
        for c in cs:
            if any(f[0] == 'spawn' for x in c for f in x.frames): continue
            if any(x.ctx is anchor for x in c[1:]): continue   # recursion
            if avoid is not None and any(q.is_func(x.ctx.fi, avoid) for x in c): continue
            walk(q, c + (e,), 0, env, (), out, assume)
    out.sort(key=lambda x: x.order)
    seen, res = {}, []
    for x in out:     # the same call analysed for several objects (or constants) has to have the same effect
        k = (x.order, x.event.kind, x.event.name, x.event.node._id)
        if k not in seen:
            seen[k] = x
            res.append(x)
        elif x.event.ctx is not seen[k].event.ctx and shown(x) != shown(seen[k]): raise Unknown('several effects of one call')
    return res


def shown(x):
    out = []
    for v in [x.event.recv, x.event.val] + list(x.event.args) + [x.event.kwargs[k] for k in sorted(x.event.kwargs)]:
        try: out.append(repr(x.get(v)) if v is not None else None)
        except (Unknown, Raises): out.append('?')
    return out


def enter(q, ctx, f, env, k, assume):
    '''environment of an iteration of a loop'''
    return Env(env, {('it', f[3]): k, ('carryenv', f[3]): lambda name: carry(q, ctx, f, env, k, name, assume)})


def carry(q, ctx, f, env, k, name, assume):
    '''value of a variable at the start of an iteration'''
    key = f'{f[3]}:{name}'
    sets = sorted((x for x in ctx.events.values() if x.kind == 'carry' and x.name == key), key=lambda x: -x.node._id)
    for j in range(k - 1, -1, -1):
        e2 = enter(q, ctx, f, env, j, assume)
        for x in sets:
            if len([y for y in loops_of(x.frames) if y[1] is f[1]]) != 1: raise Unknown('loop variable')
            if all(fact_value(q, g, e2, assume) == g.pol for g in guards_of(x)):
                t = one(x.val)
                if t is None: raise Unknown(f'loop variable {name}')
                return ev(t, e2)
    for x in ctx.events.values():
        if x.kind == 'carry' and x.name == key + ':init':
            t = one(x.val)
            if t is None: break
            return ev(t, env)
    raise Unknown(f'loop variable {name}')


def loops_of(frames): return [f for f in frames if f[0] == 'loop']


def guards_of(e): return [f for f in e.facts if isinstance(f.node, ast.expr) and f.nid == f.node._id]


def iterate(q, f, env):
    """number of elements of the sequence of a loop"""
    t = one(f[2]) if f[2] is not None else None
    if isinstance(f[1], ast.While) or t is None: raise Unknown(f'loop {q.where(f[1])}')
    return len(sequence(ev(t, env)))


def fires(q, e, env, skip, assume):
    """whether an event (break, return, raise) happens in some iteration of the loops inside the first skip ones"""
    loops = loops_of(e.frames)[skip:]
    guards = guards_of(e)

    def go(j, env):
        if j < len(loops): return any(go(j + 1, enter(q, e.ctx, loops[j], env, k, assume)) for k in range(iterate(q, loops[j], env)))
        return all(fact_value(q, g, env, assume) == g.pol for g in guards)
    return go(0, env)


def jumps(ctx):
    return [x for x in ctx.events.values() if x.kind in ('break', 'return', 'raise') and not handled(x)]


def handled(e):
    '''whether this happens in an exception handler only'''
    fi = e.ctx.fi
    s = getattr(fi.node, "_handled", None)
    if s is None: s = fi.node._handled = {y for n in ast.walk(fi.node) if isinstance(n, ast.Try) for h in n.handlers for b in h.body for y in ast.walk(b)}
    return e.node in s


def stopped(q, js, loop, depth, env, assume):
    """whether the loop (at this depth) ends in this iteration"""
    for j in js:
        ls = loops_of(j.frames)
        if len(ls) <= depth or ls[depth][1] is not loop[1]: continue
        if j.kind == 'break' and len(ls) != depth + 1: continue
        if fires(q, j, env, depth + 1, assume): return True
    return False


def when(node):
    '''evaluation order: arguments before the call'''
    end = getattr(node, '_end', None)
    if end is None: end = node._end = max(x._id for x in ast.walk(node) if hasattr(x, '_id') and hasattr(x, 'lineno'))
    return (end, -node._id)


def dynamic(e, env):
    """setattr with a computed name: whether the name is the one of the event"""
    if not (isinstance(e.data, tuple) and e.data and e.data[0] == 'dyn'): return True
    t = one(e.data[1])
    if t is None: raise Unknown('name of attribute')
    return ev(t, env) == e.name.rsplit('.', 1)[1]


def walk(q, chain, i, env, order, out, assume):
    e = chain[i]
    if handled(e): return     # the case without errors
    loops = loops_of(e.frames)
    elses = [f for f in e.frames if f[0] == 'forelse']
    guards = guards_of(e)
    js = jumps(e.ctx)

    def go(j, env, order):
        if j < len(loops):
            f = loops[j]
            for k in range(iterate(q, f, env)):
                env2 = enter(q, e.ctx, f, env, k, assume)
                go(j + 1, env2, order + (getattr(f[1], '_id', 0), 0, k))
                if stopped(q, js, f, j, env2, assume): break
            return
        for g in guards:
            if fact_value(q, g, env, assume) != g.pol: return
        if not dynamic(e, env): return
        for f in elses:
            d = len([x for x in e.frames[:e.frames.index(f)] if x[0] == 'loop'])
            brk = [x for x in js if x.kind == 'break' and len(loops_of(x.frames)) == d + 1 and loops_of(x.frames)[d][1] is f[1]]
            if any(fires(q, x, env, d, assume) for x in brk): return
        # left before by a return in an earlier loop
        mine = [id(f[1]) for f in loops]
        for x in js:
            if x.kind == 'break' or x.node._id > e.node._id: continue
            ls = loops_of(x.frames)
            d = 0
            while d < len(ls) and d < len(mine) and id(ls[d][1]) == mine[d]: d += 1
            if d == len(ls): continue     # decided by the guards
            if fires(q, x, env, d, assume): return
        if i + 1 == len(chain):
            out.append(Effect(e, env, order + when(e.node)))
            return
        walk(q, chain, i + 1, level_env(env, e, chain[i + 1].ctx), order + when(e.node), out, assume)
    try: go(0, env, order)
    except Raises: pass


def product(fields):
    names = sorted(fields)
    for vals in itertools.product(*[fields[n] for n in names]): yield dict(zip(names, vals))


def consts(q, ctx, field):
    '''values of a field of the object of a method when it can only have constant ones'''
    if ctx.selfatom is None or ctx.selfatom[0] != 'o': return None
    v = q.I.heap.get((ctx.selfatom[1], field))
    if v is None or not v.atoms: return None
    if all(a[0] == 'c' for a in v.atoms): return {a[1] for a in v.atoms}
    return None
