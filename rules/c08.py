'''C08: a result does not depend on what was processed before.'''

import ast
import heapq

from pdfai import sim
from pdfai.terms import Raises, Unknown
from pdfai.values import one, t_has
from .common import entry_env, page_index

KNOWN_COUNTERS = ()


def persistent(q):
    """objects created with the converter, which live for several runs: {object id: class}"""
    sub = q.subtree(q.contexts('Converter.__init__'))
    out = {}
    for e in q.events('new'):
        if e.ctx.id not in sub or e.recv is None: continue
        for a in e.recv.atoms:
            if a[0] == 'o' and q.I.objs[a[1]] is not None: out[a[1]] = q.I.objs[a[1]].cls.rsplit('.', 1)[-1]
    return out


def guarded(e, value=()):
    """the event only happens under a test, in a loop or in an exception handler"""
    # (a page without source has nothing to parse)
    if any(isinstance(f.node, ast.expr) and f.nid == f.node._id and not (f.labels and all(l[0] == 'F' and l[2] == 'fitz_page' or (l in value or l[0] == 'C' and l[1] in value) and not any(t_has(t, lambda x: x[:1] == ('cmp',)) for t in f.terms or ()) for l in f.labels)) for f in e.facts): return True
    return any(f[0] in ('loop', 'forelse') and not literal(f[2]) for f in e.frames)


def literal(v):
    '''terms of the elements of a sequence written out'''
    t = one(v) if v is not None and hasattr(v, 'terms') else None
    return list(t[1:]) if t is not None and t[0] == 'tup' else []


class Order:
    """order of the events in the call tree of a context"""

    def __init__(self, q, ctx):
        self.q = q
        sub = q.subtree([ctx])
        calls = {}
        for e in q.events('call'):
            if e.ctx.id not in sub: continue
            for t in q.callees(e) if hasattr(q, 'callees') else e.targets: calls.setdefault(e.ctx.id, []).append((e, getattr(t, 'id', t)))
        # earliest position, and earliest position without tests
        self.first = self.walk(ctx.id, calls, lambda e: True)
        self.sure = self.walk(ctx.id, calls, lambda e: not guarded(e))

    def walk(self, root, calls, allow):
        fn = {c.id: c.fi.fid if c.fi.parent is None else -c.id for c in self.q.a.ctxs}
        best, heap, n = {}, [((), 0, root, frozenset([fn[root]]))], 0
        while heap:
            key, _, c, path = heapq.heappop(heap)
            if c in best: continue
            best[c] = key
            for e, t in calls.get(c, ()):
                # (layouts of nested tables apart)
                if t in best or fn.get(t) in path or not allow(e): continue
                n += 1
                heapq.heappush(heap, (key + (e.node._id,), n, t, path | {fn.get(t)}))
        return best

    def at(self, e): return self.first[e.ctx.id] + (e.node._id,) if e.ctx.id in self.first else None

    def surely_at(self, e, value=()): return self.sure[e.ctx.id] + (e.node._id,) if e.ctx.id in self.sure and not guarded(e, value) else None


def objects(v, among): return {a[1] for a in (v.atoms if v is not None else ()) if a[0] == 'o' and a[1] in among}


def old_value(q, v, cls, field):
    """the new value depends on the old one"""
    seen, todo = set(), [v]
    while todo:
        x = todo.pop()
        if x is None: continue
        if any(l == ('F', cls, field) for l in x.labels): return True
        if any(t_has(t, lambda y: y == ('ld', ('s', 'self'), field)) for t in (x.terms or ())): return True
        for a in x.atoms:
            if a in seen: continue
            seen.add(a)
            if a[0] == 't': todo += list(a[1])
            if a[0] == 'o' and q.I.objs[a[1]] is not None and q.I.objs[a[1]].kind == 'dict':
                for e in q.events('dictspread', 'mutate'):
                    if e.recv is not None and a in e.recv.atoms and (e.kind == 'dictspread' or e.name == 'update'): todo += list(e.args)
            if a[0] == 't': pass
            elif a[0] == 'o' and q.I.objs[a[1]] is not None and q.I.objs[a[1]].kind in ('list', 'dict', 'set') and not empty(q.I.objs[a[1]].node):
                todo += [q.I.peek(a[1], f) for f in q.I._fields.get(a[1], ())]
    return False


def empty(node):
    '''a new, empty container'''
    return isinstance(node, (ast.List, ast.Tuple, ast.Set)) and not node.elts or isinstance(node, ast.Dict) and not node.keys or isinstance(node, ast.Call) and not node.args


def inside_functions(q):
    ids = set()
    for f in q.prog.funcs:
        body = getattr(f.node, 'body', None)
        for s in body if isinstance(body, list) else [body] if body is not None else []:
            for n in ast.walk(s):
                if hasattr(n, '_id'): ids.add(n._id)
    return ids


def check(q, rep):
    pages(q, rep)
    shared(q, rep)
    selection(q, rep)


def short(e): return e.name.rsplit('.', 1)[-1]


def pages(q, rep):
    rep.rule('fresh', 'Every field of the objects that live as long as the converter (pages, layouts, collections) that parsing a page adds to, changes in part or fills once is set anew, '
             'unconditionally and not from its old value, before that in the same run.')
    P = persistent(q)
    if not P or not q.contexts('Page.parse'):
        rep.skip('Page.parse or the objects of the converter not found')
        return
    under = q.subtree(q.contexts('Converter.restore'))
    one_run(q, rep, P, q.contexts('Page.parse')[0])
    for ctx in [c for c in q.contexts('Page.restore') if c.id in under][:1]: one_run(q, rep, P, ctx)


def one_run(q, rep, P, ctx):
    order = Order(q, ctx)
    sub = set(order.first)
    resets, uses = {}, {}
    for e in q.events('write'):
        if e.ctx.id not in sub: continue
        for o in objects(e.recv, P):
            field = short(e)
            if e.ctx.fi.qual.endswith('__init__') and e.ctx.selfatom == ('o', o): continue
            lazy = e.ctx.fi.qual.rsplit('.', 1)[-1] in ('__get__', '__getattr__')
            old = old_value(q, e.val, P[o], field)
            k = order.surely_at(e)
            if k is not None and not lazy and not old: resets.setdefault((o, field), []).append((k, e))
            elif lazy or old: uses.setdefault((o, field), []).append((order.at(e), e))
            else: uses.setdefault((o, field), []).append((None, e))
    for e in q.events('delattr'):
        if e.ctx.id not in sub: continue
        for o in objects(e.recv, P):
            loops = [f for f in e.frames if f[0] in ('loop', 'forelse')]
            # loop over constant names
            if all(f[0] == 'loop' and not any(l[0] in 'RF' for l in f[2].labels) for f in loops): resets.setdefault((o, e.name), []).append((order.at(e), e))
    for e in q.events('mutate'):
        if e.ctx.id not in sub or e.recv is None or e.name in ('sort', 'reverse'): continue
        s = e.ctx.selfatom
        if s is None or s[0] != 'o' or s[1] not in P: continue
        t = one(e.recv)
        if t is not None and t[0] in ('ld', 'at') and t[1] == ('s', 'self') and isinstance(t[2], str):
            if e.name == 'clear' and order.surely_at(e) is not None: resets.setdefault((s[1], t[2]), []).append((order.surely_at(e), e))
            else: uses.setdefault((s[1], t[2]), []).append((order.at(e), e))
    # plain collections are looked at by the field that holds them
    for d in (uses, resets):
        for k in [k for k in d if P[k[0]] == 'Collection']: del d[k]
    # collections of this program, by the field that holds them
    for e in q.events('call'):
        s = e.ctx.selfatom
        if e.ctx.id not in sub or not e.args or s is None or s[0] != 'o' or s[1] not in P: continue
        m = e.name.rsplit('.', 1)[-1]
        ts = [one(e.args[0])]
        for f in e.frames:
            if f[0] == 'loop' and len(ts) == 1 and ts[0] is not None and t_has(ts[0], lambda x: x == ('it', f[3])): ts = literal(f[2])
        for t in ts:
            if t is None or t[0] not in ('ld', 'at') or t[1] != ('s', 'self') or not isinstance(t[2], str): continue
            if m in ('append', 'extend', 'insert'): uses.setdefault((s[1], t[2]), []).append((order.at(e), e))
            elif m in ('reset', 'restore', 'clear') and order.surely_at(e) is not None and not any(old_value(q, v, P[s[1]], t[2]) for v in e.args[1:]): resets.setdefault((s[1], t[2]), []).append((order.surely_at(e), e))
    for (o, field), evs in sorted(uses.items(), key=lambda x: (P[x[0][0]], x[0][1])):
        name = f'{P[o]}.{field}'
        rs = resets.get((o, field), []) + resets.get((o, '*'), [])
        first = min((k for k, _ in rs), default=None)
        late = [(k, e) for k, e in evs if k is not None and (first is None or k < first)]
        if first is not None and not late:
            rep.ok(f'{name} set anew before')
            continue
        # conditional writes only: the old value stays unless something else sets it
        cond = [(k, e) for k, e in evs if k is None]
        if late: rep.bad(name, q.at(late[0][1]), f'{name} keeps what was there when the page is parsed again: it is {"filled once" if late[0][1].kind == "write" else "added to"} without being set anew before')
        elif cond and first is None: rep.bad(name, q.at(cond[0][1]), f'{name} keeps its value of an earlier run in some cases: no unconditional assignment when the page is parsed')
    # settings
    for (o, field), evs in resets.items():
        if (o, field) not in uses: rep.ok(f'{P[o]}.{field} set anew')


def shared(q, rep):
    rep.rule('shared', 'Nothing shared by the whole process (class attributes, module variables, default arguments, caches of functions) is changed while pages are handled, unless it is set for every page before it is used.')
    run = set()
    for n, c in q.a.entries.items(): run |= q.subtree([c])
    # objects created outside of functions
    outside, inside = {}, inside_functions(q)
    for o in q.I.objs:
        if o is None or o.node is None or o.kind not in ('list', 'dict', 'set', 'inst') or isinstance(o.site, tuple) and o.site[:1] == ('gen',): continue
        if getattr(o.node, '_id', None) not in inside: outside[o.id] = o
    bad = set()
    for e in q.events('mutate', 'write'):
        if e.ctx.id not in run or e.recv is None: continue
        for a in e.recv.atoms:
            if a[0] == 'o' and a[1] in outside:
                o = outside[a[1]]
                if (o.id, e.node._id) in bad: continue
                bad.add((o.id, e.node._id))
                if counts(q, o): continue
                rep.bad(f'shared {q.where(o.node)}', q.at(e), f'the {o.kind if o.kind != "inst" else "object"} created once at {q.where(o.node)} is changed ({e.name}), so it reaches later pages and files')
    for e in q.events('classset', 'modset'):
        if e.ctx.id not in run: continue
        name = e.name
        used = any(t_has(t, lambda x: x[:1] == ('ld',) and len(x) == 3 and x[1][:1] == ('k',) and f'{x[1][1]}.{x[2]}' == name) for x in q.events('write', 'call', 'return') if x.val is not None for t in (x.val.terms or ()))
        if old_value_class(q, e): rep.bad(f'{name}', q.at(e), f'{name}, shared by the whole process, depends on what it was before')
        owner = q.contexts('Page.parse')
        if not owner: continue
        sets = [x for x in q.events('classset', 'modset', name=name)]
        for ctx in owner[:1]:
            order = Order(q, ctx)
            if any(order.surely_at(x, [l for l in x.val.labels if l[0] == 'X']) is not None for x in sets if x.val is not None): rep.ok(f'{name} set for every page')
            else: rep.bad(f'{name}', q.at(e), f'{name}, shared by the whole process, is not set again for every page')
    for f in q.prog.funcs:
        names = {n.attr if isinstance(n, ast.Attribute) else n.id for d in getattr(f.node, 'decorator_list', ()) for n in [d.func if isinstance(d, ast.Call) else d] if isinstance(n, (ast.Attribute, ast.Name))}
        if not names & {'lru_cache', 'cache', 'cached_property'}: continue
        ctxs = {c.id for c in q.a.ctxs if c.fi is f}
        for e in q.events('return'):
            if e.ctx.id not in ctxs or e.val is None: continue
            fields = sorted({f'{l[1]}.{l[2]}' for l in q.origins(e.val.labels, control=True) if l[0] == 'F'} | {str(l[1]) for l in q.origins(e.val.labels, control=True) if l[0] == 'X'})
            if fields:
                rep.bad(f'cache of {f.qual}', q.where(f.node), f'the result of {f.qual} is kept for the whole process, though it depends on {", ".join(fields[:3])}, which changes')
                break
    rep.ok(f'{len(outside)} objects created outside of functions, none changed' if not bad else 'objects outside of functions')


def old_value_class(q, e): return e.val is not None and any(l[0] == 'F' and f'{l[1]}.{l[2]}' == e.name for l in e.val.labels)


def counts(q, o): return False


def selection(q, rep):
    rep.rule('selection', 'A conversion counts only the pages selected this time: where pages are chosen by a mark that parsing leaves on them, the mark is taken from every page before.')
    for entry, target in (('api_convert', 'Page.make_docx'), ('cmd_convert', 'Page.make_docx'), ('api_extract_tables', 'Page.extract_tables'), ('cmd_table', 'Page.extract_tables')):
        ctx = q.a.entries.get(entry)
        if ctx is not None: counted(q, rep, entry, ctx, target)
    for ctx in q.contexts('Converter.convert'):
        marked(q, rep, ctx)


def number(x):
    i = page_index(x.recv() if x.event.kind == 'write' else x.get(x.event.args[0]))
    if i is None: raise Unknown('page')
    return i


def counted(q, rep, entry, ctx, target):
    """pages parsed before by the same converter but not selected now"""
    marks = [e for e in q.events('write') if e.name.startswith('Page.') and one(e.val) == ('c', False) and not e.ctx.fi.qual.endswith('.__init__')]
    uses = list(q.calls(target))
    try:
        for n, sel in ((3, [1]), (3, [0, 2]), (2, [1]), (2, [0])):
            env = entry_env(q, n, {'start': 0, 'end': None, 'pages': sel}, {}, range(n))
            cleared = {number(x) for x in sim.effects(q, ctx, marks, env, avoid='Page.parse')}
            used = [(number(x), x) for x in sim.effects(q, ctx, uses, env)]
            if not used: raise Unknown('no page used')
            for i, x in used:
                if i not in sel and i not in cleared:
                    return rep.bad(entry, q.at(x.event), f'{entry}: page {i} of {n}, parsed before, gets into the result though only the pages {sel} are selected')
    except (Unknown, Raises) as e: return rep.skip(f'{entry}: {e.args[0] if e.args else ""}')
    rep.ok(entry)


def marked(q, rep, ctx):
    order = Order(q, ctx)
    marks = set()
    for e in q.calls('Page.make_docx'):
        if e.ctx.id not in order.first: continue
        for f in e.frames:
            if f[0] == 'loop':
                for l in f[2].labels:
                    marks |= {l} if l[0] == 'F' and l[1] == 'Page' else {l[1]} if l[0] == 'C' and l[1][:2] == ('F', 'Page') else set()
        for f in e.facts:
            for l in f.labels:
                if l[:2] == ('F', 'Page'): marks.add(l)
    parses = [order.at(e) for e in q.calls('Page.parse') if e.ctx.id in order.first]
    for _, cls, field in marks:
        ok = False
        for e in q.events('write', name=f'{cls}.{field}'):
            if e.ctx.id not in order.first or one(e.val) != ('c', False): continue
            if parses and order.at(e) < min(parses): ok = True
        if ok: rep.ok(f'{cls}.{field} cleared')
        elif parses: rep.bad(f'{cls}.{field}', q.where(ctx.fi.node), f'pages parsed in an earlier run ({cls}.{field}) are converted again')
