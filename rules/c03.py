'''C03: a stored layout restores completely.'''

import json

from pdfai.terms import Unknown, Raises, Obj, ev, truth, LEAF, collection
from pdfai.values import one, t_has
from .contract import near, show
from .shapes import kind
from .every import TYPES

SPACES = {k: [7.5 + i, -3.0 - i] for i, k in enumerate(('left_space', 'right_space', 'first_line_space', 'before_space', 'after_space', 'line_space', 'left_space_total', 'right_space_total'))}
BLOCK = dict(SPACES, alignment=[1], tab_stops=[[12.0, 40.5]])
RECT = [(10.0, 20.5, 30.0, 45.5)]
POINT = [(3.0, 4.5)]
IMAGE = {'image': [b'\x89PNG\r\n\x00\xff', b'\x89PNG\r\n\x00\xfe', b'\xffPNG\r\n\x00\xff'], 'width': [120.0], 'height': [80.0], 'ext': ['jpeg']}

# what the document or the extracted tables depend on
FIELDS = {
    'Page': {'id': [3, 0], 'width': [595.5], 'height': [842.0], '_margin': [(10.0, 20.0, 30.0, 40.0)]},
    'TextBlock': dict(BLOCK),
    'TableBlock': dict(SPACES),
    'ImageBlock': IMAGE,
    'ImageSpan': IMAGE,
    'Row': {'height': [12.5, 0.0]},
    'Cell': {'bg_color': [255, None, 0], 'border_color': [(1, 2, 3, 4)], 'border_width': [(0.5, 1.0, 0.0, 2.0)], 'merged_cells': [(2, 3), (1, 1)]},
    'Line': {'line_break': [1, 0], 'dir': [[1.0, 0.0], [0.0, -1.0]]},
    'TextSpan': {'color': [255, 0], '_font': ['Arial', 'Times New Roman'], 'size': [10.5], 'flags': [16, 0], 'style': [[{'type': 1, 'color': 255}], [{'type': 2, 'color': 5}], [{'type': 1, 'color': 255}, {'type': 2, 'color': 5}], [{'type': 11, 'color': 0, 'uri': 'http://x.y'}, {'type': 2, 'color': 5}]]},
    'Char': {'c': ['a', ' ', '<'], 'origin': POINT},
    'Stroke': {'width': [0.5], 'color': [255]},
    'Fill': {'color': [65280]},
    'Hyperlink': {'uri': ['http://x.y/?a=1&b'], 'color': [255]},
}
BBOX = ('TextBlock', 'TableBlock', 'ImageBlock', 'ImageSpan', 'Row', 'Cell', 'Line', 'TextSpan', 'Char', 'Fill', 'Hyperlink')
# parts, by the class that holds them
PARTS = {
    'Converter': ['Page'],
    'Page': ['TextBlock', 'TableBlock', 'ImageBlock'],
    'TableBlock': ['Row'],
    'Row': ['Cell'],
    'Cell': ['TextBlock', 'TableBlock', 'ImageBlock'],
    'TextBlock': ['Line'],
    'Line': ['TextSpan', 'ImageSpan'],
    'TextSpan': ['Char'],
}


def selfcls(q, ctx):
    s = ctx.selfatom
    if s is None or s[0] != 'o': return None
    o = q.I.objs[s[1]]
    return o.cls.rsplit('.', 1)[-1] if o is not None and o.kind == 'inst' else None


def load(q):
    '''stored dicts reachable from the stored layout: {class: {dict id}}, {dict id: {key: Value}}'''
    made, rets = {}, {}
    for e in q.events('return'):
        if e.val is not None: rets.setdefault(e.ctx.id, []).append(e)
    for ctx in q.a.ctxs:
        c = selfcls(q, ctx)
        if c is None: continue
        for e in rets.get(ctx.id, ()):
            for a in e.val.atoms:
                if a[0] == 'o' and q.I.objs[a[1]] is not None and q.I.objs[a[1]].kind == 'dict': made.setdefault(a[1], {}).setdefault(c, []).append(ctx)
    return made


def items_of(q, oid): return [(f, q.I.peek(oid, f)) for f in q.I._fields.get(oid, ())]


def inner(q, v, depth=0, seen=None):
    '''dicts in a value'''
    seen = set() if seen is None else seen
    out = set()
    for a in (v.atoms if v is not None else ()):
        if a in seen: continue
        seen.add(a)
        if a[0] == 't':
            for x in a[1]: out |= inner(q, x, depth, seen)
        if a[0] != 'o' or q.I.objs[a[1]] is None: continue
        k = q.I.objs[a[1]].kind
        if k == 'dict': out.add(a[1])
        elif k in ('list', 'tuple', 'set'):
            for _, x in items_of(q, a[1]): out |= inner(q, x, depth + 1, seen)
    return out


def entries(q, cls, reach, made):
    '''{key: [(event, value)]} of the stored dicts of this class'''
    ids = {d for d in reach if cls in made.get(d, {})}
    out = {}
    for e, k, v in q.keysets():
        if selfcls(q, e.ctx) == cls and q.prog is not None and any(e.ctx in made[d][cls] or e.ctx.id in q.subtree(made[d][cls]) for d in ids):
            out.setdefault(k, []).append((e, v))
    return ids, out


def leaf_of(raw, part=None):
    def leaf(t, env):
        if part is not None and t[0] == 'new': return part
        if t[0] == 'ix' and (t[1][0] == 'seq' or isinstance(t[2], tuple) and t[2][0] == 'it' and not t_has(t[1], lambda x: x == ('s', 'self'))): return raw
        if t[0] == 's' and t[1] not in ('self', 'up1', 'up2'): return raw
        if t[0] == 'fn' and t[1] == 're.sub' and len(t) == 5 and t[2][0] == 'c' and t[3] == ('c', ''):
            import re
            s = ev(t[4], env)
            if isinstance(s, str): return re.sub(t[2][1], '', s)
        return None
    return leaf


def plain(v):
    '''as it comes back from a json file'''
    try: return json.loads(json.dumps(v))
    except TypeError: return None if v is None else _bad(v)


class NotStorable(Exception): pass


def _bad(v): raise NotStorable(f'{show(v)} cannot be written to a json file')


def self_leaf(fields):
    '''properties that return a field under another name'''
    def leaf(t, env):
        if t[0] in ('ld', 'at') and t[1] == ('s', 'self') and isinstance(t[2], str) and t[2] not in fields and '_' + t[2] in fields: return fields['_' + t[2]]
        return None
    return leaf


def check(q, rep):
    made = load(q)
    roots = {d for d, cs in made.items() if 'Converter' in cs and any(q.is_func(c.fi, 'Converter.store') for c in cs['Converter'])}
    if not roots:
        rep.skip('Converter.store not found')
        return
    reach, todo, links = set(roots), list(roots), {}
    while todo:
        d = todo.pop()
        for f, v in items_of(q, d):
            if f == '#k': continue
            for x in inner(q, v):
                links.setdefault(d, {}).setdefault(x, set()).add(f[1] if isinstance(f, tuple) and f[0] == 'k' else f)
                if x not in reach:
                    reach.add(x)
                    todo.append(x)
    stored(q, rep, made, reach, links)
    fields(q, rep, made, reach)
    every_part(q, rep, made, reach)
    dispatch(q, rep)
    spans(q, rep)


def stored(q, rep, made, reach, links):
    rep.rule('parts', 'The stored layout contains the stored form of every kind of part, inside the stored form of the object it belongs to, and restoring builds the part from the same key.')
    of = lambda cls: {d for d in reach if cls in made.get(d, {})}
    for owner, parts in PARTS.items():
        own = of(owner)
        if not own: continue
        for part in parts:
            if not any(c.rsplit('.', 1)[-1] == part for c in q.prog.classes): continue
            ds = of(part)
            keys = {k for d in own for x in links.get(d, {}) if x in ds for k in links[d][x]}
            fn = next((f for f in q.prog.funcs if q.is_func(f, f'{owner}.store')), None)
            where = q.where(fn.node) if fn is not None else owner
            if not keys:
                rep.bad(f'stored {part} in {owner}', where, f'the stored form of a {owner} does not contain its {part} parts', absent=True)
                continue
            rep.ok(f'{owner} stores {part} under {sorted(map(str, keys))}')
            # restored from this key
            evs = [e for e in list(q.calls(f'{part}.__init__')) + list(q.calls(f'{part}.restore')) if any(a[0] == 'r' and a[1] == 'json' for v in e.args[1:] for a in v.atoms)]
            if not evs:
                ctxs = q.contexts(f'{part}.__init__') or q.contexts(f'{part}.restore')
                evs2 = [e for e in q.events('rawread') if str(e.name).startswith('json:') and selfcls(q, e.ctx) == part]
                if evs2: rep.ok(f'{part} restored')
                elif q.contexts('Converter.restore'): rep.bad(f'restored {part}', where, f'no {part} is built from a stored layout', absent=True)
                else: rep.skip('Converter.restore not found')
                continue
            got = {a[2] for e in evs for v in e.args[1:] for a in v.atoms if a[0] == 'r' and a[1] == 'json'}
            if keys & got: rep.ok(f'{part} of {owner} restored from {sorted(map(str, keys & got))}')
            elif '' in got: rep.skip(f'{part} of {owner}: restored from an unknown key')
            else: rep.bad(f'restored {part} in {owner}', q.at(evs[0]), f'{part} parts are stored under {sorted(map(str, keys))} but restored from {sorted(map(str, got))}')


def deep(q, v, depth=0):
    '''labels of a value and of what it holds'''
    out = set(v.labels)
    for a in v.atoms:
        if depth < 2 and a[0] == 'o' and q.I.objs[a[1]] is not None and q.I.objs[a[1]].kind in ('list', 'tuple'):
            for _, x in items_of(q, a[1]):
                if x is not None: out |= deep(q, x, depth + 1)
        elif depth < 2 and a[0] == 't':
            for x in a[1]:
                if x is not None: out |= deep(q, x, depth + 1)
    return frozenset(out)


def inits(q, cls, field):
    out = []
    for e in q.events('write', name=f'{cls}.{field}'):
        if e.val is None or not any(l[0] == 'R' and l[1] == 'json' for l in q.origins(deep(q, e.val), control=True)): continue
        if q.is_func(e.ctx.fi, '__init__') or q.is_func(e.ctx.fi, f'{cls}.restore'): out.append(e)
    out = [e for e in out if one(e.val) is None or t_has(one(e.val), lambda x: x[:1] == ('it',) or x[:1] == ('s',) and x[1] not in ('self', 'up1', 'up2'))] or out
    direct = [e for e in out if any(l[0] == 'R' and l[1] == 'json' for l in deep(q, e.val))]
    control = [e for e in out if any(l[0] == 'C' and l[1][:2] == ('R', 'json') for l in deep(q, e.val))]
    return direct or control or out


def fields(q, rep, made, reach):
    rep.rule('fields', 'For every field the output depends on, composing the expression that stores it with the expression that restores it yields the field again, for sample values.')
    for cls, samples in FIELDS.items():
        full = next((c for c in q.prog.classes if c.rsplit('.', 1)[-1] == cls), None)
        if full is None: continue
        ids, ent = entries(q, cls, reach, made)
        if not ids: continue
        have = set()
        for d in ids: have |= {f[1] for f in q.I._fields.get(d, ()) if isinstance(f, tuple) and f[0] == 'k'}
        if any(f == '*' for d in ids for f in q.I._fields.get(d, ())):
            rep.skip(f'{cls}: keys of the stored form')
            continue
        for field, values in samples.items():
            writes = [e for e in q.events('write', name=f'{cls}.{field}')]
            if not writes:
                rep.skip(f'{cls}.{field}: no such field')
                continue
            if not inits(q, cls, field):
                rep.bad(f'{cls}.{field} restored', q.at(writes[0]), f'{cls}.{field} is not restored from a stored layout', absent=True)
                continue
            for e in inits(q, cls, field): one_field(q, rep, cls, full, field, values, e, ent, have)
        if cls in BBOX:
            for be, v in ent.get('bbox', ()):
                box = (10.25, 20.5, 30.75, 45.125)
                try: got = ev(one(v), {('s', 'self'): Obj({'bbox': box})}) if one(v) is not None else None
                except (Unknown, Raises): continue
                if isinstance(got, (list, tuple)) and not same(got, box): rep.bad(f'{cls}.bbox', q.at(be), f'the position {box} of a {cls} is stored as {show(got)}')
            if 'bbox' in have or any(('F', cls, 'bbox') in v.labels for k in ent for _, v in ent[k]): rep.ok(f'{cls}.bbox stored')
            else: rep.bad(f'{cls}.bbox stored', cls, f'the position of a {cls} is not stored', absent=True)


def one_field(q, rep, cls, full, field, values, e, ent, have):
    t = one(e.val)
    keys = {l[2] for l in q.origins(deep(q, e.val), control=True) if l[0] == 'R' and l[1] == 'json'}
    name = f'{cls}.{field}'
    unknown = None
    for value in values:
        rest = {f: vs[0] for f, vs in FIELDS[cls].items()}
        rest[field] = value
        obj = kind(q, full, **rest)
        if '_font' in rest: obj['font'] = rest['_font']
        env = {('s', 'self'): obj, LEAF: self_leaf(rest)}
        raw, missing = {}, set()
        for k in have:
            vs = [v for _, v in ent.get(k, ())]
            got = []
            for v in vs:
                s = one(v)
                try:
                    if s is None: raise Unknown(k)
                    got.append(ev(s, env))
                except Unknown: missing.add(k)
                except Raises as x:
                    if ('F', cls, field) in v.labels:
                        rep.bad(name, q.at(ent[k][0][0]), f'storing {name} = {show(value)} fails ({x})')
                        return
                    missing.add(k)
            if not vs: missing.add(k)
            if k not in missing and got and all(g == got[0] for g in got): raw[k] = got[0]
            else: missing.add(k)
        try:
            raw = {k: plain(v) for k, v in raw.items()}
        except NotStorable as x:
            if any(('F', cls, field) in v.labels for k in ent for _, v in ent[k]):
                rep.bad(name, q.at(e), f'{name} = {show(value)}: {x}')
                return
        try:
            if t is None: raise Unknown(name)
            known = Obj(raw)
            back = ev(t, {LEAF: leaf_of(Missing(known, missing)), ('ld', ('k', 'Element'), 'ROTATION_MATRIX'): (1.0, 0.0, 0.0, 1.0, 0.0, 0.0)})
        except Unknown as x:
            unknown = x
            continue
        except Raises as x:
            rep.bad(name, q.at(e), f'restoring {name} = {show(value)} fails ({x})')
            return
        if not same(back, value):
            rep.bad(name, q.at(e), f'{name} = {show(value)} is {show(back)} after it was stored and restored')
            return
    if unknown is None:
        rep.ok(f'{name} survives')
        return
    # two values must not be stored alike
    alike(q, rep, cls, full, field, values, e, ent, keys)
    # which key it comes from
    if not keys & (have | {''}) and keys:
        rep.bad(name, q.at(e), f'{name} is restored from {sorted(keys)}, which is never stored')
        return
    srcs = {k for k in have for _, v in ent.get(k, ()) if any(l == ('F', cls, field) or l == ('F', cls, field.lstrip('_')) for l in q.origins(v.labels, control=True))}
    if srcs and keys and not srcs & keys and all(one(v) is not None for k in keys & set(ent) for _, v in ent[k]) and '' not in keys and not keys & {'blocks', 'rows', 'cells', 'lines', 'spans', 'chars'}:
        rep.bad(name, q.at(e), f'{name} is stored under {sorted(srcs)} but restored from {sorted(keys)}')
    else: rep.skip(f'{name}: {str(unknown)[:80]}')


def alike(q, rep, cls, full, field, values, e, ent, keys):
    '''how the field is restored is not known, but two values stored alike cannot be told apart'''
    if len(values) < 2: return
    seen = {}
    for value in values:
        rest = {f: vs[0] for f, vs in FIELDS[cls].items()}
        rest[field] = value
        obj = kind(q, full, **rest)
        if '_font' in rest: obj['font'] = rest['_font']
        out = {}
        for k in keys & set(ent):
            for _, v in ent[k]:
                if not any(l == ('F', cls, field) for l in v.labels): continue
                s = one(v)
                if s is None: return
                try: out[k] = ev(s, {('s', 'self'): obj, LEAF: self_leaf(rest)})
                except (Unknown, Raises): return
        if not out: return
        key = repr(sorted(out.items()))
        if key in seen and seen[key] != value:
            rep.bad(f'{cls}.{field} stored', q.at(ent[sorted(out)[0]][0][0]), f'{cls}.{field} = {show(seen[key])} and {show(value)} are both stored as {show(out)}')
            return
        seen[key] = value


def store_leaf(part):
    def leaf(t, env):
        if t[0] == 'res' and str(t[2]).startswith('store'): return ev(t[3], env)
        if t[0] == 'res' and len(t) == 4 and isinstance(t[3], tuple):
            try: o = ev(t[3], env)
            except (Unknown, Raises): return None
            return o.get(t[2]) if isinstance(o, Obj) else None
        if t[0] == 'disp' and all(x[0] == 'unk' or x[0] == 'res' and str(x[2]).startswith('store') for _, x in t[2]): return ev(t[1], env)
        if t[0] == 'ld' and t[1] == ('s', 'self') and t[2] not in ('finalized', '_finalized'): return part
        return None
    return leaf


def samples(q, part):
    full = next((c for c in q.prog.classes if c.rsplit('.', 1)[-1] == part), None)
    if full is None: return None
    out = []
    for i in range(3):
        r = kind(q, full, n=i, **{f: vs[i % len(vs)] for f, vs in FIELDS.get(part, {}).items()})
        r['_finalized'] = r['finalized'] = True
        r['bbox'] = Obj({0: 8.5 - 4 * i, 1: 5.0, 2: 9.0, 3: 5.0 + i, 'x0': 8.5 - 4 * i, 'y0': 5.0, 'x1': 9.0, 'y1': 5.0 + i, 'width': 0.5 + 4 * i, 'height': 1.0 * i, 'is_empty': i == 0})
        if part in TYPES:
            enum = next((c for c in q.prog.classes if c.rsplit('.', 1)[-1] == 'BlockType'), None)
            if enum is not None: r['_type'] = f'{enum}.{TYPES[part][i % len(TYPES[part])]}'
        if part in ('TextSpan', 'Line', 'TextBlock'): r['text'] = ('a', ' ', '')[i]
        if part == 'Cell': r['__iter__'] = [[1], [1], []][i]
        out.append(r)
    return out


def every_part(q, rep, made, reach):
    rep.rule('every', 'All parts are stored in their order, and all stored parts are restored in their order: no loop over parts leaves one out.')
    # storing
    evs = []
    for ctx in q.a.ctxs:
        if not ctx.fi.qual.rsplit('.', 1)[-1].startswith('store'): continue
        evs += [(e, e.val) for e in q.events('return') if e.ctx is ctx and e.val is not None]
    evs += [(e, v) for e, k, v in q.keysets() if e.ctx.fi.qual.rsplit('.', 1)[-1].startswith('store')]
    for e, v in evs:
        t = one(v)
        if t is None or t[0] not in ('map', 'filter') or not t_has(t, lambda x: x[:1] == ('res',) and len(x) > 2 and str(x[2]).startswith('store')): continue
        parts = sorted({c for d in inner(q, v) for c in made.get(d, {})} & set(p for ps in PARTS.values() for p in ps))
        ok = None
        for part in parts:
            xs = samples(q, part)
            if xs is None: continue
            try: got = ev(t, {('s', 'self'): Obj({}), LEAF: store_leaf(collection(*xs))})
            except Unknown: continue
            except Raises: continue
            if not isinstance(got, list): continue
            ids = [x.get('n') if isinstance(x, Obj) else None for x in got]
            if ids == [0, 1, 2]: ok = True
            else:
                rep.bad(f'every {part} stored', q.at(e), f'of three {part} parts {ids} are stored')
                ok = False
                break
        if ok: rep.ok(f'all of {parts} stored at {q.where(e.node)}')
        elif ok is None: rep.skip(f'parts stored at {q.where(e.node)}')
    # nothing returned
    for e in q.events('return'):
        c = selfcls(q, e.ctx)
        if c not in ALLPARTS or e.val is None or any(a[0] != 'c' for a in e.val.atoms) or not e.ctx.fi.qual.rsplit('.', 1)[-1].startswith('store') or e.ctx.fi.qual.rsplit('.', 1)[-1] == 'store_image': continue
        xs = samples(q, c)
        for x in xs or ():
            if c == 'Cell' and not x['__iter__']: continue
            try: on = all(truth(ev(one_fact(f), {('s', 'self'): x})) == f.pol for f in e.facts if one_fact(f) is not None)
            except (Unknown, Raises): continue
            if on: rep.bad(f'{c} stored', q.at(e), f'a {c} is stored as {show(one(e.val))}: {show({k: v for k, v in x.items() if not k.startswith("__")})}')
    # restoring
    inside = q.subtree(q.contexts('Converter.restore'))
    for part in sorted(set(p for ps in PARTS.values() for p in ps)):
        full = next((c for c in q.prog.classes if c.rsplit('.', 1)[-1] == part), None)
        raws = [Obj({f.lstrip('_'): plain(vs[i % len(vs)]) for f, vs in FIELDS.get(part, {}).items() if f != 'image'}) for i in range(3)]
        for r in raws: r['bbox'] = [1.0, 2.0, 3.0, 2.0]
        sinks = []
        for e in list(q.calls(f'{part}.__init__')) + list(q.calls(f'{part}.restore')):
            if e.ctx.id in inside and any(a[0] == 'r' and a[1] == 'json' for v in e.args[1:] for a in v.atoms): sinks.append(e)
        for e in q.events('call'):
            if e.ctx.id in inside and e.name.endswith('.append') and len(e.args) > 1 and any(f[0] == 'loop' for f in e.frames):
                if any(a[0] == 'o' and q.I.objs[a[1]] is not None and q.I.objs[a[1]].kind == 'inst' and q.I.objs[a[1]].cls == full for a in e.args[1].atoms) and q.is_func(e.ctx.fi, 'restore'): sinks.append(e)
        if part in TYPES: sinks = [e for e in sinks if e.name.endswith('.append')]
        for e in sinks:
            loops = [f for f in e.frames if f[0] == 'loop']
            if not loops: continue
            # no element is left out by the loop
            for t in (loops[-1][2].terms or ()):
                key = list_key(t)
                if key is None: continue
                try: got = ev(t, {LEAF: lambda x, env, key=key: [10, 11, 12] if x == key else None})
                except (Unknown, Raises): continue
                if isinstance(got, list) and got != [10, 11, 12] and all(isinstance(x, int) for x in got):
                    rep.bad(f'every {part} restored', q.at(e), f'of three stored {part} parts only numbers {[x - 10 for x in got]} are restored')
                elif got == [10, 11, 12]: rep.ok(f'all {part} parts visited')
            if part in TYPES or part in ('TextSpan', 'ImageSpan'): continue
            for r, o in zip(raws, samples(q, part)):
                if part == 'Cell' and not o['__iter__']: r['__iter__'] = []
                try: on = active(q, e, r, o)
                except Unknown:
                    rep.skip(f'{part} restored')
                    break
                if not on:
                    rep.bad(f'every {part} restored', q.at(e), f'a stored {part} is left out when the layout is restored: {show(dict(r))}')
                    break
            else: rep.ok(f'every {part} restored')


ALLPARTS = {p for ps in PARTS.values() for p in ps}


def one_fact(f): return next(iter(f.terms)) if f.terms is not None and len(f.terms) == 1 else None


def list_key(t):
    '''key of the list a loop goes through: the outermost constant key of its term'''
    if not isinstance(t, tuple): return None
    if len(t) == 3 and t[0] == 'ix' and isinstance(t[2], tuple) and t[2][:1] == ('c',) and isinstance(t[2][1], str): return t
    for y in t:
        k = list_key(y)
        if k is not None: return k
    return None


class Missing(Obj):
    '''a stored dict some of whose values are not known'''
    def __init__(self, known, missing):
        super().__init__(known)
        self.missing = missing

    def __getitem__(self, k):
        if k in self.missing: raise Unknown(k)
        return super().__getitem__(k)

    def __contains__(self, k):
        if k in self.missing: raise Unknown(k)
        return super().__contains__(k)


def same(a, b):
    norm = lambda v: [norm(x) for x in v] if isinstance(v, (list, tuple)) else {k: norm(x) for k, x in v.items()} if isinstance(v, dict) and not isinstance(v, Obj) else v
    a, b = norm(a), norm(b)
    return a == b or near(a, b)


def active(q, e, raw, part=None):
    '''whether the tests around an event hold for this stored part; Unknown'''
    import ast
    for f in e.facts:
        if not (isinstance(f.node, ast.expr) and f.nid == f.node._id): continue
        t = next(iter(f.terms)) if f.terms is not None and len(f.terms) == 1 else None
        if t is None:
            if any(l[0] == 'R' and l[1] == 'json' for l in q.origins(f.labels, control=True)): raise Unknown('test')
            continue
        try:
            if truth(ev(t, {LEAF: leaf_of(raw, part)})) != f.pol: return False
        except Raises: return False
    return True


KINDS = {'TEXT': 'TextBlock', 'IMAGE': 'ImageBlock', 'FLOAT_IMAGE': 'ImageBlock', 'LATTICE_TABLE': 'TableBlock', 'STREAM_TABLE': 'TableBlock'}


def dispatch(q, rep):
    rep.rule('kinds', 'For every type number a block is stored with, restoring builds the class of the block and marks it with the same type.')
    enum = next((c for c in q.prog.classes if c.rsplit('.', 1)[-1] == 'BlockType'), None)
    if enum is None:
        rep.skip('BlockType not found')
        return
    members = q.I.enum_members.get(enum, {})
    numbers = {}
    for n, v in members.items():
        x = v if isinstance(v, int) else None
        if x is None and hasattr(v, 'atoms'):
            c = [a[1] for a in v.atoms if a[0] == 'c']
            x = c[0] if len(c) == 1 else None
        numbers[n] = x
    ctxs = [c for c in q.contexts('Blocks.restore') if c.id in q.subtree(q.contexts('Converter.restore'))]
    for n, cls in KINDS.items():
        if numbers.get(n) is None: continue
        raw = Obj({'type': numbers[n], 'bbox': (0, 0, 9, 9)})
        for ctx in ctxs:
            sub = {ctx.id}
            evs = [e for c in sorted(set(KINDS.values())) for e in q.calls(f'{c}.__init__') if e.ctx.id in sub and len(e.args) > 1]
            if not evs: continue
            try: got = [(selfname(q, e), e) for e in evs if active(q, e, raw)]
            except Unknown:
                rep.skip(f'type {n}')
                continue
            names = {x for x, _ in got}
            if not names: rep.bad(f'{n} restored', q.where(ctx.fi.node), f'a stored block of type {n} is dropped when the layout is restored')
            elif names != {cls}: rep.bad(f'{n} restored', q.at(got[0][1]), f'a stored block of type {n} is restored as {sorted(names)} instead of {cls}')
            else: rep.ok(f'{n} restored as {cls}')
            # type of the new block
            marks = {'STREAM_TABLE': 'set_stream_table_block', 'FLOAT_IMAGE': 'set_float_image_block'}
            setters = [e for m in set(marks.values()) | {'set_lattice_table_block', 'set_inline_image_block', 'set_text_block'} for e in q.calls(f'Block.{m}') if e.ctx.id in sub]
            try: done = {e.name.rsplit('.', 1)[-1] for e in setters if active(q, e, raw)}
            except Unknown: continue
            final = end_type(q, cls, n, done, numbers)
            if final is None: rep.skip(f'type of restored {n}')
            elif final != n and not (n == 'IMAGE'): rep.bad(f'{n} type', q.where(ctx.fi.node), f'a stored block of type {n} is of type {final} after it was restored')
            else: rep.ok(f'{n} keeps its type')


def end_type(q, cls, n, done, numbers):
    '''type of a new block of this class after these setters'''
    first = set()
    for e in q.events('write', name=f'{cls}._type'):
        if q.is_func(e.ctx.fi, '__init__') or any(q.is_func(c.fi, '__init__') for x in (e,) for c in callers_of(q, x)):
            first |= {member(a) for a in e.val.atoms}
    base = {'TextBlock': 'TEXT', 'ImageBlock': 'IMAGE', 'TableBlock': 'LATTICE_TABLE'}[cls]
    by = {'set_stream_table_block': 'STREAM_TABLE', 'set_float_image_block': 'FLOAT_IMAGE', 'set_lattice_table_block': 'LATTICE_TABLE', 'set_inline_image_block': 'IMAGE', 'set_text_block': 'TEXT'}
    if len(done) > 1: return None
    return by[next(iter(done))] if done else base


def callers_of(q, e): return [c.ctx for c in q.callers().get(e.ctx.id, ())] if callable(getattr(q, 'callers', None)) else [c.ctx for c in q.callers.get(e.ctx.id, ())]


def member(a): return str(a[1]).rsplit('.', 1)[-1] if a[0] == 'c' else None


def selfname(q, e): return e.name.rsplit('.', 2)[-2] if e.name.endswith('.__init__') else e.name


def spans(q, rep):
    rep.rule('spans', 'A stored span with an image is restored as an image span, any other one as a text span.')
    ctxs = q.contexts('Spans.restore')
    for raw, cls in ((Obj({'bbox': (0, 0, 9, 9), 'image': 'aGk=', 'ext': 'png', 'width': 3.0, 'height': 3.0}), 'ImageSpan'),
                     (Obj({'bbox': (0, 0, 9, 9), 'chars': [], 'text': '', 'font': 'Arial', 'size': 10.0, 'flags': 0, 'color': 0, 'style': []}), 'TextSpan')):
        for ctx in ctxs:
            evs = [(c, e) for c in ('ImageSpan', 'TextSpan') for e in list(q.calls(f'{c}.__init__')) + list(q.calls('Image.__init__') if c == 'ImageSpan' else ()) if e.ctx.id == ctx.id and len(e.args) > 1]
            if not evs: continue
            try: got = {c for c, e in evs if active(q, e, raw)}
            except Unknown:
                rep.skip(f'restored {cls}')
                continue
            if got != {cls}: rep.bad(f'{cls} restored', q.at(evs[0][1]), f'a stored {cls} is restored as {sorted(got)}')
            else: rep.ok(f'{cls} restored')
