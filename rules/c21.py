'''C21: page rotation is applied exactly once to everything on the page.'''

from pdfai.terms import ev, Unknown, Raises, LEAF
from pdfai.values import one
from .contract import near, show

PAGES = [('0', [1.0, 0.0, 0.0, 1.0, 0.0, 0.0]), ('90', [0.0, 1.0, -1.0, 0.0, 842.0, 0.0]), ('180', [-1.0, 0.0, 0.0, -1.0, 595.0, 842.0]), ('270', [0.0, -1.0, 1.0, 0.0, 0.0, 595.0])]
ROT = {('X', 'fitz.Page.rotationMatrix'), ('X', 'fitz.Page.rotation_matrix')}
DEROT = {('X', 'fitz.Page.derotationMatrix'), ('X', 'fitz.Page.derotation_matrix')}


def inverse(m): return ev(('fn', 'minv', ('c', tuple(m))), {})


def check(q, rep):
    fields = matrix_fields(q)
    if not fields:
        rep.rule('set', 'The matrix of the rotation is kept for the elements created from the page.')
        raw = [e for e in q.events('xmul') if any(l[0] == 'R' and l[2] == 'bbox' for l in e.args[0].labels) and not any(l[0] == 'F' for l in direct(e.args[1]))]
        if any(e for e in raw if not q.is_func(e.ctx.fi, '_preprocess_shapes')): return rep.skip('no class attribute holds the rotation of a page')
        return rep.bad('none', 'pdf2docx', 'the rotation of the page is not kept for the elements created from it', absent=True)
    once(q, rep, fields)
    applied(q, rep, fields)
    when_set(q, rep, fields)


def direct(v): return {l for l in v.labels if l[0] != 'C'}


def matrix(v):
    '''six numbers'''
    if isinstance(v, str) and v.endswith('Identity'): return [1.0, 0.0, 0.0, 1.0, 0.0, 0.0]
    v = list(v) if isinstance(v, (list, tuple)) else None
    if v is not None and len(v) == 2: v = [v[0], 0.0, 0.0, v[1], 0.0, 0.0]
    if v is None or len(v) != 6 or not all(isinstance(x, (int, float)) for x in v): raise Unknown('matrix')
    return v


def inverted(b, fields):
    '''whether the matrix is the inverse one, from its value'''
    t = one(b)
    try: v = matrix(ev(t, env_for(PAGES[1][1], fields))) if t is not None else None
    except (Unknown, Raises, TypeError): return False
    return v is not None and near(v, inverse(PAGES[1][1]))


def matrix_fields(q):
    '''(class, attribute) holding the rotation of the page'''
    out = set()
    for e in q.events('classset'):
        if e.val is not None and any(l in ROT or l in DEROT for l in q.origins(e.val.labels)): out.add(tuple(e.name.rsplit('.', 1)))
    return out


def holds(labels, fields): return any(l[0] == 'F' and l[2] in {f for _, f in fields} for l in labels) or bool(ROT & labels)


def env_for(m, fields):
    def leaf(t, env):
        if t[0] == 'ld' and any(t[2] == f for _, f in fields): return list(m)
        if t[0] == 'at' and t[2] in ('rotationMatrix', 'rotation_matrix'): return list(m)
        if t[0] == 'at' and t[2] in ('derotationMatrix', 'derotation_matrix'): return inverse(m)
        return None
    return {LEAF: leaf}


def displayed(q, labels):
    '''coordinates of the page as displayed'''
    return any(l[0] == 'F' and l[2].endswith('bbox') or l[0] == 'X' and (l[1].startswith('cv2.') or l[1].lower().replace('_', '') in ('fitz.page.getimagebbox', 'fitz.page.getdrawings')) or
               l[0] == 'R' and l[1] in ('draw', 'links') for l in labels)


def once(q, rep, fields):
    rep.rule('once', 'Every multiplication of coordinates by the rotation matrix (kept or of the page) has source coordinates as operand that were not multiplied before, '
             'and every one by its inverse displayed coordinates; directions are turned by the same matrix without the shift.')
    n = 0
    for e in q.events('xmul'):
        a, b = e.args
        la, lb = direct(a), direct(b)
        rot, derot = holds(lb, fields), bool(DEROT & lb)
        if not rot and not derot: continue
        if rot and inverted(b, fields): rot, derot = False, True
        elif derot and not rot and inverted(b, fields) is False and one(b) is not None and ('minv' in repr(one(b))): continue
        n += 1
        where, key = q.at(e), q.at(e).split(' ')[-1]
        source = any(l[0] == 'R' and l[1] in ('raw', 'json', 'img') for l in la)
        back = bool(DEROT & la)
        if rot and holds(la, fields) and not back: rep.bad(key, where, 'coordinates already turned are turned again')
        elif rot and not derot and displayed(q, la) and not source and not back: rep.bad(key, where, 'coordinates of the page as displayed are turned again')
        elif derot and not rot and back: rep.bad(key, where, 'coordinates already turned back are turned back again')
        elif derot and not rot and source and not displayed(q, la): rep.bad(key, where, 'source coordinates are turned back')
        else:
            turn = any(x == ('xo', 'fitz.Point') for x in a.atoms) and any(l[0] == 'R' and l[2] == 'dir' for l in la)
            t = one(b)
            try:
                if t is None: raise Unknown('matrix')
                for name, m in PAGES:
                    got = matrix(ev(t, env_for(m, fields)))
                    want = list(m) if rot else inverse(m)
                    if turn: want = want[:4] + [0.0, 0.0]
                    if not near(got, want):
                        rep.bad(key, where, f'{"directions" if turn else "coordinates"} are turned by {show(got)} instead of {show(want)} on a page with rotation {name}')
                        break
                else: rep.ok(f'{where}')
            except (Unknown, Raises, TypeError) as u: rep.skip(f'{where}: {u}')
    if not n: rep.bad('none', 'pdf2docx', 'no coordinates are turned by the rotation of the page', absent=True)


def shape_class(q, c):
    a = c.selfatom
    if a is None or a[0] != 'o': return None
    o = q.I.objs[a[1]]
    if o.kind != 'inst': return None
    return any(c.rsplit('.', 1)[-1] == 'Shape' for c in map(str, q.I.mro(o.cls))), o.cls.rsplit('.', 1)[-1]


def applied(q, rep, fields):
    rep.rule('applied', 'The box of every element created from source data with a box is turned by the rotation matrix, that of a shape (already as displayed) is not; text directions are '
             'turned, and boxes of extracted pictures are turned back to source coordinates before.')
    n = 0
    for e in q.events('write'):
        f = e.name.rsplit('.', 1)[-1]
        labs = direct(e.val)
        if f == 'bbox':
            s = shape_class(q, e.ctx)
            if s is None: continue
            if not any(l[0] == 'R' and l[1] in ('raw', 'json', 'img') and l[2] == 'bbox' for l in labs) and not (s[0] and holds(labs, fields)): continue
            n += 1
            if s[0]: rep.tri(not holds(labs, fields), f'{s[1]}.bbox', q.at(e), f'the box of a {s[1]} is turned although shapes are given as displayed', s[1])
            else: rep.tri(holds(labs, fields), f'{s[1]}.bbox', q.at(e), f'the box of a {s[1]} is taken from the source without regard to the rotation of the page', s[1])
        elif f == 'dir':
            labs = set(labs)
            for a in e.val.atoms:
                if a[0] == 'o' and q.I.objs[a[1]].kind == 'list': labs |= direct(q.I.all_elements(a[1]))
            if not any(l[0] == 'R' and l[2] == 'dir' for l in labs): continue
            n += 1
            rep.tri(holds(labs, fields), e.name, q.at(e), 'the direction of a text line is taken from the source without regard to the rotation of the page', e.name)
    for e in q.events('mutate'):
        if e.name not in ('append', 'extend', 'insert', '+=') or e.recv is None: continue
        have = [q.I.all_elements(a[1]) for a in e.recv.atoms if a[0] == 'o' and q.I.objs[a[1]].kind == 'list']
        if not any(x == ('xo', 'fitz.Rect') for v in have for x in v.atoms): continue
        for v in e.args:
            for w in [v] + [q.I.all_elements(a[1]) for a in v.atoms if a[0] == 'o' and q.I.objs[a[1]].kind == 'list']:
                if not any(x == ('xo', 'fitz.Rect') for x in w.atoms): continue
                labs = direct(w)
                if not any(l[0] == 'R' and l[1] in ('raw', 'img') and l[2] == 'bbox' for l in labs): continue
                n += 1
                rep.tri(holds(labs, fields), 'list', q.at(e), 'boxes in source coordinates are put into a list of displayed ones', q.at(e))
    for e, k, v in q.keysets():
        if k != 'bbox': continue
        o = {l for l in direct(v)}
        if not any(l[0] == 'X' and l[1].lower().replace('_', '') in ('fitz.page.getimagebbox',) or l[0] == 'X' and l[1].startswith('cv2.') for l in q.origins(v.labels)): continue
        if any(l[0] == 'F' and l[2] == 'bbox' and l[1] in blocks(q) for l in o): continue
        if holds(q.origins(v.labels) , fields): continue
        n += 1
        rep.tri(bool((DEROT | ROT) & o), 'image', q.at(e), 'the box of a picture is given as displayed where source coordinates are expected', q.at(e))
    if not n: rep.skip('no boxes from source data')


def blocks(q): return {e.name.rsplit('.', 1)[0] for e in q.events('write') if e.name.endswith('.bbox')} - {'Element'}


def when_set(q, rep, fields):
    rep.rule('set', 'On every path from the start of the parsing of a page to the creation of an element from source data the matrix is set before, to the rotation of this very page; on every path '
             'from the start of the restoring of a layout it is set before to the one without rotation.')
    sets = [e for e in q.events('classset') if tuple(e.name.rsplit('.', 1)) in fields]
    setters = {('start', e.ctx.fi.qual) for e in sets}
    marks = {('w', c, f, None) for c, f in fields}
    using = {e.ctx.id for e in q.events('xmul') if any(l[0] == 'F' and l[2] in {f for _, f in fields} for l in e.args[1].labels)}
    for what, anchor, pages in (('parsing', 'Page.parse', PAGES), ('restoring', 'Converter.restore', PAGES)):
        ctxs = q.contexts(anchor)
        if not ctxs:
            rep.skip(f'no {anchor}')
            continue
        sub = q.subtree(ctxs)
        mine = [e for e in sets if e.ctx.id in sub]
        bad = unset(q, ctxs, passed_on(q, sub, setters | marks), using)
        if bad: rep.bad(what, q.where(bad[-1].fi.node), f'{what}: elements are created in {bad[-1].fi.qual} although the rotation matrix may be that of another page (through {" - ".join(c.fi.qual for c in bad[-4:-1])})')
        else: rep.ok(f'{what}: matrix is set first')
        for e in mine:
            t = one(e.val)
            try:
                if t is None: raise Unknown('matrix')
                for name, m in PAGES:
                    got = matrix(ev(t, env_for(m, set())))
                    want = list(m) if what == 'parsing' else PAGES[0][1]
                    if not near(got, want):
                        rep.bad(f'{what}-value', q.at(e), f'{what}: the matrix is set to {show(got)} instead of {show(want)} for a page with rotation {name}')
                        break
                else:
                    rep.ok(f'{what}: value')
                    for f in [f for f in e.facts if hasattr(f.node, '_id') and f.nid == f.node._id]:
                        other = [l for l in f.labels if l[0] in ('X', 'R') and l not in e.val.labels]
                        if other: rep.bad(f'{what}-if', q.at(e), f'{what}: the matrix is only set depending on {other[0][1:]}')
            except (Unknown, Raises, TypeError) as u: rep.skip(f'{what}: {u}')


def nothing(q, v):
    return v is not None and all(a[0] == 'c' and not a[1] or a[0] == 'o' and q.I.objs[a[1]].kind in ('dict', 'list') and not [f for f in q.I._fields.get(a[1], ()) if f != '#k'] for a in v.atoms)


def passed_on(q, sub, marks):
    '''functions after which the matrix is set unless they return nothing'''
    by = {}
    for cid in sub:
        c = q.I.ctxs[cid]
        if c.evaluated: by.setdefault(c.fi.qual, []).append(c)
    while True:
        new = set()
        for qual, cs in by.items():
            if ('start', qual) in marks: continue
            if all(does(q, c, marks) for c in cs): new.add(('start', qual))
        if not new: return marks
        marks = marks | new


def does(q, c, marks):
    if c.must is not None and marks & set(c.must): return True
    rets = [e for e in c.events.values() if e.kind == 'return']
    return bool(rets) and all(nothing(q, e.val) or marks & set(e.must or ()) for e in rets) and not all(nothing(q, e.val) for e in rets)


def unset(q, start, marks, using):
    '''a path of calls to an element created before the matrix is set'''
    prev = {c.id: None for c in start}
    work = [c.id for c in start]
    while work:
        cid = work.pop(0)
        c = q.I.ctxs[cid]
        for e in c.events.values():
            if e.kind == 'xmul' and cid in using and not marks & set(e.must or ()):
                path = []
                while cid is not None:
                    path.append(q.I.ctxs[cid])
                    cid = prev[cid]
                return path[::-1]
            if e.kind != 'call' or marks & set(e.must or ()): continue
            for t in e.targets or ():
                if t in prev: continue
                if any(m == ('start', q.I.ctxs[t].fi.qual) for m in marks): continue
                prev[t] = cid
                work.append(t)
    return None
