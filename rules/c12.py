'''C12: links.'''

from pdfai.terms import Obj, Unknown, Raises, ev, LEAF
from pdfai.values import one
from .contract import contract, ANY
from .source import fields_from
from .shapes import kind, excluded, loop_element, same, bases
from .c11 import dom, chars, HIGHLIGHT, UNDERLINE, STRIKE, LINK
from .xml import const_arg, tag_of


def styles():
    link = {'type': LINK, 'color': 0, 'uri': 'http://X/?A=1&b=2#C '}
    u = {'type': UNDERLINE, 'color': 255}
    h = {'type': HIGHLIGHT, 'color': 0xFFFF00}
    s = {'type': STRIKE, 'color': 0}
    return [[], [u], [h, s], [link], [link, u], [u, link], [h, link, s], [h, u, link]]


def check(q, rep):
    written(q, rep)
    address(q, rep)
    kept(q, rep)
    apart(q, rep)
    applied(q, rep)


def written(q, rep):
    rep.rule('written', 'A span with a link is written as one external hyperlink with the address of the link and the text of the span, '
             'wherever the link is among its styles, a span without link as a plain run.')
    texts = [chars(t) for t in (['a'], ['a', ' ', 'b', 'c'], [' ', 'x'])]
    d = dom(chars=texts, style=styles())

    def uris(rec): return [s['uri'] for s in rec['style'] if s['type'] == LINK][:1]

    def text(rec): return ''.join(c['c'] for c in rec['chars'])

    def rel(effs, rec):
        out = []
        for e in effs:
            k = [a[1] for v in e.event.args for a in v.atoms if a[0] == 'x']
            if k and not any(str(x).endswith('HYPERLINK') for x in k): continue
            ext = e.arg(2, 'is_external')
            out.append((e.arg(0, 'target'), bool(ext)))
        return out
    contract(q, rep, 'relation', 'TextSpan.make_docx', [('ext', 'docx.Part.relate_to')], d, lambda rec: [(u, True) for u in uris(rec)], rel,
             'external relations created for a span (address, external)')

    def content(effs, rec):
        out = []
        for e in effs:
            if e.event.kind == 'extset': out.append(('link', e.val()))
            elif e.event.name == 'docx.Paragraph.add_run':
                t = e.arg(0, 'text')
                if t is not None: out.append(('run', t))
        return out
    contract(q, rep, 'content', 'TextSpan.make_docx', [('extset', 'oxml.text'), ('ext', 'docx.Paragraph.add_run')], d,
             lambda rec: [('link' if uris(rec) else 'run', text(rec))], content, 'text written for a span (linked or plain)')

    def ids(effs, rec): return [const_arg(e.event, 0) for e in effs if tag_of(e.event, 'set') == 'w:hyperlink' and const_arg(e.event, 0) == 'r:id']
    contract(q, rep, 'id', 'TextSpan.make_docx', [('ext', 'oxml()')], d, lambda rec: ['r:id' for u in uris(rec)], ids,
             'relation ids set at the hyperlinks of a span', keep=lambda e: tag_of(e, 'set') == 'w:hyperlink')


def address(q, rep):
    rep.rule('address', 'The address of a link is that of its annotation in the PDF, for every web link, up to the text.')
    samples = [{'uri': u, 'type': 7, 'bbox': (1.0, 2.0, 3.0, 4.0), 'color': 0} for u in ('http://a.b/c?d=e&f#g', 'mailto:x@y', 'HTTP://A%20b', '')]
    fields_from(q, rep, 'Hyperlink', {'uri': 'uri'}, samples, 'link:')
    n = 0
    for e, k, v in q.keysets():
        if k != 'uri': continue
        labs = set(v.labels)
        src = {l for l in labs if l[0] == 'R' and l[1] == 'links'}
        if src:
            n += 1
            t = one(v)
            want = Obj(kind=2, uri='http://X/?a=b#c ', **{'from': (1.0, 2.0, 3.0, 4.0)}, to=(0.0, 0.0), page=-1, xref=1, id='i', file='f')
            match = lambda x: isinstance(x, tuple) and (x[0] == 'ix' and x[2][0] == 'it' or x[0] == 's')
            x = excluded(e.facts, want, match)
            if x: rep.bad('web-link', q.at(e), 'web links are not taken')
            try:
                got = ev(t, {LEAF: lambda x, env: want if match(x) else None}) if t is not None else None
                if t is None: raise Unknown('value')
            except (Unknown, Raises):
                if ('R', 'links', 'uri') not in labs: rep.bad('source', q.at(e), f'the address is taken from {sorted(l[2] for l in src)} of the annotation')
                else: rep.skip(f'address of {q.at(e)} depends on the annotation in an unknown way')
            else:
                if got != want['uri']: rep.bad('source', q.at(e), f'the address of a link becomes {got!r} for the annotation {want["uri"]!r}')
                else: rep.ok(f'address of the annotation at {q.at(e)}')
            for e2, k2, v2 in q.keysets():
                if e2.ctx is e.ctx and k2 == 'type' and e2.recv is not None and e.recv is not None and e2.recv.atoms == e.recv.atoms:
                    a = {x[1] for x in v2.atoms if x[0] == 'c'}
                    rep.tri(None if not a else a == {LINK}, 'type', q.at(e2), f'the annotation gets shape type {sorted(map(str, a))}, not that of links')
        elif e.ctx.selfatom is not None and any(q.I.is_subclass(o.cls, 'TextSpan') for o in [q.I.objs[e.ctx.selfatom[1]]] if o.kind == 'inst'):
            if any(l[0] == 'F' and l[2] == 'uri' for l in v.labels): rep.ok(f'address of the shape at {q.at(e)}')
            elif v.labels or v.atoms and all(a[0] == 'c' for a in v.atoms): rep.bad('style', q.at(e), f'the address of a linked text comes from {sorted(map(str, v.labels)) or "a constant"}')
            else: rep.skip(f'address at {q.at(e)}')
    if not n: rep.skip('no address is taken from annotations')


def link(q): return kind(q, 'Hyperlink', type='RectType.HYPERLINK')


def kept(q, rep):
    rep.rule('kept', 'Merging overlapping shapes leaves every link area as it is: neither element of a merged pair can be a link.')
    lk = link(q)
    if lk is None: return rep.skip('no class Hyperlink')
    partners = [k for k in (kind(q, 'Stroke', type='RectType.UNDEFINED'), kind(q, 'Fill', type='RectType.UNDEFINED'), lk) if k is not None]
    for ctx in q.contexts('Shapes.clean_up'):
        for e in ctx.events.values():
            if e.kind == 'break': what = 'a shape is dropped as a duplicate'
            elif e.kind == 'call' and e.name.endswith('.update_bbox'): what = 'a shape is extended by another one'
            else: continue
            loops = [f for f in e.frames if f[0] == 'loop']
            if len(loops) < 2: continue
            for f, g, which in ((loops[-2], loops[-1], 'shape'), (loops[-1], loops[-2], 'other shape')):
                rs = [excluded(e.facts, lk, loop_element(f[3]), [(o, loop_element(g[3]))]) for o in partners]
                x = False if False in rs else None if None in rs else True
                rep.tri({True: True, None: None, False: False}[x], f'merge-{which}', q.at(e), f'{what} although the {which} may be a link',
                        sample=f'{which} at {q.at(e)} is no link')
    # the kind of a link never changes
    seen = set()
    for e in q.events('write', name='Hyperlink.type'):
        if q.is_func(e.ctx.fi, '__init__') or e.node._id in seen: continue
        t = {a[2] for a in e.val.atoms if a[0] == 'e'}
        if t == {'HYPERLINK'}: continue
        seen.add(e.node._id)
        b = set()
        for f in e.facts: bases(f.terms or (), 'type', b)
        x = False
        for y in b:
            r = excluded(e.facts, lk, same(y))
            x = True if r or x is True else r if x is False else x
        if x is False and not b: x = excluded(e.facts, lk, lambda t: False)
        # shapes of undetermined type or strokes only reach this place by groups the next rule is about
        rep.tri(True if x else None, 'type', q.at(e), 'a link may become another kind of shape')


GROUPS = ('table_strokes', 'table_fillings', 'text_highlights', 'text_underlines_strikes')


def apart(q, rep):
    rep.rule('apart', 'No link gets into the groups of shapes for table borders, table shading, highlights or underlines.')
    lk = link(q)
    groups = {}
    for g in GROUPS:
        for c in q.contexts('Shapes.' + g):
            for a in c.ret.atoms:
                if a[0] == 'o': groups.setdefault(a[1], set()).add(g)
    if not groups or lk is None: return rep.skip('groups of shapes not found')
    for ctx in q.a.ctxs:
        if ctx.selfatom is None or ctx.selfatom[0] != 'o' or q.I.objs[ctx.selfatom[1]].cls != 'Shapes': continue
        for e in ctx.events.values():
            if e.kind == 'call' and e.name.rsplit('.', 1)[-1] in ('append', 'extend', 'insert', 'reset'): recv, args = e.args[0], e.args[1:]
            elif e.kind == 'mutate': recv, args = e.recv, e.args
            else: continue
            g = set()
            for a in recv.atoms: g |= groups.get(a[1], set()) if a[0] == 'o' else set()
            if not g: continue
            for v in args:
                if not q.cls_objs(v, 'Hyperlink'):
                    if any(q.cls_objs(v, c) for c in ('Stroke', 'Fill')): rep.ok(f'no link at {q.at(e)}')
                    continue
                loops = [f for f in e.frames if f[0] == 'loop']
                ts = set(v.terms or ())
                x = excluded(e.facts, lk, lambda t: t in ts or loops and loop_element(loops[-1][3])(t))
                rep.tri({True: True, None: None, False: False}[x], 'group', q.at(e), f'links may get into the {", ".join(sorted(g))}', sample=f'no link at {q.at(e)}')


def applied(q, rep):
    rep.rule('applied', 'Links reach the text they cover: no test on the way from the shapes of a layout to the style of a span excludes links.')
    lk = link(q)
    if lk is None: return rep.skip('no class Hyperlink')
    sinks = [(e, v) for e, k, v in q.keysets() if k == 'uri' and ('F', 'Hyperlink', 'uri') in v.labels and e.ctx.selfatom is not None and
             q.I.objs[e.ctx.selfatom[1]].kind == 'inst' and q.I.is_subclass(q.I.objs[e.ctx.selfatom[1]].cls, 'TextSpan')]
    if not sinks:
        if q.contexts('TextSpan.make_docx'): rep.bad('none', q.where(q.contexts('TextSpan.make_docx')[0].fi.node), 'no span ever gets the address of a link', absent=True)
        return
    roots = {c.id for c in q.a.entries.values()}
    for e, v in sinks:
        t = one(v)
        x = excluded(e.facts, lk, same(t[1]) if t is not None and t[0] == 'ld' else lambda t: False)
        if x: rep.bad('span', q.at(e), 'the address is recorded for shapes other than links only')
        reach = {}
        for strict in (False, True):
            seen, work, blocked = {e.ctx.id}, [e.ctx.id], []
            while work:
                for c in q.callers.get(work.pop(), ()):
                    if strict:
                        vs = [a for a in c.args[1:] if q.cls_objs(a, 'Hyperlink')]
                        hit = False
                        for a in vs:
                            ts = set(a.terms or ())
                            if excluded(c.facts, lk, lambda t: t in ts): hit = True
                        if hit:
                            blocked.append(c)
                            continue
                    if c.ctx.id not in seen:
                        seen.add(c.ctx.id)
                        work.append(c.ctx.id)
            reach[strict] = bool(seen & roots)
        if reach[False] and not reach[True]: rep.bad('path', q.at(blocked[0]), 'links are excluded on the way to the text they cover')
        else: rep.ok(f'links reach {q.at(e)}')
