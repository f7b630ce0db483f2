'''C15: images.'''

import ast
import re

from pdfai.terms import Obj, Unknown, collection, ev
from pdfai.values import one, t_has
from .contract import contract, doc_leaf
from .every import every, blocks, block, items
from .source import fields_from
from .shapes import kind
from .xml import about

BOX = {0: 10.5, 1: 20.25, 2: 41.75, 3: 90.0, 'x0': 10.5, 'y0': 20.25, 'x1': 41.75, 'y1': 90.0, 'width': 31.25, 'height': 69.75}
FORMATS = {'UnrecognizedImageError', 'Exception', 'BaseException'}
CREATE = ('docx.Run.add_picture', 'docx.Part.get_or_add_image', 'docx.Document.add_picture', 'docx.Part.get_or_add_image_part', 'docx.Part.new_pic_inline')


def box():
    b = Obj(BOX)
    b['__iter__'] = [BOX[i] for i in range(4)]
    return b


def check(q, rep):
    inline(q, rep)
    floating(q, rep)
    unsupported(q, rep)
    complete(q, rep)
    source(q, rep)
    extraction(q, rep)


def leaf(rec):
    def f(t, env):
        if t[0] == 'fn' and t[1] in ('io.BytesIO', 'BytesIO') and len(t) == 3:
            return ('stream', ev(t[2], env))
        if t[0] == 'fn' and t[1] == 'int' and len(t) == 3:
            v = ev(t[2], env)
            return int(round(v[1] * 12700)) if isinstance(v, tuple) and v and v[0] == 'Pt' else int(v)
        return None
    return f


def points(v):
    if v is None: return None
    if isinstance(v, tuple) and v and v[0] == 'Pt': return round(v[1], 6)
    if isinstance(v, tuple) and v and v[0] in ('Emu', 'Inches', 'Cm', 'Mm'): return round(v[1] * {'Emu': 1 / 12700, 'Inches': 72, 'Cm': 72 / 2.54, 'Mm': 7.2 / 2.54}[v[0]], 6)
    raise Unknown('length')


def inline(q, rep):
    rep.rule('inline', 'An inline image is written from its own bytes with the width of its box.')
    dom = {'bbox': [box()], 'image': ['IMAGE'], 'width': [400], 'height': [300], 'ext': ['png']}
    contract(q, rep, 'inline', 'Image.make_docx', [('ext', 'docx.Run.add_picture')], dom, lambda rec: [('stream', 'IMAGE', 31.25)],
             lambda effs, rec: [tuple(e.arg(0, 'image_path_or_stream')) + (points(e.arg(1, 'width')),) for e in effs], 'bytes and width of an inline image',
             leaf=leaf, need=[('F', 'ImageBlock', 'image')])


def floating(q, rep):
    rep.rule('floating', 'A floating image is written from its own bytes with the width of its box at the upper left corner of the box, behind the text.')
    fb = block(q, 'ImageBlock')
    if fb is None:
        rep.skip('no floating images')
        return
    dom = {'bbox': [box()], 'image': ['IMAGE'], 'width': [400], 'height': [300], 'ext': ['png'], '_type': [fb['_type']]}
    anchor = 'ImageBlock.make_docx'
    kw = dict(leaf=leaf, need=None)
    contract(q, rep, 'bytes', anchor, [('ext', 'docx.Part.get_or_add_image')], dom, lambda rec: [('stream', 'IMAGE')],
             lambda effs, rec: [tuple(e.arg(0)) for e in effs], 'bytes of a floating image', **kw)
    if any(True for e in q.events('ext', name='docx.Image.scaled_dimensions')):
        contract(q, rep, 'width', anchor, [('ext', 'docx.Image.scaled_dimensions')], dom, lambda rec: [(31.25, None)],
                 lambda effs, rec: [(points(e.arg(0, 'width')), points(e.arg(1, 'height'))) for e in effs], 'width (and given height) of a floating image', **kw)
    contract(q, rep, 'position', anchor, [('ext', 'docx.oxml.parse_xml')], dom, lambda rec: [(round(10.5 * 12700), round(20.25 * 12700))], positions, 'position of a floating image (in EMU)',
             keep=about('wp:anchor'), **kw)
    tm = [e for e in q.events('ext', name='docx.oxml.parse_xml') for v in e.args for a in v.atoms if a[0] in ('c', 'tm') and isinstance(a[1], str) and a[1].lstrip().startswith('<wp:anchor')]
    for e in tm:
        s = ' '.join(a[1] for v in e.args for a in v.atoms if a[0] in ('c', 'tm'))
        rep.tri('behindDoc="1"' in s, 'behind', q.at(e), 'a floating image is not behind the text')
        for i, tag in ((0, 'positionH'), (1, 'positionV')): rep.tri(f'<wp:{tag} relativeFrom="page">' in s, tag, q.at(e), f'the position of a floating image is not relative to the page ({tag})')


POS = re.compile(r'<wp:position([HV])\b[^>]*>\s*<wp:posOffset>(-?[0-9.]+)</wp:posOffset>')


def positions(effs, rec):
    out = []
    for e in effs:
        t = e.arg(0)
        if not isinstance(t, str): raise Unknown('XML text')
        d = {k: float(v) for k, v in POS.findall(t)}
        if set(d) != {'H', 'V'}: raise Unknown('position')
        out.append((round(d['H']), round(d['V'])))
    return out


def handlers(q, e):
    '''names of the exceptions caught around an event in its function'''
    out = set()
    for n in ast.walk(e.ctx.fi.node):
        if isinstance(n, ast.Try) and any(x is e.node for b in n.body for x in ast.walk(b)):
            for h in n.handlers:
                if h.type is None: out.add('BaseException')
                else: out |= {x.id if isinstance(x, ast.Name) else getattr(x, 'attr', '') for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])}
    return out


def unsupported(q, rep):
    for c in q.calls('Image.from_image'):
        objs = q.cls_objs(c.args[1]) if len(c.args) > 1 else []
        if objs: rep.tri(all(q.I.is_subclass(o.cls, 'Image') for o in objs), 'image', q.at(c), f'an image takes over the data of {sorted({o.cls for o in objs})}')
    rep.rule('unsupported', 'An image of a format not supported by python-docx is skipped, the rest of the page is not affected.')
    for e in q.events('ext'):
        if e.name not in CREATE: continue
        bad = None
        cs = q.chains(e.ctx, stop=lambda c: q.is_func(c.fi, 'Page.make_docx') or q.is_func(c.fi, 'Blocks.make_docx'), limit=200)
        if cs is None:
            rep.skip(f'{e.name}: too many call chains')
            continue
        for ch in cs:
            got = handlers(q, e)
            for x in ch:
                if q.is_func(x.ctx.fi, 'Page.make_docx') or q.is_func(x.ctx.fi, 'Converter.make_docx'): continue
                if q.is_func(x.ctx.fi, 'Blocks.make_docx') and not handlers(q, x): continue
                got = got | handlers(q, x)
            if not got & FORMATS: bad = ch
        rep.tri(bad is None, f'unsupported-{e.name.rsplit(".", 1)[1]}', q.at(e), 'the error for an unsupported image format is not caught: the rest of the page is lost')


def complete(q, rep):
    rep.rule('complete', 'Every floating image and every inline image of a page is written exactly once.')
    b = block(q, 'ImageBlock')
    txt = blocks(q, 'TextBlock')
    if b is None or txt is None:
        rep.skip('no image blocks')
        return
    imgs = [collection(*[block(q, 'ImageBlock', n=i) for i in range(n)]) for n in (0, 1, 3)]
    for paras in ((), ('P0', 'P1')):
        every(q, rep, f'floating-{len(paras)}', 'Blocks.make_docx', 'ImageBlock.make_docx', {'_instances': [txt['_instances'], []], 'floating_image_blocks': imgs},
              lambda rec: len(rec['floating_image_blocks']['__iter__']), 'number of floating images written', leaf=lambda rec: doc_leaf(paras), assume=lambda f, env: False,
              keep=lambda e: q.is_func(e.ctx.fi, 'Blocks.make_docx'))
    cls = next((c for c in q.prog.classes if c.rsplit('.', 1)[-1] == 'ImageSpan'), None)
    if cls is not None:
        spans = [collection(*[kind(q, cls, n=i) for i in range(n)]) for n in (1, 2)]
        every(q, rep, 'inline', 'Line.make_docx', 'Image.make_docx', {'spans': spans, 'line_break': [0, 1]}, lambda rec: len(rec['spans']['__iter__']), 'number of inline images written',
              assume=lambda f, env: True)


def source(q, rep):
    rep.rule('source', 'An image has the bytes, format and size of its source, also when it is taken over from another image.')
    raws = [{'ext': 'jpeg', 'width': 100, 'height': 50, 'image': b'abc', 'bbox': (0.0, 0.0, 5.0, 5.0)}, {'ext': 'png', 'width': 7, 'height': 9, 'image': b'', 'bbox': (0.0, 0.0, 5.0, 5.0)}]
    for cls in ('ImageBlock', 'ImageSpan'):
        fields_from(q, rep, cls, {'ext': 'ext', 'width': 'width', 'height': 'height'}, raws, 'image:')
        for e in q.events('write', name=f'{cls}.image'):
            if not q.is_func(e.ctx.fi, 'Image.__init__'): continue
            have = {l[2] for l in q.origins(e.val.labels) if l[0] == 'R'}
            if have and not have <= {'', 'image'} and 'image' not in have: rep.bad(f'bytes-{cls}', q.at(e), f'bytes of an image are taken from {sorted(have)} of the source data')
            elif have: rep.ok('bytes of an image from its source')
    for f in ('ext', 'width', 'height', 'image', 'bbox'):
        evs = [e for c in ('ImageBlock', 'ImageSpan') for e in q.events('write', name=f'{c}.{f}') if any(q.is_func(x.ctx.fi, 'Image.from_image') for x in [e]) or
               f == 'bbox' and any(q.is_func(ch[0].ctx.fi, 'Image.from_image') for ch in q.chains(e.ctx, stop=lambda c: q.is_func(c.fi, 'Image.from_image'), limit=50) or [] if ch)]
        if not any(True for _ in q.contexts('Image.from_image')): break
        if not evs:
            rep.bad(f'copied-{f}', q.where(next(iter(q.contexts('Image.from_image'))).fi.node), f'{f} of an image is not taken over by Image.from_image', absent=True)
            continue
        for e in evs:
            t = one(e.val)
            if t is not None and t[0] == 'ld' and t[1] != ('s', 'self'): rep.tri(t[2] == f, f'copied-{f}', q.at(e), f'{f} of an image is taken over from {t[2]} of the other image')
            else:
                have = {l[2] for l in e.val.labels if l[0] == 'F' and l[1].startswith('Image')}
                if have and f not in have: rep.bad(f'copied-{f}', q.at(e), f'{f} of an image is taken over from {sorted(have)} of the other image')
                elif have: rep.ok(f'{f} taken over')
                elif t is not None and t[0] == 'map' and t[2][0] == 'ld': rep.tri(t[2][2] == f, f'copied-{f}', q.at(e), f'{f} of an image is taken over from {t[2][2]} of the other image')
                else: rep.skip(f'{f} taken over')


def extraction(q, rep):
    rep.rule('extraction', 'The bytes, size and box of an extracted image belong to the same entry of the page.')
    # size and bytes of one picture
    recs = {}
    for e, k, v in q.keysets():
        if 'ImagesExtractor.' in e.ctx.fi.qual and k in ('image', 'width', 'height', 'bbox'): recs.setdefault((e.ctx.id, e.recv.atoms if e.kind == 'keyset' else 0), {})[k] = (e, v)
    for r in recs.values():
        if not {'image', 'width', 'height'} <= set(r): continue
        im, w, h = r['image'], r['width'], r['height']
        o = q.origins(im[1].labels)
        for k, v in (('width', w), ('height', h)):
            have = q.origins(v[1].labels)
            rep.tri(None if not have or not o else bool(have & o), f'size-{k}', q.at(v[0]), f'{k} of an extracted image does not belong to its bytes')
        a, b = (pixels(one(x[1])) for x in (w, h))
        rep.tri(None if a is None or b is None else a != 'h' and b != 'w', 'size', q.at(w[0]), 'width and height of an extracted image are exchanged')
    for e in q.events('ext', name='fitz.Page.getPixmap'):
        m = e.kwargs.get('matrix')
        t = one(m) if m is not None else None
        if t is not None and t[0] == 'tup' and len(t) == 3: rep.tri(t[1] == t[2], 'zoom', q.at(e), 'an area of the page is clipped with different resolutions')
    for c in q.calls('ImagesExtractor._to_raw_dict'):
        if len(c.args) < 3: continue
        clip = [e for e in q.events('ext', name='fitz.Page.getPixmap') if e.ctx.id == c.ctx.id]
        for e in clip:
            a, b = one(e.kwargs['clip']) if 'clip' in e.kwargs else None, one(c.args[-1])
            rep.tri(None if a is None or b is None else t_has(b, lambda x: x == a), 'clip', q.at(c), 'the box of a clipped image is not the area clipped')
        raw = [e for e in q.events('ext', name='fitz.Pixmap') if e.ctx.id in q.subtree([c.ctx])]
        if raw and not clip:
            rep.tri(any(('R', 'img', '') in q.origins(c.args[1].labels) for _ in (1,)), 'raster', q.at(c), 'the bytes of an image are not those of the entry of the page')
    box = ('X', 'fitz.Page.getImageBbox')
    for c in q.calls('ImagesExtractor._to_raw_dict'):
        if len(c.args) < 3 or box not in c.args[-1].labels: continue
        for e in q.events('ext', name='fitz.Page.getPixmap'):
            if e.ctx.id in q.subtree([c.ctx]):
                v = e.kwargs.get('clip')
                rep.tri(v is not None and box in q.origins(v.labels), 'clip', q.at(e), 'the area clipped for an image is not the box of the image')
    page_blocks(q, rep)


def page_blocks(q, rep):
    rep.rule('page', 'Every extracted image becomes an image block of the page, at every place where it is shown.')
    target = ('r', 'raw', 'blocks', 1)
    puts = [(e, e.args[-1]) for e in q.events('mutate') if e.recv is not None and target in e.recv.atoms and e.name in ('append', 'extend', 'insert', '__iadd__') and e.args]
    puts += [(e, v) for e, k, v in q.keysets() if k == 'blocks' and e.ctx.fi.qual.split('.')[-2] == 'RawPage']
    boxed = {a for e, k, v in q.keysets() if k == 'bbox' and e.recv is not None for a in e.recv.atoms if a[0] == 'o'}
    made = [(e, v) for e, k, v in q.keysets() if k == 'image' and e.recv is not None and target not in e.recv.atoms and boxed & e.recv.atoms and (('R', 'img', '') in v.labels or ('X', 'fitz.Page.getPixmap') in v.labels)]
    if not made: rep.skip('no images extracted')
    objs = {a[1] for e, v in made if e.recv is not None for a in e.recv.atoms if a[0] == 'o'}
    for e, v in made:
        chains = q.chains(e.ctx, limit=300)
        if not chains:
            rep.skip('extraction of images')
            continue
        nodes = {c.node._id for ch in chains for c in ch}
        got = [p for p, v in puts if any(t_has(t, lambda x: x[:1] == ('res',) and x[1] in nodes) for t in v.terms or ())]
        dunno = [p for p, v in puts if v.terms is None and (p.name not in ('append', 'extend', 'insert', '__iadd__') or objs & {a[1] for a in v.atoms if a[0] == 'o'} or any(objs & {a[1] for a in x.atoms if a[0] == 'o'} for x in q.elems(v)))]
        rep.tri(True if got else None if dunno else False, 'added-raster' if ('R', 'img', '') in v.labels else 'added-clipped', q.at(e), 'an extracted image does not get into the blocks of the page')
    # image blocks put aside and taken back
    aside, back, bytes_ = [], [], []
    for e, k, v in q.keysets():
        if e.recv is None or target not in e.recv.atoms: continue
        t = one(v)
        if k == 'type' and t is not None and t[0] == 'c': (back if t[1] == 1 else aside).append(e)
        if k == 'image': bytes_.append((e, v))
    if aside: rep.tri(bool(back), 'back', q.at(aside[0]), 'image blocks of the page are put aside and never taken back')
    for b in back:
        if not any(f[0] == 'loop' for f in b.frames): continue
        inner = [e for e, v in bytes_ if e.ctx is b.ctx]
        if bytes_ and inner: rep.tri(any([f[3] for f in e.frames if f[0] == 'loop'] == [f[3] for f in b.frames if f[0] == 'loop'] for e in inner), 'each', q.at(inner[0]), 'the bytes are not set for every place where the image is shown')
    for e, v in bytes_:
        if not guarded(q, e): rep.bad('same', q.at(e), 'the bytes of an image block are replaced without comparing the images')
        have = q.origins(v.labels)
        rep.tri(('R', 'img', '') in have or ('R', 'raw', 'image') not in have and None, 'replaced', q.at(e), 'the bytes of an image block do not come from the extracted image')
        same(q, rep, e)


def guarded(q, e):
    '''some test decides about the event, in its function or around a call of it'''
    if any(isinstance(f.node, ast.expr) and f.nid == f.node._id for f in e.facts): return True
    cs = q.chains(e.ctx, limit=50, stop=lambda c: q.is_func(c.fi, 'raw_dict'))
    if cs is None: return True
    return any(isinstance(f.node, ast.expr) and f.nid == f.node._id and any(x[0] == 'loop' for x in c.frames) for ch in cs for c in ch for f in c.facts)


def same(q, rep, e):
    '''the images compared have the same box'''
    for f in e.facts:
        if not isinstance(f.node, ast.expr): continue
        calls = [n for n in ast.walk(f.node) if isinstance(n, ast.Call)]
        for n in calls:
            for c in q.events('call'):
                if c.node is not n: continue
                for r in q.events('return'):
                    if r.ctx.id not in (c.targets or ()) or r.val is None: continue
                    if one(r.val) == ('c', True):
                        rep.tri(any(isinstance(x.node, ast.expr) for x in r.facts), 'compared', q.at(r), 'images are taken for the same without comparing them')


def pixels(t):
    '''width or height of a pixmap'''
    if t is None: return None
    if t[0] == 'at': return {'width': 'w', 'w': 'w', 'height': 'h', 'h': 'h'}.get(t[2])
    if t[0] != 'aff': return None
    idx = {x[2] for x, _ in t[1] if x[0] == 'ix'}
    return 'w' if idx == {('c', 0), ('c', 2)} else 'h' if idx == {('c', 1), ('c', 3)} else None
