'''C10: sections of pages.'''

import itertools

from pdfai.terms import Obj, Unknown, Raises, ev, LEAF, Token, value
from pdfai.values import one
from .contract import contract, last, doc_leaf, sink_events, ANY

SIZES = [('docx.Section.page_width', 'width', None), ('docx.Section.page_height', 'height', None),
         ('docx.Section.left_margin', '_margin', 0), ('docx.Section.right_margin', '_margin', 1),
         ('docx.Section.top_margin', '_margin', 2), ('docx.Section.bottom_margin', '_margin', 3)]

FIELDS = {'width': [612.0, 841.9], 'height': [792.0, 595.3], '_margin': [(10.0, 20.0, 30.0, 40.0), (0.0, 7.5, 50.0, 12.5)],
          '_paragraphs': [(), ('p0',), ('p0', 'p1')], '_sections': [('S0',), ('S0', 'S1')]}


def leaf(rec): return doc_leaf(rec['_paragraphs'], rec['_sections'])


def check(q, rep):
    rep.rule('size', 'The width, height and margins assigned to the section of a page are the fields of that page for the same side.')
    for sink, field, k in SIZES:
        def observe(effs, rec, sink=sink):
            sel = [e for e in effs if e.event.name == sink]
            return sel[-1].val() if sel else None

        def expect(rec, field=field, k=k):
            v = rec[field]
            return ('Pt', v if k is None else v[k])
        contract(q, rep, sink, 'Page.make_docx', [('extset', sink)], FIELDS, expect, observe,
                 f'{sink.rsplit(".", 1)[1]} of the section of a page', leaf=leaf, need=[('F', 'Page', field)])

    rep.rule('section', 'The section written to is the initial one for the first page and otherwise a new one, added once, starting a new page.')
    adds = [('ext', 'docx.Document.add_section')]

    def observe(effs, rec):
        new = [e for e in effs if e.event.name == 'docx.Document.add_section']
        recvs = [e.recv() for e in effs if e.event.name.startswith('docx.Section.')]
        kinds = [e.arg(0, 'start_type') for e in new]
        return [len(new), [str(k).rsplit('.', 1)[-1] if k is not None else 'NEW_PAGE' for k in kinds],
                ['new' if isinstance(r, Token) and isinstance(r.key, tuple) else r.key if isinstance(r, Token) else '?' for r in dict.fromkeys(recvs)]]

    def expect(rec):
        if len(rec['_sections']) > max(len(rec['_paragraphs']), 1): return ANY
        if not rec['_paragraphs']: return [0, [], ['S0']]
        return [1, ['NEW_PAGE'], ['new']]
    contract(q, rep, 'section', 'Page.make_docx', adds + [('extset', s) for s, _, _ in SIZES], FIELDS, expect, observe,
             '[sections added, their start type, sections written to] for a page', leaf=leaf)

    margins(q, rep)
    source_size(q, rep)


def margins(q, rep):
    rep.rule('margin', 'The margins computed for a page are, per side, the distance of the content from that side of the page, limited to '
             '[0, 72] and reduced by the factor of that side only.')
    n = 0
    for e in q.events('write', name=lambda s: s.endswith('._margin')):
        if not any(q.is_func(e.ctx.fi, f) for f in ('Page.restore', 'Page.__init__')):
            n += 1
            for i, side in enumerate(('left', 'right', 'top', 'bottom')): decide_margin(q, rep, e, i, side)
    if not n: rep.skip('no margin is computed')


def components(v, i):
    """alternative terms of the component i of a tuple value"""
    out = []
    for a in v.atoms:
        if a[0] != 't' or len(a[1]) != 4: continue
        out += list(a[1][i].terms) if a[1][i].terms else [None]
    for t in v.terms or ():
        if t[0] == 'tup' and len(t) == 5: out.append(t[i + 1])
    return out


def expected(i, w, h, box, ft, fb):
    x0, y0, x1, y1 = box
    return min(72.0, round([max(x0, 0.0), max(w - x1 - 1.0, 0.0), max(y0, 0.0) * ft, max(h - y1, 0.0) * fb][i], 1))


def decide_margin(q, rep, e, i, side):
    terms = components(e.val, i)
    if not terms or None in terms:
        rep.skip(f'{side} margin at {q.at(e)}: value not known')
        return
    n = 0
    try:
        for t in dict.fromkeys(terms):
            if t[0] == 'c': continue
            for (w, h), box, (ft, fb) in itertools.product(
                    [(600.0, 800.0), (842.0, 595.0)],
                    [(50.0, 60.0, 500.0, 560.0), (-5.0, -3.0, 900.0, 900.0), (200.0, 300.0, 210.0, 310.0), (30.0, 40.0, 580.0, 580.0), (20.0, 64.0, 560.0, 550.0)],
                    [(0.5, 0.5), (0.25, 0.75), (0.0, 1.0)]):
                page = Obj(width=w, height=h, settings={'page_margin_factor_top': ft, 'page_margin_factor_bottom': fb},
                           layout=Obj(blocks=Obj(n=1), shapes=Obj(n=1)))

                def hook(x, env, box=box): return list(box) if x[0] == 'fn' and x[1] == '|' else None
                env = {('s', 'self'): page, LEAF: hook, ('s', 'kwargs'): page['settings']}
                got = ev(t, env)
                if not isinstance(got, (int, float)): raise Unknown('not a number')
                n += 1
                # values fixed to the default are looked at by the rules about options
                exp = [expected(i, w, h, box, ft, fb), expected(i, w, h, box, 0.5, 0.5)]
                tol = 6.0 if i == 1 else 0.2    # the clearance left on the right side isn't specified
                if all(abs(got - x) > tol for x in exp) or got > 72.0 or got < 0.0:
                    rep.bad(f'formula-{side}', q.at(e), f'{side} margin is {got} instead of {exp[0]} for a page of {w} x {h}, content {box}, factors {ft}, {fb}')
                    return
    except (Unknown, Raises) as x:
        rep.skip(f'{side} margin at {q.at(e)}: {x.args[0] if x.args else ""}')
        return
    rep.ok(f'{side} margin formula at {q.at(e)}: {n} cases')


ROTATED = {('X', 'fitz.Page.rect'), ('X', 'fitz.Page.bound')}
UNROTATED = {'fitz.Page.mediabox', 'fitz.Page.MediaBox', 'fitz.Page.cropbox', 'fitz.Page.CropBox', 'fitz.Page.mediabox_size',
             'fitz.Page.MediaBoxSize', 'fitz.Page.cropbox_position', 'fitz.Page.CropBoxPosition'}


def source_size(q, rep):
    rep.rule('source', 'The size of a parsed page is the one of the rectangle of the displayed (rotated) page, width and height not exchanged.')
    for field, k in (('width', 2), ('height', 3)):
        found = False
        for e in q.events('write', name=f'Page.{field}'):
            labs = q.origins(e.val.labels)
            src = {l for l in labs if l[0] == 'X' and l[1].startswith('fitz.')}
            raw = {l for l in labs if l[0] == 'R' and l[1] == 'raw'}
            if not src and not raw: continue
            found = True
            if src & ROTATED: rep.ok(f'{field} at {q.at(e)}')
            elif not src or any(l[1] in UNROTATED for l in src):
                rep.bad(f'{field}-source', q.at(e), f'{field} of a parsed page is taken from {sorted(src | raw)}, which ignores the rotation of the page')
            else: rep.skip(f'{field} at {q.at(e)} comes from {sorted(src)}')
        if not found: rep.skip(f'{field}: source not found')
        vals = [(e, v) for e, key, v in q.keysets() if key == field] + [(e, e.val) for e in q.events('write', name=f'Page.{field}')]
        for e, v in vals:
            t = one(v)
            if t is None or not any(l in ROTATED for l in v.labels): continue
            def hook(x, env):
                if x[0] in ('at', 'ld') and x[2] in ('rect', 'bound'): return RECT
                if x[0] == 'fn' and str(x[1]).endswith('fitz.Page.bound'): return RECT
                return None
            try: got = ev(t, {LEAF: hook})
            except (Unknown, Raises) as x:
                rep.skip(f'{field} at {q.at(e)}')
                continue
            exp = (600.0, 500.0)[k - 2]
            rep.tri(got == exp, f'{field}-value', q.at(e), f'{field} is {got} instead of {exp} for a page rectangle (0, 0, 600, 500)')


RECT = Obj({0: 0.0, 1: 0.0, 2: 600.0, 3: 500.0, -1: 500.0, -2: 600.0, -3: 0.0, -4: 0.0, 'x0': 0.0, 'y0': 0.0, 'x1': 600.0, 'y1': 500.0,
            'width': 600.0, 'height': 500.0, 'tl': 0, 'br': [600.0, 500.0]})
