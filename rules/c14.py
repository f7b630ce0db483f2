'''C14: tables.'''

from pdfai.terms import Obj, Unknown, Raises, ev, LEAF, Token, collection
from pdfai.values import one
from .contract import contract, last, ANY
from .every import every, items, blocks, block
from .source import fields_from
from .xml import XML, about, written, const_arg, tag_of

SIDES = ('left', 'top', 'right', 'bottom')
NAMES = {'start': 'left', 'left': 'left', 'end': 'right', 'right': 'right', 'top': 'top', 'bottom': 'bottom'}


def check(q, rep):
    dimensions(q, rep)
    sizes(q, rep)
    merging(q, rep)
    shading(q, rep)
    borders(q, rep)
    structure(q, rep)
    content(q, rep)


# ---------------------------------------------------------------- a table
def cell(i, j, merged=(1, 1), **kw):
    n = i * 10 + j
    d = dict(bbox=(10.0 * j, 5.0 * i, 10.0 * j + 3.3 + n, 5.0 * i + 4.0), bg_color=None, border_width=(1.0, 1.0, 1.0, 1.0), border_color=(0, 0, 0, 0),
             merged_cells=merged, layout=Obj(blocks=collection(), shapes=collection()), place=(i, j))
    d['working_bbox'] = d['bbox']
    d.update(kw)
    if merged == (0, 0): d.update(__iter__=[], merged_cells=(1, 1), bbox=(0.0, 0.0, 0.0, 0.0))
    return Obj(d)


def row(cells, height): return Obj(_cells=collection(*cells), height=height, __iter__=list(cells), bbox=(0.0, 1.0, 50.0, 1.0 + 2 * height))


def table(rows): return collection(*rows)


def samples(**kw):
    a = table([row([cell(i, j, **kw) for j in range(3)], 20.5 + i) for i in range(2)])
    b = table([row([cell(0, 0, (2, 2), **kw), cell(0, 1, (0, 0)), cell(0, 2, **kw)], 11.0),
               row([cell(1, 0, (0, 0)), cell(1, 1, (0, 0)), cell(1, 2, (1, 1), **kw)], 12.0),
               row([cell(2, 0, (1, 3), **kw), cell(2, 1, (0, 0)), cell(2, 2, (0, 0))], 13.0)])
    c = table([row([cell(0, 0, (2, 1), **kw), cell(0, 1, **kw)], 9.0), row([cell(1, 0, (0, 0)), cell(1, 1, **kw)], 9.0)])
    return [a, b, c]


def cells_of(t): return [(i, j, c) for i, r in enumerate(t['__iter__']) for j, c in enumerate(r['__iter__'])]


def docx_leaf(q):
    '''values of docx tables, rows and cells'''
    made = {}
    for e in q.events('ext'):
        if e.name == 'docx.Table.cell': made.setdefault(e.node._id, []).append(e)

    def build(rec):
        rows = rec['_rows']['__iter__'] if '_rows' in rec else [None] * 9
        nr, nc = len(rows), len(rows[0]['__iter__']) if rows and rows[0] else 9

        def leaf(t, env):
            if t[0] in ('at', 'ld') and t[2] in ('rows', 'columns') and t[1][0] in ('new', 'fn') and (t[1][0] == 'new' or t[1][1] in ('docx.Document',)):
                return collection(*[Token((t[2], i)) for i in range(nr if t[2] == 'rows' else nc)])
            if t[0] == 'new' and t[1] in made:
                vals = set()
                for e in made[t[1]]:
                    a = [one(x) for x in e.args[:2]] + [one(e.kwargs[k]) for k in ('row_idx', 'col_idx') if k in e.kwargs]
                    if len(a) != 2 or None in a: raise Unknown('cell')
                    vals.add((ev(a[0], env), ev(a[1], env)))
                if len(vals) != 1: raise Unknown('cell')
                return Token(('cell',) + vals.pop())
            return None
        return leaf
    return build


def place(tok):
    if isinstance(tok, Token) and isinstance(tok.key, tuple) and tok.key[0] == 'cell': return tok.key[1:]
    raise Unknown('place of a cell')


def top(q, rep, key, sinks, d, expect, observe, text, **kw):
    contract(q, rep, key, 'TableBlock.make_docx', sinks, d, expect, observe, text, leaf=docx_leaf(q), **kw)


def dom(**kw): return dict(dict(_rows=samples(), left_space=[3.5], right_space=[0.0], before_space=[9.0], bbox=[(0.0, 0.0, 30.0, 30.0)]), **kw)


# ---------------------------------------------------------------- rules
def dimensions(q, rep):
    rep.rule('dimensions', 'The docx table has as many rows and columns as the table.')

    def size(effs, rec):
        out = []
        for e in effs: out.append((e.arg(0, 'rows'), e.arg(1, 'cols')))
        return out
    names = {e.name for e in q.events('ext') if e.name.endswith('.add_table')}
    b = {}
    tabs = [blocks_of(q, t) for t in samples()]
    if any(t is None for t in tabs): rep.skip('no class TableBlock')
    else:
        sinks = [('ext', n) for n in sorted(names, key=lambda n: 'Document' not in n)] or [('ext', 'docx.Document.add_table')]
        one_ = sinks[:1]    # the container is either a document or a cell
        contract(q, rep, 'size', 'Blocks.make_docx', one_, {'_instances': tabs, 'floating_image_blocks': [collection()]},
                 lambda rec: [(len(t['_rows']['__iter__']), len(t['_rows']['__iter__'][0]['__iter__'])) for t in rec['_instances']['__iter__']], size,
                 'rows and columns of the docx table', leaf=docx_leaf(q), assume=lambda f, env: False)

    rep.rule('indent', 'The indent of the docx table is the left space of the table in twentieths of a point.')

    def indent(effs, rec):
        w = [x for x in written(effs, 'w:tblInd')]
        try: return [(round(float(x.get('w:w')) / 20, 3), x.get('w:type')) for x in w]
        except (TypeError, ValueError): raise Unknown('indent')
    top(q, rep, 'indent', XML, dom(left_space=[0.0, 3.5, 71.25]), lambda rec: [(round(rec['left_space'], 3), 'dxa')], indent, 'indent of a table',
        keep=about('w:tblInd'), assume=lambda f, env: True)

    rep.rule('placed', 'The left space of a table is the distance of its box to the margin of the page or the border of the cell around it.')
    place = Obj(bbox=(10.0, 20.0, 250.0, 700.0), border_width=(2.0, 4.0, 6.0, 8.0), _margin=(3.0, 5.0, 7.0, 9.0), width=600.0, height=800.0)
    sides = {3.0, 14.0}      # left margin of the page, inner border of the cell
    writes = [e for e in q.events('write', name='TableBlock.left_space') if not e.ctx.fi.qual.endswith(('.__init__', '.restore'))]
    if not writes and any(True for _ in q.events('write', name='TableBlock.left_space')): rep.bad('left', 'pdf2docx', 'the left space of a table is never computed', absent=True)
    for e in writes:
        if not q.is_func(e.ctx.fi, 'parse_horizontal_spacing'): continue
        if not e.val.terms: rep.skip('left space of a table')
        for t in sorted(e.val.terms or (), key=repr):
            env = {('s', 'self'): Obj(bbox=(30.0, 40.0, 130.0, 55.0)), ('s', 'up1'): Obj(_parent=Obj(_parent=place))}
            try: v = ev(t, env)
            except (Unknown, Raises): rep.skip('left space of a table')
            else:
                if isinstance(v, (int, float)) and round(30.0 - v, 3) not in sides: rep.bad('left', q.at(e), f'the left space of a table at 30 is {v} instead of {sorted(30 - x for x in sides)} (page with a margin of 3, cell at 10 with a border of 8)')
                else: rep.ok('left space of a table')


def blocks_of(q, t):
    b = block(q, 'TableBlock', _rows=t, before_space=5.0, num_rows=len(t['__iter__']), num_cols=len(t['__iter__'][0]['__iter__']), __iter__=t['__iter__'])
    return collection(b) if b is not None else None


def sizes(q, rep):
    rep.rule('sizes', 'Every row has exactly its computed height, every cell the width of its box.')

    def heights(effs, rec):
        out = {}
        for e in effs:
            r = e.recv()
            if not isinstance(r, Token) or r.key[0] != 'rows': raise Unknown('row')
            v = e.val()
            out.setdefault(r.key[1], {})[e.event.name.rsplit('.', 1)[1]] = v if not isinstance(v, str) else v.rsplit('.', 1)[-1]
        return [(out.get(i, {}).get('height'), out.get(i, {}).get('height_rule')) for i in range(len(rec['_rows']['__iter__']))]
    top(q, rep, 'height', [('extset', 'docx.Row.height'), ('extset', 'docx.Row.height_rule')], dom(),
        lambda rec: [(('Pt', r['height']), 'EXACTLY') for r in rec['_rows']['__iter__']], heights, 'height and height rule of the rows', need=[('F', 'Row', 'height')])

    def widths(effs, rec): return {place(e.recv()): e.val() for e in effs}
    top(q, rep, 'width', [('extset', 'docx.Cell.width')], dom(),
        lambda rec: {(i, j): ('Pt', c['bbox'][2] - c['bbox'][0]) for i, j, c in cells_of(rec['_rows']) if '__iter__' not in c}, widths, 'width of the cells',
        need=[('F', 'Cell', 'bbox')])


def merging(q, rep):
    rep.rule('merging', 'A merged cell spans the rows and columns computed for it, other cells are not merged.')

    def spans(effs, rec):
        out = {}
        for e in effs:
            a, b = place(e.recv()), place(e.arg(0, 'other_cell'))
            if a != b: out[a] = b
        return out
    top(q, rep, 'merge', [('ext', 'docx.Cell.merge')], dom(),
        lambda rec: {(i, j): (i + c['merged_cells'][0] - 1, j + c['merged_cells'][1] - 1) for i, j, c in cells_of(rec['_rows'])
                     if '__iter__' not in c and tuple(c['merged_cells']) != (1, 1)}, spans, 'merged cells (first, last)', need=[('F', 'Cell', 'merged_cells')])


def shading(q, rep):
    rep.rule('shading', 'A cell has the background color of its shading, also black, and none without shading.')

    def colors(effs, rec):
        out = []
        for x in written(effs, 'w:shd'):
            c = x.get('w:fill', '').lstrip('#')
            out.append(int(c, 16) if len(c) == 6 else c)
        return out
    for c in (None, 0, 0x0A0B0C, 0xFFFFFF):
        top(q, rep, f'color-{c}', XML, dom(_rows=samples(bg_color=c)),
            lambda rec, c=c: [c for x in cells_of(rec['_rows']) if '__iter__' not in x[2]] if c is not None else [], colors, 'background colors of the cells',
            keep=about('w:shd'))


def borders(q, rep):
    rep.rule('borders', 'Width and color of the borders of a cell are those computed for the same side.')
    # sides of the borders determined for the structure of a cell
    order = structure_sides(q, rep)
    given = table_sides(q, rep, order) if order else None
    used = cell_sides(q, rep)
    for what in ('width', 'color'):
        g, u = (given or {}).get(what), (used or {}).get(what)
        if g is None or u is None:
            rep.skip(f'sides of the {what} of borders')
            continue
        for i in range(4):
            if g[0][i] != u[0].get(i): rep.bad(f'side-{what}', g[1], f'the {what} of the {g[0][i]} border of a cell is stored at position {i} and written to its {u[0].get(i, "no")} border ({u[1]})')
            else: rep.ok(f'{what} of the {g[0][i]} border')
    def drawn(effs, rec):
        out = set()
        for e in effs:
            n = e.arg(0)
            if n in NAMES: out.add(NAMES[n])
        return out
    if used and used.get('width'):
        sides = used['width'][0]

        def sets(e): return e.args and e.args[0].atoms and all(a[0] == 'c' and a[1] in NAMES for a in e.args[0].atoms)
        if len(sides) == 4:
            contract(q, rep, 'drawn', 'Cell.make_docx', [('mutate', '__setitem__')],
                     dict(border_width=[(0.0, 0.0, 0.0, 0.0), (1.0, 0.5, 0.0, 2.5), (0.0, 0.25, 0.75, 0.0)], border_color=[(0, 0, 0, 0), (1, 0xFFFFFF, 2, 3)],
                          merged_cells=[(1, 1)], bbox=[(0.0, 1.0, 2.0, 3.0)], layout=[Obj(blocks=collection(), shapes=collection())]),
                     lambda rec: {sides[i] for i in range(4) if rec['border_width'][i]}, drawn, 'sides with a visible border', keep=sets, assume=lambda f, env: True)
    fs = {e.ctx.fi.qual for e in q.events('ext', name='docx.oxml.OxmlElement') if const_arg(e, 0) == 'w:tcBorders'}
    for f in sorted(fs):
        tabs = samples()

        def cov(rec):
            out = set()
            for i, j, c in cells_of(rec['_rows']):
                n, m = (1, 1) if '__iter__' in c else c['merged_cells']
                out |= {(i + a, j + b) for a in range(n) for b in range(m)}
            return out
        if not any(True for _ in q.calls(f)): continue
        top(q, rep, 'merged-borders', [('call', f)], dom(), cov, lambda effs, rec: {place(e.arg(0)) for e in effs}, 'cells whose borders are set')
    # everything is written
    tags, attrs = set(), set()
    found = None
    for ctx in q.contexts('Cell.make_docx'):
        sub = q.subtree([ctx])
        for e in q.events('ext'):
            if e.ctx.id not in sub: continue
            if e.name in ('docx.oxml.OxmlElement', 'docx.oxml.ns.qn') and e.args:
                cs = {a[1] for a in e.args[0].atoms if a[0] == 'c'}
                if e.name.endswith('OxmlElement') and cs & {'w:top', 'w:bottom'} and not cs & {'w:tcMar'} and is_border(q, e): tags |= cs; found = e
    if found is not None:
        have = {NAMES.get(t.split(':')[-1]) for t in tags}
        for s in SIDES: rep.tri(s in have, f'element-{s}', q.at(found), f'no element is written for the {s} border of a cell')
    else: rep.skip('elements of borders')


def is_border(q, e):
    '''elements of w:tcBorders'''
    return any(any(a == ('c', 'w:tcBorders') for v in x.args for a in v.atoms) for x in q.events('ext') if x.ctx is e.ctx)


def side_in(t):
    '''side of the box whose coordinate a term uses'''
    out = set()

    def go(x):
        if isinstance(x, tuple):
            if len(x) == 3 and x[0] == 'ix' and x[2][0] == 'c' and isinstance(x[1], tuple) and x[1][0] in ('ld', 'at') and 'bbox' in str(x[1][2]) and x[2][1] in (0, 1, 2, 3):
                out.add(SIDES[x[2][1]])
                return
            if len(x) == 3 and x[0] in ('ld', 'at') and x[2] in ('x0', 'y0', 'x1', 'y1') and 'bbox' in str(x[1]):
                out.add(SIDES[('x0', 'y0', 'x1', 'y1').index(x[2])])
                return
            for y in x: go(y)
        elif isinstance(x, frozenset):
            for y in x: go(y)
    go(t)
    return next(iter(out)) if len(out) == 1 else None


def structure_sides(q, rep):
    for e in q.events('write'):
        if not e.name.endswith('CellStructure.borders') and e.name != 'CellStructure.borders': continue
        t = one(e.val)
        if t is None or t[0] != 'tup' or len(t) != 5: continue
        s = [side_in(x) for x in t[1:]]
        if None in s: continue
        if len(set(s)) != 4:
            rep.bad('sides', q.at(e), f'the borders of a cell are determined for the sides {", ".join(s)}')
            return None
        rep.ok(f'borders determined for {", ".join(s)}')
        return s
    rep.skip('order of the borders of a cell')
    return None


def table_sides(q, rep, order):
    '''side of each position of border widths and colors given to a cell'''
    out = {}
    def rec(shade): return Obj(borders=[Obj(color=f'color {s}', width=f'width {s}', side=s) for s in order], shading=shade, merged_cells=(2, 3), is_merged=False,
              bbox=Obj({0: 1.0, 1: 2.0, 2: 3.0, 3: 5.0, 'x0': 1.0, 'y0': 2.0, 'x1': 3.0, 'y1': 5.0}), merged_bbox=(1.0, 2.0, 9.0, 7.0))

    def value(t, shade):
        env = {('s', 'self'): Obj(cells=[[rec(shade)]]), LEAF: lambda x, env: 0 if x[0] == 'it' else None}
        try: return ev(t, env) if t is not None else ANY
        except (Unknown, Raises): return ANY
    for e, k, v in q.keysets():
        if k not in ('border_width', 'border_color', 'bg_color', 'merged_cells') or not q.is_func(e.ctx.fi, 'TableStructure.to_table_block'): continue
        t = one(v)
        if k in ('border_width', 'border_color'):
            got = value(t, Obj(color=0xABCDEF, type=None))
            what = k[7:]
            if isinstance(got, (list, tuple)) and len(got) == 4 and all(isinstance(x, str) and x.startswith(what) for x in got):
                out[what] = ([x.split()[1] for x in got], q.at(e))
            elif isinstance(got, (list, tuple)): rep.bad(f'given-{what}', q.at(e), f'the {what} of the borders given to a cell are {got}')
            continue
        for c in (None, 0, 1, 0xABCDEF):
            got = value(t, None if c is None else Obj(color=c, type=None))
            want = c if k == 'bg_color' else (2, 3)
            if got is ANY: rep.skip(f'{k} given to a cell')
            else: rep.tri(got == want or isinstance(got, (list, tuple)) and tuple(got) == want, f'given-{k}', q.at(e), f'{k} given to a cell is {got} instead of {want}')
    return out


def cell_sides(q, rep):
    '''side written for each position of border widths and colors of a cell'''
    out = {}
    wid, col = (1.0, 2.0, 3.0, 4.0), (0x111111, 0x222222, 0x333333, 0x444444)
    for ctx in q.contexts('Cell.make_docx'):
        sub = q.subtree([ctx])
        events = [e for e in q.events('mutate', name='__setitem__') if e.ctx.id in sub and len(e.args) == 2 and e.args[0].atoms and
                  all(a[0] == 'c' and a[1] in NAMES for a in e.args[0].atoms)]
        for e in events:
            vals = {k: (x, v) for x, k, v in q.keysets() if x.ctx is e.ctx and k in ('sz', 'color') and x.recv.atoms & e.args[1].atoms}
            env = {('s', 'self'): Obj(border_width=wid, border_color=col, merged_cells=(1, 1), bbox=(0.0, 0.0, 1.0, 1.0))}
            loops = [f for f in e.frames if f[0] == 'loop']
            for what, key in (('width', 'sz'), ('color', 'color')):
                if key not in vals: continue
                try:
                    res = {}
                    for k in range(4):
                        env2 = dict(env)
                        for f in loops: env2[('it', f[3])] = k
                        name = ev(one(e.args[0]), env2)
                        v = ev(one(vals[key][1]), env2)
                        if what == 'width':
                            i = [j for j, w in enumerate(wid) if abs(float(v) - 8 * w) < 1e-9]
                        else:
                            h = str(v).lstrip('#').lower()
                            i = [j for j, w in enumerate(col) if '%06x' % w == h]
                        if not i:
                            rep.bad(f'value-{what}', q.at(vals[key][0]), f'{what} of a border is written as {v} for widths {wid} and colors {[hex(c) for c in col]}')
                            continue
                        res[i[0]] = NAMES[name]
                    out[what] = (res, q.at(e))
                except (Unknown, Raises, TypeError, ValueError, KeyError, IndexError) as x: pass
    return out


def structure(q, rep):
    rep.rule('structure', 'A table gets one row for each row of cells of its structure with its height, and one cell for each of these, with the box of '
             'the merged cells.')
    box = Obj({0: 1.0, 1: 2.0, 2: 3.0, 3: 5.0, 'x0': 1.0, 'y0': 2.0, 'x1': 3.0, 'y1': 5.0, 'height': 3.0, 'width': 2.0})

    def st(i, j, merged=(1, 1)):
        b = Obj({0: 10.0 * j, 1: 5.0 * i + i * i, 2: 10.0 * j + 10, 3: 5.0 * i + 5 + (i + 1) ** 2, '__iter__': None})
        b.update(x0=b[0], y0=b[1], x1=b[2], y1=b[3], height=b[3] - b[1], width=b[2] - b[0])
        del b['__iter__']
        m = b
        if merged[0] > 1:
            m = Obj(b, **{'y1': b['y1'] + 7.0, 'x1': b['x1'] + 10.0, 'height': b['height'] + 7.0, 'width': b['width'] + 10.0})
            m.update({2: m['x1'], 3: m['y1']})
        return Obj(bbox=b, merged_bbox=m, borders=[Obj(color=0, width=1.0) for k in range(4)], shading=None, merged_cells=merged, is_merged=merged == (0, 0))
    tabs = [[[st(i, j) for j in range(n)] for i in range(m)] for m, n in ((1, 1), (2, 3), (3, 2))] + \
           [[[st(0, 0, (2, 2)), st(0, 1, (0, 0)), st(0, 2)], [st(1, 0, (0, 0)), st(1, 1, (0, 0)), st(1, 2)]]]
    d = {'cells': tabs}

    def hs(effs, rec): return [e.val() for e in effs if one(e.event.val) != ('c', 0.0)]
    contract(q, rep, 'height', 'TableStructure.to_table_block', [('write', 'Row.height')], d, lambda rec: [r[0]['bbox'][3] - r[0]['bbox'][1] for r in rec['cells']], hs,
             'heights of the rows', keep=lambda e: q.is_func(e.ctx.fi, 'TableStructure.to_table_block') or not q.is_func(e.ctx.fi, '__init__'))
    every(q, rep, 'rows', 'TableStructure.to_table_block', 'TableBlock.append', d, lambda rec: len(rec['cells']), 'number of rows added')
    every(q, rep, 'cells', 'TableStructure.to_table_block', 'Row.append', d, lambda rec: sum(len(r) for r in rec['cells']), 'number of cells added')
    boxes = [e for e in q.calls('Element.update_bbox') if q.is_func(e.ctx.fi, 'TableStructure.to_table_block')]
    if boxes:
        contract(q, rep, 'box', 'TableStructure.to_table_block', [('call', 'Element.update_bbox')], d,
                 lambda rec: [(c['merged_bbox'][2], c['merged_bbox'][3]) for r in rec['cells'] for c in r if not c['is_merged']],
                 lambda effs, rec: [(e.arg(1)[2], e.arg(1)[3]) for e in effs], 'end of the boxes of the cells', keep=lambda e: e in boxes)
    stored(q, rep)


KEEP = {'bg_color': 'color', 'border_color': 'color', 'border_width': 'width'}


def stored(q, rep):
    """the cell keeps what its structure was given: colors stay colors, widths stay widths"""
    for field, what in KEEP.items():
        other = {'color': 'width', 'width': 'color'}[what]
        for ctx in q.contexts('TableStructure.to_table_block'):
            sub = q.subtree([ctx])
            for e in q.events('write', name=f'Cell.{field}'):
                if e.ctx.id not in sub or not q.is_func(e.ctx.fi, 'Cell.__init__'): continue
                have = {l[-1] for l in q.origins(labels_in(q, e.val))}
                if not have: continue
                if not have & {'color', 'width'}: rep.skip(f'{field} of a cell')
                else: rep.tri(what in have and not (other in have and what not in have), f'cell-{field}', q.at(e), f'{field} of a cell comes from {sorted(have & {"color", "width"})}')


def labels_in(q, v):
    out = set(v.labels)
    for a in v.atoms:
        if a[0] == 't':
            for x in a[1]: out |= labels_in(q, x)
    return out


def content(q, rep):
    rep.rule('content', 'Every cell of the table is written at its own row and column, its own content into it, with the text direction of the content.')

    def cells(effs, rec):
        out = {}
        for e in effs:
            c = e.arg(0)
            p = e.arg(2)
            out[tuple(p)] = c['place'] if isinstance(c, Obj) and 'place' in c else None
        return out
    top(q, rep, 'place', [('call', 'Cell.make_docx')], dom(), lambda rec: {(i, j): c['place'] for i, j, c in cells_of(rec['_rows'])}, cells, 'cell written at each row and column')
    b = blocks(q, 'TextBlock', 'TextBlock')
    if b is None: return

    def into(effs, rec):
        out = {}
        for e in effs:
            p = place(e.arg(1))
            out.setdefault(p, []).append(e.arg(0)['key'])
        return out
    tabs = []
    for t in samples():
        for i, j, c in cells_of(t):
            bb = collection(*b['__iter__'])
            bb['key'] = (i, j)
            c['layout'] = Obj(blocks=bb)
        tabs.append(t)
    top(q, rep, 'blocks', [('call', 'Blocks.make_docx')], dom(_rows=tabs), lambda rec: {(i, j): [(i, j)] for i, j, c in cells_of(rec['_rows']) if '__iter__' not in c},
        into, 'content written into the cells', assume=lambda f, env: False)
    for v in (True, False):
        top(q, rep, f'direction-{v}', XML, dom(_rows=[tabs[0]]), lambda rec, v=v: len(cells_of(rec['_rows'])) if v else 0,
            lambda effs, rec: len([x for x in written(effs, 'w:textDirection') if x.get('w:val') in ('btLr', 'tbRl', 'tbRlV')]),
            'number of cells marked as vertical', keep=about('w:textDirection'), assume=lambda f, env, v=v: v)
