'''C13: paragraphs.'''

from pdfai.terms import Obj, Unknown, Raises, collection
from .contract import contract, last, ANY

ALIGN = {'NONE': None, 'UNKNOWN': None, 'LEFT': 'LEFT', 'CENTER': 'CENTER', 'RIGHT': 'RIGHT', 'JUSTIFY': 'JUSTIFY'}
BASE = {'before_space': [3.0], 'after_space': [5.0], 'line_space': [12.0], 'alignment': ['TextAlignment.LEFT'], 'left_space': [7.0],
        'right_space': [11.0], 'first_line_space': [2.0], 'tab_stops': [[]]}


def dom(**kw):
    d = dict(BASE)
    d['lines'] = [collection()]
    d.update(kw)
    return d


def members(q, enum):
    for c in q.prog.classes:
        if c.rsplit('.', 1)[-1] == enum: return c, list(q.I.enum_members.get(c, {}))
    return None, []


def check(q, rep):
    anchor = 'TextBlock.make_docx'
    P = 'docx.ParagraphFormat.'
    rep.rule('spacing', 'Space before and after and line spacing of the paragraph are the values of the block (not negative), rounded to 0.1 pt.')
    for prop, field, vals in (('space_before', 'before_space', [-3.2, -0.04, 0.0, 0.04, 0.26, 3.0, 17.449, 100.0]),
                              ('space_after', 'after_space', [-3.2, 0.0, 0.26, 5.0, 17.449]), ('line_spacing', 'line_space', [0.26, 12.0, 13.449, 99.9])):
        contract(q, rep, prop, anchor, [('extset', P + prop)], dom(**{field: vals}), lambda rec, f=field: ('Pt', max(0.0, round(rec[f], 1))),
                 lambda effs, rec, p=prop: points(last(effs, P + p), 0.06), f'{prop} of the paragraph of a text block', need=[('F', 'TextBlock', field)])

    rep.rule('alignment', 'The alignment of the paragraph is the alignment of the block: left, right, center, and justified otherwise.')
    enum, names = members(q, 'TextAlignment')
    want = [n for n in names if n in ('LEFT', 'RIGHT', 'CENTER', 'JUSTIFY')]

    def alignment(effs, rec):
        v = last(effs, P + 'alignment')
        if v is None: return None
        if not isinstance(v, str): raise Unknown('alignment')
        return v.rsplit('.', 1)[-1]
    if want:
        contract(q, rep, 'alignment', anchor, [('extset', P + 'alignment')], dom(alignment=[f'{enum}.{n}' for n in want], tab_stops=[[], [5.0]]),
                 lambda rec: rec['alignment'].rsplit('.', 1)[-1], alignment, 'alignment of the paragraph of a text block', need=[('F', 'TextBlock', 'alignment')])
    else: rep.skip('no class TextAlignment')

    rep.rule('indent', 'Left, right and first line indent of the paragraph are those of the block; the left indent excludes that of the first line.')
    sp = dict(left_space=[0.0, 7.0, 20.5], right_space=[0.0, 11.0], first_line_space=[-6.0, 0.0, 2.0])
    for prop, f in (('left_indent', lambda rec: rec['left_space'] - rec['first_line_space']), ('right_indent', lambda rec: rec['right_space']),
                    ('first_line_indent', lambda rec: rec['first_line_space'])):
        contract(q, rep, prop, anchor, [('extset', P + prop)], dom(**sp), lambda rec, f=f: ('Pt', round(f(rec), 1)),
                 lambda effs, rec, p=prop: points(last(effs, P + p), 0.06), f'{prop} of the paragraph of a text block')

    rep.rule('tabs', 'The tab stops of a left aligned paragraph are those of the block, shifted by its left indent.')
    contract(q, rep, 'tabs', anchor, [('ext', 'docx.TabStops.add_tab_stop')],
             dom(tab_stops=[[], [5.0], [30.0, 10.0, 20.5]], left_space=[0.0, 7.0], first_line_space=[0.0, 2.0], alignment=[f'{enum or "TextAlignment"}.LEFT']),
             lambda rec: sorted(('Pt', round(x + rec['left_space'], 1)) for x in rec['tab_stops']),
             lambda effs, rec: sorted(points(e.arg(0, 'position'), 0.06) for e in effs), 'tab stops of the paragraph of a text block', need=[('F', 'TextBlock', 'tab_stops')])

    rep.rule('break', 'A line break follows a line exactly when the line is marked to end with one, after all spans of the line.')

    def brk(effs, rec):
        n = 0
        for e in effs:
            if e.event.name == 'docx.Run.add_break': n += 1
            else:
                t = e.arg(0, 'text')
                if t is not None: n += str(t).count('\n')
        return n
    for anchor2 in ('Line.make_docx',):
        contract(q, rep, 'break', anchor2, [('ext', 'docx.Paragraph.add_run'), ('ext', 'docx.Run.add_break')],
                 {'line_break': [0, 1], 'spans': [collection()]}, lambda rec: rec['line_break'], brk, 'line breaks written for a line',
                 need=[('F', 'Line', 'line_break')])
    computed(q, rep)


def points(v, tol):
    '''lengths rounded to 0.1 pt'''
    if isinstance(v, tuple) and len(v) == 2 and v[0] == 'Pt': return ('Pt', round(v[1], 1))
    if v is None: return None
    raise Unknown(v)


def computed(q, rep):
    rep.rule('computed', 'The indents of a block are its computed distances of the same side, reduced as documented for its alignment.')
    enum, names = members(q, 'TextAlignment')
    d = dict(alignment=[f'{enum}.{n}' for n in names if n in ALIGN and n != 'NONE'], left_space_total=[0.0, 10.0, 35.5], right_space_total=[0.0, 20.0, 28.0],
             is_horizontal_text=[True], is_vertical_text=[False], bbox=[(0.0, 0.0, 100.0, 20.0)], lines=[collection()])

    def left(rec):
        a, l, r = rec['alignment'].rsplit('.', 1)[-1], rec['left_space_total'], rec['right_space_total']
        return 0 if a == 'CENTER' else min(l, r) if a == 'RIGHT' else l

    def right(rec):
        a, l, r = rec['alignment'].rsplit('.', 1)[-1], rec['left_space_total'], rec['right_space_total']
        return 0 if a == 'CENTER' else min(l, r) if a == 'LEFT' else r
    for f, fun in (('left_space', left), ('right_space', right)):
        contract(q, rep, f, 'TextBlock.parse_horizontal_spacing', [('write', f'TextBlock.{f}')], d, fun,
                 lambda effs, rec: effs[-1].val() if effs else None,
                 f'{f} of a text block', need=[('F', 'TextBlock', f + '_total')])

    rep.rule('break-lines', 'The last line of a block never ends with a hard break, and no line followed by one in the same row does.')
    lines = [[dict(bbox=(0.0, 10.0 * i, 50.0, 10.0 * i + 8), text='x') for i in range(n)] for n in (1, 3)]
    for same_row in (True, False):
        def expect(rec):
            n = len(rec['_instances'])
            return [None if not same_row and i < n - 1 else 0 for i in range(n)]

        def seen(effs, rec):
            out = {}
            for e in effs: out[id(e.recv())] = e.val()
            n = len(rec['_instances'])
            return [None if not same_row and i < n - 1 else out.get(id(x), 0) for i, x in enumerate(rec['_instances'])]
        for width in (50.0, 500.0):
            d = dict(_instances=[collection(*[Obj(x) for x in l]) for l in lines],
                     parent=[Obj(bbox=(0.0, 0.0, width, 60.0), is_horizontal_text=True, is_vertical_text=False, left_space=0.0, right_space=0.0,
                                 left_space_total=5.0, right_space_total=5.0, alignment=f'{enum}.LEFT')], _parent=[None])
            contract(q, rep, f'last-{same_row}-{width}', 'Lines.parse_line_break', [('write', 'Line.line_break')], d, expect, seen,
                     'hard break of the lines of a block', assume=lambda f, env, b=same_row: b)
