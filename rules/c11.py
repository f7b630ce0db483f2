'''C11: text runs.'''

import itertools

from pdfai.terms import Obj, Unknown, Raises, collection
from pdfai.values import V
from .contract import contract, last, ANY
from .source import fields_from
from .every import every, items, blocks
from .xml import XML, about, written, const_arg, tag_of

HIGHLIGHT, UNDERLINE, STRIKE, LINK = 0, 1, 2, 7
TEXTS = [[], ['a'], ['a', ' ', 'b', 'c'], ['x', 'y', 'z', 'x', ' ']]


def chars(t): return [Obj(c=x) for x in t]


BASE = {'chars': [chars('ab')], 'flags': [0], 'size': [10.0], 'color': [0x0A0B0C], '_font': ['Arial'], 'style': [[]]}


def dom(**kw):
    d = dict(BASE)
    d.update(kw)
    return d


FONTS = {'Arial': 'Arial', 'BCDGEE+Calibri-Bold': 'Calibri', 'ABCDEF+Times New Roman': 'Times New Roman', 'Helvetica-BoldOblique': 'Helvetica',
         'SimSun': '\u5b8b\u4f53', 'A+B+Verdana': 'Verdana', 'Foo,Light': 'Foo Light', 'ArialNarrow': 'Arial Narrow'}


def size_of(s): return max(0.5, round(s * 2) / 2.0)


def styles(): 
    one = [{'type': t, 'color': c} for t in (HIGHLIGHT, UNDERLINE, STRIKE) for c in (0x0A0B0C, 0x00FE01)]
    link = {'type': LINK, 'color': 0, 'uri': 'http://x'}
    out = [[]] + [[s] for s in one] + [[a, b] for a in one for b in one if a['type'] != b['type']] + \
          [[link, s] for s in one] + [[s, link] for s in one] + [[a, link, b] for a in one[::2] for b in one[1::2] if a['type'] != b['type']] + \
          [[one[1], one[3], one[5]], [one[5], one[3], one[1]], [one[3], one[1], one[4]]]
    return out


def check(q, rep):
    anchor = 'TextSpan.make_docx'
    rep.rule('text', 'The text of the run added for a span without link is the text of all its characters, in order.')
    contract(q, rep, 'text', anchor, [('ext', 'docx.Paragraph.add_run')], dom(chars=[chars(t) for t in TEXTS]),
             lambda rec: [''.join(c['c'] for c in rec['chars'])],
             lambda effs, rec: [e.arg(0, 'text') for e in effs if e.arg(0, 'text') is not None] or [''],
             'text of the run of a span', need=[('F', 'Char', 'c')])

    rep.rule('flags', 'Superscript, italic and bold of the run are exactly bits 0, 1 and 4 of the flags of the span.')
    for name, sink, bit in (('superscript', 'docx.Font.superscript', 1), ('italic', 'Run.italic', 2), ('bold', 'Run.bold', 16)):
        sinks = [('extset', sink if '.F' in sink else 'docx.' + sink)]
        alt = [('extset', s) for s in (f'docx.Run.{name}', f'docx.Font.{name}') if ('extset', s) not in sinks and any(q.events('extset', name=s))]
        if alt and not any(q.events('extset', name=sinks[0][1])): sinks = alt

        def observe(effs, rec):
            r = None
            for e in effs: r = e.val()
            return bool(r)
        contract(q, rep, name, anchor, sinks, dom(flags=list(range(32)), _font=['Arial', 'X+Foo-BoldItalic'], size=[10.0, 5.2], style=[[], styles()[1]]), lambda rec, bit=bit: bool(rec['flags'] & bit), observe,
                 f'{name} of the run of a span', need=[('F', 'TextSpan', 'flags')])

    rep.rule('font', 'The font name of the run, also for East Asian text, is the font of the span without subset prefix and style suffix.')
    contract(q, rep, 'name', anchor, [('extset', 'docx.Font.name')], dom(_font=sorted(FONTS)), lambda rec: FONTS[rec['_font']],
             lambda effs, rec: last(effs, 'docx.Font.name'), 'font name of a run', need=[('F', 'TextSpan', '_font')])

    def east(effs, rec):
        out = None
        for e in effs:
            if const_arg(e.event, 0) == 'w:eastAsia': out = e.arg(1)
        return out
    contract(q, rep, 'eastAsia', anchor, [('ext', 'oxml()')], dom(_font=sorted(FONTS)), lambda rec: FONTS[rec['_font']], east,
             'font name of a run for East Asian text', keep=lambda e: tag_of(e, 'set') is not None)

    rep.rule('color', 'The color of the run consists of the red, green and blue component of the color of the span.')
    cols = [0, 1, 0x0A0B0C, 0xFF0000, 0x00FF00, 0x0000FF, 0x010203, 0xFFFFFF, 0x0F00F0]
    contract(q, rep, 'color', anchor, [('extset', 'docx.ColorFormat.rgb')], dom(color=cols),
             lambda rec: ('RGBColor', rec['color'] >> 16, rec['color'] >> 8 & 255, rec['color'] & 255),
             lambda effs, rec: last(effs, 'docx.ColorFormat.rgb'), 'color of a run', need=[('F', 'TextSpan', 'color')])

    rep.rule('size', 'The size of the run is the size of the span rounded to half points, and the characters are scaled by the rest '
             'if it deviates noticeably.')
    sizes = [0.1, 0.2, 0.6, 5.0, 6.3, 7.2, 9.96, 10.0, 10.24, 10.26, 10.5, 10.76, 11.04, 12.3, 23.8, 48.0, 72.1]
    contract(q, rep, 'size', anchor, [('extset', 'docx.Font.size')], dom(size=sizes), lambda rec: ('Pt', size_of(rec['size'])),
             lambda effs, rec: last(effs, 'docx.Font.size'), 'size of a run', need=[('F', 'TextSpan', 'size')])

    def scaling(effs, rec):
        w = [x.get('w:val') for x in written(effs, 'w:w')]
        try: return [round(float(x), 3) for x in w]
        except (TypeError, ValueError): raise Unknown('scaling')

    def expect(rec):
        d = rec['size'] / size_of(rec['size'])
        if abs(abs(d - 1) - 0.01) < 0.002: return ANY
        return [round(100 * d, 3)] if abs(d - 1) >= 0.01 else []
    contract(q, rep, 'scaling', anchor, XML, dom(size=sizes), expect, scaling, 'character scaling (percent) of a run', keep=about('w:w'))

    rep.rule('style', 'Every highlight, underline and strike-through of a span is written to its run, highlight and underline with the '
             'color of the style, for any combination of styles and a link.')
    ss = dom(style=styles())

    def types(rec, t): return [s['color'] for s in rec['style'] if s['type'] == t]

    def line(effs, rec):
        u = [rec['color'] for e in effs if e.event.name in ('docx.Font.underline', 'docx.Run.underline') and e.val() is True]
        for x in written(effs, 'w:u'):
            c = x.get('w:color', '')
            u.append(int(c, 16) if len(c.lstrip('#')) == 6 else c)
        return u
    contract(q, rep, 'underline', anchor, [('extset', 'docx.Font.underline')] + XML, ss, lambda rec: types(rec, UNDERLINE), line, 'colors of the underlines of a run',
             keep=about('w:u'))

    contract(q, rep, 'strike', anchor, [('extset', 'docx.Font.strike')], ss, lambda rec: bool(types(rec, STRIKE)),
             lambda effs, rec: any(e.val() is True for e in effs), 'strike-through of a run')

    # highlight: built-in color where available, else shading
    for branch in (False, True):
        def shade(effs, rec):
            u = ['builtin' for e in effs if e.event.name == 'docx.Font.highlight_color']
            for x in written(effs, 'w:shd'):
                c = x.get('w:fill', '')
                u.append(int(c, 16) if len(c.lstrip('#')) == 6 else c)
            if branch is not None and len(u) == len(types(rec, HIGHLIGHT)):
                # one or the other
                return [h if x == 'builtin' else x for h, x in zip(types(rec, HIGHLIGHT), u)]
            return u
        contract(q, rep, f'highlight-{branch}', anchor, XML + [('extset', 'docx.Font.highlight_color')], ss, lambda rec: types(rec, HIGHLIGHT), shade,
                 'colors of the highlights of a run', assume=lambda f, env, b=branch: b, keep=about('w:shd'))

    complete(q, rep)

    rep.rule('source', 'Text, font, size, flags and color of a span are those of the source span.')
    fields_from(q, rep, 'TextSpan', {'color': 'color', '_font': 'font', 'size': 'size', 'flags': 'flags'},
                [{'color': 0x010203, 'font': 'Foo-Bar', 'size': 9.7, 'flags': 20, 'bbox': (1.0, 2.0, 3.0, 4.0), 'chars': []},
                 {'color': 0, 'font': 'AB+Bar', 'size': 0.4, 'flags': 0, 'bbox': (1.0, 2.0, 3.0, 4.0), 'chars': []},
                 {'color': 0xFFFFFF, 'font': '', 'size': 30.0, 'flags': 31, 'bbox': (1.0, 2.0, 3.0, 4.0), 'chars': []}], 'text span:')
    fields_from(q, rep, 'Char', {'c': 'c'}, [{'c': c, 'bbox': (1.0, 2.0, 3.0, 4.0), 'origin': (1.0, 2.0)} for c in 'aZ \t\xe9\u4e2d\U0001f600'], 'character:')

    rep.rule('recognized', 'The style recorded for a span has the color of the recognized shape, and is recorded for that span only.')
    n = 0
    for e, k, v in q.keysets():
        if k != 'color' or not q.is_func(e.ctx.fi, '_parse_text_format') and not any(
                k2 == 'type' and e2.ctx is e.ctx and e2.recv.atoms == e.recv.atoms for e2, k2, v2 in q.keysets() if e2.ctx is e.ctx): continue
        if e.ctx.selfatom is None or not q.cls_objs(V([e.ctx.selfatom]), 'TextSpan'): continue
        if not any(m.name == 'append' and m.ctx is e.ctx and m.recv is not None and ('F', 'TextSpan', 'style') in m.recv.labels and
                   m.args and m.args[0].atoms & e.recv.atoms for m in q.events('mutate')): continue
        n += 1
        labs = {l for l in v.labels if l[0] == 'F'}
        shape = {l for l in labs if l[2] == 'color' and l[1] != 'TextSpan'}
        other = {l for l in labs if l not in shape}
        if shape and not other: rep.ok(f'color at {q.at(e)}')
        elif not labs or other and not shape: rep.bad('style-color', q.at(e), f'color of the recorded style comes from {sorted(labs) or "a constant"}, not from the shape')
        else: rep.skip(f'color at {q.at(e)} comes from {sorted(labs)}')
    if not n: rep.skip('no style is recorded')
    for e in q.events('ext', name='copy.copy'):
        if not any(q.cls_objs(x, 'TextSpan') for x in e.args): continue
        own = any(w.ctx is e.ctx and w.name == 'TextSpan.style' for w in q.events('write'))
        rep.tri(None if own else False, 'shared-style', q.at(e), 'a span is copied together with the list of its styles, so that a style added to the copy also '
                'appears in the original')


def complete(q, rep):
    rep.rule('complete', 'Every text block of a page or cell, every line of a block and every span of a line is written, once, whatever the block looks like.')
    b = blocks(q, 'TextBlock', 'TextBlock', 'TextBlock')
    if b is not None:
        every(q, rep, 'blocks', 'Blocks.make_docx', 'TextBlock.make_docx', {'_instances': [blocks(q), b], 'floating_image_blocks': [collection()]},
              lambda rec: len(rec['_instances']['_instances']), 'number of text blocks written', assume=lambda f, env: False)
    enum = next((c for c in q.prog.classes if c.rsplit('.', 1)[-1] == 'TextAlignment'), None)
    al = [f'{enum}.{n}' for n in q.I.enum_members.get(enum, {})] if enum else [None]
    every(q, rep, 'lines', 'TextBlock.make_docx', 'Line.make_docx',
          dict(lines=[items(0), items(1), items(3)], alignment=al, before_space=[0.0, 4.0], after_space=[0.0], line_space=[9.0], left_space=[0.0, 7.0], right_space=[1.0],
               first_line_space=[0.0, -5.0], tab_stops=[[]], bbox=[(0.0, 0.0, 50.0, 30.0)], is_horizontal_text=[True], is_vertical_text=[False]),
          lambda rec: len(rec['lines']['_instances']), 'number of lines of a block written')
    every(q, rep, 'spans', 'Line.make_docx', 'TextSpan.make_docx', dict(spans=[items(0), items(1), items(3)], line_break=[0, 1]),
          lambda rec: len(rec['spans']['_instances']), 'number of spans of a line written')
