'''C18: text, font names, addresses, colors and sizes a PDF can contain.'''

import re
from xml.etree import ElementTree

from pdfai.terms import Obj, Unknown, Raises, LEAF, ev, collection
from pdfai.values import one, t_has
from .contract import contract, last
from .xml import XML, about, written
from . import c11, c14

KEYS = {'c', 'text', 'font', 'name', 'uri', 'file', 'title'}
STR = (('ty', 'str'), ('u',))
BAD = 'a\x01b\x0cc\ud800d\ufffee'
ILLEGAL = re.compile('[^\t\n\r\x20-\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]')
MARKUP = 'x<y&z"w'
# text passes through these unchanged
PLAIN = {'join', 'get', 'str', 'str.replace', 'str.strip', 'str.lstrip', 'str.rstrip', 'str.upper', 'str.lower', 'str.split', 'or', 'and', 'dcopy', 'reversed', 'cat', 'list',
         'str.title', 'str.format', 'bool', 'len'}


def is_text(l): return l[0] == 'R' and (l[1] == 'raw' and l[2] in KEYS or l[1] == 'links' and l[2] in KEYS)


def stringy(v): return any(a in STR or a[0] in ('tm', 'sh') or a[0] == 'r' for a in v.atoms)


def plain(t): return not t_has(t, lambda x: len(x) > 1 and x[0] == 'fn' and isinstance(x[1], str) and x[1] not in PLAIN)


def check(q, rep):
    rep.rule('text', 'Text taken from the PDF loses the characters XML forbids before it reaches a run, font name or link address: no path from the source data to such a place '
             'without the filter.')
    dirty, texts = fields(q)
    sinks(q, rep, dirty, texts)
    rep.rule('markup', 'Text from the PDF is never inserted unescaped into parsed XML.')
    markup(q, rep, texts)
    rep.rule('color', 'Colors are written as six hexadecimal digits for every color, and as three components from 0 to 255.')
    colors(q, rep)
    rep.rule('size', 'Every font size gives a positive size of the run and never an error.')
    contract(q, rep, 'size', 'TextSpan.make_docx', [('extset', 'docx.Font.size')], c11.dom(size=[0.01, 0.1, 0.2, 0.24, 0.25, 0.3, 0.5, 0.74, 1.0, 12.0]), lambda rec: True,
             lambda effs, rec: size_ok(last(effs, 'docx.Font.size')), 'size of the run is at least half a point', keep=None)
    contract(q, rep, 'scaling', 'TextSpan.make_docx', XML, c11.dom(size=[0.01, 0.1, 0.24, 0.3, 1.0, 12.0, 12.3]), lambda rec: True,
             lambda effs, rec: all(float(x.get('w:val', 1)) > 0 for x in written(effs, 'w:w')), 'character scaling is positive', keep=about('w:w'))


def size_ok(v): return isinstance(v, tuple) and v[0] == 'Pt' and v[1] >= 0.5


def direct(v): return frozenset(l for l in v.labels if l[0] not in ('C', 'XS', 'K'))


def fields(q):
    '''fields holding unfiltered text, with the writing event; names holding text'''
    dirty, texts = {}, set()
    for e in q.events('write'):
        if e.val is None or not stringy(e.val) or not any(is_text(l) for l in direct(e.val)): continue
        texts.add(e.name.rsplit('.', 1)[1])
        if passes(q, e.val): dirty.setdefault(tuple(e.name.rsplit('.', 1)), e)
    for e, k, v in q.keysets():
        if isinstance(k, str) and v is not None and stringy(v) and any(is_text(l) for l in direct(v)): texts.add(k)
    for e in q.events('return'):
        if e.val is None or not stringy(e.val) or e.ctx.selfatom is None: continue
        ls = direct(e.val)
        if any(l[0] == 'F' and l[2] in texts for l in ls) and all(a in STR or a[0] in ('c', 'tm', 'r') for a in e.val.atoms): texts.add(e.ctx.fi.qual.rsplit('.', 1)[1])
    return dirty, texts


def passes(q, v, seen=()):
    '''characters forbidden in XML pass from the source data to the value'''
    if v.terms is not None and all(field_part(t) for t in v.terms): return False
    if any(a[0] == 'r' and a[2] in KEYS for a in v.atoms): return True
    if v.terms is None: return False
    for t in v.terms:
        if t[0] == 'res':
            if ('XML',) in v.labels or t[1] in seen: continue
            if any(e.ctx.id == t[1] and e.val is not None and passes(q, e.val, seen + (t[1],)) for e in q.events('return')): return True
            continue
        def leaf(x, env):
            if x[0] == 'fn' and x[1] == 'get' and len(x) > 2 and x[2][0] == 'ix' and x[2][2][0] == 'c' and x[2][2][1] in KEYS: return BAD
            if x[0] == 'ix' and x[2][0] == 'c' and x[2][1] in KEYS and not field_part(x): return BAD
            return None
        try: r = ev(t, {LEAF: leaf})
        except (Unknown, Raises):
            if field_part(t): continue
            if ('XML',) not in v.labels and plain(t): return True
            continue
        if isinstance(r, str) and ILLEGAL.search(r): return True
    return False


def field_part(t):
    '''element of something kept in a field'''
    while isinstance(t, tuple) and t[0] in ('ix', 'it', 'at') and isinstance(t[1], tuple): t = t[1]
    return t[0] == 'ld'


def has_text(t, texts):
    return t_has(t, lambda x: len(x) > 2 and (x[0] in ('ld', 'at', 'res') and x[2] in texts or x[0] == 'ix' and x[2][0] == 'c' and x[2][1] in KEYS))


def closure(q, labels, texts):
    '''labels the value comes from, through fields holding text'''
    out = set()
    work = list(labels)
    while work:
        l = work.pop()
        if l in out: continue
        out.add(l)
        if l[0] == 'F' and l[2] in texts: work.extend(x for x in q.deps().get((l[1], l[2]), ()) if x[0] != 'C')
    return out


def sinks(q, rep, dirty, texts):
    n = 0
    for e in q.events('ext', 'extset'):
        if not (e.kind == 'extset' or e.name.startswith('docx') or e.name.startswith('oxml')) or e.name == 'docx.oxml.parse_xml': continue
        if e.kind == 'extset' and not e.name.startswith(('docx', 'oxml')): continue
        for v in list(e.args) + list(e.kwargs.values()) + [e.val]:
            if v is None or not stringy(v): continue
            if v.terms is not None and not any(has_text(t, texts) or t[0] == 'res' for t in v.terms): continue
            ls = q.origins(direct(v))
            if v.terms is None: ls = closure(q, direct(v), texts)
            if not any(is_text(l) for l in ls): continue
            n += 1
            if ('XML',) in direct(v): continue
            clean = {('F', c, f) for c, f in map(lambda x: tuple(x.rsplit('.', 1)), {w.name for w in q.events('write')}) if (c, f) not in dirty and
                     any(is_text(l) for l in q.deps().get((c, f), ()))}
            src = [l for l in q.origins(direct(v), stop=clean) if is_text(l)]
            if not src:
                rep.ok(f'{e.name} at {q.at(e)}')
                continue
            if v.terms is not None and not all(plain(t) for t in v.terms):
                rep.skip(f'{e.name} at {q.at(e)}')
                continue
            # unfiltered on the way
            via = [(c, f, w) for (c, f), w in dirty.items() if ('F', c, f) in ls]
            if via:
                for c, f, w in via: rep.bad(f'raw-{c}.{f}', q.at(w), f'{c}.{f} keeps characters of the PDF which are not allowed in XML; they reach {e.name} at {q.at(e)}')
            elif any(is_text(l) for l in direct(v)) and passes(q, v):
                rep.bad(f'raw-{e.name}', q.at(e), f'text of the PDF reaches {e.name} with characters not allowed in XML')
            else: rep.skip(f'{e.name} at {q.at(e)}: {sorted(src)[:2]}')
    if not n: rep.skip('no text reaches the document')


def markup(q, rep, texts):
    def leaf(x, env):
        if x[0] in ('ld', 'at', 'res') and x[2] in texts: return MARKUP
        if x[0] == 'fn' and x[1] == 'join' and has_text(x[3], texts): return MARKUP
        if x[0] == 'ix' and x[2][0] == 'c' and x[2][1] in KEYS: return MARKUP
        return None

    for e in q.events('ext', name='docx.oxml.parse_xml'):
        for v in e.args:
            for t in v.terms or ():
                if not has_text(t, texts):
                    rep.ok(f'XML at {q.at(e)}')
                    continue
                parts = t[1] if t[0] == 'fmt' else (t,)
                for p in parts:
                    if not has_text(p, texts): continue
                    try: r = ev(p, {LEAF: leaf})
                    except (Unknown, Raises):
                        rep.skip(f'XML at {q.at(e)}')
                        continue
                    rest = re.sub('&(amp|lt|gt|quot|apos|#[0-9]+|#x[0-9a-f]+);', '', r) if isinstance(r, str) else ''
                    if not isinstance(r, str): rep.ok(f'XML at {q.at(e)}')
                    elif p is t:
                        try: ElementTree.fromstring(re.sub(r'(</?|\s)(\w+):', r'\1', r))
                        except ElementTree.ParseError: rep.bad('markup', q.at(e), f'text of the PDF is inserted into XML without escaping: {r[:80]!r}')
                        else: rep.ok(f'XML at {q.at(e)}')
                    elif '<' in rest or '&' in rest: rep.bad('markup', q.at(e), f'text of the PDF is inserted into XML without escaping: {r[:80]!r}')
                    else: rep.ok(f'XML at {q.at(e)}')
            if v.terms is None:
                if any(is_text(l) for l in direct(v)): rep.skip(f'XML at {q.at(e)}')
                else: rep.ok(f'XML at {q.at(e)}')


COLORS = [0, 1, 10, 255, 65280, 0x0A0B0C, 0xFFFFFF]
HEX = re.compile(r'^#?[0-9A-Fa-f]{6}$')


def colors(q, rep):
    good = lambda rec: []

    def wrong(tag, attr):
        def observe(effs, rec): return [x[attr] for x in written(effs, tag) if attr in x and x[attr] != 'auto' and not HEX.match(x[attr])]
        return observe
    anchor = 'TextSpan.make_docx'
    contract(q, rep, 'underline', anchor, XML, c11.dom(style=[[{'type': c11.UNDERLINE, 'color': c}] for c in COLORS], color=[0x112233]), good, wrong('w:u', 'w:color'),
             'invalid colors of underlines', keep=about('w:u'))
    contract(q, rep, 'highlight', anchor, XML, c11.dom(style=[[{'type': c11.HIGHLIGHT, 'color': c}] for c in COLORS]), good, wrong('w:shd', 'w:fill'),
             'invalid colors of highlights', keep=about('w:shd'), assume=lambda f, env: False)
    contract(q, rep, 'text', anchor, [('extset', 'docx.ColorFormat.rgb')], c11.dom(color=COLORS), lambda rec: True,
             lambda effs, rec: last(effs, 'docx.ColorFormat.rgb') is not None, 'color of the run is valid')
    cell = dict(border_width=[(1.0, 1.0, 1.0, 1.0)], border_color=[(0, 0, 0, 0)], merged_cells=[(1, 1)], bbox=[(0.0, 1.0, 2.0, 3.0)], bg_color=COLORS,
                layout=[Obj(blocks=collection(), shapes=collection())])
    contract(q, rep, 'cell', 'Cell.make_docx', XML, cell, good, wrong('w:shd', 'w:fill'), 'invalid background colors of cells', keep=about('w:shd'))
    border(q, rep)


def border(q, rep):
    n = 0
    for ctx in q.contexts('Cell.make_docx'):
        sub = q.subtree([ctx])
        for e, k, v in q.keysets():
            if k != 'color' or e.ctx.id not in sub or not any(l[0] == 'F' and l[2] == 'border_color' for l in v.labels): continue
            t = one(v)
            n += 1
            bad = None
            try:
                if t is None: raise Unknown('color')
                for c in COLORS:
                    env = {('s', 'self'): Obj(border_width=(1.0,) * 4, border_color=(c,) * 4), LEAF: lambda x, env: 0 if x[0] == 'it' else None}
                    try: got = ev(t, env)
                    except Raises as x: got = f'an error ({x})'
                    if not isinstance(got, str) or not HEX.match(got): bad = bad or (c, got)
            except Unknown as x:
                rep.skip(f'color of borders: {x}')
                continue
            rep.tri(bad is None, 'border', q.at(e), bad and f'color {bad[0]} of a border is written as {bad[1]!r}')
    if not n: rep.skip('color of borders')
