'''C16: structure of the document.'''

import itertools
import re
import xml.etree.ElementTree as ET

from pdfai.terms import collection, Obj
from pdfai.values import one
from .contract import contract, doc_leaf
from .every import blocks, block
from .xml import tag_of, const_arg

KINDS = {'P': ('TextBlock', 'TEXT'), 'I': ('TextBlock', 'IMAGE'), 'L': ('TableBlock', 'LATTICE_TABLE'), 'S': ('TableBlock', 'STREAM_TABLE')}
PREFIXES = {'a', 'c', 'cp', 'dc', 'dcmitype', 'dcterms', 'dgm', 'm', 'pic', 'r', 'sl', 'w', 'w14', 'wp', 'xml', 'xsi'}   # known to python-docx
ADD = [('ext', f'docx.{c}.{m}') for m in ('add_paragraph', 'add_table') for c in ('Document', 'Cell')]


def check(q, rep):
    page(q, rep)
    cell(q, rep)
    links(q, rep)
    fragments(q, rep)


def sequences(q, spaces):
    out = []
    for n in range(4):
        for ks in itertools.product('PLS' if n == 3 else 'PILS', repeat=n):
            for sp in spaces:
                bs = []
                for k in ks:
                    name, typ = KINDS[k]
                    b = block(q, name, typ, before_space=sp)
                    if b is None: return None
                    b['_rows'] = collection()
                    bs.append(b)
                out.append(collection(*bs))
    return out


def problem(seq):
    if 'tt' in seq: return 'two tables in a row without a paragraph between them'
    if seq.endswith('t'): return 'a table at the end of the page'
    return None


def page(q, rep):
    rep.rule('page', 'Adjacent tables are separated by a paragraph, the content of a page ends with a paragraph, for all sequences of up to 3 blocks.')
    seqs = sequences(q, (0.0, 0.5, 5.0))
    if seqs is None:
        rep.skip('kinds of blocks')
        return

    def order(effs, rec):
        seq = {}
        for e in effs: seq[e.order] = 't' if e.event.name.endswith('add_table') else 'p'
        return problem(''.join(seq[k] for k in sorted(seq)))

    def top(ctx): return any(('xo', 'docx.Document') in v.atoms for c in q.callers.get(ctx.id, ()) for v in c.args[1:] + list(c.kwargs.values()))
    for paras in ((), ('P0',)):
        contract(q, rep, f'order-{len(paras)}', 'Blocks.make_docx', ADD, {'_instances': [s['_instances'] for s in seqs], 'floating_image_blocks': [collection()], '_parent': [Obj(__cls__=('Layout',))], 'parent': [Obj(__cls__=('Layout',))]},
                 lambda rec: None, order, 'order of paragraphs and tables', leaf=lambda rec: doc_leaf(paras), keep=lambda e: '.Blocks.' in e.ctx.fi.qual,
                 avoid='TableBlock.make_docx', which=top)


def cell(q, rep):
    rep.rule('cell', 'A cell of a table keeps or gets a paragraph: its content is removed only if blocks are written to it.')
    txt, tab = blocks(q, 'TextBlock'), blocks(q, 'TableBlock')
    if txt is None:
        rep.skip('kinds of blocks')
        return
    bbox = [(10.0, 20.0, 60.0, 80.0)]
    for name, span in (('single', (1, 1)), ('merged', (2, 3)), ('covered', (0, 0))):
        contract(q, rep, f'content-{name}', 'Cell.make_docx', [('ext', 'oxml()'), ('call', 'Blocks.make_docx')],
                 {'layout': [Obj(blocks=b) for b in (collection(), txt, tab)], 'merged_cells': [span], 'bbox': bbox, 'bg_color': [None], 'border_width': [(1.0, 1.0, 1.0, 1.0)], 'border_color': [(0, 0, 0, 0)]},
                 lambda rec: None, judge, 'content of a cell', keep=lambda e: q.is_func(e.ctx.fi, 'Cell.make_docx') and (e.kind == 'call' or tag_of(e, 'clear_content') is not None), avoid='TableBlock.make_docx')


def judge(effs, rec):
    empty = False
    for e in effs:
        if e.event.kind == 'call': empty = empty and not rec['layout']['blocks']['__iter__']
        else: empty = True
    return 'a cell without paragraph' if empty else None


def links(q, rep):
    rep.rule('links', 'The id set at a hyperlink is that of an external relation created for it.')
    n = 0
    for e in q.events('ext', name='oxml()'):
        if tag_of(e, 'set') is None or const_arg(e, 0) != 'r:id' or len(e.args) < 2: continue
        n += 1
        v = e.args[1]
        if v.terms and all(t[0] == 'c' for t in v.terms): rep.bad('constant', q.at(e), 'the id of a hyperlink is a constant')
        else: rep.tri(True if v.atoms == {('xo', 'docx.rId')} else None, 'relation', q.at(e), 'id of a hyperlink')
    for e in q.events('ext', name='docx.Part.relate_to'):
        ext = e.kwargs.get('is_external') or (e.args[2] if len(e.args) > 2 else None)
        kinds = [str(a[1]) for v in list(e.args) + list(e.kwargs.values()) for a in v.atoms if a[0] == 'x']
        if not any('HYPERLINK' in k for k in kinds):
            if kinds: rep.bad('type', q.at(e), f'the relation of a hyperlink has the type {kinds}')
            continue
        t = one(ext) if ext is not None else ('c', False)
        rep.tri(None if t is None or t[0] != 'c' else bool(t[1]), 'external', q.at(e), 'the relation of a hyperlink is not external')
    if n == 0: rep.skip('no hyperlinks')


TAGS = re.compile(r'<(/?)([A-Za-z_][\w.\-]*)(?::([A-Za-z_][\w.\-]*))?')


def fragments(q, rep):
    rep.rule('fragments', 'Every XML fragment written is well-formed and declares the namespaces it uses; names of elements and attributes have a known prefix.')
    for e in q.events('ext', name='docx.oxml.parse_xml'):
        for v in e.args[:1]:
            for a in v.atoms:
                if a[0] not in ('c', 'tm') or not isinstance(a[1], str):
                    rep.skip(f'text of the fragment at {q.at(e)}')
                    continue
                s = a[1].replace('\0', '1')
                try: ET.fromstring(s)
                except ET.ParseError as x:
                    head = a[1].split('>', 1)[0]
                    outside = re.sub(r'"[^"]*"', '', head)
                    if '\0' in outside: rep.skip(f'fragment at {q.at(e)}')
                    else: rep.bad('fragment', q.at(e), f'XML fragment {s[:60]!r}... is not well-formed: {x}')
                else:
                    bad = [u for u in re.findall(r'xmlns:\w+="ns-(\w+)"', s) if u not in PREFIXES]
                    rep.tri(not bad, 'namespace', q.at(e), f'unknown namespaces {bad}')
    for name in ('docx.oxml.ns.qn', 'docx.oxml.OxmlElement', 'docx.oxml.ns.nsdecls'):
        for e in q.events('ext', name=name):
            for v in e.args[:1] if not name.endswith('nsdecls') else e.args:
                for a in v.atoms:
                    if a[0] != 'c' or not isinstance(a[1], str): continue
                    p = a[1] if name.endswith('nsdecls') else a[1].split(':')[0] if a[1].count(':') == 1 else None
                    rep.tri(p in PREFIXES, 'prefix', q.at(e), f'the name {a[1]!r} has no known prefix')
