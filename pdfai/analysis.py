'''Run the analysis from the public entry points.'''

import time
from collections import deque

from .interp import Interp, _ModFunc
from .model import Model
from .program import Program
from .values import V, const, NONE, TRUE

DRIVER_PATH = 'pdf2docx/__driver__.py'
DRIVER = '''
from pdf2docx.main import PDF2DOCX
from pdf2docx.converter import Converter

def cmd_convert(pdf, docx, start, end, pages, kwargs):
    PDF2DOCX.convert(pdf, docx, start, end, pages, **kwargs)

def cmd_debug(pdf, page_index, docx, debug_pdf, layout, kwargs):
    PDF2DOCX.debug(pdf, page_index, docx, debug_pdf, layout, **kwargs)

def cmd_table(pdf, start, end, pages, kwargs):
    return PDF2DOCX.table(pdf, start, end, pages, **kwargs)

def api_convert(pdf, docx, start, end, pages, kwargs):
    cv = Converter(pdf)
    cv.convert(docx, start, end, pages, kwargs)

def api_parse(pdf, indexes, kwargs):
    cv = Converter(pdf)
    cv.parse(indexes, kwargs)

def api_make_docx(pdf, docx):
    cv = Converter(pdf)
    cv.make_docx(docx)

def api_debug_page(pdf, i, docx, debug_pdf, layout, kwargs):
    cv = Converter(pdf)
    cv.debug_page(i, docx, debug_pdf, layout, kwargs)

def api_extract_tables(pdf, start, end, pages, kwargs):
    cv = Converter(pdf)
    return cv.extract_tables(start, end, pages, kwargs)

def api_store(pdf):
    cv = Converter(pdf)
    return cv.store()

def api_restore(pdf, data):
    cv = Converter(pdf)
    cv.restore(data)

def api_serialize(pdf, filename):
    cv = Converter(pdf)
    cv.serialize(filename)

def api_deserialize(pdf, filename):
    cv = Converter(pdf)
    cv.deserialize(filename)

def api_get(pdf, index):
    cv = Converter(pdf)
    return cv[index], len(cv), cv.fitz_doc

def api_close(pdf):
    cv = Converter(pdf)
    cv.close()

def cmd_convert_default(pdf):
    PDF2DOCX.convert(pdf)

def cmd_table_default(pdf):
    return PDF2DOCX.table(pdf)

def cmd_debug_default(pdf):
    PDF2DOCX.debug(pdf)

def api_convert_default(pdf):
    cv = Converter(pdf)
    cv.convert()

def api_extract_tables_default(pdf):
    cv = Converter(pdf)
    return cv.extract_tables()

def api_parse_default(pdf):
    cv = Converter(pdf)
    cv.parse()
'''


def sym(name, *atoms):
    return V(list(atoms), frozenset([('P', name)]), frozenset([('s', name)]))


PARAMS = {
    'pdf': sym('pdf', ('ty', 'str')),
    'docx': sym('docx', ('ty', 'str'), ('c', None)),
    'start': sym('start', ('ty', 'int')),
    'end': sym('end', ('ty', 'int'), ('c', None)),
    'pages': sym('pages', ('r', 'pages', '', 0), ('c', None)),
    'kwargs': sym('kwargs', ('r', 'kwargs', '', 0)),
    'page_index': sym('page_index', ('ty', 'int')),
    'i': sym('page_index', ('ty', 'int')),
    'index': V([('ty', 'int'), ('slice', (NONE, NONE, NONE))], frozenset([('P', 'index')]), None),
    'debug_pdf': sym('debug_pdf', ('ty', 'str'), ('c', None)),
    'layout': sym('layout', ('ty', 'str'), ('c', None)),
    'filename': sym('layout', ('ty', 'str')),
    'indexes': sym('indexes', ('r', 'pages', '', 0), ('c', None)),
    'data': sym('data', ('r', 'json', '', 0)),
}


class Analysis:
    def __init__(self, root, overlay=None):
        t = time.time()
        self.prog = Program(root, overlay=overlay, extra={DRIVER_PATH: DRIVER})
        self.model = Model()
        self.I = Interp(self.prog, self.model)
        I = self.I
        for m in list(self.prog.modules): I.ensure_module(m)
        self.entries = {}
        for fi in self.prog.funcs:
            if fi.module.path != DRIVER_PATH: continue
            args = tuple(PARAMS[p] for p in fi.params)
            c = I.get_ctx(fi, None, None, args)
            self.entries[fi.node.name] = c
        for c in self.entries.values():
            if not c.evaluated: I.evaluate(c)
        I.run()
        self.failed = I.failed
        self.reach()
        self.seconds = time.time() - t

    def reach(self):
        '''contexts really called, starting with the entries (others were superseded by better ones)'''
        I = self.I
        seen = {}
        work = deque()
        for c in list(self.entries.values()) + list(I.mod_ctx.values()):
            seen[c.id] = None
            work.append(c)
        while work:
            c = work.popleft()
            for (_, cid) in c.calls:
                if cid not in seen:
                    seen[cid] = c.id
                    work.append(I.ctxs[cid])
        self.parent = seen
        self.ctxs = [I.ctxs[i] for i in seen]

    def events(self, *kinds):
        for c in self.ctxs:
            for ev in c.events.values():
                if not kinds or ev.kind in kinds: yield ev
