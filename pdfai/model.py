'''What the analysis knows about Python itself and the libraries in use.'''

import ast
import re

from .values import *   # noqa
from .interp import map_term, t_elem, t_ix, t_index

# ---------------------------------------------------------------- types of library objects
# type -> attribute or method -> type of the attribute / returned value
# '[T]': sequence of T; 'raw:root': data from the PDF; 'num', 'str', 'bytes', 'bool', 'int', 'none'
TYPES = {
    'fitz.Document': {
        'pageCount': 'int', 'page_count': 'int', 'newPage': 'fitz.Page', 'new_page': 'fitz.Page', 'save': 'none',
        'close': 'none', 'extractImage': 'raw:img', 'extract_image': 'raw:img', 'xrefStream': 'bytes', 'xref_stream': 'bytes',
        'updateStream': 'none', 'update_stream': 'none', 'loadPage': 'fitz.Page', 'load_page': 'fitz.Page', '__iter__': 'fitz.Page',
        '__getitem__': 'fitz.Page', 'pages': '[fitz.Page]', 'name': 'str', 'metadata': 'raw:meta', 'needsPass': 'bool',
        'isEncrypted': 'bool', 'needs_pass': 'bool', 'is_encrypted': 'bool', 'authenticate': 'int', 'is_closed': 'bool',
        'isClosed': 'bool', '__len__': 'int',
    },
    'fitz.Page': {
        'rect': 'fitz.Rect', 'rotation': 'int', 'rotationMatrix': 'fitz.Matrix', 'rotation_matrix': 'fitz.Matrix',
        'derotationMatrix': 'fitz.Matrix', 'derotation_matrix': 'fitz.Matrix', 'transformationMatrix': 'fitz.Matrix',
        'number': 'int', 'parent': 'fitz.Document', 'getText': 'raw:raw', 'get_text': 'raw:raw', 'getDrawings': 'raw:draw',
        'get_drawings': 'raw:draw', 'getLinks': 'raw:links', 'get_links': 'raw:links', 'getImageList': 'raw:img',
        'get_images': 'raw:img', 'getPixmap': 'fitz.Pixmap', 'get_pixmap': 'fitz.Pixmap', 'getImageBbox': 'fitz.Rect',
        'get_image_bbox': 'fitz.Rect', 'get_contents': '[int]', 'getContents': '[int]', 'mediabox': 'fitz.Rect',
        'cropbox': 'fitz.Rect', 'MediaBox': 'fitz.Rect', 'CropBox': 'fitz.Rect', 'bound': 'fitz.Rect',
        'insertText': 'none', 'drawRect': 'none', 'drawLine': 'none', 'drawBezier': 'none', 'insertTextbox': 'none',
        'setRotation': 'none', 'set_rotation': 'none', 'annots': '[u]',
    },
    'fitz.Rect': {
        'x0': 'num', 'y0': 'num', 'x1': 'num', 'y1': 'num', 'width': 'num', 'height': 'num', 'tl': 'fitz.Point', 'tr': 'fitz.Point',
        'bl': 'fitz.Point', 'br': 'fitz.Point', 'getArea': 'num', 'get_area': 'num', 'getRectArea': 'num', 'contains': 'bool',
        'intersects': 'bool', 'isEmpty': 'bool', 'is_empty': 'bool', 'isInfinite': 'bool', 'intersect': 'fitz.Rect',
        'includeRect': 'fitz.Rect', 'include_rect': 'fitz.Rect', 'includePoint': 'fitz.Rect', 'transform': 'fitz.Rect', 'normalize': 'fitz.Rect',
        'round': 'fitz.Rect', 'irect': 'fitz.Rect', '__iter__': 'num', '__getitem__': 'num', 'quad': 'fitz.Quad', 'morph': 'fitz.Quad',
        'is_infinite': 'bool', 'top_left': 'fitz.Point', 'bottom_right': 'fitz.Point', 'norm': 'num', '__len__': 'int',
    },
    'fitz.Point': {'x': 'num', 'y': 'num', '__iter__': 'num', '__getitem__': 'num', 'distance_to': 'num', 'transform': 'fitz.Point',
                   'distanceTo': 'num', 'unit': 'fitz.Point', '__len__': 'int'},
    'fitz.Matrix': {'a': 'num', 'b': 'num', 'c': 'num', 'd': 'num', 'e': 'num', 'f': 'num', '__iter__': 'num', '__getitem__': 'num',
                    'preRotate': 'fitz.Matrix', 'prerotate': 'fitz.Matrix', 'preScale': 'fitz.Matrix', 'prescale': 'fitz.Matrix',
                    'preTranslate': 'fitz.Matrix', 'pretranslate': 'fitz.Matrix', 'invert': 'int', 'concat': 'fitz.Matrix',
                    '__len__': 'int'},
    'fitz.Quad': {'rect': 'fitz.Rect', 'ul': 'fitz.Point', 'ur': 'fitz.Point', 'll': 'fitz.Point', 'lr': 'fitz.Point',
                  '__getitem__': 'fitz.Point', '__iter__': 'fitz.Point'},
    'fitz.Pixmap': {'width': 'int', 'height': 'int', 'w': 'int', 'h': 'int', 'getPNGData': 'bytes', 'tobytes': 'bytes',
                    'getImageData': 'bytes', 'get_image_data': 'bytes', 'samples': 'bytes', 'colorspace': 'fitz.Colorspace', 'n': 'int',
                    'alpha': 'int', 'setAlpha': 'none', 'set_alpha': 'none', 'irect': 'fitz.Rect', 'writePNG': 'none', 'save': 'none',
                    'writeImage': 'none', 'xres': 'int', 'yres': 'int', 'stride': 'int'},
    'fitz.Colorspace': {'name': 'str', 'n': 'int'},
    'fitz.Font': {'text_length': 'num', 'name': 'str', 'ascender': 'num', 'descender': 'num'},
    'fitz.TextWriter': {'append': '(fitz.Rect,fitz.Point)', 'textRect': 'fitz.Rect', 'text_rect': 'fitz.Rect', 'rect': 'fitz.Rect'},
    'docx.Document': {
        'paragraphs': '[docx.Paragraph]', 'sections': '[docx.Section]', 'tables': '[docx.Table]', 'add_paragraph': 'docx.Paragraph',
        'add_heading': 'docx.Paragraph', 'add_section': 'docx.Section', 'add_table': 'docx.Table', 'add_picture': 'docx.InlineShape',
        'add_page_break': 'docx.Paragraph', 'save': 'none', 'styles': 'u', 'part': 'docx.Part', 'element': 'oxml', '_body': 'docx.Body',
        '_element': 'oxml', 'core_properties': 'u', 'settings': 'u', 'inline_shapes': 'u',
    },
    'docx.Section': {'page_width': 'len', 'page_height': 'len', 'left_margin': 'len', 'right_margin': 'len', 'top_margin': 'len',
                     'bottom_margin': 'len', 'header': 'u', 'footer': 'u', '_sectPr': 'oxml', 'start_type': 'u', 'orientation': 'u'},
    'docx.Paragraph': {
        'paragraph_format': 'docx.ParagraphFormat', 'add_run': 'docx.Run', 'runs': '[docx.Run]', 'text': 'str', 'alignment': 'u', 'style': 'u',
        'part': 'docx.Part', '_p': 'oxml', '_element': 'oxml', 'clear': 'docx.Paragraph', 'insert_paragraph_before': 'docx.Paragraph',
        '_parent': 'u',
    },
    'docx.Run': {'font': 'docx.Font', 'text': 'str', 'add_tab': 'none', 'add_break': 'none', 'add_picture': 'docx.InlineShape',
                 'add_text': 'u', '_r': 'oxml', '_element': 'oxml', 'part': 'docx.Part', 'style': 'u', 'clear': 'docx.Run',
                 'bold': 'u', 'italic': 'u', 'underline': 'u'},
    'docx.Font': {'name': 'str', 'size': 'len', 'color': 'docx.ColorFormat', 'highlight_color': 'u', 'underline': 'u', 'strike': 'u',
                  'bold': 'u', 'italic': 'u', 'superscript': 'u', 'subscript': 'u', 'element': 'oxml', '_element': 'oxml'},
    'docx.ColorFormat': {'rgb': 'u', 'type': 'u', 'theme_color': 'u'},
    'docx.ParagraphFormat': {'line_spacing': 'u', 'space_before': 'len', 'space_after': 'len', 'left_indent': 'len', 'right_indent': 'len',
                             'first_line_indent': 'len', 'alignment': 'u', 'tab_stops': 'docx.TabStops', 'widow_control': 'u',
                             'line_spacing_rule': 'u', 'keep_together': 'u', 'keep_with_next': 'u', 'page_break_before': 'u',
                             'element': 'oxml', '_element': 'oxml'},
    'docx.TabStops': {'add_tab_stop': 'docx.TabStop', '__iter__': 'docx.TabStop', '__getitem__': 'docx.TabStop', 'clear_all': 'none',
                      '__len__': 'int'},
    'docx.TabStop': {'position': 'len', 'alignment': 'u', 'leader': 'u'},
    'docx.Table': {'cell': 'docx.Cell', 'rows': '[docx.Row]', 'columns': '[docx.Column]', 'autofit': 'u', 'alignment': 'u', 'style': 'u',
                   '_element': 'oxml', '_tbl': 'oxml', 'row_cells': '[docx.Cell]', 'column_cells': '[docx.Cell]', 'add_row': 'docx.Row',
                   'add_column': 'docx.Column', 'part': 'docx.Part', '_cells': '[docx.Cell]'},
    'docx.Row': {'cells': '[docx.Cell]', 'height': 'len', 'height_rule': 'u', '_tr': 'oxml', '_element': 'oxml'},
    'docx.Column': {'cells': '[docx.Cell]', 'width': 'len'},
    'docx.Cell': {'paragraphs': '[docx.Paragraph]', 'tables': '[docx.Table]', 'add_paragraph': 'docx.Paragraph', 'add_table': 'docx.Table',
                  'merge': 'docx.Cell', 'width': 'len', 'text': 'str', '_tc': 'oxml', '_element': 'oxml', 'vertical_alignment': 'u',
                  'part': 'docx.Part'},
    'docx.Part': {'relate_to': 'docx.rId', 'get_or_add_image': '(docx.rId,docx.Image)', 'next_id': 'int', 'rels': 'u',
                  'new_pic_inline': 'oxml', 'package': 'u', 'document': 'docx.Document'},
    'docx.Image': {'scaled_dimensions': '(len,len)', 'filename': 'str', 'width': 'len', 'height': 'len'},
    'docx.InlineShape': {'width': 'len', 'height': 'len', '_inline': 'oxml'},
    'docx.Body': {'clear_content': 'none', '_element': 'oxml'},
    'io.BytesIO': {'read': 'bytes', 'getvalue': 'bytes', 'close': 'none', 'seek': 'int', 'write': 'int'},
    'file': {'read': 'str', 'write': 'int', 'close': 'none', 'readlines': '[str]', '__iter__': 'str', 'flush': 'none', 'name': 'str'},
    'multiprocessing.Pool': {'close': 'none', 'join': 'none', 'terminate': 'none'},
    'tempfile.TemporaryDirectory': {'cleanup': 'none', 'name': 'str'},
    're.Match': {'group': 'str', 'groups': '[str]', 'start': 'int', 'end': 'int', 'span': '(int,int)'},
    're.Pattern': {},
    'Exception': {'args': 'u'},
    'collections.deque': {},
    'itertools.count': {},
    'len': {},
    'docx.rId': {},
    'random.Random': {},
}
# attributes of the docx classes that can be assigned with an effect
SETTABLE = {
    'docx.Section': {'page_width', 'page_height', 'left_margin', 'right_margin', 'top_margin', 'bottom_margin', 'start_type', 'orientation',
                     'gutter', 'header_distance', 'footer_distance', 'different_first_page_header_footer'},
    'docx.Paragraph': {'alignment', 'style', 'text', '_p', '_element'},
    'docx.Run': {'bold', 'italic', 'underline', 'text', 'style'},
    'docx.Font': {'all_caps', 'bold', 'complex_script', 'cs_bold', 'cs_italic', 'double_strike', 'emboss', 'hidden', 'highlight_color',
                  'italic', 'imprint', 'math', 'name', 'no_proof', 'outline', 'rtl', 'shadow', 'size', 'small_caps', 'snap_to_grid',
                  'spec_vanish', 'strike', 'subscript', 'superscript', 'underline', 'web_hidden'},
    'docx.ColorFormat': {'rgb', 'theme_color'},
    'docx.ParagraphFormat': {'alignment', 'first_line_indent', 'keep_together', 'keep_with_next', 'left_indent', 'line_spacing',
                             'line_spacing_rule', 'page_break_before', 'right_indent', 'space_after', 'space_before', 'widow_control'},
    'docx.TabStop': {'alignment', 'leader', 'position'},
    'docx.Table': {'alignment', 'autofit', 'style', 'table_direction'},
    'docx.Row': {'height', 'height_rule'},
    'docx.Column': {'width'},
    'docx.Cell': {'text', 'vertical_alignment', 'width'},
    'docx.InlineShape': {'width', 'height'},
}
# constructors and functions: dotted path -> type
CTORS = {
    'fitz.Document': 'fitz.Document', 'fitz.open': 'fitz.Document', 'fitz.Rect': 'fitz.Rect', 'fitz.IRect': 'fitz.Rect',
    'fitz.Matrix': 'fitz.Matrix', 'fitz.Point': 'fitz.Point', 'fitz.Pixmap': 'fitz.Pixmap', 'fitz.Font': 'fitz.Font',
    'fitz.TextWriter': 'fitz.TextWriter', 'fitz.Quad': 'fitz.Quad',
    'docx.Document': 'docx.Document', 'docx.api.Document': 'docx.Document', 'io.BytesIO': 'io.BytesIO', 'io.StringIO': 'file',
    'multiprocessing.Pool': 'multiprocessing.Pool', 'multiprocessing.pool.Pool': 'multiprocessing.Pool',
    'multiprocessing.pool.ThreadPool': 'multiprocessing.Pool',
    'concurrent.futures.ProcessPoolExecutor': 'multiprocessing.Pool', 'concurrent.futures.ThreadPoolExecutor': 'multiprocessing.Pool',
    'tempfile.TemporaryDirectory': 'tempfile.TemporaryDirectory', 'docx.oxml.OxmlElement': 'oxml', 'docx.oxml.parse_xml': 'oxml',
    'docx.oxml.shape.CT_Picture.new': 'oxml', 'collections.deque': 'deque', 'itertools.count': 'itertools.count',
    'docx.oxml.xmlchemy.OxmlElement': 'oxml', 'random.Random': 'random.Random',
}
ALIASES = {
    'docx.shared.Pt': 'Pt', 'docx.oxml.xmlchemy.OxmlElement': 'docx.oxml.OxmlElement', 'docx.oxml.parser.OxmlElement': 'docx.oxml.OxmlElement',
    'docx.oxml.parser.parse_xml': 'docx.oxml.parse_xml', 'fitz.fitz.Rect': 'fitz.Rect', 'fitz.IRect': 'fitz.Rect',
    'docx.api.Document': 'docx.Document', 'builtins.open': 'open', 'io.open': 'open', 'fitz.open': 'fitz.Document',
    'multiprocessing.pool.Pool': 'multiprocessing.Pool', 'collections.Iterable': 'collections.abc.Iterable',
    'typing.Iterable': 'collections.abc.Iterable', 'codecs.open': 'open',
}
# functions that don't raise in practice and have no effects of interest
SAFE = {
    'len', 'list', 'tuple', 'set', 'dict', 'frozenset', 'sorted', 'reversed', 'enumerate', 'zip', 'map', 'filter', 'range', 'abs', 'round',
    'bool', 'str', 'isinstance', 'issubclass', 'hasattr', 'getattr', 'print', 'repr', 'sum', 'any', 'all', 'min', 'max', 'id', 'type',
    'callable', 'format', 'hash', 'iter', 'slice', 'object', 'int', 'float', 'setattr', 'delattr', 'super',
}
SAFE_EXT = {
    'os.path.join', 'os.path.split', 'os.path.splitext', 'os.path.basename', 'os.path.dirname', 'os.path.exists', 'os.path.isfile',
    'os.path.abspath', 'time.perf_counter', 'time.time', 'time.perf_counter_ns', 'multiprocessing.cpu_count', 'os.cpu_count',
    'contextlib.closing', 'shutil.rmtree', 'fitz.Rect', 'fitz.Matrix', 'fitz.Point', 'collections.defaultdict', 'collections.deque', 'copy.copy', 'Pt', 'io.BytesIO',
    'functools.partial', 'os.path.isdir', 'logging.getLogger', 'itertools.chain', 'itertools.count', 'collections.OrderedDict',
}
SAFE_METHODS = {
    'append', 'extend', 'get', 'items', 'keys', 'values', 'update', 'copy', 'strip', 'lstrip', 'rstrip', 'upper', 'lower', 'split', 'join',
    'startswith', 'endswith', 'replace', 'zfill', 'sort', 'reverse', 'add', 'clear', 'setdefault', 'close', 'insert', 'count', 'find',
    'discard', 'debug', 'info', 'warning', 'error', 'exception', 'popleft', 'appendleft', 'format', 'shutdown', 'terminate', 'join', 'cleanup',
    'splitlines', 'title', 'isdigit', 'getArea', 'intersects', 'contains', 'flush',
}
NONDET = {
    'random': 'random numbers', 'time.time': 'the clock', 'time.perf_counter': 'the clock', 'time.monotonic': 'the clock',
    'time.perf_counter_ns': 'the clock', 'time.time_ns': 'the clock', 'time.process_time': 'the clock', 'time.localtime': 'the clock',
    'time.strftime': 'the clock', 'time.ctime': 'the clock', 'time.gmtime': 'the clock',
    'datetime.datetime.now': 'the clock', 'datetime.datetime.utcnow': 'the clock', 'datetime.datetime.today': 'the clock',
    'datetime.date.today': 'the clock', 'uuid.uuid1': 'random numbers', 'uuid.uuid4': 'random numbers', 'os.urandom': 'random numbers',
    'secrets': 'random numbers', 'numpy.random': 'random numbers', 'os.getpid': 'the process id', 'builtins.id': 'a memory address',
    'builtins.hash': 'a hash value', 'os.listdir': 'directory order', 'os.scandir': 'directory order', 'glob.glob': 'directory order',
    'glob.iglob': 'directory order', 'os.walk': 'directory order', 'pathlib.Path.iterdir': 'directory order',
    'threading.get_ident': 'a thread id', 'os.environ': 'the environment', 'os.getenv': 'the environment',
    'tempfile.mktemp': 'a random name', 'tempfile.mkdtemp': 'a random name', 'tempfile.gettempdir': 'the environment',
}
UNORDERED = {('ND', 'directory order'), ('ND', 'the order in which workers finish')}
BUILTINS = set(dir(__builtins__)) if not isinstance(__builtins__, dict) else set(__builtins__)
EXC = {n for n in BUILTINS if n.endswith(('Error', 'Exception', 'Warning', 'Interrupt', 'Exit'))}
SCALAR = {'int', 'float', 'str', 'bytes', 'bool', 'num'}


class Model:
    unordered = UNORDERED
    builtins = BUILTINS | {'unicode'}
    decorators = {'functools.wraps', 'functools.lru_cache', 'functools.cache', 'functools.cached_property', 'abc.abstractmethod',
                  'contextlib.contextmanager'}

    def bind(self, I):
        self.I = I
        self.tmp_sites = set()     # temporary folders made here
        self.closings = {}         # arguments of contextlib.closing

    # ------------------------------------------------ values
    def canon(self, path):
        if path in ALIASES: return ALIASES[path]
        if path.startswith('builtins.'): return path[9:]
        return path

    def ext_value(self, path):
        path = ALIASES.get(path, path)
        if path in ('fitz.csRGB', 'fitz.csGRAY', 'fitz.csCMYK'): return xo('fitz.Colorspace')
        if path.startswith('fitz.cs') and path.endswith('.name'): return ty('str')
        return V([('x', path)], EMPTY, frozenset([('c', 'x:' + path)]))

    def typed(self, t, labels, terms, node, root_label=None):
        if t == 'none': return V([('c', None)], EMPTY, terms)
        if t == 'u': return V([('u',)], labels, terms)
        if t in SCALAR: return V([('ty', t)], labels, terms)
        if t.startswith('raw:'):
            root = t[4:]
            return V([('r', root, '', 1)], frozenset([('R', root, '')]), terms)
        if t.startswith('('):
            parts = tuple(self.typed(x, labels, None, node) for x in t[1:-1].split(','))
            return V([('t', parts)], labels)
        return V([('xo', t)], labels, terms)

    def xo_attr(self, a, base, name, node, st, fr):
        tp = a[1]
        I = self.I
        if tp.startswith('oxml'):
            return V([('xo', 'oxml', a[2] + '.' + name) if len(a) > 2 and isinstance(a[2], str) else ('xo', 'oxml', '.' + name)], base.labels, base.terms)
        tab = TYPES.get(tp)
        if tp == 'tempfile.TemporaryDirectory' and name == 'name': return V([('ty', 'str')], frozenset([('TMP',)]), frozenset([('s', 'tmpdir')]))
        if tab and name in tab:
            t = tab[name]
            if self.is_method(tp, name): return V([('vm', base, name)])
            terms = self.attr_term(base, name)
            if tp in ('fitz.Page', 'fitz.Document') and t not in ('fitz.Document', 'fitz.Page'):
                return self.typed(t, frozenset([('X', f'{tp}.{name}')]), terms, node)
            return self.typed(t, base.labels, terms, node)
        if tp.startswith('['): return V([('vm', base, name)])
        if tab is not None: return V([('vm', base, name)])
        return V([('vm', base, name)])

    METHODS = {
        'fitz.Document': {'newPage', 'new_page', 'save', 'close', 'extractImage', 'extract_image', 'xrefStream', 'xref_stream', 'updateStream',
                          'update_stream', 'loadPage', 'load_page', 'pages', 'authenticate'},
        'docx.Cell': {'add_paragraph', 'add_table', 'merge'},
    }
    PROPS = {'pageCount', 'page_count', 'name', 'metadata', 'rect', 'rotation', 'rotationMatrix', 'rotation_matrix', 'derotationMatrix',
             'derotation_matrix', 'transformationMatrix', 'number', 'parent', 'mediabox', 'cropbox', 'MediaBox', 'CropBox', 'x0', 'y0', 'x1', 'y1',
             'x', 'y', 'a', 'b', 'c', 'd', 'e', 'f', 'width', 'height', 'w', 'h', 'tl', 'tr', 'bl', 'br', 'isEmpty', 'is_empty', 'isInfinite',
             'is_infinite', 'irect', 'quad', 'ul', 'ur', 'll', 'lr', 'samples', 'colorspace', 'n', 'alpha', 'xres', 'yres', 'stride', 'ascender',
             'descender', 'textRect', 'text_rect', 'paragraphs', 'sections', 'tables', 'styles', 'part', 'element', '_body', '_element',
             'core_properties', 'settings', 'inline_shapes', 'page_width', 'page_height', 'left_margin', 'right_margin', 'top_margin',
             'bottom_margin', 'header', 'footer', '_sectPr', 'start_type', 'orientation', 'paragraph_format', 'runs', 'text', 'alignment', 'style',
             '_p', '_parent', 'font', '_r', 'bold', 'italic', 'underline', 'size', 'color', 'highlight_color', 'strike', 'superscript', 'subscript',
             'rgb', 'type', 'theme_color', 'line_spacing', 'space_before', 'space_after', 'left_indent', 'right_indent', 'first_line_indent',
             'tab_stops', 'widow_control', 'line_spacing_rule', 'keep_together', 'keep_with_next', 'page_break_before', 'position', 'leader',
             'rows', 'columns', 'autofit', '_tbl', '_cells', 'cells', 'height_rule', '_tr', '_tc', 'vertical_alignment', 'next_id', 'rels',
             'package', 'document', 'filename', '_inline', 'args', 'top_left', 'bottom_right', 'needsPass', 'isEncrypted', 'needs_pass',
             'is_encrypted', 'is_closed', 'isClosed', 'unit'}

    def is_method(self, tp, name): return name not in self.PROPS

    def attr_term(self, base, name):
        if base.terms is None or len(base.terms) != 1: return None
        t = next(iter(base.terms))
        i = {'x0': 0, 'y0': 1, 'x1': 2, 'y1': 3, 'x': 0, 'y': 1}.get(name)
        if i is not None: return frozenset([t_ix(t, i)])
        if name == 'width': return frozenset([t_add(t_ix(t, 2), t_ix(t, 0), -1)])
        if name == 'height': return frozenset([t_add(t_ix(t, 3), t_ix(t, 1), -1)])
        return frozenset([('at', t, name)])

    def xo_index(self, a, base, idx, node, st, fr):
        tp = a[1]
        if tp.startswith('['):
            if any(x[0] == 'slice' for x in idx.atoms): return base
            return self.typed(tp[1:-1], base.labels, lift(lambda x, y: ('ix', x, y), base, idx), node)
        tab = TYPES.get(tp, {})
        if '__getitem__' in tab:
            def f(t, i):
                if i[0] == 'c' and isinstance(i[1], int): return t_ix(t, i[1])
                return ('ix', t, i)
            return self.typed(tab['__getitem__'], base.labels, lift(f, base, idx), node)
        if tp == 'oxml': return V([('xo', 'oxml')])
        if tp in ('len',): return V([('ty', 'num')], base.labels)
        return V([('u',)], base.labels | idx.labels)

    def xo_iter(self, a, base, node, st, fr):
        tp = a[1]
        if tp.startswith('['): return self.typed(tp[1:-1], base.labels, None, node)
        tab = TYPES.get(tp, {})
        if '__iter__' in tab: return self.typed(tab['__iter__'], base.labels, None, node)
        return V([('u',)], base.labels)

    def binop_type(self, op, x, other):
        tp = x[1]
        if tp in ('fitz.Rect', 'fitz.Point', 'fitz.Matrix', 'fitz.Quad'): return {('xo', tp)}
        if tp == 'len': return {('ty', 'num')}
        return {('u',)}

    # ------------------------------------------------ strings
    def format_shape(self, v, spec):
        m = re.fullmatch(r'0(\d)[xX]', spec or '')
        if m: return f'hex{m.group(1)}'
        if spec in ('', 's') and len(v.atoms) == 1:
            a = next(iter(v.atoms))
            if a[0] == 'sh': return a[1]
        return None

    def shape_slice(self, a, idx, base):
        p = next(iter(x for x in idx.atoms if x[0] == 'slice'))[1]
        cs = [next(iter(x.atoms))[1] if len(x.atoms) == 1 and next(iter(x.atoms))[0] == 'c' else '?' for x in p]
        terms = lift(lambda b, i: ('ix', b, i), base, idx)
        if a[1] == '0x' and cs == [2, None, None]: return V([('sh', 'hex')], base.labels, terms)
        if a[1].startswith('hex') and a[1][3:].isdigit() and '?' not in cs:
            n = int(a[1][3:])
            return V([('sh', f'hex{len(range(n)[slice(*cs)])}')], base.labels, terms)
        return V([('ty', 'str')], base.labels, terms)

    def percent_format(self, fmt, a, b, labels):
        I = self.I
        vals = None
        if len(b.atoms) == 1:
            x = next(iter(b.atoms))
            vals = list(x[1]) if x[0] == 't' else [b]
        pieces = re.split(r'(%(?:\([^)]*\))?[-#0 +]*\d*(?:\.\d+)?[a-zA-Z%])', fmt)
        kinds, tparts = [], []
        i = 0
        for j, p in enumerate(pieces):
            if j % 2 == 0:
                if p:
                    for part in re.split('(\0)', p):
                        kinds.append(('c', part)); tparts.append(('c', part))
            elif p == '%%':
                kinds.append(('c', '%')); tparts.append(('c', '%'))
            else:
                v = vals[i] if vals is not None and i < len(vals) else None
                i += 1
                self.piece(v, p[1:-1] + p[-1], kinds, tparts, labels)
        return I.template(kinds, tparts, labels)

    def piece(self, v, spec, kinds, tparts, labels):
        if v is None:
            kinds.append(('?',)); tparts.append(('lab', labels)); return
        sp = spec if spec not in ('s', '', 'd', 'r') else ''
        sh = self.format_shape(v, sp)
        one = next(iter(v.atoms)) if len(v.atoms) == 1 else None
        if sh: kinds.append(('sh', sh))
        elif one and one[0] == 'c' and not sp: kinds.append(('c', str(one[1])))
        elif one and one[0] == 'tm': kinds.append(('c', one[1]))
        elif one and one[0] == 'sh': kinds.append(one)
        else: kinds.append(('?',))
        t = next(iter(v.terms)) if v.terms and len(v.terms) == 1 else ('lab', v.labels)
        tparts.append(('fv', t, sp) if sp else t)

    def brace_format(self, fmt, args, kwargs, labels):
        pieces = re.split(r'(\{\{|\}\}|\{[^{}]*\})', fmt)
        kinds, tparts = [], []
        auto = 0
        for p in pieces:
            if not p: continue
            if p in ('{{', '}}'):
                kinds.append(('c', p[0])); tparts.append(('c', p[0]))
            elif p.startswith('{'):
                m = re.fullmatch(r'\{([^:!]*)(?:![rsa])?(?::(.*))?\}', p)
                name, spec = (m.group(1), m.group(2) or '') if m else ('?', '')
                v = None
                key = re.match(r'[^.\[]*', name).group(0)
                if key == '':
                    v = args[auto] if auto < len(args) else None
                    auto += 1
                elif key.isdigit(): v = args[int(key)] if int(key) < len(args) else None
                else: v = kwargs.get(key)
                if key != name: v = None
                self.piece(v, spec, kinds, tparts, labels)
            else:
                kinds.append(('c', p)); tparts.append(('c', p))
        return self.I.template(kinds, tparts, labels)

    def b_shutil_rmtree(self, args, kwargs, node, st, fr, labels, star):
        if args and ('TMP',) in args[0].labels:
            for s in self.tmp_sites:
                st.open = st.open - {s}
                st.must = st.must | {('closed', s)}
        return NONE

    def b_tempfile_mkdtemp(self, args, kwargs, node, st, fr, labels, star):
        self.tmp_sites.add(self.acquire('tempfile.mkdtemp', node, st, fr))
        return V([('ty', 'str')], labels | {('TMP',)}, frozenset([('s', 'tmpdir')]))

    def b_contextlib_closing(self, args, kwargs, node, st, fr, labels, star):
        v = args[0] if args else kwargs.get('thing', UNK)
        self.closings[node._id] = join(self.closings.get(node._id, BOT), v)
        return V([('xo', 'contextlib.closing', node._id)])

    # ------------------------------------------------ context managers
    def with_enter(self, v, node, st, fr):
        I = self.I
        out = BOT
        for a in v.atoms:
            if a[0] == 'xo':
                if a[1] == 'contextlib.closing' and len(a) > 2: out = join(out, self.closings.get(a[2], BOT))
                elif a[1] == 'tempfile.TemporaryDirectory':
                    out = join(out, V([('ty', 'str')], frozenset([('TMP',)]), frozenset([('s', 'tmpdir')])))
                else: out = join(out, V([a], v.labels, v.terms))
            elif a[0] == 'o' and I.objs[a[1]].kind == 'inst':
                r = I.call_method(V([a]), '__enter__', [], {}, node, st, fr)
                out = join(out, r)
            else: out = join(out, V([a], v.labels))
        return out

    def with_exit(self, v, node, st, fr):
        I = self.I
        for a in v.atoms:
            if a[0] == 'xo' and a[1] == 'contextlib.closing' and len(a) > 2:
                v = self.closings.get(a[2], BOT)
                self.release(v, st, fr, node)
                if any(x[0] == 'o' for x in v.atoms): I.call_method(v, 'close', [], {}, node, st, fr)
            elif a[0] == 'xo': self.release(V([a]), st, fr, node)
            elif a[0] == 'o' and I.objs[a[1]].kind == 'inst':
                I.call_method(V([a]), '__exit__', [NONE, NONE, NONE], {}, node, st, fr)

    def acquire(self, what, node, st, fr):
        site = (what, node._id)
        self.I.site_info[site] = node
        if not fr.mute: st.open = st.open | {site}
        # opened anew: not closed any more
        st.must = frozenset(m for m in st.must if m != ('closed', site))
        return site

    def release(self, v, st, fr, node):
        sites = [a[2] for a in v.atoms if a[0] == 'xo' and len(a) > 2 and isinstance(a[2], tuple)]
        if len(sites) == 1 or sites:
            for s in sites:
                st.open = st.open - {s}
                st.must = st.must | {('closed', s)}

    # ------------------------------------------------ calls of library functions
    def call_ext(self, path, args, kwargs, node, st, fr, star=(), star2=()):
        I = self.I
        name = self.canon(path)
        labels = EMPTY
        for a in args: labels |= a.labels
        for a in kwargs.values(): labels |= a.labels
        for a in star: labels |= a.labels
        for a in star2: labels |= a.labels
        m = getattr(self, 'b_' + name.replace('.', '_'), None)
        quiet = name in SAFE and m is not None
        if not quiet:
            I.event('ext', node, name, st, fr, args=args, kwargs=kwargs, data=(list(star), list(star2)))
        for p, why in NONDET.items():
            if path == p or path.startswith(p + '.'):
                I.event('nondet', node, f'{why} ({name})', st, fr, args=args)
                labels |= {('ND', why)}
        if name not in SAFE and name not in SAFE_EXT and name not in EXC:
            I.raise_point(st, fr)
        if m is not None:
            r = m(args, kwargs, node, st, fr, labels, star)
            if name == 'dict':
                for x in r.atoms:
                    if x[0] != 'o': continue
                    for k, sv in enumerate(star2):
                        I.event('dictspread', node, f'star:{k}', st, fr, recv=r, args=[sv])
                        I.dict_update(x[1], sv, node, st, fr)
            if name == 'sorted': labels -= UNORDERED
            if any(l[0] == 'ND' for l in labels): r = r.with_labels(labels)
            if not quiet: I.did(('ext', name), st, fr)
            return r
        I.did(('ext', name), st, fr)
        if name in EXC: return V([('xo', 'Exception')], labels)
        if name in CTORS:
            t = CTORS[name]
            if t == 'oxml': return self.make_oxml(name, args, labels, node)
            if t == 'deque': return self.b_list(args, kwargs, node, st, fr, labels, star)
            if name == 'fitz.Document' and not args and not kwargs and not star: return V([('xo', t)], labels)
            if t in ('fitz.Document', 'multiprocessing.Pool', 'tempfile.TemporaryDirectory') or t == 'file' and False:
                site = self.acquire(t, node, st, fr)
                return V([('xo', t, site)], EMPTY, frozenset([('new', node._id)]))
            if t in ('fitz.Rect', 'fitz.Point', 'fitz.Matrix'):
                for x in args:
                    for y in x.atoms:
                        if y[0] == 'o' and I.objs[y[1]].kind in ('list', 'set'): labels = labels | I.all_elements(y[1]).labels
                return V([('xo', t)], labels, self.vec_term(t, args))
            terms = lift(lambda *x: ('fn', name) + x, *args) if args and len(args) <= 4 and not kwargs else None
            if not args: terms = frozenset([('fn', name)])
            return V([('xo', t)], labels, terms)
        self.callback(args, kwargs, node, st, fr)
        terms = lift(lambda *x: ('fn', name) + x, *args) if args and len(args) <= 4 and not kwargs else None
        if name.startswith('docx.') and name.split('.')[-1][:1].isupper(): return V([('xo', name)], labels, terms)
        return V([('u',)], labels | {('X', name)}, terms)

    def vec_term(self, t, args):
        if not args: return frozenset([('fn', t)])
        if len(args) == 1: return lift(lambda x: x if x[0] in ('tup', 'map', 'ld', 'ix', 'fn', 'it', 's') else ('fn', t, x), args[0])
        if len(args) in (2, 4, 6): return lift(lambda *x: ('tup',) + x, *args)
        return None

    def make_oxml(self, name, args, labels, node):
        tag = None
        if args and len(args[0].atoms) == 1:
            a = next(iter(args[0].atoms))
            if a[0] in ('c', 'tm') and isinstance(a[1], str):
                tag = a[1]
                m = re.match(r'\s*<([\w:]+)', tag)
                if m: tag = m.group(1)
        return V([('xo', 'oxml', tag or '?')], EMPTY, frozenset([('new', node._id)]))

    def callback(self, args, kwargs, node, st, fr):
        '''functions given to library code may be called by it'''
        I = self.I
        for v in list(args) + list(kwargs.values()):
            for a in v.atoms:
                if a[0] in ('f', 'b'):
                    fi = I.prog.funcs[a[1]]
                    n = len(fi.params) - (1 if a[0] == 'b' else 0)
                    I.call(V([a]), [UNK] * n, {}, node, st, fr)

    def call_xo_value(self, a, fn, args, kwargs, node, st, fr):
        I = self.I
        I.event('ext', node, a[1] + '()', st, fr, recv=V([a], fn.labels), args=args, kwargs=kwargs)
        I.raise_point(st, fr)
        if a[1] == 'oxml':
            path = a[2] if len(a) > 2 and isinstance(a[2], str) else '?'
            m = path.rsplit('.', 1)[-1]
            if m in ('set', 'append', 'insert', 'remove', 'addnext', 'addprevious', 'extend', 'clear'): return NONE
            if m == 'get': return V([('ty', 'str'), ('c', None)])
            if m in ('find', 'getparent', 'first_child_found_in', 'getnext', 'getprevious'):
                at = args[0].atoms if args else ()
                tag = next(iter(at))[1] if len(at) == 1 and next(iter(at))[0] == 'c' else '?'
                return V([('xo', 'oxml', tag if isinstance(tag, str) else '?'), ('c', None)], EMPTY)
            if m in ('xpath', 'findall', 'iter', 'iterchildren', 'getchildren'): return xo('[oxml]')
            return V([('xo', 'oxml', path)], EMPTY)
        return UNK

    # ------------------------------------------------ builtins
    def b_len(self, args, kwargs, node, st, fr, labels, star):
        I = self.I
        if not args: return ty('int')
        v = args[0]
        ns = set()
        for a in v.atoms:
            if a[0] == 't': ns.add(len(a[1]))
            elif a[0] == 'c' and isinstance(a[1], (str, bytes)): ns.add(len(a[1]))
            elif a[0] == 'o' and I.objs[a[1]].kind == 'inst':
                m, _ = I.class_attr(I.objs[a[1]].cls, '__len__')
                if m is not None: I.call_method(V([a]), '__len__', [], {}, node, st, fr)
                ns.add(None)
            else: ns.add(None)
        terms = lift(lambda t: ('fn', 'len', t), v)
        if len(ns) == 1 and None not in ns: return const(ns.pop(), labels)
        return V([('ty', 'int')], v.labels, terms)

    def seq(self, kind, args, node, st, fr):
        I = self.I
        o = I.obj(kind, None, node._id, fr.ctx.hsig, node)
        if args:
            v = args[0]
            if kind == 'list' and len(v.atoms) == 1:
                a = next(iter(v.atoms))
                if a[0] == 't' and len(a[1]) <= 12:
                    for i, p in enumerate(a[1]): I.store((o.id, ('i', i)), p.with_labels(v.labels))
                    return V([('o', o.id)], EMPTY, v.terms)
                if a[0] == 'o' and I.objs[a[1]].kind == 'list':
                    I.copy_fields(a[1], o.id)
                    return V([('o', o.id)], EMPTY, v.terms)
            el = I.elements(v, node, st, fr)
            I.store((o.id, '*'), el)
        return V([('o', o.id)], EMPTY, args[0].terms if args else None)

    def b_list(self, args, kwargs, node, st, fr, labels, star):
        if args: self.set_consumed(args[0], 'list', node, st, fr)
        return self.seq('list', args, node, st, fr)

    def set_consumed(self, v, how, node, st, fr):
        I = self.I
        for a in v.atoms:
            if a[0] == 'o' and I.objs[a[1]].kind == 'set':
                I.event('setiter', node, how, st, fr, recv=V([a]), val=I.all_elements(a[1]), data=node)
        for l in v.labels:
            if l in UNORDERED: I.event('setiter', node, how + ':' + l[1], st, fr, recv=v, data=node)

    def b_set(self, args, kwargs, node, st, fr, labels, star): return self.seq('set', args, node, st, fr)
    b_frozenset = b_set
    def b_collections_deque(self, args, kwargs, node, st, fr, labels, star): return self.seq('list', args, node, st, fr)

    def b_tuple(self, args, kwargs, node, st, fr, labels, star):
        I = self.I
        if not args: return V([('t', ())])
        v = args[0]
        self.set_consumed(v, 'tuple', node, st, fr)
        out = BOT
        for a in v.atoms:
            if a[0] == 't': out = join(out, V([a], v.labels))
            elif a[0] == 'o' and I.objs[a[1]].kind == 'list' and I.fixed_list(V([a])):
                n = I.fixed_list(V([a]))
                out = join(out, V([('t', tuple(I.load((a[1], ('i', i))) for i in range(n)))], v.labels))
            elif a[0] == 'xo' and a[1] == 'fitz.Rect': out = join(out, V([a], v.labels, v.terms))
            else: out = join(out, self.seq('list', [V([a], v.labels, v.terms)], node, st, fr))
        return V(out.atoms, out.labels, v.terms)

    def b_dict(self, args, kwargs, node, st, fr, labels, star):
        I = self.I
        o = I.obj('dict', None, node._id, fr.ctx.hsig, node)
        if args:
            I.event('dictspread', node, 'dict', st, fr, recv=V([('o', o.id)]), args=args)
            I.dict_update(o.id, args[0], node, st, fr)
        for k, v in kwargs.items(): I.dict_set(o.id, const(k), v)
        return V([('o', o.id)])
    b_collections_OrderedDict = b_dict

    def b_collections_defaultdict(self, args, kwargs, node, st, fr, labels, star):
        I = self.I
        o = I.obj('dict', None, node._id, fr.ctx.hsig, node)
        if args:
            v = I.call(args[0], [], {}, node, st, fr) if any(a[0] != 'c' for a in args[0].atoms) else BOT
            if v.atoms: I.store((o.id, '*'), v)
        return V([('o', o.id)])

    def b_sorted(self, args, kwargs, node, st, fr, labels, star):
        I = self.I
        if not args: return UNK
        el = I.elements(args[0], node, st, fr)
        el = V(el.atoms, el.labels - UNORDERED, el.terms)
        kv = None
        if 'key' in kwargs: kv = I.call(kwargs['key'], [el], {}, node, st, fr)
        I.event('sort', node, 'sorted', st, fr, recv=args[0], args=[kv if kv is not None else el], kwargs=kwargs)
        o = I.obj('list', None, node._id, fr.ctx.hsig, node)
        I.store((o.id, '*'), el)
        return V([('o', o.id)])

    def b_reversed(self, args, kwargs, node, st, fr, labels, star):
        I = self.I
        self.set_consumed(args[0], 'reversed', node, st, fr)
        if len(args[0].atoms) == 1:
            a = next(iter(args[0].atoms))
            if a[0] == 't': return V([('t', tuple(reversed(a[1])))], args[0].labels)
        o = I.obj('list', None, node._id, fr.ctx.hsig, node)
        I.store((o.id, '*'), I.elements(args[0], node, st, fr))
        return V([('o', o.id)], EMPTY, lift(lambda t: ('fn', 'reversed', t), args[0]))

    def b_enumerate(self, args, kwargs, node, st, fr, labels, star):
        I = self.I
        self.set_consumed(args[0], 'enumerate', node, st, fr)
        start = kwargs.get('start', args[1] if len(args) > 1 else const(0))
        o = I.obj('list', None, node._id, fr.ctx.hsig, node)
        for i, p in enumerate(self.fixed(args[0]) or ()):
            I.store((o.id, ('i', i)), V([('t', (const(i), p))]))
        if self.fixed(args[0]) is None:
            el = I.elements(args[0], node, st, fr)
            if el.atoms or el.labels: I.store((o.id, '*'), V([('t', (V([('ty', 'int')], start.labels), el))]))
        return V([('o', o.id)], EMPTY, lift(lambda t, s: ('fn', 'enumerate', t, s), args[0], start))

    def fixed(self, v):
        '''elements in order, if known'''
        I = self.I
        if len(v.atoms) != 1: return None
        a = next(iter(v.atoms))
        if a[0] == 't': return list(a[1]) if len(a[1]) <= 8 else None
        if a[0] == 'o' and I.objs[a[1]].kind == 'list':
            n = I.fixed_list(v)
            return [I.load((a[1], ('i', i))) for i in range(n)] if 0 < n <= 8 else None
        return None

    def b_zip(self, args, kwargs, node, st, fr, labels, star):
        I = self.I
        o = I.obj('list', None, node._id, fr.ctx.hsig, node)
        if star:
            el = join(BOT, *star)
            inner = I.elements(el, node, st, fr)
            l2 = I.obj('list', None, ('zip', node._id), fr.ctx.hsig, node)
            I.store((l2.id, '*'), inner)
            I.store((o.id, '*'), V([('o', l2.id)]))
            return V([('o', o.id)])
        for a in args: self.set_consumed(a, 'zip', node, st, fr)
        fs = [self.fixed(a) for a in args]
        if args and all(f is not None for f in fs):
            for i, t in enumerate(zip(*fs)): I.store((o.id, ('i', i)), V([('t', tuple(t))]))
            return V([('o', o.id)], EMPTY, lift(lambda *t: ('fn', 'zip') + t, *args))
        els = [I.elements(a, node, st, fr) for a in args]
        if all(e.atoms or e.labels for e in els): I.store((o.id, '*'), V([('t', tuple(els))]))
        return V([('o', o.id)], EMPTY, lift(lambda *t: ('fn', 'zip') + t, *args))

    def b_map(self, args, kwargs, node, st, fr, labels, star):
        I = self.I
        for a in args[1:]: self.set_consumed(a, 'map', node, st, fr)
        o = I.obj('list', None, node._id, fr.ctx.hsig, node)
        fs = [self.fixed(a) for a in args[1:]]
        if len(fs) == 1 and fs[0] is not None:
            for i, p in enumerate(fs[0]): I.store((o.id, ('i', i)), I.call(args[0], [p], {}, node, st, fr))
            return V([('o', o.id)])
        els = []
        it = ('it', node._id)
        for j, a in enumerate(args[1:]):
            e = I.elements(a, node, st, fr)
            x = tlimit(t_elem(one(a) or ('seq', node._id * 100 + j + (1 << 50)), it))
            els.append(V(e.atoms, e.labels, frozenset([x]) if x is not None else None))
        if all(e.atoms or e.labels for e in els):
            s = st.copy()
            saved = fr.frames
            fr.frames = fr.frames + (("loop", node, join(BOT, *args[1:]), node._id),)
            r = I.call(args[0], els, {}, node, s, fr)
            fr.frames = saved
            st.open, st.may = s.open, s.may
            I.store((o.id, '*'), r)
            if len(els) == 1 and one(r) is not None:
                t = map_term(one(r), node._id, one(args[1]) or ('seq', node._id * 100 + (1 << 50)), [])
                if t is not None: return V([('o', o.id)], EMPTY, frozenset([t]))
        return V([('o', o.id)])

    def b_filter(self, args, kwargs, node, st, fr, labels, star):
        I = self.I
        self.set_consumed(args[1], 'filter', node, st, fr)
        el = I.elements(args[1], node, st, fr)
        out = BOT
        s = st.copy()
        test = BOT
        seqt = one(args[1]) or ('seq', node._id)
        elt = tlimit(t_elem(seqt, ('it', node._id)))
        el1 = V(el.atoms, el.labels, frozenset([elt]) if elt is not None else None)
        if not (len(args[0].atoms) == 1 and next(iter(args[0].atoms)) == ('c', None)):
            test = I.call(args[0], [el1], {}, node, s, fr)
            I.event('filter', node, 'filter', st, fr, args=[el], val=test)
            # keep the atoms for which the predicate may hold
            keep = []
            for a in el.atoms:
                if len(el.atoms) > 1:
                    fr.mute += 1
                    r = I.call(args[0], [V([a], el.labels)], {}, node, st.copy(), fr)
                    fr.mute -= 1
                    if True in I.truth(r) or not r.atoms: keep.append(a)
                else: keep.append(a)
            st.open, st.may = s.open, s.may
            out = V(keep, el.labels)
        else:
            out = V([a for a in el.atoms if True in I.truth(V([a]))], el.labels)
        o = I.obj('list', None, node._id, fr.ctx.hsig, node)
        I.store((o.id, '*'), out)
        t = map_term(elt, node._id, seqt, [one(test)]) if one(test) is not None and elt is not None else None
        terms = frozenset([t]) if t is not None else None
        return V([('o', o.id)], ctl(test.labels) if test is not BOT else EMPTY, terms)

    def b_range(self, args, kwargs, node, st, fr, labels, star):
        I = self.I
        o = I.obj('list', None, node._id, fr.ctx.hsig, node)
        if len(args) == 1 and len(args[0].atoms) == 1:
            a = next(iter(args[0].atoms))
            if a[0] == 'c' and isinstance(a[1], int) and 0 < a[1] <= 6:
                for i in range(a[1]): I.store((o.id, ('i', i)), const(i))
                return V([('o', o.id)])
        I.store((o.id, '*'), V([('ty', 'int')], labels))
        full = list(args)
        if len(full) == 1: full = [const(0)] + full
        return V([('o', o.id)], labels, lift(lambda *t: ('fn', 'range') + t, *full))

    def minmax(self, op, args, kwargs, node, st, fr, labels):
        I = self.I
        if len(args) == 1:
            el = I.elements(args[0], node, st, fr)
            if 'key' in kwargs: I.call(kwargs['key'], [el], {}, node, st, fr)
            f = self.fixed(args[0])
            if f and 'key' not in kwargs:
                args = f
            else:
                if 'default' in kwargs: el = join(el, kwargs['default'])
                t = lift(lambda x: ('fn', op, x), args[0])
                if 'key' in kwargs: return V(el.atoms, el.labels | ctl(labels), None)
                if any(a[0] == 'o' for a in el.atoms): return el
                return V(el.atoms, el.labels, t)
        if 'key' in kwargs:
            for a in args: I.call(kwargs['key'], [a], {}, node, st, fr)
            r = join(BOT, *args)
            return r.with_terms(None)
        r = join(BOT, *args)
        atoms = r.atoms
        if len(args) > 1 and all(len(a.atoms) == 1 and next(iter(a.atoms))[0] == 'c' for a in args):
            try: return const((max if op == 'max' else min)(next(iter(a.atoms))[1] for a in args), labels)
            except TypeError: pass
        if len(atoms) > 1: atoms = frozenset(('ty', 'num') if a[0] in ('c', 'ty', 'r') else a for a in atoms)
        return V(atoms, r.labels, lift(lambda *t: t_minmax(op, t), *args))

    def b_min(self, args, kwargs, node, st, fr, labels, star):
        if star: return V([('ty', 'num')], labels)
        return self.minmax('min', args, kwargs, node, st, fr, labels)

    def b_max(self, args, kwargs, node, st, fr, labels, star):
        if star: return V([('ty', 'num')], labels)
        return self.minmax('max', args, kwargs, node, st, fr, labels)

    def b_sum(self, args, kwargs, node, st, fr, labels, star):
        I = self.I
        el = I.elements(args[0], node, st, fr)
        if any(a[0] == 'o' for a in el.atoms):
            r = el
            if len(args) > 1: r = join(r, args[1])
            return r
        return V([('ty', 'num')], el.labels | labels, lift(lambda t: ('fn', 'sum', t), args[0]))

    def quant(self, name, args, node, st, fr):
        I = self.I
        el = I.elements(args[0], node, st, fr)
        t = I.truth(el)
        return V([('c', True), ('c', False)], el.labels | args[0].labels, lift(lambda x: ('fn', name, x), args[0]))

    def b_any(self, args, kwargs, node, st, fr, labels, star): return self.quant('any', args, node, st, fr)
    def b_all(self, args, kwargs, node, st, fr, labels, star): return self.quant('all', args, node, st, fr)

    def num(self, name, args, labels, tp):
        if len(args) and len(args[0].atoms) == 1:
            a = next(iter(args[0].atoms))
            rest = [next(iter(x.atoms)) for x in args[1:] if len(x.atoms) == 1]
            if a[0] == 'c' and is_num(a[1]) and len(rest) == len(args) - 1 and all(r[0] == 'c' for r in rest):
                try: return const({'abs': abs, 'round': round, 'int': int, 'float': float}[name](a[1], *[r[1] for r in rest]), labels)
                except Exception: pass
            if a[0] == 'xo' and a[1] == 'fitz.Rect' and name in ('abs', 'round'):
                return V([('ty', 'num')], labels, lift(lambda *t: ('fn', name) + t, *args))
        if name == 'float': return V([('ty', tp)], labels, args[0].terms if args else None)
        return V([('ty', tp)], labels, lift(lambda *t: ('fn', name) + t, *args) if args else None)

    def b_abs(self, args, kwargs, node, st, fr, labels, star): return self.num('abs', args, labels, 'num')
    def b_round(self, args, kwargs, node, st, fr, labels, star):
        if 'ndigits' in kwargs: args = list(args) + [kwargs['ndigits']]
        return self.num('round', args, labels, 'num')
    def b_int(self, args, kwargs, node, st, fr, labels, star): return self.num('int', args, labels, 'int')
    def b_float(self, args, kwargs, node, st, fr, labels, star): return self.num('float', args, labels, 'float')

    def b_bool(self, args, kwargs, node, st, fr, labels, star):
        I = self.I
        if not args: return FALSE
        t = I.truth(args[0])
        for a in args[0].atoms:
            if a[0] == 'o' and I.objs[a[1]].kind == 'inst':
                for m in ('__bool__', '__len__'):
                    cv, _ = I.class_attr(I.objs[a[1]].cls, m)
                    if cv is not None:
                        I.call_method(V([a]), m, [], {}, node, st, fr)
                        break
        return V([('c', x) for x in t], labels, lift(lambda x: ('fn', 'bool', x), args[0]))

    def b_str(self, args, kwargs, node, st, fr, labels, star):
        if not args: return const('')
        a = args[0]
        self.I.str_convert(a, node, st, fr)
        if a.atoms and all(x[0] in ('tm', 'sh') or x[0] == 'c' and isinstance(x[1], str) or x == ('ty', 'str') for x in a.atoms): return a
        if len(a.atoms) == 1 and next(iter(a.atoms))[0] == 'c': return const(str(next(iter(a.atoms))[1]), a.labels)
        return V([('ty', 'str')], labels, lift(lambda t: ('fn', 'str', t), a))
    b_repr = b_str

    def b_bytearray(self, args, kwargs, node, st, fr, labels, star): return V([('ty', 'bytes')], labels)
    def b_bytes(self, args, kwargs, node, st, fr, labels, star): return V([('ty', 'bytes')], labels)

    def b_hex(self, args, kwargs, node, st, fr, labels, star):
        return V([('sh', '0x')], labels, lift(lambda t: ('fn', 'hex', t), *args))

    def b_format(self, args, kwargs, node, st, fr, labels, star):
        spec = next(iter(args[1].atoms))[1] if len(args) > 1 and len(args[1].atoms) == 1 and next(iter(args[1].atoms))[0] == 'c' else '?'
        sh = self.format_shape(args[0], spec)
        t = lift(lambda t: ('fmt', (('fv', t, spec),)), args[0])
        return V([('sh', sh)] if sh else [('ty', 'str')], labels, t)

    def b_print(self, args, kwargs, node, st, fr, labels, star): return NONE
    def b_id(self, args, kwargs, node, st, fr, labels, star): return ty('int', labels)
    def b_hash(self, args, kwargs, node, st, fr, labels, star): return ty('int', labels)
    def b_type(self, args, kwargs, node, st, fr, labels, star):
        I = self.I
        return V([('k', I.objs[a[1]].cls) if a[0] == 'o' and I.objs[a[1]].kind == 'inst' else ('u',) for a in args[0].atoms])
    def b_callable(self, args, kwargs, node, st, fr, labels, star):
        return V([('c', a[0] in ('f', 'b', 'k', 'x', 'vm')) for a in args[0].atoms], labels)
    def b_object(self, args, kwargs, node, st, fr, labels, star): return V([('xo', 'object')])
    def b_object___init__(self, args, kwargs, node, st, fr, labels, star): return NONE

    def b_slice(self, args, kwargs, node, st, fr, labels, star):
        full = [NONE, args[0], NONE] if len(args) == 1 else list(args) + [NONE] * (3 - len(args))
        return V([('slice', tuple(full))], EMPTY, lift(lambda *t: ('slice',) + t, *full))

    def b_concurrent_futures_as_completed(self, args, kwargs, node, st, fr, labels, star):
        return args[0].with_labels(frozenset([('ND', 'the order in which workers finish')]))

    def b_iter(self, args, kwargs, node, st, fr, labels, star): return args[0]
    def b_next(self, args, kwargs, node, st, fr, labels, star):
        I = self.I
        if any(a[0] == 'xo' and a[1] == 'itertools.count' for a in args[0].atoms):
            I.event('counter', node, 'next', st, fr, recv=args[0])
            return ty('int', frozenset([('CNT',)]))
        self.set_consumed(args[0], 'next', node, st, fr)
        r = I.elements(args[0], node, st, fr)
        return join(r, args[1]) if len(args) > 1 else r

    def b_isinstance(self, args, kwargs, node, st, fr, labels, star):
        I = self.I
        out = set()
        classes = []
        for c in args[1].atoms:
            if c[0] == 't':
                for p in c[1]: classes.extend(p.atoms)
            else: classes.append(c)
        for a in args[0].atoms:
            res = [self.isinst(a, c) for c in classes]
            if True in res: out.add(True)
            elif None in res: out |= {True, False}
            else: out.add(False)
        terms = lift(lambda t, c: ('fn', 'isinstance', t, c), *args) if len(args) == 2 else None
        cl = tuple(sorted(str(c[1]) for c in classes if len(c) > 1))
        terms = lift(lambda t: ('fn', 'isinstance', t, ('c', cl)), args[0])
        return V([('c', x) for x in out], labels, terms)

    def isinst(self, a, c):
        I = self.I
        if c[0] == 'k':
            if a[0] == 'o':
                o = I.objs[a[1]]
                return o.kind == 'inst' and I.is_subclass(o.cls, c[1])
            if a[0] == 'e': return a[1] == c[1]
            if a[0] in ('u', 'r', 'xo') and a[0] == 'u': return None
            return False
        if c[0] == 'x':
            n = self.canon(c[1])
            if a[0] == 'u': return None
            if a[0] == 'r': return None
            last = n.split('.')[-1]
            if last in ('Iterable', 'Sequence', 'Collection', 'Sized', 'Container', 'Iterator'):
                if a[0] == 'o':
                    o = I.objs[a[1]]
                    if o.kind != 'inst': return True
                    m, _ = I.class_attr(o.cls, '__iter__')
                    return m is not None
                if a[0] == 't': return True
                if a[0] == 'c': return isinstance(a[1], (str, bytes))
                if a[0] == 'ty': return a[1] in ('str', 'bytes')
                if a[0] in ('tm', 'sh'): return True
                if a[0] == 'xo': return True if a[1].startswith('[') or '__iter__' in TYPES.get(a[1], {}) else None
                return False
            if n in ('list', 'dict', 'set', 'tuple', 'frozenset'):
                if a[0] == 'o':
                    o = I.objs[a[1]]
                    return o.kind == n if o.kind != 'inst' else False
                if a[0] == 't': return n == 'tuple'
                if a[0] in ('xo',): return None
                return False
            if n in ('int', 'float', 'str', 'bytes', 'bool'):
                if a[0] == 'c':
                    return type(a[1]).__name__ == n or (n == 'int' and isinstance(a[1], bool))
                if a[0] == 'ty':
                    if a[1] == 'num': return None if n in ('int', 'float') else False
                    return a[1] == n or (n == 'int' and a[1] == 'bool')
                if a[0] in ('tm', 'sh'): return n == 'str'
                if a[0] == 'xo': return None if a[1] == 'len' else False
                return False
            if a[0] == 'xo':
                if a[1] == n or a[1].split('.')[-1] == last: return True
                return None if a[1] not in TYPES or n not in TYPES else False
            if a[0] == 'slice': return last == 'slice'
            if n == 'slice': return None if a[0] in ('u', 'r') else False
            return False if a[0] in ('c', 'ty', 'o', 't', 'tm', 'sh', 'f', 'e') else None
        return None

    def b_issubclass(self, args, kwargs, node, st, fr, labels, star): return boolv(labels)

    def b_hasattr(self, args, kwargs, node, st, fr, labels, star):
        I = self.I
        out = set()
        nm = next(iter(args[1].atoms)) if len(args[1].atoms) == 1 else None
        for a in args[0].atoms:
            if nm is None or nm[0] != 'c': out |= {True, False}
            elif a[0] == 'o' and I.objs[a[1]].kind == 'inst':
                v, _ = I.class_attr(I.objs[a[1]].cls, nm[1])
                h = I.load((a[1], nm[1]))
                out.add(v is not None or bool(h.atoms))
                if v is None and h.atoms: out.add(True)
            elif a[0] == 'xo': out.add(nm[1] in TYPES[a[1]]) if a[1] in TYPES else out.update({True, False})
            elif a[0] in ('t', 'c', 'ty', 'tm', 'sh'): out.add(hasattr((), nm[1]) if a[0] == 't' else False)
            elif a[0] == 'o': out.add(hasattr({'list': [], 'dict': {}, 'set': set()}.get(I.objs[a[1]].kind), nm[1]))
            else: out |= {True, False}
        return V([('c', x) for x in out], EMPTY)

    def b_getattr(self, args, kwargs, node, st, fr, labels, star):
        I = self.I
        out = BOT
        names = [a[1] for a in args[1].atoms if a[0] == 'c' and isinstance(a[1], str)]
        if len(names) != len(args[1].atoms):
            I.event('dynattr', node, 'getattr', st, fr, recv=args[0], args=args)
            return UNK
        for n in names: out = join(out, I.get_attr(args[0], n, node, st, fr))
        if len(args) > 2: out = join(out, args[2])
        return out

    def b_delattr(self, args, kwargs, node, st, fr, labels, star):
        names = [x[1] for x in args[1].atoms if x[0] == 'c'] if len(args) > 1 else []
        for n in names or ['*']: self.I.event('delattr', node, n, st, fr, recv=args[0])
        return NONE

    def b_setattr(self, args, kwargs, node, st, fr, labels, star):
        I = self.I
        names = [a[1] for a in args[1].atoms if a[0] == 'c' and isinstance(a[1], str)]
        if names and len(names) == len(args[1].atoms):
            old = I.dyn
            I.dyn = args[1] if len(names) > 1 else None
            for n in names:
                # instance attribute, bypassing non-data descriptors
                I.set_attr(args[0], n, args[2], node, st, fr)
            I.dyn = old
        elif args[1].atoms:
            I.event('dynattr', node, 'setattr', st, fr, recv=args[0], args=args)
            for a in args[0].atoms:
                if a[0] == 'o': I.store((a[1], '?'), args[2])
        return NONE

    def b_Pt(self, args, kwargs, node, st, fr, labels, star):
        return V([('xo', 'len')], labels, lift(lambda t: ('fn', 'Pt', t), *args[:1]))

    def b_open(self, args, kwargs, node, st, fr, labels, star):
        site = self.acquire('file', node, st, fr)
        return V([('xo', 'file', site)], EMPTY, frozenset([('new', node._id)]))

    def b_copy_deepcopy(self, args, kwargs, node, st, fr, labels, star):
        out = []
        for a in args[0].atoms:
            out.append(('r', a[1], a[2], 1) if a[0] == 'r' else a)
        return V(out, args[0].labels, args[0].terms)

    def b_copy_copy(self, args, kwargs, node, st, fr, labels, star):
        I = self.I
        out = BOT
        for a in args[0].atoms:
            if a[0] == 'o' and I.objs[a[1]].kind != 'inst':
                o = I.obj(I.objs[a[1]].kind, None, node._id, fr.ctx.hsig, node)
                I.copy_fields(a[1], o.id)
                out = join(out, V([('o', o.id)]))
            elif a[0] == 'r':
                o = I.obj('dict', None, node._id, fr.ctx.hsig, node)
                I.store((o.id, 'fb'), V([a]))
                out = join(out, V([('o', o.id)]))
            else: out = join(out, V([a], args[0].labels))
        return out

    def b_json_load(self, args, kwargs, node, st, fr, labels, star):
        return V([('r', 'json', '', 1)], frozenset([('R', 'json', '')]), frozenset([('s', 'json')]))
    b_json_loads = b_json_load

    def b_json_dumps(self, args, kwargs, node, st, fr, labels, star): return V([('ty', 'str')], labels | {('X', 'json.dumps')}, lift(lambda t: ('fn', 'json.dumps', t), *args[:1]))

    def b_functools_partial(self, args, kwargs, node, st, fr, labels, star):
        I = self.I
        o = I.obj('partial', None, node._id, fr.ctx.id, node)
        o.extra = (args[0], tuple(args[1:]), tuple(kwargs.items()))
        return V([('o', o.id)])

    def b_functools_reduce(self, args, kwargs, node, st, fr, labels, star):
        I = self.I
        el = I.elements(args[1], node, st, fr)
        acc = join(el, *args[2:])
        for _ in range(3):
            acc = join(acc, I.call(args[0], [acc, el], {}, node, st, fr)).with_terms(None)
        return acc

    def b_itertools_chain(self, args, kwargs, node, st, fr, labels, star):
        I = self.I
        o = I.obj('list', None, node._id, fr.ctx.hsig, node)
        for a in list(args): I.store((o.id, '*'), I.elements(a, node, st, fr))
        for a in star: I.store((o.id, '*'), I.elements(a, node, st, fr))
        return V([('o', o.id)])

    def b_itertools_chain_from_iterable(self, args, kwargs, node, st, fr, labels, star):
        I = self.I
        o = I.obj('list', None, node._id, fr.ctx.hsig, node)
        I.store((o.id, '*'), I.elements(I.elements(args[0], node, st, fr), node, st, fr))
        return V([('o', o.id)])

    def b_docx_oxml_ns_qn(self, args, kwargs, node, st, fr, labels, star): return args[0]

    def b_docx_oxml_ns_nsdecls(self, args, kwargs, node, st, fr, labels, star):
        cs = [next(iter(a.atoms)) for a in args if len(a.atoms) == 1]
        if len(cs) == len(args) and all(c[0] == 'c' for c in cs):
            return const(' '.join(f'xmlns:{c[1]}="ns-{c[1]}"' for c in cs))
        return ty('str', labels)

    def b_docx_shared_RGBColor(self, args, kwargs, node, st, fr, labels, star):
        I = self.I
        if star and not args and len(star) == 1:
            # elements of the sequence are passed
            full = getattr(I, 'star_seq', None)
            return V([('xo', 'docx.shared.RGBColor')], labels, lift(lambda t: ('fn', 'RGBColor*', t), full) if full is not None else None)
        return V([('xo', 'docx.shared.RGBColor')], labels, lift(lambda *t: ('fn', 'RGBColor') + t, *args) if args and not star else None)

    def b_re_sub(self, args, kwargs, node, st, fr, labels, star):
        r = V([('ty', 'str')], labels, lift(lambda *t: ('fn', 're.sub') + t, *args[:3]))
        a = next(iter(args[0].atoms)) if args and len(args[0].atoms) == 1 else None
        b = next(iter(args[1].atoms)) if len(args) > 1 and len(args[1].atoms) == 1 else None
        if a and b and a[0] == 'c' and b[0] == 'c' and isinstance(a[1], str) and isinstance(b[1], str) and xml_filter(a[1], b[1]):
            r = V([('ty', 'str')], frozenset(('XS', l) for l in labels if l[0] != 'XS') | labels | {('XML',)}, r.terms)
        return r

    def b_fitz_utils_getColorList(self, args, kwargs, node, st, fr, labels, star): return xo('[str]')
    def b_fitz_utils_getColorInfoList(self, args, kwargs, node, st, fr, labels, star): return V([('u',)])

    def b_os_path_exists(self, args, kwargs, node, st, fr, labels, star):
        return V([('c', True), ('c', False)], labels | {('X', 'os.path.exists')}, lift(lambda t: ('fn', 'os.path.exists', t), *args[:1]))

    def strfn(self, name, args, labels, tp='str'):
        return V([('ty', tp)], labels, lift(lambda *t: ('fn', name) + t, *args))

    def b_os_path_join(self, args, kwargs, node, st, fr, labels, star): return self.strfn('os.path.join', args, labels)
    def b_os_path_basename(self, args, kwargs, node, st, fr, labels, star): return self.strfn('os.path.basename', args, labels)
    def b_os_path_dirname(self, args, kwargs, node, st, fr, labels, star): return self.strfn('os.path.dirname', args, labels)

    def pair(self, name, args, labels):
        t = lift(lambda x: ('fn', name, x), *args[:1])
        def part(i):
            return V([('ty', 'str')], labels, frozenset(('ix', x, ('c', i)) for x in t) if t else None)
        return V([('t', (part(0), part(1)))], labels, t)

    def b_os_path_split(self, args, kwargs, node, st, fr, labels, star): return self.pair('os.path.split', args, labels)
    def b_os_path_splitext(self, args, kwargs, node, st, fr, labels, star): return self.pair('os.path.splitext', args, labels)

    def b_multiprocessing_cpu_count(self, args, kwargs, node, st, fr, labels, star):
        return V([('ty', 'int')], frozenset([('X', 'cpu_count')]), frozenset([('fn', 'cpu_count')]))
    b_os_cpu_count = b_multiprocessing_cpu_count

    def b_base64_b64decode(self, args, kwargs, node, st, fr, labels, star): return V([('ty', 'bytes')], labels, lift(lambda t: ('fn', 'b64d', t), *args[:1]))
    def b_base64_b64encode(self, args, kwargs, node, st, fr, labels, star): return V([('ty', 'bytes')], labels, lift(lambda t: ('fn', 'b64e', t), *args[:1]))

    # ------------------------------------------------ methods of builtin and library objects
    def builtin_method(self, a, recv, name, args, kwargs, node, st, fr, star=(), star2=()):
        I = self.I
        k = a[0]
        labels = recv.labels
        for x in args: labels |= x.labels
        for x in kwargs.values(): labels |= x.labels
        for x in star: labels |= x.labels
        if k == 'o':
            o = I.objs[a[1]]
            m = getattr(self, f'm_{o.kind}', None)
            if m is None: return UNK
            return m(a[1], recv, name, args, kwargs, node, st, fr, labels, star)
        if k == 'r': return self.m_raw(a, recv, name, args, kwargs, node, st, fr, labels, star)
        if k == 'xo': return self.m_xo(a, recv, name, args, kwargs, node, st, fr, labels, star, star2)
        if k == 't':
            if name == 'index': return ty('int', labels)
            if name == 'count': return ty('int', labels)
            return UNK
        if k in ('tm', 'sh') or k == 'ty' or k == 'c' and isinstance(a[1], (str, bytes)):
            return self.m_str(a, recv, name, args, kwargs, node, st, fr, labels, star)
        if k == 'c':
            if a[1] is None:
                I.event('noneattr', node, name, st, fr, recv=recv)
                return BOT
            return ty('num', labels)
        if k == 'u':
            I.event('ext', node, '?.' + name, st, fr, recv=recv, args=args, kwargs=kwargs)
            I.event('mutate', node, '?' + name, st, fr, recv=recv, args=args) if name in MUTATORS else None
            if name not in SAFE_METHODS: I.raise_point(st, fr)
            self.callback(args, kwargs, node, st, fr)
            I.did(('ext', '?.' + name), st, fr)
            return V([('u',)], labels)
        if k == 'vm':
            if a[2] == '__dict__' and name in ('pop', 'clear', '__delitem__'):
                names = [x[1] for x in args[0].atoms if x[0] == 'c'] if args else ['*']
                for n in names or ['*']: I.event('delattr', node, n, st, fr, recv=a[1])
            return UNK
        if k == 'f' or k == 'b': return UNK
        return V([('u',)], labels)

    def m_list(self, oid, recv, name, args, kwargs, node, st, fr, labels, star):
        I = self.I
        if name in ('append', 'appendleft'):
            I.mutate(recv, name, args, node, st, fr)
            if args: I.store((oid, '*'), args[0])
            return NONE
        if name in ('extend', 'extendleft'):
            I.mutate(recv, name, args, node, st, fr)
            self.set_consumed(args[0], 'extend', node, st, fr)
            I.store((oid, '*'), I.elements(args[0], node, st, fr))
            return NONE
        if name == 'insert':
            I.mutate(recv, name, args, node, st, fr)
            self.shift(oid)
            if len(args) > 1: I.store((oid, '*'), args[1])
            return NONE
        if name in ('pop', 'popleft'):
            I.mutate(recv, name, args, node, st, fr)
            v = I.list_get(oid, args[0]) if args else I.all_elements(oid)
            self.shift(oid)
            return v
        if name in ('remove', 'clear', 'reverse'):
            I.mutate(recv, name, args, node, st, fr)
            if name != 'clear': self.shift(oid)
            return NONE
        if name == 'sort':
            I.mutate(recv, name, args, node, st, fr)
            self.shift(oid)
            el = I.all_elements(oid)
            kv = el
            if 'key' in kwargs: kv = I.call(kwargs['key'], [V(el.atoms, el.labels, frozenset([('it', node._id)]))], {}, node, st, fr)
            I.event('sort', node, 'sort', st, fr, recv=recv, args=[kv], kwargs=kwargs)
            return NONE
        if name == 'copy':
            return self.seq('list', [V([('o', oid)])], node, st, fr)
        if name in ('index', 'count'): return V([('ty', 'int')], labels)
        return UNK

    def shift(self, oid):
        I = self.I
        I.store((oid, '*'), I.all_elements(oid))

    def m_set(self, oid, recv, name, args, kwargs, node, st, fr, labels, star):
        I = self.I
        if name == 'add':
            I.mutate(recv, name, args, node, st, fr)
            I.store((oid, '*'), args[0])
            return NONE
        if name == 'update':
            I.mutate(recv, name, args, node, st, fr)
            for a in args: I.store((oid, '*'), I.elements(a, node, st, fr))
            return NONE
        if name in ('remove', 'discard', 'clear', 'intersection_update', 'difference_update'):
            I.mutate(recv, name, args, node, st, fr)
            return NONE
        if name == 'pop':
            I.mutate(recv, name, args, node, st, fr)
            I.event('setiter', node, 'pop', st, fr, recv=recv, val=I.all_elements(oid), data=node)
            return I.all_elements(oid)
        if name in ('union', 'intersection', 'difference', 'symmetric_difference', 'copy'):
            o = I.obj('set', None, node._id, fr.ctx.hsig, node)
            I.store((o.id, '*'), I.all_elements(oid))
            if name in ('union', 'symmetric_difference'):
                for a in args: I.store((o.id, '*'), I.elements(a, node, st, fr))
            return V([('o', o.id)])
        return boolv(labels)

    def m_dict(self, oid, recv, name, args, kwargs, node, st, fr, labels, star):
        I = self.I
        if name == 'get':
            d = args[1] if len(args) > 1 else kwargs.get('default', NONE)
            fs = I.fields(oid)
            known = None
            if args[0].atoms and all(a[0] == 'c' for a in args[0].atoms) and '*' not in fs and 'fb' not in fs:
                known = all(('k', a[1]) in fs for a in args[0].atoms)
                none = not any(('k', a[1]) in fs for a in args[0].atoms)
                if none: return d
            r = I.dict_get(oid, args[0], node, st, fr, terms=recv.terms)
            I.event('keyread', node, 'get', st, fr, recv=recv, args=args, val=r)
            if known and False: return r
            if not r.atoms: return d
            j = join(r, d)
            if (r.terms is None or len(r.terms) > 1) and recv.terms is not None and all(t[0] == 'cd' for t in recv.terms):
                r = r.with_terms(lift(lambda b, k: ('ix', b, k), recv, args[0]))
            return V(j.atoms, j.labels, lift(lambda x, y: ('fn', 'get', x, y), r, self.default(d)))
        if name == 'update':
            I.mutate(recv, name, args, node, st, fr)
            for a in args: I.dict_update(oid, a, node, st, fr)
            for kk, v in kwargs.items():
                I.event('keyset', node, 'update:' + kk, st, fr, recv=recv, args=[const(kk)], val=v)
                I.dict_set(oid, const(kk), v)
            return NONE
        if name == 'setdefault':
            I.mutate(recv, name, args, node, st, fr)
            d = args[1] if len(args) > 1 else NONE
            I.dict_set(oid, args[0], d)
            return I.dict_get(oid, args[0], node, st, fr)
        if name == 'pop':
            I.mutate(recv, name, args, node, st, fr)
            r = I.dict_get(oid, args[0], node, st, fr)
            return join(r, args[1]) if len(args) > 1 else r
        if name in ('clear', 'popitem'):
            I.mutate(recv, name, args, node, st, fr)
            return NONE if name == 'clear' else UNK
        if name in ('items', 'keys', 'values'):
            o = I.obj('list', None, (name, oid), None, node)
            fs = [f for f in I.fields(oid) if isinstance(f, tuple) and f[0] == 'k']
            star_ = I.load((oid, '*'))
            fb = I.load((oid, 'fb'))
            ks = I.load((oid, '#k'))
            if not star_.atoms and not fb.atoms and len(fs) <= 8:
                for i, f in enumerate(fs):
                    kv = const(f[1]) if not isinstance(f[1], tuple) else V([f[1]])
                    vv = I.load((oid, f))
                    I.store((o.id, ('i', i)), {'items': V([('t', (kv, vv))]), 'keys': kv, 'values': vv}[name])
                return V([('o', o.id)])
            vals = join(star_, *[I.load((oid, f)) for f in fs])
            if fb.atoms:
                ks = join(ks, ty('str'))
                vals = join(vals, I.elements(fb, node, st, fr))
            if vals.atoms or ks.atoms:
                I.store((o.id, '*'), {'items': V([('t', (ks, vals))]), 'keys': ks, 'values': vals}[name])
            return V([('o', o.id)], EMPTY, lift(lambda t: ('fn', 'dict.' + name, t), recv))
        if name == 'copy':
            o = I.obj('dict', None, node._id, fr.ctx.hsig, node)
            I.copy_fields(oid, o.id)
            return V([('o', o.id)])
        if name == '__contains__': return boolv(labels)
        return UNK

    def default(self, d):
        '''an empty list given as default'''
        if d.terms is None and len(d.atoms) == 1:
            a = next(iter(d.atoms))
            if a[0] == 'o' and self.I.objs[a[1]].kind == 'list' and not self.I._fields.get(a[1]): return d.with_terms(frozenset([('tup',)]))
        return d

    def m_raw(self, a, recv, name, args, kwargs, node, st, fr, labels, star):
        I = self.I
        root, key, own = a[1], a[2], a[3]
        if name == 'get':
            r = I.raw_get(a, recv, args[0], node, st, fr)
            d = args[1] if len(args) > 1 else NONE
            if d.atoms == frozenset([('c', None)]) and len(args) < 2:
                return V(r.atoms | {('c', None)}, r.labels, r.terms)
            return V(r.atoms | d.atoms, r.labels | d.labels, lift(lambda x, y: ('fn', 'get', x, y), r, self.default(d)))
        if name in ('items',):
            o = I.obj('list', None, ('ritems', root, key, own), None, node)
            I.store((o.id, '*'), V([('t', (ty('str'), I.elements(recv, node, st, fr)))]))
            return V([('o', o.id)])
        if name in ('keys',): return xo('[str]')
        if name in ('values',): return recv
        if name == 'copy':
            o = I.obj('dict', None, node._id, fr.ctx.hsig, node)
            I.store((o.id, 'fb'), V([a]))
            return V([('o', o.id)])
        if name in MUTATORS:
            I.mutate(recv, name, args, node, st, fr)
            loc = ('r', root, key)
            if name in ('append', 'add'): I.store((loc, '*'), args[0])
            elif name in ('extend',): I.store((loc, '*'), I.elements(args[0], node, st, fr))
            elif name == 'insert' and len(args) > 1: I.store((loc, '*'), args[1])
            elif name == 'update' and args:
                for x in args[0].atoms:
                    if x[0] == 'o' and I.objs[x[1]].kind == 'dict':
                        for f in I.fields(x[1]):
                            if isinstance(f, tuple) and f[0] == 'k':
                                I.event('keyset', node, f'update:{f[1]}', st, fr, recv=recv, args=[const(f[1])], val=I.load((x[1], f)))
                                I.store((loc, f), I.load((x[1], f)))
            elif name == 'setdefault' and len(args) > 1 and all(x[0] == 'c' for x in args[0].atoms):
                for x in args[0].atoms: I.store((loc, ('k', x[1])), args[1])
            if name in ('pop', 'setdefault'):
                r = I.raw_get(a, recv, args[0], node, st, fr) if args else V([a], recv.labels)
                return join(r, args[1]) if len(args) > 1 else r
            return NONE
        if name in ('encode', 'decode'):
            return V([('ty', 'bytes' if name == 'encode' else 'str')], labels, recv.terms)
        return self.m_str(('ty', 'str'), recv, name, args, kwargs, node, st, fr, labels, star)

    def m_str(self, a, recv, name, args, kwargs, node, st, fr, labels, star):
        I = self.I
        c = a[1] if a[0] == 'c' else None
        ac = []
        for x in args:
            y = next(iter(x.atoms)) if len(x.atoms) == 1 else None
            ac.append(y[1] if y and y[0] == 'c' else _NO)
        if isinstance(c, str) and all(x is not _NO for x in ac) and not kwargs and name in STRFOLD:
            try:
                r = getattr(c, name)(*ac)
                if isinstance(r, (str, int, bool)): return const(r, labels)
            except Exception: pass
        if name == 'format':
            if a[0] in ('c', 'tm') and isinstance(a[1], str):
                # all combinations of a few constants
                multi = [i for i, x in enumerate(args) if 1 < len(x.atoms) <= 12 and all(y[0] == 'c' for y in x.atoms)]
                if len(multi) == 1 and not kwargs:
                    i = multi[0]
                    out = BOT
                    for y in sorted(args[i].atoms, key=str):
                        out = join(out, self.brace_format(a[1], list(args[:i]) + [V([y], args[i].labels, frozenset([y]))] + list(args[i + 1:]), {}, labels))
                    return out
                return self.brace_format(a[1], args, kwargs, labels)
            return V([('ty', 'str')], labels)
        sterms = lift(lambda *t: ('fn', 'str.' + name) + t, recv, *args)
        if name == 'zfill' and a[0] == 'sh' and a[1] == 'hex' and args and ac and isinstance(ac[0], int):
            return V([('sh', f'hex{ac[0]}')], labels, sterms)
        if name == 'rjust' and a[0] == 'sh' and a[1] == 'hex' and len(ac) == 2 and ac[1] == '0' and isinstance(ac[0], int):
            return V([('sh', f'hex{ac[0]}')], labels, sterms)
        if a[0] == 'sh' and name in ('upper', 'lower'): return V([a], labels, sterms)
        if name == 'join':
            if args:
                self.set_consumed(args[0], 'join', node, st, fr)
                el = I.elements(args[0], node, st, fr)
                if len(el.atoms) == 1:
                    x = next(iter(el.atoms))
                return V([('ty', 'str')], labels | el.labels, lift(lambda s, t: ('fn', 'join', s, t), recv, args[0]))
            return ty('str', labels)
        if name in ('split', 'rsplit', 'splitlines', 'partition', 'rpartition'):
            o = I.obj('list', None, node._id, fr.ctx.hsig, node)
            I.store((o.id, '*'), V([('ty', 'str')], recv.labels))
            return V([('o', o.id)], EMPTY, lift(lambda *t: ('fn', 'str.' + name) + t, recv, *args))
        if name in ('startswith', 'endswith', 'isdigit', 'isspace', 'isalpha', 'isupper', 'islower', 'isnumeric', 'isprintable', 'isidentifier'):
            return V([('c', True), ('c', False)], labels, lift(lambda *t: ('fn', 'str.' + name) + t, recv, *args))
        if name in ('find', 'index', 'count', 'rfind', 'rindex', '__len__'): return V([('ty', 'int')], labels)
        if name in ('encode',): return V([('ty', 'bytes')], labels, recv.terms)
        if name in ('decode',): return V([('ty', 'str')], labels, recv.terms)
        if name in ('strip', 'lstrip', 'rstrip', 'replace', 'upper', 'lower', 'title', 'capitalize', 'zfill', 'translate', 'removeprefix',
                    'removesuffix', 'ljust', 'rjust', 'center', 'expandtabs', 'swapcase', 'casefold'):
            tp = 'bytes' if a == ('ty', 'bytes') or isinstance(c, bytes) else 'str'
            r = V([('ty', tp)], labels, lift(lambda *t: ('fn', 'str.' + name) + t, recv, *args))
            return r
        if a[0] == 'ty' and a[1] in ('int', 'num', 'float', 'bool'):
            if name in ('is_integer',): return boolv(labels)
            return ty('num', labels)
        return V([('u',)], labels)

    def m_xo(self, a, recv, name, args, kwargs, node, st, fr, labels, star, star2):
        I = self.I
        tp = a[1]
        full = f'{tp}.{name}'
        if tp.startswith('['):
            if name == 'index': return ty('int', labels)
            return V([('u',)], labels)
        # resources
        if name in ('close', 'terminate', 'cleanup', 'shutdown', 'join', '__exit__') and (tp == 'file' or tp in TYPES):
            I.event('ext', node, full, st, fr, recv=recv, args=args, kwargs=kwargs)
            if name in ('close', 'terminate', 'cleanup', 'shutdown', '__exit__'):
                self.release(V([a]), st, fr, node)
            I.did(('ext', full), st, fr)
            return NONE
        if name == '__enter__': return recv
        if tp == 'multiprocessing.Pool': return self.pool(a, recv, name, args, kwargs, node, st, fr, labels)
        I.event('ext', node, full, st, fr, recv=recv, args=args, kwargs=kwargs, data=(list(star), list(star2)))
        if name not in SAFE_METHODS: I.raise_point(st, fr)
        I.did(('ext', full), st, fr)
        if tp == 'oxml':
            if name in ('set', 'append', 'insert', 'remove', 'addnext', 'addprevious', 'extend'): return NONE
            if name in ('find', 'getparent', 'first_child_found_in'):
                return V([('xo', 'oxml', '?'), ('c', None)], EMPTY)
            if name in ('xpath', 'findall', 'iter', 'iterchildren', 'getchildren'): return xo('[oxml]')
            if name == 'get': return V([('ty', 'str'), ('c', None)])
            return V([('xo', 'oxml', (a[2] if len(a) > 2 else '') + '.' + name)], EMPTY, None)
        tab = TYPES.get(tp)
        if tp == 'fitz.Document' and name in ('save', 'close'): return NONE
        if tp in ('fitz.Rect', 'fitz.Matrix', 'fitz.Point') and name in ('transform', 'includeRect', 'include_rect', 'intersect', 'round', 'normalize'):
            ts = lift(lambda *t: ('fn', {'transform': '*', 'intersect': '&', 'includeRect': '|', 'include_rect': '|'}.get(name, name)) + t, recv, *args)
            return V([('xo', tp)], labels, ts)
        if tp.startswith('re.'): return V([('xo', 're.Match'), ('c', None)], labels) if name in ('match', 'search', 'fullmatch') else ty('str', labels)
        if tab and name in tab:
            if tp == 'fitz.Page' and tab[name].startswith('raw:'):
                what = args[0] if args else None
                if name in ('getText', 'get_text'):
                    mode = next(iter(what.atoms))[1] if what is not None and len(what.atoms) == 1 and next(iter(what.atoms))[0] == 'c' else None
                    if mode in (None, 'text', 'html', 'xml', 'xhtml', 'json', 'rawjson'): return ty('str', frozenset([('R', 'raw', '')]))
                return V([('r', tab[name][4:], '', 1)], frozenset([('R', tab[name][4:], '')]), frozenset([('s', tab[name][4:])]))
            if tp == 'fitz.Document' and tab[name].startswith('raw:'):
                return V([('r', tab[name][4:], '', 1)], frozenset([('R', tab[name][4:], '')]))
            terms = lift(lambda *t: ('fn', name) + t, recv, *args) if not kwargs and len(args) <= 3 else None
            lb = labels
            if tp.startswith('docx.'): lb = EMPTY
            elif tp == 'fitz.Page': lb = lb | {('X', full)}
            if tab[name].startswith('docx.'): terms = frozenset([('new', node._id)])
            return self.typed(tab[name], lb, terms, node)
        self.callback(args, kwargs, node, st, fr)
        return V([('u',)], labels)

    def job(self, el):
        '''one element of the sequence given to a pool, with a symbol for itself'''
        J = ('s', 'job')
        tups = [x for x in el.atoms if x[0] == 't']
        atoms = [x for x in el.atoms if x[0] != 't']
        for n in sorted({len(x[1]) for x in tups}):
            parts = []
            for i in range(n):
                ps = [x[1][i] for x in tups if len(x[1]) == n]
                at, lb = frozenset(), frozenset()
                for p in ps: at, lb = at | p.atoms, lb | p.labels
                parts.append(V(at, lb, frozenset([('ix', J, ('c', i))])))
            atoms.append(('t', tuple(parts)))
        return V(atoms, el.labels, frozenset([J]))

    def pool(self, a, recv, name, args, kwargs, node, st, fr, labels):
        I = self.I
        I.event('ext', node, 'multiprocessing.Pool.' + name, st, fr, recv=recv, args=args, kwargs=kwargs)
        I.raise_point(st, fr)
        if name in ('map', 'imap', 'imap_unordered', 'starmap', 'apply', 'apply_async', 'map_async', 'submit', 'starmap_async'):
            args, kwargs = list(args), dict(kwargs)
            for i, ks in enumerate((('func', 'fn'), ('args', 'iterable'))):
                for k in ks:
                    if len(args) == i and k in kwargs: args.append(kwargs.pop(k))
            if not args or len(args) < 2 and 'map' in name: return UNK
            fn = args[0]
            s = st.copy()
            s.open = EMPTY
            if name in ('apply', 'apply_async', 'submit'):
                if name == 'submit': pargs = list(args[1:])
                else: pargs = list(I.unpackable(args[1])) if len(args) > 1 else []
            elif name.startswith('starmap'):
                el = I.elements(args[1], node, s, fr)
                pargs = None
                for x in self.job(el).atoms:
                    if x[0] == 't': pargs = list(x[1])
                if pargs is None: pargs = [UNK]
            else:
                el = I.elements(args[1], node, s, fr)
                pargs = [self.job(el)]
            saved, tries = fr.frames, fr.tries
            fr.frames = fr.frames + (('spawn', node, None),)
            fr.tries = [{'phase': 'body', 'states': None, 'catch_all': True, 'final': None, 'escapes': [], 'node': node}]
            r = I.call(fn, pargs, {}, node, s, fr)
            fr.frames, fr.tries = saved, tries
            I.event('spawn', node, name, st, fr, recv=recv, args=args, val=r)
            o = I.obj('list', None, node._id, fr.ctx.hsig, node)
            I.store((o.id, '*'), r)
            I.did(('ext', 'multiprocessing.Pool.' + name), st, fr)
            if name == 'imap_unordered': return V([('o', o.id)], frozenset([('ND', 'the order in which workers finish')]))
            return V([('o', o.id)])
        I.did(('ext', 'multiprocessing.Pool.' + name), st, fr)
        return NONE


class _No: pass


_NO = _No()
MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse', 'update', 'setdefault', 'popitem', 'add',
            'discard', '__setitem__', '__delitem__', 'appendleft', 'popleft'}
STRFOLD = {'upper', 'lower', 'strip', 'lstrip', 'rstrip', 'replace', 'startswith', 'endswith', 'zfill', 'title', 'format', 'isdigit', 'find',
           'count', 'capitalize', 'removeprefix', 'removesuffix'}


def ctl(labels): return frozenset(l if l[0] == 'C' else ('C', l) for l in labels)


def xml_filter(pattern, repl):
    '''re.sub(pattern, repl, text) leaves only characters allowed in XML: decided on the character class itself'''
    try:
        import re._parser as sp
    except ImportError:
        import sre_parse as sp
    try: p = sp.parse(pattern)
    except Exception: return False
    items = list(p)
    if len(items) == 1 and str(items[0][0]) in ('MAX_REPEAT', 'MIN_REPEAT'):
        lo, hi, sub = items[0][1]
        if lo > 1: return False
        items = list(sub)
    if len(items) != 1: return False
    op, arg = items[0]
    if str(op) != 'IN': return False

    def member(c):
        neg = False
        hit = False
        for o, x in arg:
            o = str(o)
            if o == 'NEGATE': neg = True
            elif o == 'LITERAL': hit = hit or c == x
            elif o == 'RANGE': hit = hit or x[0] <= c <= x[1]
            else: return None
        return hit != neg
    bad = list(range(0, 9)) + [0xb, 0xc] + list(range(0xe, 0x20)) + [0xd800, 0xdfff, 0xfffe, 0xffff]
    good = [9, 10, 13, 0x20, 0x41, 0x7e, 0xe9, 0x4e00, 0xd7ff, 0xe000, 0xfffd, 0x10000, 0x1f600, 0x10ffff]
    # boundaries of the ranges used as well
    for c in bad:
        if member(c) is not True: return False
    for c in good:
        if member(c) is not False: return False
    for ch in repl:
        if ord(ch) < 0x20 and ch not in '\t\n\r': return False
    return True
