'''C06: every documented option exists, has its documented default and takes effect.'''

import ast
import re

from pdfai import sim
from pdfai.terms import Unknown, Raises, LEAF, ev
from pdfai.values import t_has
from .common import converter_env

# options of the documentation with their defaults (the doc string of the current source takes precedence)
DOCUMENTED = {
    'zero_based_index': True, 'multi_processing': False,
    'connected_border_tolerance': 0.5, 'max_border_width': 6.0, 'min_border_clearance': 2.0, 'float_image_ignorable_gap': 5.0,
    'float_layout_tolerance': 0.1, 'page_margin_factor_top': 0.5, 'page_margin_factor_bottom': 0.5, 'shape_merging_threshold': 0.5,
    'shape_min_dimension': 2.0, 'line_overlap_threshold': 0.9, 'line_merging_threshold': 2.0, 'line_separate_threshold': 5.0,
    'lines_left_aligned_threshold': 1.0, 'lines_right_aligned_threshold': 1.0, 'lines_center_aligned_threshold': 2.0,
    'clip_image_res_ratio': 3.0, 'curve_path_ratio': 0.2,
    # documented where the defaults are set
    'line_free_space_ratio_threshold': 0.1, 'extract_stream_table': False,
}
SPECIAL = ('zero_based_index', 'multi_processing', 'cpu_count', 'debug')
# option -> steps that work with it
STEPS = {
    'connected_border_tolerance': ['TablesConstructor.lattice_tables'],
    'max_border_width': ['Shapes.clean_up', 'TablesConstructor.lattice_tables', 'TablesConstructor.stream_tables'],
    'min_border_clearance': ['TablesConstructor.lattice_tables', 'TablesConstructor.stream_tables'],
    'float_image_ignorable_gap': ['Blocks.clean_up'],
    'float_layout_tolerance': ['TablesConstructor.stream_tables'],
    'line_separate_threshold': ['TablesConstructor.stream_tables', 'TextBlock.parse_horizontal_spacing'],
    'page_margin_factor_top': ['Page.parse'], 'page_margin_factor_bottom': ['Page.parse'],
    'shape_merging_threshold': ['Shapes.clean_up'], 'shape_min_dimension': ['Shapes.clean_up'],
    'line_overlap_threshold': ['Blocks.clean_up'], 'line_merging_threshold': ['Blocks.clean_up'],
    'line_free_space_ratio_threshold': ['TextBlock.parse_horizontal_spacing'],
    'lines_left_aligned_threshold': ['TextBlock.parse_horizontal_spacing'],
    'lines_right_aligned_threshold': ['TextBlock.parse_horizontal_spacing'],
    'lines_center_aligned_threshold': ['TextBlock.parse_horizontal_spacing'],
    'clip_image_res_ratio': ['Page.parse'], 'curve_path_ratio': ['Page.parse'],
    'extract_stream_table': ['Page.extract_tables'],
    'multi_processing': ['Converter.convert'], 'cpu_count': ['Converter.convert'],
    'zero_based_index': ['PDF2DOCX.convert', 'PDF2DOCX.table', 'PDF2DOCX.debug'],
}
WITH_OPTIONS = ('cmd_convert', 'cmd_debug', 'cmd_table', 'api_convert', 'api_parse', 'api_debug_page', 'api_extract_tables')


def documented(q):
    out = {}
    for fi in q.prog.funcs:
        if not isinstance(fi.node, (ast.FunctionDef, ast.AsyncFunctionDef)): continue
        doc = ast.get_docstring(fi.node)
        if not doc or 'configuration parameters::' not in doc.lower(): continue
        for m in re.finditer(r'^\s+(\w+)\s*:\s*([\w.]+)\s*,', doc, re.M):
            try: out[m.group(1)] = ast.literal_eval(m.group(2))
            except (ValueError, SyntaxError): continue
    return {**DOCUMENTED, **out}


def check(q, rep):
    doc = documented(q)
    default(q, rep, doc)
    precedence(q, rep, doc)
    kept(q, rep, doc)
    accepted(q, rep)
    values(q, rep, doc)
    used(q, rep, doc)
    nested(q, rep, doc)
    resolution(q, rep)
    switches(q, rep, doc)


def default_sets(q, doc):
    '''context -> key -> values of defaults set there'''
    out = {}
    for e, k, v in q.keysets():
        if k in doc and all(a[0] == 'c' for a in v.atoms): out.setdefault(e.ctx.id, {}).setdefault(k, set()).update(a[1] for a in v.atoms)
    return {c: d for c, d in out.items() if len(d) > 4}


def default(q, rep, doc):
    rep.rule('default', 'Every documented option is set to its documented default where the settings of a page are made.')
    sets = default_sets(q, doc)
    if not sets: return rep.skip('no place sets the defaults')
    for cid, d in sets.items():
        where = q.I.ctxs[cid].fi.qual
        for k, v in doc.items():
            if k in SPECIAL: continue
            if k not in d: rep.bad(k, where, f'the documented option {k} has no default', absent=True)
            elif any(type(x) is not type(v) and not (isinstance(x, (int, float)) and isinstance(v, (int, float))) or x != v for x in d[k]):
                rep.bad(k, where, f'the default of {k} is {sorted(map(str, d[k]))}, documented is {v}')
            else: rep.ok(f'{k}={v}')


def user(q, v):
    '''whether it holds options of the caller'''
    if any(a[0] == 'r' and a[1] == 'kwargs' for a in v.atoms): return True
    for a in v.atoms:
        if a[0] == 'o' and q.I.objs[a[1]].kind == 'dict':
            for f in q.I._fields.get(a[1], ()):
                w = q.I.heap.get((a[1], f))
                if w is not None and any(x[0] == 'r' and x[1] == 'kwargs' for x in w.atoms): return True
    return False


def precedence(q, rep, doc):
    rep.rule('precedence', 'In the order of the operations building the settings, the options of the caller come after the defaults.')
    for cid in default_sets(q, doc):
        c = q.I.ctxs[cid]
        if not any(v is not None and any(a[0] == 'r' and a[1] == 'kwargs' for a in v.atoms) for v in c.args): continue
        evs = [e for e in c.events.values() if e.kind in ('keyset', 'dictspread') or e.kind == 'mutate' and e.name in ('update', '__setitem__', 'setdefault')]
        evs.sort(key=lambda e: sim.when(e.node))
        state, open_ = {}, False
        for e in evs:
            objs = [a[1] for a in (e.recv.atoms if e.recv is not None else ()) if a[0] == 'o']
            for a in (e.recv.atoms if e.recv is not None else ()):
                if a[0] == 'r' and a[1] == 'kwargs': objs.append('user')
            if e.kind == 'keyset': src, vals = 'D', [e.val]
            else: src, vals = None, e.args[-1:] if e.name in ('__setitem__', 'setdefault') else e.args
            if e.kind == 'keyset' and user(q, e.val): src = 'U'
            if src is None:
                own = [x for v in vals for a in v.atoms if a[0] == 'o' for x in state.get(a[1], ())]
                if any(any(a[0] == 'r' and a[1] == 'kwargs' for a in v.atoms) for v in vals): src = ['U']
                elif own: src = own
                elif vals and all(a[0] == 'c' for v in vals for a in v.atoms): src = ['D']
                else: continue
            if e.name == '__setitem__' and any('in' in type(x).__name__.lower() for f in e.facts if isinstance(f.node, ast.expr) for n in ast.walk(f.node)
                                               if isinstance(n, ast.Compare) for x in n.ops): open_ = True
            for o in objs:
                s = state.setdefault(o, [])
                if o == 'user' and not s: s.append('U')
                if e.name == 'setdefault': s[:0] = src
                else: s.extend(src)
        rets = [e for e in c.events.values() if e.kind == 'return' and e.val is not None]
        for e in rets:
            for a in e.val.atoms:
                o = a[1] if a[0] == 'o' else 'user' if a[0] == 'r' and a[1] == 'kwargs' else None
                s = state.get(o)
                if not s or open_ or any(x.kind == 'emit' for x in c.events.values()) and 'U' not in s: rep.skip(f'{c.fi.qual}: settings made in another way')
                elif 'U' not in s:
                    if user(q, e.val): rep.skip(f'{c.fi.qual}: settings made in another way')
                    else: rep.bad('lost', q.at(e), 'the options of the caller are not taken into the settings')
                elif s[-1] == 'U': rep.ok(f'options of the caller win in {c.fi.qual}')
                elif s.index('D') < len(s) - s[::-1].index('U') - 1 and s[-1] == 'D':
                    rep.bad('order', q.at(e), 'a default overwrites an option given by the caller')
                else: rep.bad('order', q.at(e), 'the defaults overwrite the options given by the caller')


def kept(q, rep, doc):
    '''options taken one by one: under a condition that lets every value pass'''
    for cid in default_sets(q, doc):
        c = q.I.ctxs[cid]
        for e in c.events.values():
            if e.kind == 'mutate' and e.name in ('__setitem__', 'setdefault') or e.kind == 'emit' and e.name == 'dict':
                for f in e.facts:
                    if not (isinstance(f.node, ast.expr) and f.nid == f.node._id) or not f.terms or len(f.terms) != 1: continue
                    (t,) = f.terms
                    if not t_has(t, pair(1)): continue
                    for v in (0, 0.0, False, 1, True, 0.5, 7.5, -1.0):
                        env = {LEAF: lambda x, env, v=v: v if pair(1)(x) else 'curve_path_ratio' if pair(0)(x) else None}
                        try: got = bool(ev(t, env))
                        except (Unknown, Raises, TypeError): continue
                        if got != bool(f.pol): rep.bad('kept', q.at(e), f'an option given as {v!r} is not taken into the settings')
                        else: rep.ok(f'{v!r} is taken')


def pair(i): return lambda t: t[0] == 'ix' and t[2] == ('c', i) and t[1][0] == 'ix' and t[1][2][0] == 'it'


def accepted(q, rep):
    rep.rule('accepted', 'Every command taking options hands them to the parsing of each page.')
    for entry in WITH_OPTIONS:
        ctx = q.a.entries.get(entry)
        if ctx is None or not ctx.evaluated: continue
        sub = q.subtree([ctx])
        got = None
        for e in q.calls('Page.parse'):
            if e.ctx.id not in sub: continue
            cs = q.chains(e.ctx, entry, limit=200)
            if not cs: continue
            vals = list(e.args[1:]) + list(e.kwargs.values())
            got = bool(got) or any(user(q, v) for v in vals)
        if got is None: rep.skip(f'{entry}: no page is parsed')
        else: rep.tri(got, entry, entry, f'{entry}: the options are not handed to the parsing of the pages')


    handed(q, rep)


def handed(q, rep):
    '''the settings of every page parsed, without and with the other modes'''
    parse = list(q.calls('Page.parse'))
    for entry in ('api_convert', 'api_parse', 'api_debug_page', 'api_extract_tables'):
        ctx = q.a.entries.get(entry)
        if ctx is None or not ctx.evaluated: continue
        for kw in ({'curve_path_ratio': 0.7}, {'curve_path_ratio': 0.7, 'multi_processing': False, 'zero_based_index': True}):
            args = {'start': 0, 'end': None, 'pages': None, 'page_index': 0, 'indexes': None}
            env = converter_env(q, 2, args, kw, [0, 1])

            def leaf(t, env):
                if t[0] == 'fn' and t[1] in ('os.path.exists', 'os.path.isfile'): return True
                return None
            env[LEAF] = leaf
            try:
                for x in sim.effects(q, ctx, parse, env):
                    got = x.arg(1, 'settings')
                    if not (isinstance(got, dict) and got.get('curve_path_ratio') == 0.7):
                        rep.bad(entry, q.at(x.event), f'{entry}: a page is parsed with the settings {got} for the options {kw}')
                        break
                else: rep.ok(f'{entry} with {kw}')
            except Raises as u: rep.skip(f'{entry}: an error, {u.args[0] if u.args else ""}')
            except Unknown as u: rep.skip(f'{entry}: {u.args[0] if u.args else ""}')


def nested(q, rep, doc):
    rep.rule('nested', 'A step given the settings of the page is never run without them elsewhere, e.g. in the cells of a table.')
    full = {i for i, o in enumerate(q.I.objs) if o is not None and o.kind == 'dict' and sum(('k', k) in q.I._fields.get(i, ()) for k in doc) > 8}
    calls = {}
    for c in q.a.ctxs:
        for e in q.callers.get(c.id, ()):
            for p, v in zip(c.fi.params, e.args): calls.setdefault((c.fi.fid, c.fi.qual, p), []).append((e, v))
            for p, v in e.kwargs.items(): calls.setdefault((c.fi.fid, c.fi.qual, p), []).append((e, v))
    for (fid, name, p), vs in calls.items():
        if not any(a[0] == 'o' and a[1] in full for _, v in vs for a in v.atoms): continue
        for e, v in vs:
            if any(a[0] == 'o' and a[1] in full for a in v.atoms): rep.ok(f'{name}({p}) at {q.at(e)}')
            elif any(a[0] == 'r' and a[1] == 'kwargs' for a in v.atoms): rep.ok(f'{name}({p}) at {q.at(e)}')
            elif v.atoms and all(a[0] == 'c' or a[0] == 'o' and q.I.objs[a[1]].kind == 'dict' and not q.I._fields.get(a[1]) for a in v.atoms) and not e.ctx.fi.qual.startswith('__driver__'):
                rep.bad(f'{name}({p})', q.at(e), f'{name} runs without the settings of the page given elsewhere')
            else: rep.skip(f'{name}({p}) at {q.at(e)}')


def resolution(q, rep):
    rep.rule('resolution', 'The bitmap of every clipped part of a page stored as picture is made with the resolution asked for.')
    made = {e.ctx.fi.fid for e, k, v in q.keysets() if k == 'image'}
    opt = ('R', 'kwargs', 'clip_image_res_ratio')
    if not any(opt in v.labels for c in q.a.ctxs for v in c.args if v is not None): return rep.skip('options not told apart')
    for c in q.a.ctxs:
        if c.fi.fid not in made: continue
        for e in q.callers.get(c.id, ()):
            for v in list(e.args) + list(e.kwargs.values()):
                if not any(l[0] == 'X' and 'getpixmap' in l[1].lower().replace('_', '') for l in v.labels) or not any(a[0] == 'xo' and a[1] == 'fitz.Pixmap' for a in v.atoms): continue
                rep.tri(opt in v.labels, q.at(e).split(' ')[0], q.at(e), 'the picture of a part of the page does not depend on clip_image_res_ratio', q.at(e))


def values(q, rep, doc):
    rep.rule('value', 'A parameter named like an option holds, in every call, exactly the default or the value given for this option, and so does a value passed on under the name of the option.')
    seen = set()
    for c in q.a.ctxs:
        for p, v in zip(c.fi.params, c.args):
            if p in doc and p not in SPECIAL and v is not None: one_value(q, rep, doc, p, v, f'{c.fi.qual}({p})', q.where(c.fi.node), seen, c.id)
    sets = default_sets(q, doc)
    for e, k, v in q.keysets():
        if k in doc and k not in SPECIAL and e.ctx.id not in sets: one_value(q, rep, doc, k, v, f'{e.ctx.fi.qual}["{k}"]', q.at(e), seen, e.ctx.id)


def one_value(q, rep, doc, p, v, what, where, seen, cid):
    roots = {a[2] for a in v.atoms if a[0] == 'r' and a[1] == 'kwargs'} - {''}
    labs = {l[2] for l in v.labels if l[0] == 'R' and l[1] == 'kwargs'} - {''}
    consts = {a[1] for a in v.atoms if a[0] == 'c'}
    steps = q.subtree([c for f in STEPS.get(p, ()) for c in q.contexts(f)])
    key = (what, tuple(sorted(roots | labs)), tuple(sorted(map(str, consts))), cid in steps)
    if key in seen: return
    seen.add(key)
    # the keys were not told apart: the value stands for any option
    if len(consts) > 3 or any(a[0] == 'r' and a[1] == 'kwargs' and not a[2] for a in v.atoms): return rep.skip(f'{what}: options not told apart')
    other = (roots | labs) - {p}
    if other: rep.bad(what, where, f'{what} gets the value of the option {sorted(other)}')
    elif p not in roots | labs:
        # the columns of a page are no table with borders of its own
        if v.atoms and all(a[0] == 'c' for a in v.atoms) and cid not in steps: rep.skip(f'{what}: not a documented step')
        elif v.atoms and all(a[0] == 'c' for a in v.atoms): rep.bad(what, where, f'{what} gets the fixed value {sorted(map(str, consts))}, not the option {p}')
        else: rep.skip(f'{what}: origin of the value not known')
    elif any(x != doc[p] for x in consts): rep.bad(what, where, f'{what} may get {sorted(map(str, consts))} where {doc[p]} is the documented default')
    else: rep.ok(what)


def used(q, rep, doc):
    rep.rule('used', 'The value of every option decides a test or enters a result in the steps documented for it.')
    any_use = {}
    uses, whole = {}, set()
    for e in q.a.events():
        labs = set()
        for f in e.facts:
            labs |= f.labels
        if e.kind in ('return', 'ext', 'sort', 'filter', 'emit', 'write', 'carry', 'extset', 'mutate', 'yield', 'raise', 'break', 'spawn'):
            for v in list(e.args or ()) + [e.val]:
                if v is not None: labs |= v.labels
        for l in labs:
            if l[0] == 'C': l = l[1]
            if l[0] == 'R' and l[1] == 'kwargs' and l[2] in STEPS: uses.setdefault(l[2], set()).add(e.ctx.id)
            elif l[0] == 'R' and l[1] == 'kwargs' and not l[2]: whole.add(e.ctx.id)
    # options not told apart by their names
    mixed = sum(o in uses for o in STEPS if o not in SPECIAL) < 8 and whole
    for opt, steps in STEPS.items():
        if opt not in doc and opt not in SPECIAL: continue
        us = uses.get(opt, set())
        if mixed and opt not in SPECIAL: rep.skip(f'{opt}: options not told apart')
        elif not us:
            rep.bad(opt, 'pdf2docx', f'the option {opt} has no effect anywhere', absent=True)
        else: steps_of(q, rep, opt, steps, us)


def steps_of(q, rep, opt, steps, us):
    for f in steps:
        ctxs = q.contexts(f)
        if not ctxs: rep.skip(f'{opt}: no {f}')
        else:
            sub = q.subtree(ctxs)
            rep.tri(bool(us & sub), f'{opt}-{f}', q.where(ctxs[0].fi.node), f'{f} does not depend on the option {opt}', f'{opt} in {f}')


def switches(q, rep, doc):
    rep.rule('switch', 'Worker processes are used if and only if multi-processing is asked for.')
    spawns = list(q.events('spawn'))
    if not spawns: return rep.skip('no worker processes')
    for entry in ('api_convert', 'cmd_convert'):
        ctx = q.a.entries.get(entry)
        for kw in ({}, {'multi_processing': False}, {'multi_processing': True}):
            env = converter_env(q, 2, {'start': 0, 'end': None, 'pages': None}, kw, [0, 1])
            conv = env[('s', 'self')]
            news = {t[1] for c in q.calls('Converter.__init__') for v in c.args[:1] if v.terms for t in v.terms if t[0] == 'new'}

            def leaf(t, env):
                if t[0] == 'new' and t[1] in news: return conv
                if t[0] == 'fn' and t[1] in ('os.path.exists', 'os.path.isfile'): return True
                if t[0] == 'fn' and t[1].endswith('cpu_count') and len(t) == 2: return 2
                return None
            env[LEAF] = leaf
            try: n = len(sim.effects(q, ctx, spawns, env))
            except Raises: n = 0
            except Unknown as u:
                rep.skip(f'{entry} {kw}: {u.args[0] if u.args else ""}')
                continue
            want = bool(kw.get('multi_processing'))
            rep.tri((n > 0) == want, entry, q.at(spawns[0]), f'{entry} with {kw or "no options"}: {"uses" if n else "does not use"} worker processes', f'{entry} {kw}')
