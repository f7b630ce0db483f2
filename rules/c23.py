'''C23: the content of table cells is processed like the content of the page.'''

import re

from pdfai.terms import ev, Obj, Unknown, Raises
from pdfai.tokens import Analysis, Tok, Opq, Inst, Cls, key
from pdfai.values import one
from .c20 import find
from .contract import near

STEPS = {'lattice_tables': 'tables with borders', 'stream_tables': 'tables without borders', 'parse_text_format': 'text styles and links', 'parse_spacing': 'spacing and alignment'}


def check(q, rep):
    rep.rule('levels', 'Layout.parse does the same steps with the same settings whether it belongs to a page or to a cell, and then parses every table block of either kind (followed through every combination of '
             'types of two blocks).')
    an = Analysis(q)
    names = reaching(q, 'Layout.parse')
    if not names: return rep.skip('Layout.parse not found')
    levels(q, rep, an, names)
    tables(q, rep, an, names)
    categories(q, rep, an)
    order(q, rep)
    region(q, rep)


def reaching(q, anchor):
    '''names of the methods ending up in the anchor'''
    ctxs = q.contexts(anchor)
    if not ctxs: return set()
    seen = {c.id for c in ctxs}
    work = list(seen)
    while work:
        for e in q.callers.get(work.pop(), ()):
            if e.ctx.id not in seen:
                seen.add(e.ctx.id)
                work.append(e.ctx.id)
    return {q.I.ctxs[c].fi.qual.rsplit('.', 1)[-1] for c in seen}


def program_names(q): return {fi.qual.rsplit('.', 1)[-1] for fi in q.prog.funcs}


def page_only(q, name):
    '''documented to be for pages only'''
    import ast
    for fi in q.prog.funcs:
        if fi.qual.rsplit('.', 1)[-1] == name and isinstance(fi.node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            d = ast.get_docstring(fi.node) or ''
            if re.search(r'page level only', ' '.join(d.split()), re.I): return True
    return name == 'page_layout_table'


def levels(q, rep, an, names):
    fi = find(an, 'Layout.parse')
    if fi is None: return rep.skip('Layout.parse not found')
    where = q.prog.where(fi.node)
    known = program_names(q)
    steps = {s for s in STEPS if s in known}

    def setup(run):
        toks = [Tok('block1', 'block'), Tok('block2', 'block')]
        me = Inst('Layout', run)
        b = run.construct('Blocks', [], {})
        b.fields[an.items_field] = list(toks)
        b.fields['_parent'] = me
        me.fields.update({'blocks': b, 'shapes': Opq('shapes'), '_parent': Opq('owner')})
        return me, [Opq('settings')], {}, toks, lambda m, a, r: [m]
    runs = []
    done = set()
    paths = 0
    bad = set()
    try:
        for run, toks, have in an.paths(fi, setup):
            paths += 1
            calls = [(r, n, tuple(key(x) for x in a) + tuple(f'{k}={key(x)}' for k, x in sorted(kw.items()))) for r, n, a, kw, _ in run.calls]
            owner = tuple((k, v) for k, v in run.log if re.search(r'\bowner\b', k))
            rest = {k: v for k, v in run.log if not re.search(r'\bowner\b', k)}
            did = frozenset((n, a) for r, n, a in calls if n in steps and not isinstance(r, Tok))
            done |= {n for n, a in did}
            runs.append((rest, owner, did))
            # sub-layouts
            for t in toks:
                kind = dict(run.log).get(f'_type of {t}')
                if kind is None or 'TABLE' not in str(kind): continue
                mine = [i for i, (r, n, a) in enumerate(calls) if r is t and n in names]
                if not mine: bad.add(('tables', f'a {str(kind).lower().replace("_", " ")} block is not parsed' + (f' when {owner[0][0]} is {owner[0][1]}' if owner else '')))
                elif not any(any(x == 'settings' or x.endswith('=settings') for x in calls[i][2]) for i in mine): bad.add(('settings', 'a table block is parsed without the settings'))
                else:
                    last = [i for i, (r, n, a) in enumerate(calls) if n in ('lattice_tables', 'stream_tables')]
                    if last and min(mine) < max(last): bad.add(('early', 'table blocks are parsed before everything was moved into the cells'))
    except Exception as e:
        return rep.skip(f'Layout.parse: {e}')
    for s in steps - done: bad.add((s, f'{STEPS[s]}: {s} is not done'))
    runs = runs[:400]
    for rest, owner, did in runs:
        for rest2, owner2, did2 in runs:
            # paths differing in what the layout belongs to only
            if owner == owner2 or any(rest2.get(k, v) != v for k, v in rest.items()): continue
            for n, a in did2 - did:
                if page_only(q, n): continue
                if n not in {x for x, _ in did}: bad.add((n, f'{n} is not done when {" and ".join(f"{k} is {v}" for k, v in owner)}'))
                else: bad.add((n, f'{n} works with other settings depending on {owner[0][0] if owner else "the level"}'))
    for k, msg in sorted(bad): rep.bad(k, f'{where} ({fi.qual})', msg)
    if not bad: rep.ok(f'{fi.qual} ({paths} paths)', n=max(paths, 1))


def tables(q, rep, an, names):
    rep.rule('cells', 'Parsing a table block parses the layout of each of its cells with these settings.')
    fi = find(an, 'TableBlock.parse')
    if fi is None: return rep.skip('TableBlock.parse not found')

    def setup(run):
        me = Inst('TableBlock', run)
        grid = [[Tok(f'cell{i}{j}', 'cell') for j in range(2)] for i in range(2)]
        me.fields['_rows'] = me.fields['rows'] = grid
        run.grid = [c for r in grid for c in r]
        return me, [Opq('settings')], {}, run.grid, lambda m, a, r: []
    bad, paths = None, 0
    try:
        for run, toks, have in an.paths(fi, setup):
            paths += 1
            gone = {k.split()[0] for k, r in run.log if k.endswith(' exists') and not r}
            for c in run.grid:
                if str(c) in gone: continue
                if not any((r is c or key(r).startswith(f'{c}.')) and n in names and any(key(x) == 'settings' for x in list(a) + list(kw.values())) for r, n, a, kw, _ in run.calls):
                    if bad is None: bad = str(c)
    except Exception as e: return rep.skip(f'{fi.qual}: {e}')
    if bad: rep.bad('parse', f'{q.prog.where(fi.node)} ({fi.qual})', f'the layout of {bad} of a 2 x 2 table is not parsed with the settings of the page')
    elif paths: rep.ok(f'{fi.qual} ({paths} paths)')


def categories(q, rep, an):
    rep.rule('shapes', 'After shapes were moved into a cell it is detected what they are: borders, shadings, styles of text.')
    step = 'detect_initial_categories'
    fi = find(an, 'Cell.assign_shapes')
    if fi is None or step not in program_names(q): return rep.skip('not found')

    def setup(run):
        toks = [Tok('shape1', 'shape'), Tok('shape2', 'shape')]
        return Inst('Cell', run), [list(toks)], {}, toks, lambda m, a, r: [m]
    bad, paths = None, 0
    try:
        for run, toks, have in an.paths(fi, setup):
            paths += 1
            kept = [i for i, (r, n, a, kw, _) in enumerate(run.calls) if n in ('append', 'extend', 'insert', 'reset', 'assign') and any(t in map_toks(a) for t in toks)]
            det = [i for i, (r, n, a, kw, _) in enumerate(run.calls) if n == step]
            if kept and (not det or max(det) < max(kept)): bad = bad or dict(run.log)
    except Exception as e: return rep.skip(f'{fi.qual}: {e}')
    if bad is not None: rep.bad('detect', f'{q.prog.where(fi.node)} ({fi.qual})', f'shapes are put into a cell without finding out what they are: {step} is not called afterwards')
    elif paths: rep.ok(f'{fi.qual} ({paths} paths)')


def map_toks(args):
    out = []
    for a in args:
        if isinstance(a, Tok): out.append(a)
        elif isinstance(a, (list, tuple)): out += map_toks(a)
        elif isinstance(a, Opq): out += [r for r in a.refs if isinstance(r, Tok)]
    return out


def order(q, rep):
    rep.rule('order', 'The blocks are moved into the cells before the shapes, whose meaning depends on the text next to them; where the one is done so is the other, for the same tables.')
    b, s = list(q.calls('Blocks.assign_to_tables')), list(q.calls('Shapes.assign_to_tables'))
    if not b or not s:
        if any(fi.qual.endswith(('Blocks.assign_to_tables', 'Shapes.assign_to_tables')) for fi in q.prog.funcs):
            rep.bad('missing', 'pdf2docx', f'nothing moves {"blocks" if not b else "shapes"} into the cells of tables', absent=True)
        else: rep.skip('not found')
        return
    by = {}
    for kind, es in (('b', b), ('s', s)):
        for e in es: by.setdefault(e.ctx.id, {}).setdefault(kind, []).append(e)
    for cid, d in by.items():
        name = q.I.ctxs[cid].fi.qual
        if len(d) < 2:
            k = 'b' if 's' in d else 's'
            e = next(iter(d.values()))[0]
            # in a function called next to this one
            mine = {x.ctx.id for x in q.callers.get(cid, ())}
            other = [c for c, x in by.items() if k in x and len(x) == 1]
            if any(mine & {x.ctx.id for x in q.callers.get(c, ())} for c in other) or any(c in q.subtree([q.I.ctxs[cid]]) or cid in q.subtree([q.I.ctxs[c]]) for c in other): rep.ok(f'{name}: elsewhere')
            else: rep.bad(name, q.at(e), f'{name} moves {"shapes" if k == "b" else "blocks"} into the cells of tables, but no {"blocks" if k == "b" else "shapes"}')
            continue
        first, last = max(e.node._id for e in d['b']), min(e.node._id for e in d['s'])
        if first > last and len(d['b']) == 1 and len(d['s']) == 1: rep.bad(name, q.at(d['s'][0]), f'{name} moves the shapes into the cells before the blocks: what they are cannot be found out')
        elif len(d['b']) == 1 and len(d['s']) == 1 and d['b'][0].args[1:] and d['s'][0].args[1:] and not d['b'][0].args[1].atoms & d['s'][0].args[1].atoms and d['b'][0].args[1].atoms and d['s'][0].args[1].atoms:
            rep.bad(name, q.at(d['s'][0]), f'{name} moves blocks and shapes to different tables')
        else: rep.ok(name)


def region(q, rep):
    rep.rule('region', 'The region spacing, alignment and tables are relative to: the page without its margins, the cell without half of its borders.')
    done = 0
    for name, ctxs in (('Layout.bbox', q.contexts('Layout.bbox')),):
        for c in ctxs:
            for e in q.events('return'):
                if e.ctx is not c: continue
                t = one(e.val)
                if t is None:
                    rep.skip('Layout.bbox not extracted')
                    continue
                cell = Obj({'bbox': [10.0, 20.0, 110.0, 70.0], 'border_width': (1.0, 2.0, 3.0, 4.0), '_bbox': [10.0, 20.0, 110.0, 70.0], 'x0': 10.0})
                page = Obj({'_margin': (5.0, 6.0, 7.0, 8.0), 'width': 200.0, 'height': 100.0, 'bbox': (0.0, 0.0, 200.0, 100.0), 'margin': (5.0, 6.0, 7.0, 8.0)})
                owner, want = ((cell, [12.0, 20.5, 109.0, 68.5]) if 'border' in repr(t) else (page, [5.0, 7.0, 194.0, 92.0]))
                got = None
                for up in (('ld', ('ld', ('s', 'self'), '_parent'), '_parent'), ('ld', ('s', 'self'), '_parent')):
                    if up[1] == ('s', 'self') and repr(('ld', ('ld', ('s', 'self'), '_parent'), '_parent')) in repr(t): continue
                    try: got = list(ev(t, {up: owner}))
                    except (Unknown, Raises, TypeError, KeyError): continue
                    break
                if got is None:
                    if 'border' in repr(t) or 'margin' in repr(t): rep.skip('Layout.bbox not evaluated')
                    else: rep.bad('bbox', q.at(e), 'the region of a layout does not depend on the margins of the page or the borders of the cell')
                    continue
                done += 1
                rep.tri(near(got, want), f'Layout.bbox {done}', q.at(e), f'the region of a {"cell" if owner is cell else "page"} is {[round(x, 2) for x in got]} for {dict(owner)}, {want} expected', f'{name}: {"cell" if owner is cell else "page"}')
    if not done: rep.skip('Layout.bbox not found')
