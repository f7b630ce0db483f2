'''C17: extracted tables mirror the cells of the tables.'''

import ast

from pdfai import sim
from pdfai.terms import Obj, Unknown, Raises, LEAF, ev, collection
from pdfai.values import one, t_has
from .common import converter_env
from .contract import near, show, labels, sink_events
from .every import block
from .shapes import kind


def line(q, *texts):
    '''a line of spans; None: an image'''
    def span(t):
        if t is None: return kind(q, cls(q, 'ImageSpan'))
        return kind(q, cls(q, 'TextSpan'), text=t, chars=collection(*[Obj(c=c) for c in t]))
    spans = [span(t) for t in texts]
    return Obj(text=joined(*texts), spans=collection(*spans))


def joined(*texts): return ''.join('<image>' if t is None else t for t in texts).strip()


def cls(q, name): return next((c for c in q.prog.classes if c.rsplit('.', 1)[-1] == name), None)


def cell(q, blocks, merged=False):
    r = kind(q, cls(q, 'Cell'), bbox=(0.0, 0.0, 0.0, 0.0) if merged else (1.0, 1.0, 9.0, 9.0), layout=Obj(blocks=collection(*blocks)))
    if r is not None and merged: r['__iter__'] = []
    return r


def text_block(q, *lines): return block(q, 'TextBlock', None) and Obj(block(q, 'TextBlock'), lines=collection(*[line(q, *(x if isinstance(x, tuple) else (x,))) for x in lines]))


def table(q, btype, name):
    '''a table with all kinds of cells'''
    def tb(*lines): return text_block(q, *lines)
    nested = block(q, 'TableBlock', 'STREAM_TABLE', _rows=collection())
    nested2 = block(q, 'TableBlock', 'LATTICE_TABLE', _rows=collection())
    rows = [[cell(q, [tb(name + '1')]), cell(q, [], True), cell(q, [tb(('b ', 'B'), '', ('c', ' ', 'C')), tb('d')])],
            [cell(q, []), cell(q, [tb('x'), nested, tb(('y', None, 'z'))]), cell(q, [nested2])]]
    rows = [collection(*r) for r in rows]
    for r in rows: r['_cells'] = Obj(_instances=r['_instances'], __iter__=r['__iter__'])
    rs = collection(*rows)
    b = block(q, 'TableBlock', btype, _rows=rs)
    if b is None: return None, None
    b['__iter__'] = rs['__iter__']
    if name == 'e':
        rows = [collection(cell(q, []), cell(q, [], True))]
        b['_rows'] = collection(*rows)
        b['__iter__'] = rows
        return b, [['', None]]
    nest = '<NEST TABLE>'
    return b, [[name + '1', None, 'b B\n\nc C\nd'], ['', 'x\n' + nest + '\ny<image>z', nest]]


def same(a, b):
    '''equal up to the placeholder and blanks around lines'''
    if isinstance(b, str):
        if not isinstance(a, str): return False
        if '<NEST TABLE>' not in b: return a == b
        pre, post = b.split('<NEST TABLE>')
        mid = a[len(pre):len(a) - len(post)]
        return a.startswith(pre) and a.endswith(post) and bool(mid.strip()) and '\n' not in mid
    if isinstance(b, list): return isinstance(a, (list, tuple)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a is b


def leaf(t, env):
    '''the text of a line'''
    if t[0] == 'res' and len(t) == 4 and t[2] == 'text':
        o = ev(t[3], env)
        if isinstance(o, Obj) and 'text' in o: return o['text']
    return None


def check(q, rep):
    content(q, rep)
    texts(q, rep)


def plain(v):
    if isinstance(v, Obj) and '_instances' in v: return [plain(x) for x in v['_instances']]
    if isinstance(v, (list, tuple)): return [plain(x) for x in v]
    return v


def result(q, ctx, env):
    '''what the function gives back: the returned value, or the contents of the returned list'''
    evs = [e for e in q.events('return') if e.ctx is ctx]
    rets = [r for r in sim.effects(q, ctx, evs, env)]
    if not rets: raise Unknown('nothing returned')
    r = rets[0]
    oids = {a[1] for a in r.event.val.atoms if a[0] == 'o' and q.I.objs[a[1]].kind == 'list'}
    adds = [e for e in q.events('mutate') if e.ctx is ctx and e.recv is not None and any(a[0] == 'o' and a[1] in oids for a in e.recv.atoms)]
    if not adds: return plain(r.val())
    if any(e.name not in ('append', 'extend', '__iadd__') for e in adds): raise Unknown('changed otherwise')
    out = []
    for x in sim.effects(q, ctx, adds, env):
        v = plain(x.arg(0))
        if x.event.name == 'append': out.append(v)
        else: out.extend(v)
    return out


def content(q, rep):
    rep.rule('content', 'Page.extract_tables gives one item for each table of the page itself, in order: a list with one list per row with one entry per cell, which is the texts of the lines of the '
             'blocks of the cell in order, one per line; None for a cell merged into another one; a placeholder for a nested table. Tables without borders are left out if and only if the option '
             '"extract_stream_table" is off. Converter.extract_tables gives these for all pages parsed in this run in page order. Compared on pages with all kinds of blocks and cells.')
    A, ta = table(q, 'LATTICE_TABLE', 'a')
    B, tb = table(q, 'STREAM_TABLE', 'b')
    C, tc = table(q, 'LATTICE_TABLE', 'c')
    D, td = table(q, 'LATTICE_TABLE', 'e')
    if cls(q, 'Cell') is None or A is None or B is None:
        rep.skip('the table classes were not found')
        return

    def page(stream, *bs, done=True):
        bb = collection(*bs)
        return Obj(settings={'extract_stream_table': stream, 'debug': False}, layout=Obj(blocks=bb), _finalized=done, skip_parsing=False)
    T = text_block(q, 't')
    pages = [(page(s, *bs), [x[1] for x in [(A, ta), (B, tb), (C, tc), (D, td)] if any(x[0] is y for y in bs) and (s or x[0] is not B)])
             for s in (True, False) for bs in ([], [T], [A], [B], [T, A, T, B, D, C, T], [C, B, A])]
    # in the order of the page
    fixed = []
    for p, _ in pages:
        exp = []
        for b in p['layout']['blocks']['_instances']:
            for x, t in ((A, ta), (B, tb), (C, tc), (D, td)):
                if b is x and (p['settings']['extract_stream_table'] or x is not B): exp.append(t)
        fixed.append((p, exp))
    for c in q.contexts('Page.extract_tables'): tabulate(q, rep, c, fixed, 'the tables of a page')
    on = [fixed[4], fixed[1], fixed[3]]
    convs = []
    for sel in ((True, True, True), (True, False, True), (False, True, False), (False, False, True), (False, False, False)):
        ps = [page(True, *p['layout']['blocks']['_instances'], done=s) for (p, _), s in zip(on, sel)]
        convs.append((Obj(_pages=collection(*ps), __name__='converter'), [t for (_, e), s in zip(on, sel) if s for t in e]))
    for c in q.contexts('Converter.extract_tables'): tabulate(q, rep, c, convs, 'the result')
    gathered(q, rep)
    kinds(q, rep)


def kinds(q, rep):
    rep.rule('kinds', 'A table found by the step for tables without borders is marked as one, a table found by its borders is not.')
    for step, want, other in (('stream_tables', 'STREAM_TABLE', 'LATTICE_TABLE'), ('lattice_tables', 'LATTICE_TABLE', 'STREAM_TABLE'), ('page_layout_table', 'STREAM_TABLE', 'LATTICE_TABLE')):
        cs = list(q.contexts(f'TablesConstructor.{step}'))
        if not cs:
            rep.skip(f'TablesConstructor.{step} not found')
            continue
        sub = q.subtree(cs)
        init = q.subtree([c for c in q.contexts('TableBlock.__init__')])
        first, later, where = set(), set(), None
        for e in q.events('write', name='TableBlock._type'):
            if e.ctx.id not in sub: continue
            vals = {a[2] if a[0] == 'e' else None for a in e.val.atoms}
            # the setters called by the constructor and those called by the step
            for c in q.callers.get(e.ctx.id, ()):
                if c.ctx.id in sub and c.ctx.fi.qual.endswith('__init__'): first |= vals
                elif c.ctx.id in sub: later |= vals; where = where or c
        if None in first | later: rep.skip(step)
        elif want not in later and want not in first: rep.bad(step, q.where(cs[0].fi.node), f'{step} marks no table as {want}', absent=True)
        elif want not in later and other in first: rep.bad(step, q.where(cs[0].fi.node), f'{step} makes tables of the type {other}', absent=True)
        elif other in later: rep.bad(step, q.at(where), f'{step} marks tables as {other}')
        else: rep.ok(f'{step}: {want}')


def gathered(q, rep):
    '''where the values are not known: what is gathered in loops'''
    rep.rule('gathered', 'The tables of each page and the content of each table found in a loop are added to a list (or given by a comprehension), independent of the texts in them.')
    for fname, callee in (('Converter.extract_tables', 'Page.extract_tables'), ('Page.extract_tables', 'TableBlock.text')):
        for c in q.contexts(fname):
            calls = [e for e in q.calls(callee) if e.ctx is c and any(f[0] == 'loop' for f in e.frames)]
            adds = [e for e in q.events('mutate', 'emit', 'yield') if e.ctx is c and any(f[0] == 'loop' for f in e.frames) and (e.kind != 'mutate' or e.name in ('append', 'extend', 'insert', '__iadd__', '__setitem__', 'appendleft'))]
            for e in calls:
                loops = {f[3] for f in e.frames if f[0] == 'loop'}
                got = [x for x in adds if loops & {f[3] for f in x.frames if f[0] == 'loop'}]
                if not got:
                    rep.bad(f'{fname}:kept', q.at(e), f'{callee} is called for each element of a loop but its results are not gathered', absent=True)
                    continue
                bad = None
                for x in got:
                    for f in x.facts:
                        if f.nid != getattr(f.node, '_id', None) or not isinstance(f.node, ast.expr): continue
                        if any(l == ('F', 'Char', 'c') for l in q.origins({l for l in f.labels if l[0] != 'C'})): bad = (x, f)
                if bad: rep.bad(f'{fname}:texts', q.at(bad[0]), 'whether a table is included depends on the texts in it')
                else: rep.ok(f'{fname}: {len(got)} places')


def tabulate(q, rep, ctx, cases, what):
    n = 0
    for me, exp in cases:
        env = {('s', 'self'): me, LEAF: leaf}
        if '_pages' in me: env.update({('s', 'pages'): None, ('s', 'start'): 0, ('s', 'end'): None, ('s', 'kwargs'): None, ('fn', 'len', ('s', 'self')): 3})
        try: got = result(q, ctx, env)
        except Raises as e: got = f'an error ({e.args[0] if e.args else ""})'
        except Unknown as e:
            rep.skip(f'{what}: {str(e.args[0] if e.args else "")[:200]}')
            return
        if not same(got, exp):
            rep.bad(f'{ctx.fi.qual.split(".")[-2]}', q.where(ctx.fi.node), f'{what}: {show(got)} instead of {show(exp)}')
            return
        n += 1
    rep.ok(f'{what} ({n} cases)', n)


def texts(q, rep):
    rep.rule('texts', 'The text of a line joins the texts of all its spans in order without dropping blanks between them; the text of a span joins all its characters in order.')
    for name, field, item in (('Line.text', 'spans', 'span'), ('TextSpan.text', 'chars', 'character')):
        ctxs = q.contexts(name)
        if not ctxs:
            rep.skip(f'{name} not found')
            continue
        for ctx in ctxs:
            evs = [e for e in q.events('emit') if e.ctx is ctx]
            rets = [e for e in q.events('return') if e.ctx is ctx]
            bad = None
            for e in evs:
                for t in e.val.terms or ():
                    # (blanks around a line are left out)
                    if field == 'spans' and t_has(t, lambda x: x[:2] in (('fn', 'strip'), ('fn', 'lstrip'), ('fn', 'rstrip'))): bad = (e, f'blanks around each {item} are dropped')
                tests = [f for f in e.facts if f.nid == getattr(f.node, '_id', None) and f.terms]
                for f in e.frames:
                    t = one(f[2]) if f[0] == 'loop' and f[2] is not None and hasattr(f[2], 'terms') else None
                    if t is None: continue
                    env = {LEAF: lambda x, env: S if x[:1] == ('ld',) and x[-1] == field else None}
                    S = ['p', 'q', 'r']
                    try: seq = ev(t, env)
                    except (Unknown, Raises): continue
                    if isinstance(seq, (list, tuple)) and list(seq) != S: bad = (e, f'the {item}s {list(seq)} of {S} are joined')
            for r in rets:
                labs = q.origins(r.val.labels)
            if bad: rep.bad(name, q.at(bad[0]), f'the text of a {"line" if field == "spans" else "span"}: {bad[1]}')
            elif not evs: rep.skip(f'{name} in another form')
            else: rep.ok(f'{name} ({len(evs)} parts)')
            if field == 'chars':
                env0 = Obj(chars=collection(*[Obj(c=c) for c in ' ab c']))
                for r in rets:
                    t = one(r.val)
                    if t is None: continue
                    base = {x for x in loads(t, 'chars')}
                    try: got = ev(t, {LEAF: lambda x, env: env0['chars'] if x in base else None})
                    except (Unknown, Raises): continue
                    if got != ' ab c': rep.bad(name, q.at(r), f'the text of a span of the characters " ab c" is "{got}"')


def loads(t, field):
    out = set()

    def go(x):
        if isinstance(x, tuple):
            if len(x) == 3 and x[0] in ('ld', 'at') and x[2] == field: out.add(x)
            for y in x: go(y)
        elif isinstance(x, frozenset):
            for y in x: go(y)
    go(t)
    return out
