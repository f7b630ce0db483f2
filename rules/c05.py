'''C05: a failing page is isolated and left out.'''

import ast

from pdfai import sim
from pdfai.terms import Unknown, Raises, LEAF
from pdfai.values import one
from .c01 import created
from .common import converter_env

QUIET = {'KeyboardInterrupt', 'SystemExit', 'GeneratorExit'}
WORK = {'Page', 'RawPage', 'Layout', 'Blocks', 'Shapes', 'Paths', 'ImagesExtractor'}
EXC_ATTRS = {'args', 'with_traceback', 'add_note'}


def check(q, rep):
    isolated(q, rep)
    state(q, rep)
    created(q, rep)
    written(q, rep)


def names(h):
    if h.type is None: return {'BaseException'}
    return {x.id if isinstance(x, ast.Name) else getattr(x, 'attr', '?') for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])}


def inside(body):
    '''statements of a handler, without nested functions'''
    todo = list(body)
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)): todo.extend(ast.iter_child_nodes(n))


def leaves(h, loop_inside=()):
    '''why a handler does not go on with the next page'''
    own = {x for n in inside(h.body) if isinstance(n, (ast.For, ast.While)) for x in ast.walk(n)}
    for n in inside(h.body):
        if isinstance(n, ast.Raise): return 'raises again'
        if isinstance(n, ast.Break) and n not in own: return 'ends the loop'
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('exit', '_exit', 'abort') and isinstance(n.func.value, ast.Name) and n.func.value.id in ('sys', 'os'): return 'ends the program'
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('exit', 'quit'): return 'ends the program'
        if h.name and isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == h.name and n.attr not in EXC_ATTRS and not n.attr.startswith('__'):
            if not any(isinstance(x, ast.Try) for x in inside(h.body)): return f'fails with exceptions without {n.attr}'
    return None


def catching(q, f, node, last):
    '''None if the try statement catches what fails in the node, else why not. last: the loop is in the same function'''
    t = f[1]
    if not isinstance(t, ast.Try): return 'not caught'
    if not any(node is x for s in t.body for x in ast.walk(s)): return 'not caught'
    broad = None
    for h in t.handlers:
        ns = names(h)
        if ns <= QUIET: continue
        why = leaves(h)
        if not why and last and any(isinstance(n, ast.Return) for n in inside(h.body)): why = 'returns'
        if why: return f'the handler {why}'
        if ns & {'Exception', 'BaseException'}:
            broad = h
            break
    if broad is None: return 'only some exceptions are caught'
    for n in inside(t.finalbody):
        if isinstance(n, (ast.Return, ast.Break, ast.Raise)): return 'the finally block ends the loop'
    return None


def isolated(q, rep):
    rep.rule('isolated', 'On every call path from an entry point, the parsing and the creation of a page is surrounded, inside the loop over the pages, by a handler for all exceptions which goes on with the next page.')
    for name, what in (('Page.parse', 'parsing'), ('Page.make_docx', 'creating')):
        seen = {}
        for e in q.calls(name):
            cs = q.chains(e.ctx)
            if cs is None:
                rep.skip(f'{name}: too many call chains')
                continue
            for ch in cs:
                ch = ch + (e,)
                frames = [(f, x) for x in ch for f in x.frames]
                loops = [i for i, (f, _) in enumerate(frames) if f[0] == 'loop']
                if not loops:
                    rep.skip(f'{name}: no loop over pages')
                    continue
                i = loops[-1]
                lf, lx = frames[i]
                tries = [(f, x) for f, x in frames[i + 1:] if f[0] == 'try']
                why = 'not caught'
                for f, x in tries:
                    why = catching(q, f, x.node, x is lx)
                    if why is None: break
                # a handler around an inner step
                seen.setdefault((q.at(lx), why), (lx, lf, tries))
        for (where, why), (lx, lf, tries) in sorted(seen.items(), key=lambda x: str(x[0])):
            if why: rep.bad(f'{what}', where, f'an error while {what} a page ends the whole run ({why})')
            else:
                rep.ok(f'{what} at {where}')
                outside(q, rep, what, lx, lf, tries)


def outside(q, rep, what, lx, lf, tries):
    '''work on a page in the loop, but before or after the protected part'''
    prot = [f[1] for f, x in tries if x is lx]
    if not prot: return
    for e in lx.ctx.events.values():
        if e.kind != 'call' or not any(f[0] == 'loop' and f[1] is lf[1] for f in e.frames): continue
        if any(f[0] == 'try' and f[1] in prot for f in e.frames): continue
        if any(e.node is n for p in prot for h in p.handlers for s in h.body for n in ast.walk(s)): pass
        for t in e.targets or ():
            c = q.I.ctxs[t]
            if c.exc and c.fi.cls in WORK: rep.bad(f'{what}-outside', q.at(e), f'an error in {c.fi.qual} ends the whole run while {what} pages (not caught)')


def flag(q):
    '''fields telling that a page is parsed'''
    out = set()
    for e in q.events('return'):
        if not q.is_func(e.ctx.fi, 'Page.finalized'): continue
        t = one(e.val)
        if t is not None and t[0] == 'ld': out.add(t[2])
    return out


def state(q, rep):
    rep.rule('state', 'When Page.parse is left by an exception at any point, the page does not count as parsed; when it returns, it does. Nothing else than completed parsing or restoring makes a page count as parsed.')
    for f in sorted(flag(q)):
        if f not in q.prog.flags:
            rep.skip(f'{f} is not a plain flag')
            continue
        site = ('flag', f'Page.{f}')
        for c in q.contexts('Page.parse'):
            where = q.where(c.fi.node)
            if c.exc:
                if site in c.exc_open: rep.bad('left', setter(q, c, site) or where, 'a page counts as parsed although its parsing ended with an error')
                elif c.exc_must is not None and ('closed', site) not in c.exc_must: rep.bad('reset', where, 'a page parsed before still counts as parsed when parsing it again ends with an error')
                else: rep.ok('state after an error')
            if c.must is not None: rep.tri(site in c.open, 'done', where, 'a page does not count as parsed after its parsing')
        swallowed(q, rep, site)
        for e in q.events('write', name=f'Page.{f}'):
            if e.val.atoms == {('c', False)}: continue
            fn = e.ctx.fi
            if q.is_func(fn, 'Page.parse') or q.is_func(fn, 'Page.restore'): continue
            cs = q.chains(e.ctx, limit=300)
            if cs is None: continue
            for ch in cs:
                if not any(q.is_func(x.ctx.fi, n) for x in ch for n in ('Page.parse', 'Page.restore')):
                    ok = any(q.named(x.name, n) for x in ch for n in ('Page.parse', 'Page.restore'))
                    if not ok:
                        rep.bad('setter', q.at(e), 'a page counts as parsed without having been parsed or restored')
                        break


def swallowed(q, rep, site):
    sub = q.subtree(q.contexts('Page.parse'))
    done = set()
    for cid in sub:
        c = q.I.ctxs[cid]
        if c.fi.cls not in ('Page', 'Layout'): continue
        for e in c.events.values():
            if e.kind != 'call': continue
            for f in e.frames:
                if f[0] != 'try' or not isinstance(f[1], ast.Try) or f[1] in done or not any(e.node is x for s in f[1].body for x in ast.walk(s)): continue
                step = [q.I.ctxs[t] for t in e.targets or ()]
                if not any(t.exc and any(m[0] == 'w' for m in t.may or ()) and
                           any(I_.fi.cls in ('Page', 'Layout', 'Blocks', 'Shapes', 'TablesConstructor') for I_ in (q.I.ctxs[x] for x in q.subtree([t]))) for t in step): continue
                for h in f[1].handlers:
                    if names(h) <= QUIET or any(isinstance(n, ast.Raise) for n in inside(h.body)): continue
                    clears = any(isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr == site[1].split('.')[1] or isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and
                                 n.func.attr == 'reset' or isinstance(n, ast.Return) for n in inside(h.body))
                    if clears: continue
                    done.add(f[1])
                    rep.bad('swallowed', q.at(e), f'an error in {step[0].fi.qual} is ignored: the page counts as parsed although its parsing did not complete')
                    break


def setter(q, c, site):
    sub = q.subtree([c])
    for e in q.events('write', name=site[1]):
        if e.ctx.id in sub and e.val.atoms != {('c', False)}: return q.at(e)
    return None


def written(q, rep):
    rep.rule('written', 'The document is saved as long as one page was parsed.')
    saves = list(q.events('ext', name='docx.Document.save'))
    if not saves:
        rep.bad('save', 'pdf2docx', 'no document is ever saved', absent=True)
        return
    for entry in ('api_make_docx', 'api_convert', 'cmd_convert'):
        ctx = q.a.entries.get(entry)
        if ctx is None: continue
        try:
            bad = None
            for n in (1, 2, 3):
                for mask in range(1, 1 << n):
                    sel = [i for i in range(n) if mask >> i & 1]
                    env = converter_env(q, n, {'start': 0, 'end': None, 'pages': None}, {}, sel)
                    conv = env[('s', 'self')]
                    news = {t[1] for e in q.calls('Converter.__init__') for v in e.args[:1] if v.terms for t in v.terms if t[0] == 'new'}

                    def leaf(t, env):
                        if t[0] == 'new' and t[1] in news: return conv
                        if t[0] == 'fn' and t[1] in ('os.path.exists', 'os.path.isfile'): return False
                        return None
                    env[LEAF] = leaf
                    k = len(sim.effects(q, ctx, saves, env))
                    if k != 1: bad = (sel, n, k)
            if bad: rep.bad(f'{entry}', q.at(saves[0]), f'{entry}: the document is saved {bad[2]} times when the pages {bad[0]} of {bad[1]} were parsed')
            else: rep.ok(entry)
        except Raises as e: rep.bad(f'{entry}', q.at(saves[0]), f'{entry}: fails ({e.args[0] if e.args else ""})')
        except Unknown as e: rep.skip(f'{entry}: {e.args[0] if e.args else ""}')
