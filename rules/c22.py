'''C22: debug mode only observes.'''

import ast

from pdfai.terms import ev, Unknown, Raises
from pdfai.values import one

CHANGES = ('write', 'classset', 'modset', 'mutate', 'sort', 'keyset', 'badset', 'delattr', 'extset')
LAZY = ('lazyproperty', 'cached_property')


def is_debug(q, keys):
    def f(l):
        if l[0] == 'C': return f(l[1])
        return l[0] == 'R' and l[1] == 'kwargs' and l[2] in keys
    return f


def debug_keys(q):
    '''settings set by the debug function only'''
    out = {'debug', 'debug_doc', 'debug_filename'}
    for e, k, v in q.keysets():
        if isinstance(k, str) and k.startswith('debug'): out.add(k)
    return out


def labels(e):
    out = set()
    for v in [e.val, e.recv] + list(e.args or []) + list((e.kwargs or {}).values()):
        if hasattr(v, 'labels'): out |= v.labels
    return out


def guarded(e, debug): return any(debug(l) for f in e.facts for l in f.labels)


def check(q, rep):
    rep.rule('plots', 'Whatever is called only in debug mode changes nothing but the debug PDF: no attribute, list, class or file of the conversion.')
    keys = debug_keys(q)
    debug = is_debug(q, keys)
    calls = [e for e in q.events('call', 'spawn') if guarded(e, debug) and e.targets]
    if not calls and not any(guarded(e, debug) for e in q.events('ext')):
        rep.skip('nothing depends on the debug settings')
        return
    roots = set()
    for e in calls: roots |= set(e.targets)
    sub = q.subtree([q.I.ctxs[t] for t in roots])
    plots(q, rep, sub, debug)
    elsewhere(q, rep, sub, debug)
    wrappers(q, rep, sub, debug, calls)
    settings(q, rep, keys)
    files(q, rep, keys, debug)


def nodes_of(q, sub):
    out = set()
    for c in sub:
        fi = q.I.ctxs[c].fi
        if fi.node is not None and id(fi.node) not in out: out.update(id(n) for n in ast.walk(fi.node))
    return out


def lazy(fi):
    while fi is not None:
        if any(x in fi.qual for x in LAZY): return True
        fi = fi.parent
    return False


def targets(q, e):
    '''objects changed'''
    v = e.recv
    return [q.I.objs[a[1]] for a in v.atoms if a[0] == 'o'] if v is not None else []


def plots(q, rep, sub, debug):
    inside = nodes_of(q, sub)
    seen = set()
    for e in q.events(*CHANGES):
        if e.ctx.id not in sub or lazy(e.ctx.fi): continue
        if e.kind in ('classset', 'modset'): bad = True
        elif e.kind == 'extset': bad = any(l[0] == 'X' for l in labels(e)) and not any(debug(l) for l in labels(e))
        else:
            objs = targets(q, e)
            old = [o for o in objs if id(o.node) not in inside]
            bad = bool(old) or e.recv is not None and any(a[0] == 'r' for a in e.recv.atoms)
        if bad and (e.name, e.node._id) not in seen:
            seen.add((e.name, e.node._id))
            rep.bad(f'{e.ctx.fi.qual}:{e.name}', q.at(e), f'{e.kind} {e.name} in {e.ctx.fi.qual}, which runs in debug mode only: the layout differs from the one without debug mode')
    for e in q.events('ext'):
        if e.ctx.id not in sub or e.recv is None or not e.name.startswith('fitz.'): continue
        m = e.name.rsplit('.', 1)[-1]
        if not m.startswith(('draw', 'insert', 'new', 'save', 'set', 'add', 'delete', 'clean', 'apply', 'commit', 'write', 'update', 'show', 'wrap')): continue
        if not any(debug(l) for l in e.recv.labels) and any(l[0] == 'X' or l[0] == 'F' for l in e.recv.labels):
            if (e.name, e.node._id) not in seen:
                seen.add((e.name, e.node._id))
                rep.bad(f'{e.ctx.fi.qual}:{e.name}', q.at(e), f'{e.name} in debug mode works on a document which is not the debug PDF')
    if not seen: rep.ok(f'{len({q.I.ctxs[c].fi.qual for c in sub})} functions run in debug mode only', n=max(len(sub), 1))


def elsewhere(q, rep, sub, debug):
    rep.rule('elsewhere', 'Outside of the plotting no attribute, list, result or document depends on the debug settings.')
    seen = set()
    n = 0
    for e in q.events('write', 'mutate', 'keyset', 'classset', 'modset', 'emit', 'extset', 'ext', 'raise', 'sort'):
        if e.ctx.id in sub: continue
        n += 1
        g = guarded(e, debug)
        d = e.val is not None and any(debug(l) for l in e.val.labels) or any(debug(l) for x in e.args or [] if hasattr(x, 'labels') for l in x.labels)
        # reading the settings, keeping them
        if not g:
            if not d or e.kind in ('keyset', 'mutate'): continue
            if e.kind == 'ext' or e.kind in ('write', 'emit', 'sort', 'raise'):
                if not any(l[0] == 'C' for x in [e.val] + list(e.args or []) if hasattr(x, 'labels') for l in x.labels if debug(l)): continue
        if g and e.kind == 'ext' and not (e.name.startswith(('docx.', 'fitz.')) and e.recv is not None and not any(debug(l) for l in e.recv.labels)
                                          and changing(e.name)): continue
        if g and e.kind in ('mutate', 'keyset') and not old_target(q, e): continue
        if g and e.kind == 'write' and lazy(e.ctx.fi): continue
        if g and e.kind == 'raise': continue
        k = (e.ctx.fi.qual, e.name, e.node._id)
        if k in seen: continue
        seen.add(k)
        rep.bad(f'{e.ctx.fi.qual}:{e.name}', q.at(e), f'{e.kind} {e.name} in {e.ctx.fi.qual} depends on the debug settings')
    if not seen: rep.ok(f'{n} effects outside of the plotting', n=n)


def old_target(q, e):
    fi = e.ctx.fi
    own = {id(n) for n in ast.walk(fi.node)} if fi.node is not None else set()
    return any(id(o.node) not in own for o in targets(q, e))


def changing(name):
    m = name.rsplit('.', 1)[-1]
    return name.startswith('docx.') or m.startswith(('draw', 'insert', 'set', 'add', 'delete', 'clean', 'apply'))


def wrappers(q, rep, sub, debug, calls):
    rep.rule('results', 'A step which is plotted gives the same result as without debug mode: the function around it calls it once, always, and returns what it returned.')
    for c in {e.ctx.id: e.ctx for e in calls if e.ctx.id not in sub}.values():
        if c.fi.parent is None: continue      # plotting inside of the step itself
        steps = [e for e in q.events('call') if e.ctx is c and not (set(e.targets or ()) & sub) and not guarded(e, debug) and e.targets]
        steps = [e for e in steps if any(q.I.ctxs[t].fi.cls for t in e.targets) and not any('settings' in q.I.ctxs[t].fi.qual for t in e.targets)]
        if len({e.node._id for e in steps}) != 1:
            rep.skip(f'{c.fi.qual}: {len(steps)} steps')
            continue
        e = steps[0]
        name = '/'.join(sorted({q.I.ctxs[t].fi.qual for t in e.targets}))
        rets = [r for r in q.events('return') if r.ctx is c]
        want = set()
        for r in q.events('return'):
            if r.ctx.id in e.targets and r.val is not None: want |= set(r.val.atoms)
        if not any(a[0] == 'o' for a in want):
            rep.ok(f'{name}: no result')
            continue
        bad = None
        for r in rets:
            got = set(r.val.atoms) if r.val is not None else set()
            if any(a[0] == 'o' for a in got) and got <= want: continue
            if not got and r.val is not None and not plain_none(r.val): continue
            bad = r
        if not rets: rep.bad(name, q.prog.where(c.fi.node), f'the result of {name} is lost in {c.fi.qual}')
        elif guarded_true(rets, debug):
            rep.bad(name, q.at(rets[0]), f'{c.fi.qual} returns the result of {name} in debug mode only')
        elif bad is not None: rep.bad(name, q.at(bad), f'{c.fi.qual} returns something else than {name} returned')
        else: rep.ok(name)


def guarded_true(rets, debug):
    '''every return needs the debug settings to be on'''
    return all(any(f.pol and any(debug(l) for l in f.labels) for f in r.facts) for r in rets)


def plain_none(v): return any(a == ('c', None) for a in v.atoms)


def settings(q, rep, keys):
    rep.rule('settings', 'The debug functions add nothing but the debug settings to the settings of the user.')
    read = {e.name for e in q.events('keyread')}
    n = 0
    for e, k, v in q.keysets():
        if e.ctx.fi is None or not any('debug' in p for p in e.ctx.fi.params) and 'debug' not in e.ctx.fi.qual: continue
        if not isinstance(k, str): continue
        n += 1
        if k not in keys and k in defaults(q):
            rep.bad(f'{e.ctx.fi.qual}:{k}', q.at(e), f'{e.ctx.fi.qual} sets {k!r}, which is no debug setting: the result differs from the one of the conversion')
        else: rep.ok(f'{e.ctx.fi.qual}: {k}')
    if not n: rep.skip('no settings set for debugging')


def defaults(q):
    out = set()
    for e, k, v in q.keysets():
        if isinstance(k, str) and q.is_func(e.ctx.fi, 'init_settings'): out.add(k)
    return out | {'zero_based_index', 'multi_processing', 'cpu_count', 'start', 'end', 'pages'}


def files(q, rep, keys, debug):
    rep.rule('file', 'What is plotted is saved to the debug PDF, never to the source PDF or the docx file.')
    n = 0
    for e in q.events('ext'):
        if not guarded(e, debug) or not e.name.startswith('fitz.') or e.name.rsplit('.', 1)[-1] not in ('save', 'saveIncr', 'ez_save'): continue
        n += 1
        at = e.args[1:] if e.args and e.args[0] is e.recv else e.args
        labs = set()
        for x in at or []: labs |= x.labels
        if e.name.endswith('saveIncr') or labs and not any(debug(l) for l in labs): rep.bad(f'{e.ctx.fi.qual}:save', q.at(e), 'what is plotted is saved to another file than the debug PDF')
        else: rep.ok(f'{e.ctx.fi.qual}: {e.name}')
    if not n: rep.skip('nothing saved in debug mode')
