'''C02: multi-processing does the same work.'''

import ast

from pdfai import sim
from pdfai.terms import Obj, Unknown, Raises, LEAF, Env, sequence, ev
from pdfai.values import one
from .common import converter_env, page_index

ENTRIES = ('api_convert', 'cmd_convert')
MAPS = ('map', 'imap', 'imap_unordered', 'map_async', 'starmap', 'starmap_async')
ASYNC = ('imap', 'imap_unordered', 'map_async', 'starmap_async', 'apply_async', 'submit')
PRIVATE = '/private-temp'


def selections(n):
    yield {'start': 0, 'end': None, 'pages': None}, list(range(n))
    if n > 2:
        yield {'start': 1, 'end': n - 1, 'pages': None}, list(range(1, n - 1))
        yield {'start': 0, 'end': None, 'pages': [n - 1, 0]}, [n - 1, 0]
        yield {'start': 0, 'end': None, 'pages': list(range(1, n, 2)) + [0]}, list(range(1, n, 2)) + [0]


def cases():
    for n in (1, 2, 3, 5, 8, 12):
        for args, sel in selections(n):
            for machine in (1, 3, 8):
                for cpu in (None, 1, 2, 3, 7): yield n, args, sel, machine, cpu


def environment(q, n, args, kwargs, machine):
    env = converter_env(q, n, args, kwargs, range(n))
    conv = env[('s', 'self')]

    def leaf(t, env):
        if t[0] == 'new' and t[1] in news: return conv
        if t[0] == 'fn' and t[1] in ('cpu_count', 'multiprocessing.cpu_count', 'os.cpu_count') and len(t) == 2: return machine
        if t[0] == 'fn' and t[1] in ('os.path.exists', 'os.path.isfile') and len(t) == 3: return True
        return None
    news = {t[1] for e in q.calls('Converter.__init__') for v in e.args[:1] if v.terms for t in v.terms if t[0] == 'new'}
    env[LEAF] = leaf
    env[('s', 'tmpdir')] = PRIVATE
    return env


def workers(q, spawn):
    '''contexts run by other processes for a spawn event'''
    out = []
    for cid, evs in q.callers.items():
        for e in evs:
            if e.ctx is spawn.ctx and e.node is spawn.node and any(f[0] == 'spawn' for f in e.frames): out.append(q.I.ctxs[cid])
    return out


def jobs(eff):
    '''what is given to the workers: one environment per job'''
    e = eff.event
    if e.name not in MAPS: return [eff.env]
    if len(e.args) < 2: raise Unknown('jobs')
    t = one(e.args[1])
    if t is None: raise Unknown('jobs')
    return [Env(eff.env, {('s', 'job'): x}) for x in sequence(ev(t, eff.env))]


def settings(d):
    if d is None: return {}
    if not isinstance(d, dict): raise Unknown('settings')
    return {k: v for k, v in d.items() if k not in ('multi_processing', 'cpu_count', 'zero_based_index')}


def check(q, rep):
    spawns = list(q.events('spawn'))
    rep.rule('partition', 'For all combinations of page counts, selections, numbers of CPUs and of workers in the table, the jobs given to the worker processes parse every selected '
             'page exactly once, with the settings and the source file of the conversion.')
    for entry in ENTRIES:
        if entry not in q.a.entries: continue
        partition(q, rep, entry, q.a.entries[entry], spawns)
    if not spawns: return
    exchange(q, rep, spawns)
    waiting(q, rep, spawns)
    place(q, rep)


def partition(q, rep, entry, ctx, spawns):
    parse = list(q.calls('Page.parse'))
    opened = list(q.calls('Converter.__init__'))
    where = q.at(spawns[0]) if spawns else next((q.where(c.fi.node) for c in q.contexts('Converter.convert')), 'pdf2docx')
    n_cases = 0
    try:
        for n, args, sel, machine, cpu in cases():
            kw = {'multi_processing': True, 'max_border_width': 7.5}
            if cpu is not None: kw['cpu_count'] = cpu
            text = f'{args}, {n} pages, {machine} CPUs' + (f', cpu_count={cpu}' if cpu else '')
            env = environment(q, n, args, kw, machine)
            effs = sim.effects(q, ctx, spawns, env)
            got, n_cases = [], n_cases + 1
            for x in sim.effects(q, ctx, parse, env): got.append((page(x), settings(x.arg(1, 'settings'))))
            for s in effs:
                for job in jobs(s):
                    for w in workers(q, s.event):
                        for x in sim.effects(q, w, parse, job): got.append((page(x), settings(x.arg(1, 'settings'))))
                        if n_cases == 1:
                            for x in sim.effects(q, w, opened, job):
                                src = x.arg(1, 'pdf_file')
                                if src != env[('s', 'pdf')]:
                                    rep.bad(f'{entry}:source', q.at(x.event), f'a worker process reads {src!r} instead of the source PDF')
            pages = sorted(p for p, _ in got)
            if pages != sorted(sel):
                rep.bad(f'{entry}:pages', where, f'{entry}: pages parsed with multi-processing are {pages} instead of {sorted(sel)} for {text}')
                return
            exp = settings(kw)
            for p, s in got:
                if s != exp:
                    rep.bad(f'{entry}:settings', where, f'{entry}: page {p} is parsed by a worker with the settings {s} instead of {exp}')
                    return
    except Raises as e:
        rep.bad(f'{entry}:error', where, f'{entry}: multi-processing fails ({e.args[0] if e.args else ""}) for {text}')
        return
    except Unknown as e:
        rep.skip(f'{entry}: {e.args[0] if e.args else ""}')
        fallback(q, rep, entry, spawns)
        return
    rep.ok(f'{entry}: {n_cases} combinations')


def page(x):
    i = page_index(x.get(x.event.args[0]))
    if i is None: raise Unknown('page')
    return i


def fallback(q, rep, entry, spawns):
    '''the jobs depend on the selection and on the settings'''
    for s in spawns:
        labs = set()
        for v in list(s.args[1:]) + list(s.kwargs.values()):
            labs |= content(q, v, 0)
        if not labs: continue
        roots = {x[1] if x[0] == 'P' else x[1] for x in q.origins(labs, control=True) if x[0] in ('P', 'R')}
        if 'kwargs' not in roots and 'json' not in roots: rep.skip(f'{entry}: settings of the jobs')


def content(q, v, depth):
    labs = set(v.labels)
    if depth < 4:
        for a in v.atoms:
            if a[0] == 't':
                for x in a[1]: labs |= content(q, x, depth + 1)
        for x in q.elems(v): labs |= content(q, x, depth + 1)
    return labs


def mode(x):
    m = x.arg(1, 'mode')
    return m if isinstance(m, str) else 'r'


def exchange(q, rep, spawns):
    rep.rule('exchange', 'Every worker writes its result to a file of its own in a private temporary folder; all of them are read after all workers have finished and before '
             'the document is created from the same pages as without multi-processing.')
    opens = list(q.events('ext', name='open'))
    restore = list(q.calls('Page.restore'))
    saves = list(q.events('ext', name='docx.Document.save'))
    for s in spawns:
        inside = q.subtree([s.ctx])
        for w in workers(q, s): inside -= q.subtree([w]) - q.subtree([c for c in direct(q, s)])
        if not any(e.ctx.id in inside and not source(q, e) for e in restore):
            rep.bad('merge', q.at(s), 'the results of the worker processes are never restored', absent=True)
    for entry in ENTRIES:
        ctx = q.a.entries.get(entry)
        if ctx is None: continue
        for n, machine, kwargs in ((3, 2, {}), (5, 4, {'cpu_count': 3}), (2, 8, {}), (8, 4, {'cpu_count': 2})):
            try:
                args = {'start': 0, 'end': None, 'pages': None}
                env = environment(q, n, args, dict(kwargs, multi_processing=True), machine)
                effs = sim.effects(q, ctx, spawns, env)
                if not effs: raise Unknown('no multi-processing')
                written = []
                for s in effs:
                    for j, job in enumerate(jobs(s)):
                        for w in workers(q, s.event):
                            done = sim.effects(q, w, [e for e in q.calls('Page.parse')], job)
                            for x in sim.effects(q, w, opens, job):
                                if 'w' in mode(x) or 'x' in mode(x): written.append((x.arg(0, 'file'), j, x, bool(done)))
                reads = [x for x in sim.effects(q, ctx, opens, env) if 'w' not in mode(x)]
                paths = [x.arg(0, 'file') for x in reads]
                lost = [x for x, p in zip(reads, paths) if isinstance(p, str) and p.startswith(PRIVATE + '/')]
                if not written and lost: return rep.bad('written', q.at(lost[0].event), 'no worker process writes the results that are read here', absent=True)
                if not written:
                    rep.skip(f'{entry}: results are not exchanged with files')
                    break
                for p, j, x, _ in written:
                    if not isinstance(p, str): raise Unknown('path')
                    if not p.startswith(PRIVATE + '/'): return rep.bad('private', q.at(x.event), f'a worker writes to {p}, which is not private to the conversion')
                own = {}
                for p, j, x, _ in written:
                    if own.setdefault(p, j) != j: return rep.bad('distinct', q.at(x.event), f'several workers write to {p}')
                for p, j, x, used in written:
                    if used and paths.count(p) != 1: return rep.bad('merged', q.at(reads[0].event if reads else x.event), f'the result of worker {j} of {len(own)} ({p}) is read {paths.count(p)} times')
                last = max(s.order for s in effs)
                for x in reads:
                    if x.order < last: return rep.bad('order', q.at(x.event), 'a result is read before the workers have finished')
                docs = sim.effects(q, ctx, saves, env)
                for d in docs:
                    if reads and d.order < max(x.order for x in reads): return rep.bad('order', q.at(d.event), 'the document is created before all results were read')
                single = sim.effects(q, ctx, saves, environment(q, n, args, dict(kwargs, multi_processing=False), machine))
                a, b = [d.arg(0, 'path_or_stream') for d in docs], [d.arg(0, 'path_or_stream') for d in single]
                if a != b: return rep.bad('document', q.at(effs[0].event), f'{entry}: the documents saved with multi-processing are {a} instead of {b}')
                rep.ok(f'{entry}: {n} pages')
            except Raises as e: rep.bad('error', q.at(spawns[0]), f'{entry}: multi-processing fails ({e.args[0] if e.args else ""})')
            except Unknown as e:
                rep.skip(f'{entry}: {e.args[0] if e.args else ""}')
                private(q, rep, spawns, opens)
    lifetime(q, rep, spawns, opens)


def direct(q, spawn):
    '''contexts called by the function of a spawn event itself'''
    out = []
    for cid, evs in q.callers.items():
        if any(e.ctx is spawn.ctx and not any(f[0] == 'spawn' for f in e.frames) for e in evs): out.append(q.I.ctxs[cid])
    return out


def source(q, e):
    '''restored from the source page instead of a stored layout'''
    return q.is_func(e.ctx.fi, 'Page._load_source')


def private(q, rep, spawns, opens):
    '''paths not evaluable: the origin of their names'''
    for s in spawns:
        for w in workers(q, s):
            sub = q.subtree([w])
            for e in opens:
                if e.ctx.id not in sub or not e.args: continue
                if len(e.args) > 1 and not any(a[0] == 'c' and 'w' in str(a[1]) for a in e.args[1].atoms): continue
                o = q.origins(e.args[0].labels | content(q, e.args[0], 0))
                if o and ('TMP',) not in o and all(l[0] in ('R', 'P', 'F') or l == ('X', 'cpu_count') for l in o):
                    rep.bad('private', q.at(e), 'the file written by a worker is not private to the conversion')


def lifetime(q, rep, spawns, opens):
    for s in spawns:
        tmp = [f for f in s.frames if f[0] == 'with' and f[2] is not None and any('TemporaryDirectory' in str(a) for a in f[2].atoms)]
        if not tmp: continue
        sub = q.subtree([s.ctx])
        for e in opens:
            if e.ctx.id not in sub or not e.args or ('TMP',) not in q.origins(e.args[0].labels): continue
            for ch in q.chains(e.ctx, stop=lambda c: c is s.ctx, only=s.ctx) or ():
                x = (ch + (e,))[0]
                if any(f[0] == 'spawn' for y in ch for f in y.frames): continue
                rep.tri(any(f[0] == 'with' and f[1] is t[1] for t in tmp for f in x.frames), 'lifetime', q.at(x), 'results are read after their temporary folder was removed')


def waiting(q, rep, spawns):
    rep.rule('waiting', 'The conversion goes on only when all worker processes have finished.')
    for s in spawns:
        if s.name not in ASYNC:
            rep.ok(f'{s.name} waits')
            continue
        node = s.ctx.fi.node
        used = any(isinstance(x, ast.Expr) and x.value is s.node for x in ast.walk(node))
        wait = any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and (
            x.func.attr in ('wait', 'result', 'shutdown') or x.func.attr == 'join' and not x.args or
            x.func.attr == 'get' and not (x.args and isinstance(x.args[0], ast.Constant) and isinstance(x.args[0].value, str))) for x in ast.walk(node))
        if used and not wait: rep.bad('waiting', q.at(s), f'{s.name} does not wait for the workers')
        else: rep.skip(f'{s.name}')


def place(q, rep):
    rep.rule('place', 'A stored page carries its page number and is restored into the page with this number, which is then part of the result.')
    number = ('X', 'fitz.Page.number')
    keys, fixed = set(), []
    for e, k, v in q.keysets():
        if not q.is_func(e.ctx.fi, 'Page.store'): continue
        if number in q.origins(v.labels): keys.add(k)
        elif k == 'id' and v.atoms and all(a[0] == 'c' for a in v.atoms): fixed.append(e)
        elif k == 'id' and ('F', 'Page', 'id') in v.labels and all(t[0] == 'c' for x in q.events('write', name='Page.id') if q.is_func(x.ctx.fi, 'Page.restore') and not json(x.val) for t in x.val.atoms): fixed.append(e)
    if fixed and not keys: rep.bad('number', q.at(fixed[0]), 'the number of a page is not stored')
    for e in q.calls('Page.restore'):
        if not q.is_func(e.ctx.fi, 'Converter.restore') and source(q, e): continue
        if len(e.args) < 2 or not json(e.args[1]): continue
        raw, t = one(e.args[1]), one(e.args[0])
        if raw is None or t is None or not keys:
            rep.skip('page restored')
            continue
        conv = Obj({f: [Obj(id=i) for i in range(4)] for e2 in q.events('write') for c, f in [e2.name.rsplit('.', 1)] if c == 'Converter'})
        try:
            for n in (2, 0):
                env = {raw: {k: n for k in keys}, ('s', 'self'): conv, ('s', 'up1'): conv}
                for f in e.frames:
                    if f[0] == 'loop': env[('it', f[3])] = 1
                if raw[0] == 'ix' and raw[2] == ('c', 1): env[('ix', raw[1], ('c', 0))] = 1     # enumerated
                got = page_index(ev(t, env))
                if got != n:
                    rep.bad('place', q.at(e), f'the stored page {n} is restored into page {got}')
                    break
            else: rep.ok('place')
        except Raises as x: rep.bad('place', q.at(e), f'a stored page is not restored ({x.args[0] if x.args else ""})')
        except Unknown as x: rep.skip(f'place: {x.args[0] if x.args else ""}')
    names = {one(e.val)[2] for e in q.events('return') if q.is_func(e.ctx.fi, 'Page.finalized') and one(e.val) is not None and one(e.val)[0] == 'ld'}
    for f in names:
        for ctx in q.contexts('Page.restore'):
            if not any(json(v) for v in ctx.args): continue
            sub = q.subtree([ctx])
            evs = [e for e in q.events('write', name=f'Page.{f}') if e.ctx.id in sub]
            if not evs: rep.bad('counted', q.where(ctx.fi.node), 'a restored page is not part of the result')
            elif all(e.val.atoms == {('c', False)} for e in evs): rep.bad('counted', q.at(evs[0]), 'a restored page is not part of the result')
            else: rep.ok('counted')


def json(v): return any(a[0] == 'r' and a[1] == 'json' for a in v.atoms)
