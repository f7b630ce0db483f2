'''Shared parts of the rules.'''

from pdfai.terms import Obj, LEAF


class Pages(list): pass


def page_fields(q):
    '''(class, field) holding the list of Page objects'''
    out = set()
    for o in q.I.objs:
        if o.kind != 'inst': continue
        for f in q.I._fields.get(o.id, ()):
            v = q.I.heap.get((o.id, f))
            if any(q.cls_objs(x, 'Page') for x in q.elems(v)): out.add((o.cls, f))
    return out


def converter_env(q, n, args, kwargs, finalized=()):
    '''leaf values of a converter for a document with n pages'''
    conv = Obj()
    pages = []
    for i in range(n):
        p = Obj(id=i)
        p['_finalized'] = i in finalized
        pages.append(p)
    for cls, f in page_fields(q): conv[f] = pages
    conv['filename_pdf'] = 'dir/a.pdf'
    conv['__len__'] = n
    env = {('s', 'self'): conv, ('s', 'up1'): conv, ('s', 'up2'): conv, ('s', 'pdf'): 'dir/a.pdf', ('s', 'docx'): 'x.docx',
           ('s', 'kwargs'): dict(kwargs), ('fn', 'len', ('s', 'self')): n, ('fn', 'len', ('s', 'up1')): n,
           ('s', 'debug_pdf'): None, ('s', 'layout'): None}
    for o in ('self', 'up1', 'up2'):
        for f in {f for e in q.events('write') for c, f in [e.name.rsplit('.', 1)] if c == 'Converter'}:
            b = ('ld', ('s', o), f)
            for c in ('pageCount', 'page_count'): env[('at', b, c)] = n
            if f not in conv: env[('fn', 'len', b)] = n
    for k, v in args.items(): env[('s', k)] = v
    return env


def page_index(v): return v.get('id') if isinstance(v, Obj) else None


def entry_env(q, n, args, kwargs, finalized=()):
    """the same, also for the converter created by the command"""
    env = converter_env(q, n, args, kwargs, finalized)
    conv = env[('s', 'self')]
    news = {t[1] for e in q.calls('Converter.__init__') for v in e.args[:1] if v.terms for t in v.terms if t[0] == 'new'}
    env[LEAF] = lambda t, env: conv if t[0] == 'new' and t[1] in news else None
    return env
