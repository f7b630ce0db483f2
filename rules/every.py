'''How often the children of a container are written.'''

from pdfai.terms import collection, Obj
from .contract import contract
from .shapes import kind


def every(q, rep, key, anchor, callee, domain, count, text, **kw):
    '''callee is called exactly count(rec) times by anchor'''
    if not any(True for _ in q.contexts(callee)):
        own = [f for f in q.prog.funcs if q.is_func(f, callee)]
        if own: rep.bad(key, q.where(own[0].node), f'{text}: {callee} is never called', absent=True)
        else: rep.skip(f'{callee} is not part of the program')
        return
    contract(q, rep, key, anchor, [('call', callee)], domain, count, lambda effs, rec: len(effs), text, **kw)


def items(n, **fields): return collection(*[Obj(dict(fields, n=i)) for i in range(n)])


TYPES = {'TextBlock': ('TEXT',), 'ImageBlock': ('FLOAT_IMAGE',), 'TableBlock': ('LATTICE_TABLE', 'STREAM_TABLE')}


def block(q, name, btype=None, **fields):
    """a block of this class"""
    c = next((c for c in q.prog.classes if c.rsplit('.', 1)[-1] == name), None)
    enum = next((c for c in q.prog.classes if c.rsplit('.', 1)[-1] == 'BlockType'), None)
    btype = btype or TYPES[name][0]
    if c is None or enum is None or btype not in q.I.enum_members.get(enum, {}): return None
    return kind(q, c, **dict(dict(_type=f'{enum}.{btype}', before_space=5.0, after_space=0.0), **fields))


def blocks(q, *specs):
    out = []
    for s in specs:
        b = block(q, *s) if isinstance(s, tuple) else block(q, s)
        if b is None: return None
        out.append(b)
    return collection(*out)
