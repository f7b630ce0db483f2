'''What the tests around an effect say about a given kind of shape.'''

from pdfai.terms import Obj, Unknown, Raises, ev, truth, LEAF
from pdfai.values import one


def kind(q, cls, **fields):
    """a shape of this class"""
    if cls not in q.prog.classes: return None
    r = Obj(fields)
    r['__cls__'] = tuple(q.I.mro(cls))
    return r


def bases(t, attr, out):
    """terms whose attribute is looked at"""
    if isinstance(t, tuple):
        if len(t) == 3 and t[0] in ('ld', 'at') and t[2] == attr: out.add(t[1])
        if len(t) == 4 and t[:2] == ('fn', 'isinstance'): out.add(t[2])
        if len(t) == 3 and t[0] == 'disp': out.add(t[1])
        for x in t: bases(x, attr, out)
    elif isinstance(t, frozenset):
        for x in t: bases(x, attr, out)


def excluded(facts, what, match, others=()):
    """True: a test around the effect fails for this kind of shape; False: no test is about it; None: not known.
    match(term): the term stands for the shape; others: (shape, match) of further shapes"""
    unknown = False
    names = {k for k in what if k != '__cls__'}

    def leaf(t, env):
        if match(t): return what
        for o, m in others:
            if m(t): return o
        return None
    for f in facts:
        ts = f.terms
        if ts:
            vals = set()
            for t in ts:
                try: vals.add(truth(ev(t, {LEAF: leaf})) == f.pol)
                except Raises: vals.add(False)
                except Unknown: vals.add(None)
            if vals == {False}: return True
            if None not in vals: continue
        if any(l[0] == 'F' and l[2] in names for l in f.labels): unknown = True
        elif ts:
            b = set()
            for n in names: bases(ts, n, b)
            if any(match(x) for x in b): unknown = True
    return None if unknown else False


def loop_element(*ids):
    def match(t): return isinstance(t, tuple) and len(t) == 3 and t[0] == 'ix' and t[2] in [('it', i) for i in ids]
    return match


def same(*terms):
    def match(t): return t in terms
    return match
