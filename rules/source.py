'''Fields taken from source data.'''

from pdfai.terms import Unknown, Raises, ev, LEAF, fn as _fn
from pdfai.values import one, t_has
from .contract import near, show


def raw_leaf(raw):
    def leaf(t, env):
        if t[0] == 'ix' and (t[1][0] == 'seq' or isinstance(t[2], tuple) and t[2][0] == 'it' and not t_has(t[1], lambda x: x == ('s', 'self'))): return raw
        if t[0] == 's' and t[1] not in ('self', 'up1', 'up2'): return raw
        return None
    return leaf


def fields_from(q, rep, cls, fields, raws, text):
    '''fields: {field: key of the source data}; raws: samples of the source data'''
    init = q.contexts(f'{cls}.__init__') or [c for c in q.a.ctxs if q.is_func(c.fi, '__init__') and c.selfatom is not None and c.selfatom[0] == 'o' and
                                              q.I.objs[c.selfatom[1]].kind == 'inst' and q.I.objs[c.selfatom[1]].cls.rsplit('.', 1)[-1] == cls]
    if not init:
        rep.skip(f'{cls}.__init__ not found')
        return
    for field, key in fields.items():
        sub = q.subtree(init)
        evs = [e for e in q.events('write', name=f'{cls}.{field}') if e.ctx.id in sub and q.is_func(e.ctx.fi, '__init__') and not (e.val.terms and all(t[0] == 'c' for t in e.val.terms))]
        evs = [e for e in evs if any(l[0] == 'R' for l in q.origins(e.val.labels)) or e.val.terms is None]
        if not evs:
            rep.skip(f'{cls}.{field}: not initialized from source data')
            continue
        for e in evs:
            have = {l[2] for l in q.origins(e.val.labels) if l[0] == 'R'}
            t = one(e.val)
            try:
                if t is None: raise Unknown('value')
                for raw in raws:
                    try: got = ev(t, {LEAF: raw_leaf(raw)})
                    except Raises as x: got = f'an error ({x})'
                    if got != raw[key] and not near(got, raw[key]):
                        rep.bad(f'{cls}.{field}', q.at(e), f'{text} {field}: {show(got)} instead of {show(raw[key])} for source data {show(raw)}')
                        break
                else: rep.ok(f'{cls}.{field} = {key} of the source data')
            except Unknown:
                if have and key not in have: rep.bad(f'{cls}.{field}', q.at(e), f'{text} {field} is taken from {sorted(have)} of the source data instead of {key}')
                else: rep.skip(f'{cls}.{field}: origin {sorted(have)}')
