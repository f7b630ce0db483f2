'''Contracts of the methods creating the document: the values reaching python-docx, extracted as functions of the fields of the
object, are tabulated and compared with the specification.'''

from pdfai import sim
from pdfai.terms import Obj, Unknown, Raises, LEAF, Token
from pdfai.values import one


ANY = object()


def sink_events(q, sinks):
    '''sinks: list of (kind, name)'''
    out = []
    for kind, name in sinks:
        if kind == 'call': out += list(q.calls(name))
        else: out += list(q.events(kind, name=name))
    return out


def contract(q, rep, key, anchor, sinks, domain, expect, observe, text, leaf=None, assume=None, extra=None, need=None, keep=None, limit=4000, avoid=None, which=None):
    '''Compare observe(effects) with expect(record) for every record of the domain, for every context of the anchor method.

    sinks: (kind, name) of the effects looked at; the first one must exist somewhere in the program
    avoid: function not looked into; which(ctx): contexts of the anchor looked at
    domain: {field: values}; text: what is compared (for messages)
    need: labels expected in what reaches the first sink when the terms cannot be evaluated'''
    ctxs = q.contexts(anchor)
    if not ctxs:
        rep.skip(f'{key}: {anchor} is not part of the program (any more)')
        return
    events = [e for e in sink_events(q, sinks) if keep is None or keep(e)]
    first = events if sinks and all(n in ('docx.oxml.parse_xml', 'docx.oxml.OxmlElement', 'oxml()') for _, n in sinks) else \
        [e for e in events if (e.kind, e.name) == sinks[0] or sinks[0][0] == 'call' and e.kind == 'call' and q.named(e.name, sinks[0][1])]
    if not first:
        rep.bad(key, q.where(ctxs[0].fi.node), f'{text}: {sinks[0][1]} is never reached from {anchor}', absent=True)
        return
    for ctx in ctxs:
        if which is not None and not which(ctx): continue
        sub = q.subtree([ctx])
        evs = [e for e in events if e.ctx.id in sub]
        if not any(e.ctx.id in sub for e in first):
            rep.skip(f'{key}: {sinks[0][1]} is reached outside {anchor} only')
            continue
        dom = dict(domain)
        for f in dom:
            cs = sim.consts(q, ctx, f)
            if cs is not None: dom[f] = [v for v in dom[f] if v in cs] or dom[f]
        try:
            bad = None
            n = 0
            for rec in sim.product(dom):
                if n >= limit: break
                n += 1
                exp = expect(rec)
                if exp is ANY: continue
                env = {('s', 'self'): Obj(rec)}
                if leaf is not None: env[LEAF] = leaf(rec)
                if extra is not None: env.update(extra(rec))
                try: got = observe(sim.effects(q, ctx, evs, env, assume, avoid=avoid), rec)
                except Raises as e: got = f'an error ({e.args[0] if e.args else ""})'
                if got != exp and not near(got, exp):
                    bad = (rec, exp, got)
                    break
        except Unknown as e:
            why = e.args[0] if e.args else ''
            labels(q, rep, key, ctx, [e for e in evs if e in first], need, text, why)
            continue
        if bad:
            rec, exp, got = bad
            e = [e for e in evs if e in first][0]
            rep.bad(key, q.at(e), f'{text}: {show(got)} instead of {show(exp)} when {show(rec)}')
        else: rep.ok(f'{key}: {anchor} ({n} cases)')


def labels(q, rep, key, ctx, evs, need, text, why):
    '''not evaluable: what reaches the sink must at least come from the field'''
    if need is None or not evs:
        rep.skip(f'{key}: {why}')
        return
    if any(n not in q.deps() and (n[1:] if n[0] == 'F' else n) not in q.deps() for n in need if n[0] == 'F'):
        rep.skip(f'{key}: fields changed')
        return
    labs = set()
    for e in evs:
        for v in [e.val, e.recv] + list(e.args) + list(e.kwargs.values()):
            if v is not None: labs |= set(v.labels)
        for f in e.facts: labs |= set(f.labels)
    have = q.origins(labs, control=True)
    miss = [n for n in need if n not in have]
    if miss: rep.bad(f'{key}:origin', q.at(evs[0]), f'{text}: does not depend on {", ".join(".".join(m[1:]) for m in miss)}')
    else: rep.skip(f'{key}: only the origin is known ({why})')


def near(a, b):
    if isinstance(a, bool) or isinstance(b, bool): return a is b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)): return abs(a - b) < 1e-6
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(x == y or near(x, y) for x, y in zip(a, b))
    if type(a) is dict and type(b) is dict: return set(a) == set(b) and all(a[k] == b[k] or near(a[k], b[k]) for k in a)
    return False


def show(v):
    s = repr(v)
    return s if len(s) < 300 else s[:300] + '...'


def last(effs, name):
    '''value of the last assignment to a property'''
    out = None
    for e in effs:
        if e.event.name == name: out = e.val()
    return out


def doc_leaf(paragraphs=(), sections=('S0',)):
    '''an existing document'''
    doc = Obj(paragraphs=[Token(p) for p in paragraphs], sections=[Token(s) for s in sections], __name__='document')

    def leaf(t, env):
        if t == ('fn', 'docx.Document'): return doc
        return None
    return leaf
