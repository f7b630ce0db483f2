'''C07: options and data passed in by the caller are not modified.'''

OWNED = {'kwargs': 'the options', 'pages': 'the list of pages', 'json': 'the layout data'}


def check(q, rep):
    rep.rule('unmodified', 'No operation that changes a container in place (assignment or deletion of an item, append, update, sort, in-place '
             'addition, a call of a library function that does so) has a receiver that may be the options, the list of pages or the layout data passed in by the caller, '
             'or anything inside of them; every copy is followed to the place where it is made.')
    # objects of a restored layout are dropped before a page is parsed (property C08)
    again = q.subtree(q.contexts('Page.parse'))
    root = [c for n, c in q.a.entries.items()]
    alive = without(q, root, {c.id for c in q.contexts('Page.parse')})
    n = 0
    for e in q.events('mutate', 'delattr'):
        v = getattr(e, 'recv', None)
        if v is None: continue
        n += 1
        done = set()
        for a in v.atoms:
            if a[0] != 'r' or a[1] not in OWNED or a[3] != 0 or a[1] in done: continue
            if a[1] == 'json' and e.ctx.id in again and e.ctx.id not in alive: continue
            done.add(a[1])
            inside = f' (inside of "{a[2]}")' if a[2] else ''
            rep.bad(f'{a[1]}-{e.name}', q.at(e), f'"{e.name}" changes {OWNED[a[1]]} passed in by the caller{inside}')
        if not done: rep.ok(f'{e.name} at {q.at(e)}')
    if not n: rep.skip('nothing is changed in place')


def without(q, ctxs, stop):
    '''contexts reachable without entering some of them'''
    seen = {c.id for c in ctxs} - stop
    work = list(seen)
    while work:
        c = q.I.ctxs[work.pop()]
        for (_, t) in c.calls:
            if t not in seen and t not in stop:
                seen.add(t)
                work.append(t)
    return seen
