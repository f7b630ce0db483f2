'''C01: exactly the selected pages are processed.'''

from pdfai import sim
from pdfai.terms import Obj, Unknown, Raises, ev
from pdfai.values import one
from .common import converter_env, page_index

SELECT = [
    # entry, one-based counting possible, parameters
    ('api_convert', False, 'sep'), ('cmd_convert', True, 'sep'), ('api_extract_tables', False, 'sep'), ('cmd_table', True, 'sep'),
    ('cmd_debug', True, 'page'), ('api_debug_page', False, 'page'), ('api_parse', False, 'indexes'),
    ('cmd_convert_default', False, None), ('cmd_table_default', False, None), ('api_convert_default', False, None),
    ('api_extract_tables_default', False, None), ('api_parse_default', False, None), ('cmd_debug_default', False, 'first'),
]


def cases(kind, one_based):
    for n in (0, 1, 2, 3, 5):
        if kind == 'sep':
            for pages in (None, [], [0], [1], [n - 1], [n], [1, 0], [0, 2, 4], [n + 3], [-1] if not one_based else [0], [2, n, 1]):
                for start, end in ((0, None), (1, None), (0, 1), (1, 2), (0, n), (1, n), (2, 4), (0, n + 2), (3, 2), (n, None), (1, 1), (2, 1)):
                    if pages is not None and (start, end) not in ((0, None), (1, 2)): continue
                    if not one_based:
                        if pages is not None and any(x < 0 for x in pages): exp = [x for x in pages if 0 <= x < n]
                        elif pages is not None: exp = [x for x in pages if x < n]
                        else: exp = list(range(n))[start:n if end is None else end]
                    else:
                        # numbers given count from one
                        if end == 0: continue
                        if pages is not None: exp = [x - 1 for x in pages if 0 <= x - 1 < n]
                        else: exp = list(range(n))[max(start - 1, 0):n if end is None else end - 1]
                    yield n, {'start': start, 'end': end, 'pages': pages}, exp
        elif kind == 'page':
            for i in range(0, n):
                if one_based: yield n, {'page_index': i + 1}, [i]
                else: yield n, {'page_index': i}, [i]
        elif kind == 'indexes':
            yield n, {'indexes': None}, list(range(n))
            if n > 2:
                yield n, {'indexes': [0, 2]}, [0, 2]
                yield n, {'indexes': []}, []
        elif kind == 'first':
            if n: yield n, {}, [0]
        else: yield n, {}, list(range(n))


def check(q, rep):
    rep.rule('selection', 'The pages for which Page.parse is called, extracted as a function of the arguments of the command, are the '
             'selected ones for every combination of page count, start, end, list of pages and counting mode in the table.')
    parse = [e for e in q.calls('Page.parse')]
    if not parse:
        rep.bad('no-parse', 'pdf2docx', 'no call of Page.parse is reachable from the entry points', absent=True)
        return
    allowed = {('P', x) for x in ('start', 'end', 'pages', 'indexes', 'page_index', 'pdf', 'kwargs')}
    for entry, based, kind in SELECT:
        for one_based in ((False, True) if based else (False,)):
            decide(q, rep, parse, entry, kind, one_based, 'parsed')
    created(q, rep)
    pages(q, rep)


def decide(q, rep, events, entry, kind, one_based, what):
    name = f'{entry}{" one-based" if one_based else ""}'
    bad = None
    n_cases = 0
    try:
        chains = []
        for e in events:
            cs = q.chains(e.ctx, entry)
            if cs is None: raise Unknown('too many call chains')
            for c in cs:
                c = c + (e,)
                if not any(f[0] == 'spawn' for x in c for f in x.frames): chains.append(c)
        if not chains:
            rep.bad(f'{name}:none', 'pdf2docx', f'{name}: no page is ever {what}', absent=True)
            return
        for n, args, exp in cases(kind, one_based):
            n_cases += 1
            env = converter_env(q, n, args, {'zero_based_index': False} if one_based else {})
            got = []
            for c in chains:
                for v, e in q.run_chain(c, env):
                    i = page_index(v)
                    if v is not None and i is None: raise Unknown('receiver')
                    if i is not None: got.append(i)
            if kind != 'sep' and got != exp or kind == 'sep' and sorted(got) != sorted(exp):
                bad = (n, args, exp, got)
                break
    except Unknown as e:
        u = e.args[0] if e.args else ''
        rep.skip(f'{name}: {u}')
        guards(q, rep, name, chains if 'chains' in locals() else [])
        return
    if bad:
        n, args, exp, got = bad
        e = chains[0][-1]
        rep.bad(f'{name}', q.at(e), f'{name}: {what} pages {got} instead of {exp} for {args} in a document with {n} pages')
    else: rep.ok(f'{name}: {n_cases} argument combinations', n=1)


def guards(q, rep, name, chains):
    '''not evaluable: the selection must not depend on the content of pages'''
    for c in chains:
        for e in c:
            for f in e.facts:
                for l in q.origins(f.labels, control=True):
                    if l[0] == 'R' and l[1] not in ('kwargs', 'pages', 'json'):
                        rep.bad(f'{name}:guard', q.where(f.node), f'{name}: whether a page is processed depends on {l}')


def created(q, rep):
    rep.rule('result', 'Page.make_docx and Page.extract_tables run for exactly the pages parsed in this run, once each and in page order.')
    for entry, target in (('api_convert', 'Page.make_docx'), ('cmd_convert', 'Page.make_docx'), ('api_make_docx', 'Page.make_docx'),
                          ('api_extract_tables', 'Page.extract_tables'), ('cmd_table', 'Page.extract_tables'),
                          ('api_store', 'Page.store'), ('api_serialize', 'Page.store'), ('cmd_debug', 'Page.store')):
        events = list(q.calls(target))
        bad = None
        try:
            chains = []
            for e in events:
                cs = q.chains(e.ctx, entry)
                if cs is None: raise Unknown('too many call chains')
                chains += [c + (e,) for c in cs if not any(f[0] == 'spawn' for x in c + (e,) for f in x.frames)]
            if not chains:
                rep.bad(f'{entry}:{target}:none', 'pdf2docx', f'{entry}: {target} is never called', absent=True)
                continue
            # several chains differ in the way to the same call (options): each one on its own
            for n in (1, 2, 3):
                for mask in range(1, 1 << n):
                    sel = [i for i in range(n) if mask >> i & 1]
                    env = converter_env(q, n, {'start': 0, 'end': None, 'pages': None, 'page_index': 0, 'indexes': None}, {}, sel)
                    groups = {}
                    for c in chains:
                        for v, e in q.run_chain(c, env):
                            i = page_index(v)
                            if i is None: raise Unknown('receiver')
                            groups.setdefault(tuple(x.node._id for x in c), []).append(i)
                    got = max(groups.values(), key=len) if groups else []
                    if got != sel or any(g != sel for g in groups.values()):
                        bad = (n, sel, got, chains[0][-1])
                        break
                if bad: break
        except Unknown as e:
            rep.skip(f'{entry} {target}: {e.args[0] if e.args else ""}')
            continue
        if bad:
            n, sel, got, e = bad
            rep.bad(f'{entry}:{target}', q.at(e), f'{entry}: {target} runs for pages {got} when the pages {sel} of {n} were parsed')
        else: rep.ok(f'{entry}: {target}')


def pages(q, rep):
    rep.rule('pages', 'The converter has one page object for each page of the PDF, made from this page, in order.')
    events = [e for e in q.calls('Page.__init__')]
    for ctx in q.contexts('Converter.__init__')[:1]:
        try:
            for n in (0, 1, 3):
                doc = [Obj(number=i) for i in range(n)]
                env = {}
                for e in q.events('write'):
                    cls, f = e.name.rsplit('.', 1)
                    if cls == 'Converter' and any(l == ('D', 'fitz.Document') or 'fitz.Document' in str(l) for l in list(e.val.labels) + list(e.val.atoms)): env[('ld', ('s', 'self'), f)] = doc
                for b in list(env):
                    env[('fn', 'len', b)] = n
                    for c in ('pageCount', 'page_count'): env[('at', b, c)] = n
                got = []
                for x in sim.effects(q, ctx, events, env):
                    if len(x.event.args) < 2 and 'fitz_page' not in x.event.kwargs: raise Unknown('page without source')
                    v = x.arg(1, 'fitz_page')
                    if not isinstance(v, Obj) or 'number' not in v: raise Unknown('source of the page')
                    got.append(v['number'])
                if got != list(range(n)): return rep.bad('converter', q.at(events[0]), f'the converter has the pages {got} of a document with {n} pages')
        except (Unknown, Raises) as e: return rep.skip(f'pages of the converter: {e.args[0] if e.args else ""}')
        rep.ok('pages of the converter')
