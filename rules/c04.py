'''C04: only the requested files are written, and the source PDF never is.'''

import re

from pdfai import sim
from pdfai.terms import Obj, Unknown, Raises, LEAF, ev
from pdfai.values import one
from .common import converter_env

SOURCE, DOCX, LAYOUT, DEBUG, TMP = '/pdf.d/My.pdf.v1.PDF', '/out/x.docx', '/out/y.json', '/out/z.pdf', '/private-temp'
DEFAULT = {'docx': '/pdf.d/My.pdf.v1.docx', 'layout': '/pdf.d/layout.json', 'debug': '/pdf.d/debug_My.pdf.v1.PDF'}
# entry -> files it may write (parameter given, or its default)
ENTRIES = {
    'cmd_convert': ('docx',), 'api_convert': ('docx',), 'api_make_docx': ('docx',),
    'cmd_debug': ('docx', 'layout', 'debug'), 'api_debug_page': ('docx', 'layout', 'debug'), 'api_serialize': ('layout',),
    'cmd_convert_default': ('docx',), 'api_convert_default': ('docx',), 'cmd_debug_default': ('docx', 'layout', 'debug'),
}
GIVEN = {'docx': DOCX, 'layout': LAYOUT, 'debug': DEBUG}
SYMBOL = {'docx': ('s', 'docx'), 'layout': ('s', 'layout'), 'debug': ('s', 'debug_pdf')}
REMOVE = {'os.remove', 'os.unlink', 'os.rmdir', 'os.removedirs', 'os.truncate', 'shutil.rmtree'}
MOVE = {'os.rename', 'os.replace', 'os.renames', 'shutil.move'}
COPY = {'shutil.copy', 'shutil.copyfile', 'shutil.copy2', 'shutil.copytree', 'os.link', 'os.symlink'}
MAKE = {'os.mkdir', 'os.makedirs'}
SAVE = {'docx.Document.save': 'docx', 'fitz.Document.save': 'debug', 'fitz.Document.ez_save': 'debug', 'fitz.Document.saveIncr': 'debug'}


def sinks(q):
    '''(event, argument with the path, kind of file or None for any)'''
    for e in q.events('ext'):
        n = e.name
        a = list(e.args)
        if n in ('open', 'builtins.open', 'io.open', 'codecs.open', 'os.open', 'gzip.open'):
            if n == 'os.open': yield e, a[0] if a else None, 'layout'; continue
            mode = e.kwargs.get('mode', a[1] if len(a) > 1 else None)
            modes = {'r'} if mode is None else {x[1] for x in mode.atoms if x[0] == 'c'}
            if any(isinstance(m, str) and re.search('[wax+]', m) for m in modes) or not modes:
                yield e, e.kwargs.get('file', a[0] if a else None), 'layout'
        elif n in REMOVE or n in MAKE: yield e, a[0] if a else e.kwargs.get('path'), None
        elif n in MOVE:
            for x in a[:2]: yield e, x, None
        elif n in COPY: yield e, a[1] if len(a) > 1 else e.kwargs.get('dst'), None
        elif n in SAVE: yield e, a[0] if a else next(iter(e.kwargs.values()), None), SAVE[n]
        elif n.startswith('fitz.Pixmap.') and n.split('.')[-1] in ('save', 'writePNG', 'writeImage', 'pil_save', 'pillowWrite'):
            yield e, a[0] if a else next(iter(e.kwargs.values()), None), 'none'


def check(q, rep):
    rep.rule('path', 'Every call that creates, replaces or deletes a file, in every call chain from a command: its path, extracted as a function of the arguments, '
             'is the requested (or default) file of this kind, or inside a private temporary folder.')
    rep.rule('source', 'No save is called on the document opened from the PDF, and the PDF is opened for reading only.')
    rep.rule('debug', 'The debug PDF is only written under a test of the debug options.')
    rep.rule('nothing', 'When no page was parsed, nothing is removed or overwritten.')
    opened = set()
    for c in q.contexts('Converter.__init__'): opened |= {s for s in c.open if s[0] == 'fitz.Document'}
    found = list(sinks(q))
    if not any(k == 'docx' for _, _, k in found): rep.bad('docx', 'pdf2docx', 'no document is ever written', rule='path', absent=True)
    for e, path, kind in found:
        if e.name.startswith('fitz.Document.'):
            mine = any(a[0] == 'xo' and len(a) > 2 and a[2] in opened for a in (e.recv.atoms if e.recv is not None else ()))
            rep.tri(not mine, f'source-{e.name}', q.at(e), 'the PDF being converted is saved')if mine else rep.ok(f'{e.name} at {q.at(e)}', rule='source')
        for entry, ctx in sorted(q.a.entries.items()): decide(q, rep, e, path, kind, entry)
    for e, k, v in q.keysets():
        if k != 'debug_filename': continue
        for entry in sorted(q.a.entries): decide(q, rep, e, v, 'debug', entry)
    nothing(q, rep, [e for e, _, k in found])


def labels(v): return {l for l in v.labels if l[0] != 'C'}


def base_env(q, given):
    env = converter_env(q, 1, {}, {}, [0])
    conv = env[('s', 'self')]
    conv['filename_pdf'] = SOURCE
    env[('s', 'pdf')] = SOURCE
    env[('s', 'tmpdir')] = TMP
    for k, s in SYMBOL.items(): env[s] = GIVEN[k] if given else None
    news = {t[1] for e in q.calls('Converter.__init__') for v in e.args[:1] if v.terms for t in v.terms if t[0] == 'new'}
    for e in q.events('write'):
        c, f = e.name.rsplit('.', 1)
        if c == 'Converter' and e.val.terms and one(e.val) == ('s', 'pdf'): conv[f] = SOURCE
    loads = {('ld', s, f): v for s in (('s', 'self'), ('s', 'up1'), ('s', 'up2')) for f, v in conv.items() if isinstance(v, str)}

    def leaf(t, env):
        if t[0] == 'new' and t[1] in news: return conv
        if t[0] == 'fn' and t[1] in ('os.path.exists', 'os.path.isfile'): return True
        if t[0] == 'fn' and t[1] in ('os.path.abspath', 'os.path.realpath', 'os.path.normpath', 'str', 'os.fspath') and len(t) == 3: return ev(t[2], env)
        if t[0] == 'it': return 0
        return None
    env[LEAF] = leaf
    return env


def decide(q, rep, e, path, kind, entry):
    chains = q.chains(e.ctx, entry, limit=2000)
    if chains is None: return rep.skip(f'{e.name} at {q.at(e)} from {entry}: too many call chains', rule='path')
    if not chains: return
    may = ENTRIES.get(entry, ())
    what = f'{e.name} at {q.at(e)} from {entry}'
    if e.name.startswith('fitz.Document.'):
        free = [c for c in chains if not any(l[0] == 'R' and l[1] == 'kwargs' and str(l[2]).startswith('debug') for x in c + (e,) for f in x.facts
                                             for l in ((l[1] if l[0] == 'C' else l) for l in f.labels))]
        if free and entry.find('debug') < 0: rep.bad(f'{entry}', q.at(e), f'{entry}: a PDF is written although debug mode is off', rule='debug')
        else: rep.ok(what, rule='debug')
        # the file name goes through the settings of the page: the origin decides
        if path is not None:
            org = {l for l in labels(path)}
            if any(l[0] == 'R' and l[1] == 'kwargs' and l[2] == 'debug_filename' or l == ('P', 'debug_pdf') for l in org): return rep.ok(what, rule='path')
    if path is None: return rep.skip(f'{what}: no path', rule='path')
    if ('TMP',) in path.labels: return rep.ok(what, rule='path')
    for given in ((True, False) if not entry.endswith('_default') else (False,)):
        allowed = {k: GIVEN[k] if given else DEFAULT[k] for k in may}
        if kind is not None: allowed = {k: v for k, v in allowed.items() if k == kind}
        seen = set()
        for ch in chains:
            env = base_env(q, given)
            for x in ch:
                for t in x.targets or ():
                    env = sim.level_env(env, x, q.I.ctxs[t])
                    break
            t = one(path)
            try:
                if t is None: raise Unknown('path')
                v = ev(t, env)
            except Raises:
                if entry == 'api_serialize' and not given: continue
                seen.add('?')
                continue
            except Unknown as u:
                seen.add('?')
                continue
            seen.add(v)
        for v in seen:
            if v == '?' and not allowed and kind == 'layout' and not any(l[0] == 'ND' for l in path.labels) and \
                    any(l in (('P', 'docx'), ('P', 'pdf'), ('F', 'Converter', 'filename_pdf')) for l in labels(path)):
                rep.bad(f'{entry}-{e.name}', q.at(e), f'{entry}: a file beside the {"document" if ("P", "docx") in labels(path) else "PDF"} is written, not a private temporary one', rule='path')
            elif v == '?': rep.skip(f'{what}: the path is not known', rule='path')
            elif v is None and entry == 'api_serialize': pass
            elif v in allowed.values() or v == 'layout.json' and entry == 'cmd_debug_default' and kind == 'layout': rep.ok(f'{what}: {v}', rule='path')
            elif isinstance(v, str) and v.startswith(TMP): rep.ok(f'{what}: {v}', rule='path')
            elif isinstance(v, str) and e.name in MAKE and any(x.startswith(v.rstrip('/') + '/') for x in allowed.values()): rep.ok(f'{what}: {v}', rule='path')
            elif isinstance(v, str):
                rep.bad(f'{entry}-{e.name}', q.at(e), f'{entry}: writes or deletes {v!r} for the PDF {SOURCE!r}' + ('' if v != SOURCE else ', which is the source') +
                        f', not {sorted(allowed.values()) or "one of the requested files"}', rule='path')
            else: rep.skip(f'{what}: {v!r}', rule='path')


def nothing(q, rep, events):
    events = [e for e in {id(e): e for e in events}.values() if e.name in REMOVE or e.name in MOVE or e.name == 'docx.Document.save' or e.name.endswith('open')]
    for entry in ('api_make_docx', 'api_convert', 'cmd_convert'):
        ctx = q.a.entries.get(entry)
        for e in events:
            if ('TMP',) in (e.args[0].labels if e.args else ()): continue
            for multi in (False, True):
                if multi and entry == 'api_make_docx': continue
                try:
                    hit = None
                    for n in (1, 2):
                        env = base_env(q, True)
                        more = converter_env(q, n, {'start': 0, 'end': None, 'pages': None}, {'multi_processing': multi}, [])
                        conv = more[('s', 'self')]
                        leaf0, keep = env[LEAF], {k: env[k] for k in env if k not in more}
                        news = {t[1] for c in q.calls('Converter.__init__') for v in c.args[:1] if v.terms for t in v.terms if t[0] == 'new'}
                        env = more
                        env.update(keep)
                        for k, s in SYMBOL.items(): env[s] = GIVEN[k]

                        def leaf(t, env):
                            if t[0] == 'new' and t[1] in news: return conv
                            if t[0] == 'fn' and t[1] in ('os.path.exists', 'os.path.isfile'): return True
                            return None
                        env[LEAF] = leaf
                        if sim.effects(q, ctx, [e], env): hit = n
                    if hit: rep.bad(f'{entry}-{e.name}', q.at(e), f'{entry}: the existing document is removed or overwritten although no page was parsed', rule='nothing')
                    else: rep.ok(f'{entry}: {e.name} at {q.at(e)}', rule='nothing')
                except Raises: rep.ok(f'{entry}: {e.name} at {q.at(e)}', rule='nothing')
                except Unknown as u: rep.skip(f'{entry}: {e.name} at {q.at(e)}: {u.args[0] if u.args else ""}', rule='nothing')
