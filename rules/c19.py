'''C19: opened documents, files and worker processes are released on every exit.'''

WHAT = {'fitz.Document': 'the PDF', 'file': 'the file', 'multiprocessing.Pool': 'the worker pool', 'tempfile.mkdtemp': 'the folder of exchange files'}


def check(q, rep):
    rep.rule('command', 'Typestate over all paths: no PDF, file, pool or temporary folder opened below a command is still open when the command returns.')
    rep.rule('command-error', 'The same when an exception leaves the command, raised at any call on the way.')
    rep.rule('worker', 'The same for the function run by the worker processes.')
    rep.rule('method', 'No method of the converter leaves anything open, except for the constructor which keeps the PDF; a failing constructor leaves nothing open.')
    rep.rule('close', 'Closing the converter closes the PDF opened by its constructor, and closing is what the commands rely on.')
    keeps = set()
    for c in q.contexts('Converter.__init__'): keeps |= sites(c.open)
    n = 0
    for name, c in sorted(q.a.entries.items()):
        if not c.evaluated: continue
        if name.startswith('cmd_'):
            report(q, rep, 'command', name, c, sites(c.open), 'when the command ends')
            if c.exc: report(q, rep, 'command-error', name, c, sites(c.exc_open), 'when an exception ends the command')
        elif name == 'api_close':
            report(q, rep, 'close', name, c, sites(c.open), 'after the converter was closed')
        else:
            report(q, rep, 'method', name, c, sites(c.open) - keeps, 'at the end')
            if c.exc: report(q, rep, 'method', name, c, sites(c.exc_open) - keeps, 'when an exception is raised')
    for c in q.contexts('Converter.__init__'):
        if c.exc: report(q, rep, 'method', c.fi.qual, c, sites(c.exc_open), 'when the constructor fails')
    done = set()
    for e in q.events('call'):
        if not any(f[0] == 'spawn' for f in e.frames): continue
        for t in e.targets or ():
            if t in done: continue
            done.add(t)
            c = q.I.ctxs[t]
            report(q, rep, 'worker', c.fi.qual, c, sites(c.open), 'when the worker is done')
            if c.exc: report(q, rep, 'worker', c.fi.qual, c, sites(c.exc_open), 'when an exception ends the work')


def sites(s): return {x for x in (s or ()) if x[0] in WHAT}


def report(q, rep, rule, name, c, left, when):
    total = {s for s in q.I.site_info if s[0] in WHAT and any(q.I.site_info[s] is e.node for e in q.events('ext'))}
    for s in left:
        node = q.I.site_info[s]
        rep.bad(f'{name}-{s[0]}', q.where(node), f'{WHAT[s[0]]} opened here is still open {when} ({c.fi.qual})', rule=rule)
    if not left: rep.ok(f'{name}: {len(total) or "all"} kinds of resources released {when}', rule=rule)
