'''XML elements written to the document.'''

import re

from pdfai.terms import Unknown


def tag_of(event, suffix=''):
    """tag of the element a generic XML method is called on"""
    for a in (event.recv.atoms if event.recv is not None else ()):
        if a[0] == 'xo' and a[1] == 'oxml' and len(a) > 2 and a[2].endswith('.' + suffix): return a[2][:-len(suffix) - 1]
    return None


def placed(event, tag):
    """the element is an argument of a method putting it into the tree"""
    if event.name != 'oxml()': return False
    return any(a == ('xo', 'oxml', tag) for v in list(event.args) + list(event.kwargs.values()) for a in v.atoms)


def const_arg(event, i):
    if i >= len(event.args): return None
    at = event.args[i].atoms
    a = next(iter(at)) if len(at) == 1 else None
    return a[1] if a and a[0] == 'c' else None


ATTR = re.compile(r'([\w:]+)\s*=\s*"([^"]*)"')


def written(effs, tag):
    """attributes of all elements with this tag put into the document, in order"""
    out = []
    cur = None
    for e in effs:
        ev = e.event
        if ev.name == 'docx.oxml.parse_xml':
            tm = [a for v in ev.args for a in v.atoms if a[0] in ('c', 'tm') and isinstance(a[1], str)]
            if tm and all(not a[1].lstrip().startswith('<' + tag) or a[1].lstrip()[len(tag) + 1:len(tag) + 2] not in ' />' for a in tm): continue
            s = e.arg(0)
            if not isinstance(s, str): raise Unknown('XML text')
            m = re.match(r'\s*<([\w:]+)', s)
            if m and m.group(1) == tag: cur = {k: v for k, v in ATTR.findall(s) if not k.startswith('xmlns')}
        elif ev.name == 'docx.oxml.OxmlElement':
            if const_arg(ev, 0) == tag: cur = {}
        elif ev.name == 'oxml()' and tag_of(ev, 'set') == tag:
            if cur is None: cur = {}
            k = const_arg(ev, 0)
            cur[k if isinstance(k, str) else e.arg(0)] = str(e.arg(1))
        if placed(ev, tag) and cur is not None and all(cur is not x for x in out): out.append(cur)
    return out


def about(tag):
    '''whether an event may concern elements with this tag'''
    def keep(e):
        if e.name == 'docx.oxml.parse_xml':
            tm = [a for v in e.args for a in v.atoms]
            return not tm or any(not (a[0] in ('c', 'tm') and isinstance(a[1], str)) or re.match(r'\s*<' + tag + r'[\s/>]', a[1]) for a in tm)
        if e.name == 'docx.oxml.OxmlElement':
            at = e.args[0].atoms if e.args else ()
            return not at or any(a[0] != 'c' or a[1] == tag for a in at)
        if e.name == 'oxml()': return placed(e, tag) or tag_of(e, 'set') == tag
        return True
    return keep


XML = [('ext', 'docx.oxml.parse_xml'), ('ext', 'docx.oxml.OxmlElement'), ('ext', 'oxml()')]
