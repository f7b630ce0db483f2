'''C20: elements are never lost when they are regrouped.'''

import re

from pdfai.tokens import Analysis, Tok, Opq, Inst, Cls, Unsupported, kept, reach


class Case:
    '''a regrouping function: its elements, where they have to be in the end, and the documented reasons for dropping one'''
    def __init__(self, qual, family, where='self', sizes=(1, 2, 3), args=None, drop=None, field=None, parts=None, only=False, also=None):
        self.qual, self.family, self.where, self.sizes = qual, family, where, sizes
        self.also = also
        self.args, self.drop, self.field, self.parts, self.only = args, drop, field, parts, only


def group_arg(run, toks): return [Opq('fun')]
def tables(run, toks): return [[Tok('table0', 'table'), Tok('table1', 'table')]]


def partial_table(k, r, t): return k == f'_type of {t}' and 'TABLE' in str(r)


GEOMETRY = r'overlap|bbox|contain|cover|intersect|area|inside|within|same'


def about(pattern, outcome=None):
    """a test on the element named by the pattern, with that outcome"""
    def drop(k, r, t): return str(t) in k and re.search(pattern, k) is not None and (outcome is None or bool(r) is outcome)
    return drop


def any_test(pattern, outcome=None):
    def drop(k, r, t): return re.search(pattern, k) is not None and (outcome is None or bool(r) is outcome)
    return drop


def either(*fs): return lambda k, r, t: any(f(k, r, t) for f in fs)


def groups(m, a, r): return [v for k, v in m.fields.items() if k != '_instances']


CASES = [
    Case('Collection.append', 'line', args=lambda run, toks: [toks[-1]], field='all but last'),
    Case('Collection.extend', 'line', args=lambda run, toks: [list(toks[1:])], field='first'),
    Case('Collection.reset', 'line', args=lambda run, toks: [list(toks)], field='other'),
    Case('Collection.insert', 'line', args=lambda run, toks: [0, toks[-1]], field='all but last'),
    Case('Collection.sort_in_reading_order', 'line'),
    Case('Collection.sort_in_line_order', 'line'),
    Case('Collection.group', 'line', 'result', args=group_arg),
    Case('Collection.group_by_connectivity', 'line', 'result', args=lambda run, toks: [Opq('dx'), Opq('dy')]),
    Case('Collection.split_with_intersection', 'line', 'result', args=lambda run, toks: [Opq('rect'), Opq('threshold')]),
    Case('Lines.join', 'line', sizes=(1, 2, 3, 4), args=lambda run, toks: [Opq('overlap'), Opq('distance')], drop=about('overlap', True)),
    Case('Lines.split_back', 'line', 'result'),
    Case('Lines.sort', 'line'),
    Case('Lines.strip', 'line'),
    Case('Lines.group_by_columns', 'line', 'result'),
    Case('Lines.group_by_rows', 'line', 'result'),
    Case('Lines.parse_text_format', 'line', sizes=(1, 2), args=lambda run, toks: [Tok('rect', 'shape')], parts='spans'),
    Case('Blocks.join_horizontally', 'block', sizes=(1, 2, 3), args=lambda run, toks: [False, Opq('overlap'), Opq('distance')],
         drop=either(about('overlap', True), any_test('to_text_block'))),
    Case('Blocks.split_back', 'block', sizes=(1, 2, 3)),
    Case('Blocks.assign_to_tables', 'block', lambda m, a, r: [m] + [t.content for t in a[0]], sizes=(1, 2), args=tables, also=lambda args: args[0]),
    Case('Blocks.identify_floating_images', 'block', sizes=(1, 2), args=lambda run, toks: [Opq('gap')]),
    Case('Blocks.clean_up', 'block', sizes=(1, 2), args=lambda run, toks: [Opq('gap'), Opq('overlap'), Opq('distance')], drop=about(r'bbox|text|horizontal|vertical|dir', False)),
    Case('Shapes.assign_to_tables', 'shape', sizes=(1, 2, 3), args=tables),
    Case('Shapes.detect_initial_categories', 'shape', groups, sizes=(1, 2), drop=about('HYPERLINK', True)),
    Case('Shapes.clean_up', 'shape', sizes=(1, 2, 3), args=lambda run, toks: [Opq('max_border'), Opq('merge'), Opq('min_size')], drop=either(about('intersects|&|BitAnd', False), about('min_size', False), about('merge', True))),
    Case('TextSpan.split', 'char', 'result', sizes=(1, 2, 3, 4), args=lambda run, toks: [Tok('rect', 'shape'), True], field='chars'),
    Case('TextSpan.intersects', 'char', 'result', sizes=(1, 2, 3), args=lambda run, toks: [Opq('rect')], field='chars',
         drop=either(about(GEOMETRY, False), any_test('rect.*bbox', False))),
    Case('Line.intersects', 'span', 'result', sizes=(1, 2, 3), args=lambda run, toks: [Opq('rect')], field='spans'),
    Case('Line.add', 'span', sizes=(1, 2, 3), args=lambda run, toks: [list(toks)], field='empty spans', only=True),
    Case('TextBlock.add', 'line', sizes=(1, 2, 3), args=lambda run, toks: [list(toks)], field='empty lines', only=True),
    Case('Cell.assign_blocks', 'block', sizes=(1, 2), args=lambda run, toks: [list(toks)], only=True, drop=either(about(r'^\(\S+ BitAnd \S+\)$|intersects?\(', False), partial_table)),
    Case('Cell.assign_shapes', 'shape', sizes=(1, 2), args=lambda run, toks: [list(toks)], only=True, drop=about(r'^\(\S+ BitAnd \S+\)$|intersects?\(', False)),
]


def find(an, qual):
    cls, name = qual.split('.')
    fi = None
    for c in an.mro(cls):
        fi = an.methods.get((c, name))
        if fi is not None: break
    return fi


def check(q, rep):
    rep.rule('kept', 'In every function regrouping blocks, lines, spans, characters or shapes, for collections of up to 4 elements and every outcome of the tests on them, every '
             'element of the source is in the result, its parts are, or it is dropped after a test for a documented reason.')
    an = Analysis(q)
    # which rectangles intersect is not known anyway
    an.skip = lambda fi: 'intersection' in getattr(fi.node, 'name', '') and not fi.cls
    for c in CASES: decide(q, rep, an, c)
    for name, family in (('assign_blocks', 'block'), ('assign_shapes', 'shape')): cells(q, rep, an, f'TableBlock.{name}', family)


def owner(an, cls):
    '''a concrete collection class'''
    return cls


def decide(q, rep, an, case):
    cls = case.qual.split('.')[0]
    fi = find(an, case.qual)
    if fi is None:
        rep.skip(f'{case.qual} not found')
        return
    name = f'{case.qual}'
    concrete = {'Collection': 'Lines'}.get(cls, cls)
    if concrete not in q.prog.classes: concrete = cls
    paths = bad = 0
    seen_drop = False
    lost = None
    skip = None
    for n in case.sizes:
        def setup(run):
            toks = [Tok(f'{case.family}{i + 1}', case.family) for i in range(n)]
            f = case.field
            inst = toks
            if f == 'all but last': inst = toks[:-1]
            elif f == 'first': inst = toks[:1]
            elif f == 'other': inst = [Tok('old', case.family)]
            if an.collection(concrete):
                me = run.construct(concrete, [], {})
                me.fields[an.items_field] = list(inst)
                me.fields['_parent'] = Opq('parent')
            else:
                me = Inst(concrete, run)
                if f in ('chars', 'spans', 'lines') or f and f.startswith('empty'):
                    name = f.split()[-1]
                    vals = list(toks) if f == name else []
                    if an.collection(name.capitalize()):
                        c = run.construct(name.capitalize(), [], {})
                        c.fields[an.items_field] = vals
                        vals = c
                    me.fields[name] = vals
            args = case.args(run, toks) if case.args else []
            if case.also: toks = toks + list(case.also(args))
            if case.parts:
                for t in list(toks):
                    run.attr(t, case.parts)
                toks = [k for t in toks for k in t.kids[case.parts]]
            if callable(case.where): roots = case.where
            elif case.where == 'result': roots = lambda m, a, r: [r]
            elif case.only or f in ('all but last', 'first', 'other'): roots = lambda m, a, r: [m]
            else: roots = lambda m, a, r: [m] + list(a)
            return me, args, {}, toks, roots
        try:
            for run, toks, have in an.paths(fi, setup):
                paths += 1
                for t in toks:
                    if kept(t, have): continue
                    why = case.drop is not None and [k for k, r in run.log if case.drop(k, r, t)]
                    if why:
                        seen_drop = True
                        continue
                    if lost is None: lost = (t, n, list(run.log))
        except Exception as e:      # not modelled
            skip = str(e)
            break
        if lost: break
    at = f'{q.prog.where(fi.node)} ({fi.qual})'
    if lost:
        t, n, log = lost
        steps = '; '.join(f'{k} is {r}' for k, r in log[-6:])
        rep.bad(name, at, f'{t} of {n} is in no result of {case.qual} when {steps or "called"}')
    elif skip: rep.skip(f'{name}: {skip}')
    elif not paths: rep.skip(f'{name}: no path')
    else: rep.ok(f'{name} ({paths} paths)')


def cells(q, rep, an, qual, family):
    """every cell of a table gets all the elements of the table: it takes those in it"""
    fi = find(an, qual)
    if fi is None: return rep.skip(f'{qual} not found')
    lost, paths = None, 0

    def setup(run):
        toks = [Tok(f'{family}{i + 1}', family) for i in range(2)]
        me = Inst('TableBlock', run)
        grid = [[Tok(f'cell{i}{j}', 'cell') for j in range(2)] for i in range(2)]
        me.fields['_rows'] = grid
        me.fields['rows'] = grid
        run.grid = [c for r in grid for c in r]
        return me, [list(toks)], {}, toks, lambda m, a, r: []
    try:
        for run, toks, have in an.paths(fi, setup):
            paths += 1
            gone = {k.split()[0] for k, r in run.log if k.endswith(' exists') and not r}
            for c in run.grid:
                if str(c) in gone: continue
                got = reach([c.content])
                for t in toks:
                    if t not in got and t not in have and lost is None: lost = (c, t)
    except Exception as e: return rep.skip(f'{qual}: {e}')
    if lost: rep.bad(qual, f'{q.prog.where(fi.node)} ({fi.qual})', f'{lost[1]} is not offered to {lost[0]} of a 2 x 2 table by {qual}')
    elif paths: rep.ok(f'{qual} ({paths} paths)')
    else: rep.skip(f'{qual}: no path')
