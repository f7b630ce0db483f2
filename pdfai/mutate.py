'''Small semantic changes of the analysed source, in memory only: a measure of what the verdict of a check depends on.'''

import ast
import os

SWAPS = [('x0', 'x1'), ('y0', 'y1'), ('left', 'right'), ('top', 'bottom'), ('width', 'height'), ('start', 'end'), ('before', 'after'), ('row', 'col')]


def swap_word(name):
    for a, b in SWAPS:
        for x, y in ((a, b), (b, a)):
            parts = name.split('_')
            if x in parts: return '_'.join(y if p == x else p for p in parts)
            if x + 's' in parts: return '_'.join(y + 's' if p == x + 's' else p for p in parts)
    return None


class Source:
    def __init__(self, text):
        self.text = text
        self.starts = [0]
        for line in text.splitlines(True): self.starts.append(self.starts[-1] + len(line.encode()))
        self.raw = text.encode()

    def span(self, n): return self.starts[n.lineno - 1] + n.col_offset, self.starts[n.end_lineno - 1] + n.end_col_offset
    def get(self, n):
        i, j = self.span(n)
        return self.raw[i:j].decode()

    def put(self, n, new):
        i, j = self.span(n)
        return (self.raw[:i] + new.encode() + self.raw[j:]).decode()


def attrs(fn):
    return {n.attr for n in ast.walk(fn) if isinstance(n, ast.Attribute)}


def mutants(path, text):
    '''(function, line, operator, changed source)'''
    src = Source(text)
    tree = ast.parse(text)
    known = attrs(tree)

    def of(fn, name):
        docstring = fn.body[0] if fn.body and isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else None
        todo = [n for s in fn.body for n in ast.walk(s)]
        inner = {id(x) for n in todo if isinstance(n, (ast.FunctionDef, ast.ClassDef)) for x in ast.walk(n) if x is not n}
        for n in todo:
            if n is docstring or id(n) in inner: continue
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) or isinstance(n, ast.AugAssign) or \
                    isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
                yield n, 'drop', src.put(n, 'pass')
            elif isinstance(n, ast.Continue): yield n, 'continue-break', src.put(n, 'break')
            elif isinstance(n, ast.Break): yield n, 'break-pass', src.put(n, 'pass')
            if isinstance(n, ast.For):
                yield n.iter, 'not-last', src.put(n.iter, f'list({src.get(n.iter)})[:-1]')
                yield n.iter, 'not-first', src.put(n.iter, f'list({src.get(n.iter)})[1:]')
            if isinstance(n, ast.comprehension):
                yield n.iter, 'not-last', src.put(n.iter, f'list({src.get(n.iter)})[:-1]')
                for c in n.ifs: yield c, 'no-filter', src.put(c, 'True')
            if isinstance(n, ast.BoolOp):
                for v in n.values:
                    yield v, 'no-clause', src.put(v, 'True' if isinstance(n.op, ast.And) else 'False')
            if isinstance(n, ast.If):
                yield n.test, 'always', src.put(n.test, 'True')
                yield n.test, 'never', src.put(n.test, 'False')
            if isinstance(n, ast.IfExp):
                yield n.test, 'always', src.put(n.test, 'True')
                yield n.test, 'never', src.put(n.test, 'False')
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.Is, ast.IsNot)) and src.get(n.comparators[0]) == 'None':
                yield n, 'falsy', src.put(n, ('not ' if isinstance(n.ops[0], ast.Is) else '') + src.get(n.left))
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                op = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>'}[type(n.ops[0])]
                yield n, 'boundary', src.put(n, f'{src.get(n.left)} {op} {src.get(n.comparators[0])}')
            if isinstance(n, ast.Attribute):
                other = swap_word(n.attr)
                if other and (other in known or other in ('x0', 'x1', 'y0', 'y1', 'width', 'height')):
                    yield n, 'swap', src.put(n, f'{src.get(n.value)}.{other}')
            if isinstance(n, ast.Constant) and type(n.value) is int and not isinstance(n.value, bool) and n.value in (0, 1):
                yield n, 'number', src.put(n, str(n.value + 1))

    def walk(body, prefix):
        for n in body:
            if isinstance(n, ast.ClassDef): yield from walk(n.body, n.name + '.')
            elif isinstance(n, ast.FunctionDef):
                for node, op, new in of(n, prefix + n.name):
                    if new == text: continue
                    try: ast.parse(new)
                    except SyntaxError: continue
                    yield prefix + n.name, node.lineno, op, new
                yield from walk([x for x in n.body if isinstance(x, (ast.FunctionDef, ast.ClassDef))], prefix + n.name + '.')

    yield from walk(tree.body, '')


def sources(root):
    base = os.path.join(root, 'pdf2docx')
    for d, _, files in sorted(os.walk(base)):
        for f in sorted(files):
            if f.endswith('.py'):
                p = os.path.join(d, f)
                with open(p, encoding='utf-8') as fh: yield os.path.relpath(p, root), fh.read()
