'''Outcome of the rules of one property.'''

import json
import os
import time


class Report:
    def __init__(self, pid, tier, seed, failed=()):
        self.failed = failed     # functions outside the analysed fragment
        self.pid, self.tier, self.seed = pid, tier, seed
        self.rules = {}          # rule -> {'checked', 'held', 'undecided', 'text', 'samples'}
        self.violations = []     # (key, where, message)
        self.notes = []
        self.started = time.time()

    def rule(self, name, text):
        r = self.rules.get(name)
        if r is None:
            r = self.rules[name] = {'rule': text, 'obligations': 0, 'held': 0, 'violated': 0, 'undecided': 0, 'undecided_why': [], 'samples': []}
        self.cur = name
        return r

    def ok(self, sample=None, n=1, rule=None):
        r = self.rules[rule or self.cur]
        r['obligations'] += n
        r['held'] += n
        if sample is not None and len(r['samples']) < 4 and sample not in r['samples']: r['samples'].append(sample)

    def skip(self, why, rule=None):
        '''not decided: never an alarm'''
        r = self.rules[rule or self.cur]
        r['obligations'] += 1
        r['undecided'] += 1
        if len(r['undecided_why']) < 8: r['undecided_why'].append(str(why)[:300])

    def bad(self, key, where, msg, rule=None, absent=False):
        '''absent: something required is nowhere in the analysed program'''
        if absent and self.failed: return self.skip(f'{key}: not found, but some functions could not be analysed', rule)
        name = rule or self.cur
        r = self.rules[name]
        r['obligations'] += 1
        r['violated'] += 1
        full = f'{name}:{key}'
        if all(v[0] != full or v[1] != where for v in self.violations): self.violations.append((full, where, msg))

    def tri(self, verdict, key, where, msg, sample=None):
        '''verdict: True, False or None (not decided)'''
        if verdict: self.ok(sample or f'{key} at {where}')
        elif verdict is None: self.skip(f'{key} at {where}: {msg}')
        else: self.bad(key, where, msg)

    def evidence(self, analysis, known, level='other'):
        ob = sum(r['obligations'] for r in self.rules.values())
        held = sum(r['held'] for r in self.rules.values())
        und = sum(r['undecided'] for r in self.rules.values())
        I = analysis.I
        cov = {
            'explanation': f'Static analysis of the current source: {len(analysis.prog.modules) - 1} modules and {len(analysis.prog.funcs)} '
                           f'functions parsed, {len(analysis.ctxs)} function contexts reached from {len(analysis.entries)} entry points by '
                           f'whole-program abstract interpretation; {ob} obligations of {len(self.rules)} rules, {held} held, {und} not decided. '
                           'Nothing of the program was executed.',
            'functions': len(analysis.prog.funcs),
            'functions_reached': len({c.fi.qual for c in analysis.ctxs}),
            'contexts': len(analysis.ctxs),
            'call_edges': sum(len(c.calls) for c in analysis.ctxs),
            'effects_recorded': sum(len(c.events) for c in analysis.ctxs),
            'not_analysed': analysis.failed,
            'obligations': ob, 'held': held, 'undecided': und,
            'rules': self.rules,
        }
        return {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': level, 'coverage': cov,
                'violations': len([v for v in self.violations if v[0] not in known]),
                'known_findings': [v[0] for v in self.violations if v[0] in known],
                'assumptions': ASSUMPTIONS + self.notes, 'wall_s': round(time.time() - self.started, 2)}


ASSUMPTIONS = [
    'python-docx, PyMuPDF and the standard library behave as described in pdfai/model.py',
    'entry points are the public commands and Converter methods listed in pdfai/analysis.py',
    'obligations counted as undecided are not claimed',
]


def load_known(path, pid):
    '''keys of the recorded findings of a property: lines "KNOWN property=<id> key=<key> ..."'''
    out = {}
    if not os.path.exists(path): return out
    for line in open(path, encoding='utf-8'):
        line = line.strip()
        if not line.startswith('known:'): continue
        f = dict(p.split('=', 1) for p in line.split()[1:3] if '=' in p)
        if f.get('property') == pid: out[f.get('key')] = line.split(None, 3)[3] if len(line.split(None, 3)) > 3 else ''
    return out


def dump(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w', encoding='utf-8') as f: json.dump(obj, f, indent=1, default=str)
