'''Decide one property from the source of the repository: python3 check.py C01 [--tier quick|thorough] [--root DIR]'''

import argparse
import gc
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))

if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.execv(sys.executable, [sys.executable] + sys.argv)

sys.path.insert(0, HERE)
gc.disable()

from pdfai.analysis import Analysis   # noqa: E402
from pdfai.query import Query         # noqa: E402
from pdfai.report import Report, load_known, dump   # noqa: E402


def decide(pid, q, rep):
    importlib.import_module(f'rules.{pid.lower()}').check(q, rep)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='+')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--root', default='/repo')
    ap.add_argument('--evidence', default=os.path.join(HERE, 'evidence'))
    args = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED') or 1)
    a = Analysis(args.root)
    q = Query(a)
    status = 0
    pids = args.property if args.property != ['all'] else sorted(f[:-3].upper() for f in os.listdir(os.path.join(HERE, 'rules')) if f[0] == 'c' and f[1:3].isdigit())
    for pid in pids:
        rep = Report(pid, args.tier, seed, a.failed)
        rep.started -= a.seconds
        decide(pid, q, rep)
        if not any(r['obligations'] for r in rep.rules.values()): raise SystemExit(f'{pid}: nothing was checked')
        known = load_known(os.path.join(HERE, 'KNOWN_FINDINGS'), pid)
        path = os.path.join(args.evidence, f'{pid}.json')
        extra = None
        if args.tier == 'thorough':
            try: from pdfai.audit import audit
            except ImportError: audit = None
            if audit: extra = audit(pid, args.root, rep, decide)
        ev = rep.evidence(a, known)
        if extra: ev['coverage']['sensitivity'] = extra
        dump(path, ev)
        new = [v for v in rep.violations if v[0] not in known]
        for v in rep.violations:
            if v[0] in known: print(f'KNOWN-FINDING: property={pid} {v[0]} {v[1]}: {v[2]}')
        if new:
            status = 1
            replay = os.path.join(args.evidence, f'{pid}.violations.json')
            dump(replay, [{'rule': v[0], 'where': v[1], 'what': v[2]} for v in new])
            for v in new: print(f'{v[1]}: [{v[0]}] {v[2]}')
            print(f'VIOLATION property={pid} replay={replay}')
        else:
            c = ev['coverage']
            print(f'{pid}: {c["held"]} of {c["obligations"]} obligations hold, {c["undecided"]} not decided ({ev["wall_s"]} s)')
    sys.stdout.flush()
    os._exit(status)


if __name__ == '__main__': main()
