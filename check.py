import argparse
import importlib
import os
import sys
import traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('tier', nargs='?', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    from sa.report import Report
    from sa.interp import MissingAnchor
    from sa import rules
    rep = Report(a.pid, a.tier, int(os.environ.get('VERIF_SEED', '1')))
    fns, expl, mino = rules.TABLE[a.pid]
    try:
        for f in fns.split():
            mod, fn = f.split('.')
            getattr(importlib.import_module('sa.rules.' + mod), fn)(rep, a.tier)
    except MissingAnchor as e:
        rep.errors.append(f'anchor missing: {e}')
    except Exception:
        traceback.print_exc()
        rep.errors.append('internal error: ' + traceback.format_exc()[-800:])
    sys.exit(rep.finish(expl, mino))


main()
