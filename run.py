#!/usr/bin/env python3
"""usage: run.py ID [quick|thorough]      runs the check of one property
          run.py ID replay FILE|CASE      runs one recorded case again
          run.py setup                    builds every harness"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import fw                # noqa: E402
from vlib import checks            # noqa: E402


def main():
    pid = sys.argv[1]
    seed = int(os.environ.get('VERIF_SEED') or 1)
    if pid == 'setup':
        from build import TARGETS
        for t in [t for t in TARGETS if t != 'gtests']:
            print(t, fw.B.build(t))
        return 0
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER') or 'quick'
    check = checks.CHECKS[pid]
    if tier == 'replay':
        a = sys.argv[3]
        if a.lstrip('-').isdigit():
            case = int(a)
        else:
            r = json.load(open(a))
            case, seed = r['data'].get('case', 0), r['seed']
        return fw.run(check, 'quick', seed, only=case, jobs=1)
    return fw.run(check, tier, seed)


if __name__ == '__main__':
    sys.exit(main())
