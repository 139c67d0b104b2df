import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
_self = os.path.dirname(os.path.abspath(__file__))
sys.path[:] = [p for p in sys.path if os.path.abspath(p or '.') != _self]

from vf.boot import boot  # noqa: E402

boot()

from vf import core  # noqa: E402


def cli():
    args = sys.argv[1:]
    prop = args.pop(0)
    tier = os.environ.get('VERIF_TIER', 'quick')
    only, scale = None, 1.0
    while args:
        a = args.pop(0)
        if a in ('quick', 'thorough'):
            tier = a
        elif a == '--only':
            only = args.pop(0)
        elif a == '--scale':
            scale = float(args.pop(0))
        elif a == '--replay':
            with open(args.pop(0)) as f:
                r = json.load(f)
            for _ in range(core.RETRIES):     # a failure that depends on timing may need several tries
                status, text = core.replay(f'vf.checks.{prop.lower()}', r['sub'], r['case'])
                if status != 'held' or prop.upper() != 'C33':
                    break
            print(status, text)
            return 1 if status == 'violation' else (0 if status in ('held', 'known') else 3)
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    return core.main(prop, tier, only, scale)


if __name__ == '__main__':
    sys.exit(cli())
