import argparse
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--worker')
    ap.add_argument('--replay')
    ap.add_argument('--task')
    ap.add_argument('--jobs', type=int)
    a = ap.parse_args()
    if a.worker:
        core.worker_main(a.worker)
        return 0
    if a.replay:
        return core.replay(a.replay)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    return core.run(a.property, a.tier, seed, a.jobs, a.task)


if __name__ == '__main__':
    sys.exit(main())
