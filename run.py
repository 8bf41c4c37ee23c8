"""entry point: run.py <PROPERTY> [--tier quick|thorough] [--seed N]
[--replay FILE] [--only SCENARIO] [--workers N]"""
import argparse
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

from mon import core  # noqa: E402


def main():
    par = argparse.ArgumentParser()
    par.add_argument('property')
    par.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    par.add_argument('--seed', type=int,
                     default=int(os.environ.get('VERIF_SEED', '1') or 1))
    par.add_argument('--replay')
    par.add_argument('--only')
    par.add_argument('--workers', type=int, default=8)
    par.add_argument('--scale', type=float, default=1.0)
    args = par.parse_args()
    if args.tier not in ('quick', 'thorough'):
        args.tier = 'quick'
    return core.run(args, HERE)


if __name__ == '__main__':
    sys.exit(main())
