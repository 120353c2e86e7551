#!/opt/venv/bin/python
"""run.py PROPERTY [--tier quick|thorough] [--seed N] | run.py --replay FILE"""
import argparse
import os
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from vlib import boot, core


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument('property', nargs='?')
    parser.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    parser.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    parser.add_argument('--shard')
    parser.add_argument('--out')
    parser.add_argument('--replay')
    args = parser.parse_args()
    if args.shard:
        shard, nshards = map(int, args.shard.split('/'))
        ctx = core.Ctx(args.property, args.seed, args.tier, shard, nshards)
        try:
            core.run_shard(ctx, args.out)
        except BaseException:
            core.write_shard(ctx, args.out, error=traceback.format_exc(limit=-15))
        sys.stdout.flush()
        os._exit(0)
    try:
        if args.replay:
            code = core.replay(args.replay)
        else:
            code = core.run_parent(args.property, args.seed, args.tier)
    finally:
        boot.cleanup()
    sys.stdout.flush()
    os._exit(code)


if __name__ == '__main__':
    main()
