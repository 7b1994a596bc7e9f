#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N]"""
import argparse, importlib, os, sys
from pathlib import Path
ROOT = Path(__file__).resolve().parent
sys.path[:0] = [str(ROOT / 'lib'), str(ROOT / 'checks')]
import build, check


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    a = ap.parse_args()
    ck = check.Check(a.property, a.tier, a.seed)
    try:
        mod = importlib.import_module(a.property.lower())
        mod.run(ck)
    except build.BuildError as e:
        print(f'cannot build the harness:\n{e}', file=sys.stderr)
        return 2
    except check.HarnessError as e:
        print(f'the harness failed:\n{e}', file=sys.stderr)
        return 2
    return ck.finish()


if __name__ == '__main__':
    sys.exit(main())
