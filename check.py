#!/usr/bin/env python3
"""check.py <property> [--quick|--thorough] [--only REGEX] [-v]     (or: check.py all)

Decides one property of /verif/properties.jsonl on /repo's current working tree.
exit 0: holds on everything analysed; 1: VIOLATION; 2: no answer (headers do not compile, tool failure).
"""
import argparse
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from nvn import core, registry  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--quick', action='store_true')
    ap.add_argument('--thorough', action='store_true')
    ap.add_argument('--only')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    tier = 'thorough' if a.thorough else 'quick'
    ids = sorted(registry.PROPS) if a.property == 'all' else [a.property]
    rc = 0
    for i in ids:
        rc = max(rc, core.check(registry.PROPS[i], tier, a.only, a.v))
    return rc


if __name__ == '__main__':
    sys.exit(main())
