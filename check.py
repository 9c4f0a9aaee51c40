#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--seed N] [--budget S] [--cases N]   |   check.py --replay FILE"""
import argparse, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'drv'))
import core

ap = argparse.ArgumentParser()
ap.add_argument('id', nargs='?')
ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
ap.add_argument('--budget', type=float)
ap.add_argument('--cases', type=int, default=10**9)
ap.add_argument('--replay')
a = ap.parse_args()
if a.replay:
    sys.exit(core.replay(a.replay))
sys.exit(core.check(a.id, a.tier, a.seed, a.budget, a.cases))
