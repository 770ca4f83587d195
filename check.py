#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--replay FILE] [--seed N] [--wall S] [--worlds N]"""
import argparse, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'sim'))
import engine
a = argparse.ArgumentParser()
a.add_argument('property'); a.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); a.add_argument('--replay')
a.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1)); a.add_argument('--wall', type=float); a.add_argument('--worlds', type=int)
o = a.parse_args()
sys.stdout.reconfigure(line_buffering=True)
if o.replay: sys.exit(engine.replay(o.property, o.replay))
sys.exit(engine.run_check(o.property, 'thorough' if o.tier == 'thorough' else 'quick', o.seed, wall=o.wall, quota=o.worlds))
