"""python witness/run.py C01 --budget 20 [--max N] [--check name --key KEY]   (KEY: replay of one case)"""
import sys, os, argparse, importlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
a = argparse.ArgumentParser()
a.add_argument('prop'); a.add_argument('--budget', type=float, default=20); a.add_argument('--max', type=int, default=10**9)
a.add_argument('--check'); a.add_argument('--key'); a.add_argument('--seed', default=os.environ.get('VERIF_SEED', '1'))
o = a.parse_args()
from witness import common
importlib.import_module('witness.' + o.prop.lower())
sys.exit(common.main(o.prop, o.seed, o.budget, o.max, o.check, o.key))
