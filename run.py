#!/opt/venv/bin/python
"""usage: run.py PROPERTY [--tier quick|thorough] [--replay FILE]"""
import os, sys
VERIF = os.path.dirname(os.path.abspath(__file__))
if os.environ.get("PYTHONHASHSEED") != "0" or not os.environ.get("PYTHONDONTWRITEBYTECODE"):
    env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1",
               OPENBLAS_NUM_THREADS="1", COLUMNS="200", TQDM_DISABLE="1")
    os.execve("/opt/venv/bin/python", ["/opt/venv/bin/python", os.path.abspath(__file__)] + sys.argv[1:], env)
sys.path.insert(0, VERIF)
from vm import core
import argparse
ap = argparse.ArgumentParser()
ap.add_argument("property")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
ap.add_argument("--replay")
a = ap.parse_args()
seed = int(os.environ.get("VERIF_SEED", "1") or "1")
sys.exit(core.main(a.property.upper(), a.tier, seed, a.replay))
