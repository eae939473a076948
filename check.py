#!/usr/bin/env python
"""python check.py <PROPERTY-ID> [--tier quick|thorough] [--case NAME]   (run in /verif)"""
import argparse
import atexit
import importlib
import os
import shutil
import sys
import tempfile
import time

t0 = time.time()
ap = argparse.ArgumentParser()
ap.add_argument("pid")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
ap.add_argument("--case", default=None)
ap.add_argument("--jobs", type=int, default=8)
args = ap.parse_args()

here = os.path.dirname(os.path.abspath(__file__))
scratch = tempfile.mkdtemp(prefix="vcheck-run-")
atexit.register(shutil.rmtree, scratch, True)
os.environ["PYTENSOR_FLAGS"] = f"cxx=,base_compiledir={scratch}/pytensor,floatX=float64"
for k, v in {"MPLBACKEND": "Agg", "JAX_PLATFORMS": "cpu", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1",
             "HOME": scratch, "MPLCONFIGDIR": scratch, "NUMBA_CACHE_DIR": scratch, "TMPDIR": scratch,
             "PYTHONHASHSEED": "0"}.items():
    os.environ[k] = v
tempfile.tempdir = scratch
sys.dont_write_bytecode = True
sys.path[:0] = [here, os.environ.get("VERIF_REPO", "/repo")]
if sys.flags.hash_randomization and not os.environ.get("_VCHECK_REEXEC"):
    os.environ["_VCHECK_REEXEC"] = "1"
    shutil.rmtree(scratch, True)
    os.execv(sys.executable, [sys.executable, "-B", os.path.abspath(__file__), *sys.argv[1:]])
import logging
import warnings

warnings.filterwarnings("ignore")
logging.getLogger("pymc").setLevel(logging.ERROR)
logging.getLogger("pytensor").setLevel(logging.ERROR)
sys.setrecursionlimit(20000)
sys.set_int_max_str_digits(0)

from vlib import harness  # noqa: E402

seed = int(os.environ.get("VERIF_SEED", "1"))
try:
    mod = importlib.import_module(f"checks.{args.pid.lower()}")
    cases = mod.cases(args.tier)
except Exception:
    # the code under analysis cannot even be imported / the harness cannot be set up
    import traceback

    traceback.print_exc()
    print(f"INCONCLUSIVE property={args.pid} harness could not be built")
    sys.exit(2)
if args.case:
    cases = [c for c in cases if args.case in c[0]]
results = harness.run_cases(args.pid, cases, args.tier, seed, args.jobs, 840 if args.tier == "quick" else 7000)
rc = harness.finish(args.pid, args.tier, seed, "model_checking", results, t0, mod.TITLE,
                    getattr(mod, "ASSUMPTIONS", []), getattr(mod, "EXTRA", {}))
sys.stdout.flush()
shutil.rmtree(scratch, True)
os._exit(rc)
