"""python run.py Pxx : run one check (tier and seed from VERIF_TIER, VERIF_SEED)."""
import importlib
import os
import sys

sys.dont_write_bytecode = True
os.environ.setdefault("JAX_PLATFORMS", "cpu")
os.environ.setdefault("MPLBACKEND", "Agg")
HERE = os.path.dirname(os.path.abspath(__file__))
os.environ["PYTHONPATH"] = "/repo:" + HERE
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
os.environ["PYTHONWARNINGS"] = "ignore"  # resource tracker of the worker pool
sys.path[:0] = ["/repo", HERE]

if __name__ == "__main__":
    from vf import report
    if len(sys.argv) > 2:
        os.environ["VERIF_TIER"] = sys.argv[2]
    mod = importlib.import_module("checks." + sys.argv[1])
    report.main(sys.argv[1], mod.check)
