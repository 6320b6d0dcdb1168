#!/usr/bin/env python3
"""run.py <property> : the check of one property (VERIF_TIER, VERIF_SEED from the environment)."""
import importlib, os, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "py"))
import build, engine

pid = sys.argv[1]
tier = os.environ.get("VERIF_TIER", "quick")
if len(sys.argv) > 2:
    tier = sys.argv[2]
seed = int(os.environ.get("VERIF_SEED", "1"))
t0 = time.time()
ev = os.path.join(build.VERIF, "evidence", pid + ".json")
if os.path.exists(ev):
    os.unlink(ev)
mod = importlib.import_module("checks." + pid.lower())
try:
    build.source_hash()
    build.build_many([(k, c) for c in mod.CONFIGS for k in ("sym", "real")])
except build.BuildError as e:
    print("ERROR build failed:", e)
    sys.exit(2)
tasks, meta = mod.tasks(tier, seed)
only = os.environ.get("VERIF_ONLY")
if only:
    tasks = [t for t in tasks if only in t[0]]
results = engine.run_tasks(pid, tier, seed, tasks)
sys.exit(engine.finish(pid, tier, seed, results, t0, meta))
