"""run_driver.py PROP OUT: records the observations for one property"""
import sys, os, json, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common                                       # noqa: E402
prop, out = sys.argv[1:3]
m = importlib.import_module('drivers.' + prop)
tier = os.environ.get('VERIF_TIER', 'quick')
seed = int(os.environ.get('VERIF_SEED', '1'))
with open(out, 'w') as f:
    for e in common.run_jobs(m.observe, m.jobs(tier, seed), limit=getattr(m, 'LIMIT', 240),
                             budget=420 if tier == 'quick' else None):
        f.write(json.dumps(e) + '\n')
