#!/usr/bin/env python3
"""check.py PROP TIER : decides one property on /repo's current tree."""
import os
import sys
import time
from pathlib import Path

sys.dont_write_bytecode = True
sys.path.insert(0, str(Path(__file__).resolve().parent))
from vlib import runner  # noqa: E402
from vlib.plans import PLANS  # noqa: E402

if sys.argv[1] == '--selfcheck':
    import subprocess
    from vlib import build
    subprocess.run([runner.PY, '-c', 'from pysym import engine'], check=True, cwd=build.VERIF)
    subprocess.run(['g++', '--version'], check=True, stdout=subprocess.DEVNULL)
    print('tools present')
    sys.exit(0)
prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else 'quick')
limit = float(os.environ.get('CHECK_LIMIT', 560 if tier == 'quick' else 3300))
sys.exit(runner.run_property(prop, tier, PLANS[prop](tier), time.time() + limit))
