"""python -m pysym MODULE run|replay ...   (TNCO_CORE names the directory of the fresh extension module)"""
import importlib.util
import os
import sys
from pathlib import Path

sys.dont_write_bytecode = True
here = Path(__file__).resolve().parents[1]
repo = os.environ.get('TNCO_REPO', '/repo')
sys.path.insert(0, str(here))
sys.path.insert(0, repo)
for f in list(sys.meta_path):  # the editable install would pick its own copies
    if 'skbuild' in type(f).__module__.lower() or 'editable' in type(f).__module__.lower() or 'Redirect' in type(f).__name__:
        sys.meta_path.remove(f)
core = os.environ.get('TNCO_CORE')
if core:
    so = next(Path(core).glob('tnco_core*.so'))
    spec = importlib.util.spec_from_file_location('tnco_core', so)
    mod = importlib.util.module_from_spec(spec)
    sys.modules['tnco_core'] = mod
    spec.loader.exec_module(mod)
from pysym.engine import run_main  # noqa: E402
import pysym.engine as eng  # noqa: E402
run_main(sys.argv[1])
