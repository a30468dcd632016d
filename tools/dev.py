"""Development helper: python -i tools/dev.py, or exec a script with the
current build on the path: tools/dev.py script.py"""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from lib import build
sys.path.insert(0, build.build("opt"))
import lib.pbt  # noqa
if len(sys.argv) > 1:
    sys.argv = sys.argv[1:]
    exec(compile(open(sys.argv[0]).read(), sys.argv[0], "exec"))
