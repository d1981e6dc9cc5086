#!/opt/venv/bin/python
"""bin/check.py C01 - explores the property within the bounds of VERIF_TIER (quick, thorough)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core
core.reexec()
if len(sys.argv) > 2:
    os.environ['VERIF_TIER'] = sys.argv[2]
core.main(sys.argv[1])
