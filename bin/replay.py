#!/opt/venv/bin/python
"""bin/replay.py evidence/replays/C01-001.json - re-runs one reported violation."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core
core.reexec()
core.replay(sys.argv[1])
