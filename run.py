#!/opt/venv/bin/python
"""run.py <property id>: decide one property on /repo's current working tree."""
import os
import sys
if os.environ.get('PYTHONHASHSEED') is None:
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
from vc.harness import main
main(sys.argv[1])
