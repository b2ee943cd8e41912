#!/opt/veriftools/pyvenv/bin/python
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from pbt import core
sys.exit(core.main(sys.argv[1:]))
