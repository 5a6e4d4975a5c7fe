import importlib
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from vf import core

if __name__ == '__main__':
    mod = importlib.import_module('vf.checks.' + sys.argv[1].lower())
    sys.exit(core.main(mod, sys.argv[2:]))
