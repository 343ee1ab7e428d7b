import sys, os, importlib
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import simlib
mod = importlib.import_module('checks.' + sys.argv[1].lower())
sys.exit(simlib.main(mod.CHECK))
