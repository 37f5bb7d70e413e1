import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common
pid = sys.argv[1]
sys.exit(common.main(pid, importlib.import_module(pid.lower())))
