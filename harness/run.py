import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

if __name__ == "__main__":
    import common
    pid = sys.argv[1]
    mod = importlib.import_module("checks." + pid.lower())
    common.main(mod.CHECK, sys.argv[2:])
