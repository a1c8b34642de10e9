"""python -m mc.run C01 [--tier quick|thorough] [--replay FILE]"""
import importlib
import sys

if __name__ == '__main__':
    prop = sys.argv[1].upper()
    mod = importlib.import_module('mc.checks.' + prop.lower())
    from mc import runner
    sys.exit(runner.main(prop, mod.__doc__, mod.spaces, sys.argv[2:]))
