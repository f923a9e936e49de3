#!/usr/bin/env python3
"""run.py <property> [--replay FILE]: runs the check of one property against /repo's working tree."""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from mon import core


def main():
    prop = sys.argv[1]
    module = importlib.import_module("props." + prop.lower())
    if "--replay" in sys.argv:
        return core.replay(prop, module, sys.argv[sys.argv.index("--replay") + 1])
    return core.execute(prop, module)


if __name__ == "__main__":
    try: code = main()
    except core.HarnessError as e:
        print("harness error: %s" % e, file=sys.stderr)
        code = 5
    sys.stdout.flush()
    os._exit(code)
