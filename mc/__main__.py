import importlib
import sys

if __name__ == "__main__":
    prop = sys.argv[1]
    sys.exit(importlib.import_module("mc.checks." + prop.lower()).main())
