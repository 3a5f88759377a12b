"""python3 -m sa.run C10 [C12 ...] : decide properties from the current source of /repo"""
import sys, importlib
from .base import run
def main(argv):
    rc = 0
    for pid in argv:
        m = importlib.import_module("sa.rules." + pid.lower())
        rc = max(rc, run(pid, m.check))
    return rc
if __name__ == "__main__": sys.exit(main(sys.argv[1:]))
