#!/usr/bin/env python3
"""check of one property: run.py ID [--tier quick|thorough]"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import Check
import e1run, e2, e3, e4, e5


def main():
    prop = sys.argv[1]
    if prop == "C19" and "vt-reexec" not in sys.argv:  # needs z3's Python bindings
        os.execvp("python3-vt", ["python3-vt", os.path.abspath(__file__)] + sys.argv[1:] + ["vt-reexec"])
    tier = "quick"
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    ck = Check(prop, tier)
    if prop in e1run.ENTRIES:
        e1run.run(ck)
    if prop in e2.TABLE:
        e2.run(ck)
    if prop in e3.TABLE:
        e3.run(ck)
    if prop == "C19":
        e4.run(ck)
    if prop == "C22":
        e5.run(ck)
    return ck.finish()


if __name__ == "__main__":
    sys.exit(main())
