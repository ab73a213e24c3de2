"""driver.py list | run HARNESS [options] | REPLAYFILE

Runs the Python harnesses on the extension module built from /repo: symbolically, or natively on the
values of a counterexample.
"""
import importlib
import os
import sys
import warnings

import symapi

HERE = os.path.dirname(os.path.abspath(__file__))
warnings.simplefilter("ignore")


def harnesses():
    out = {}
    for f in sorted(os.listdir(HERE)):
        if f[0] == "c" and f[1:-3].isdigit():
            m = importlib.import_module(f[:-3])
            for n in m.HARNESSES:
                out[f"{f[:-3]}::{n.__name__}"] = n
    return out


def main():
    args = sys.argv[:]
    hs = harnesses()
    if args[1] == "docs":
        import json

        print(json.dumps({k: " ".join((v.__doc__ or "").split()) for k, v in hs.items()}))
        return
    if args[1] not in ("list", "run"):
        # A replay: the harness is named in the file.
        name = [l.split()[1] for l in open(args[1]) if l.startswith("harness ")][0]
        args = [args[0], args[1], name]

    def call(name):
        hs[name]()

    symapi.run(list(hs), args, call)


main()
