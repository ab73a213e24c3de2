#!/usr/bin/env python3
"""Linker wrapper: replaces the crate's object code by the instrumented code, then links.

rustc calls this as its linker for the `symx` binary. The crate's LLVM IR was emitted next to the
object file (`--emit=llvm-ir`, one codegen unit).
"""
import glob
import json
import os
import re
import subprocess
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import instrument

args = sys.argv[1:]
out = args[args.index("-o") + 1]
if not re.match(r"(lib)?symx", os.path.basename(out)):
    # build scripts and the like
    os.execvp("cc", ["cc"] + args)
z3lib = os.environ["SYM_Z3LIB"]
llc = os.environ["SYM_LLC"]
deps = os.path.dirname(out)
stem = re.sub(r"^lib(.*)\.so$", r"\1", os.path.basename(out))
lls = glob.glob(os.path.join(deps, stem + "*.ll"))
if len(lls) != 1:
    sys.exit(f"link.py: expected one .ll for {stem}, found {lls}")
t0 = time.time()
ins = instrument.Instrument()
new_ll = os.path.join(deps, stem + ".sym.lli")
# The repository's own functions: those whose (demangled) path starts in the crate root.
names = sorted(set(re.findall(r"^define .*?@([^\s(]+)\(", open(lls[0]).read(), re.M)))
dem = subprocess.run(["llvm-cxxfilt"], input="\n".join(names), capture_output=True, text=True, check=True).stdout.split("\n")
pretty = {}
for n, d in zip(names, dem):
    m = re.match(r"^<*(symx::)", d)
    if m and "verif_harness" not in d and " as serde" not in d and "::_::" not in d:
        pretty[n] = re.sub(r"\bsymx::", "", d)
fns = ins.run(lls[0], new_ll, own=lambda n: n in pretty)
t1 = time.time()
obj = os.path.join(deps, stem + ".sym.o")
subprocess.run([llc, "-O1", "-filetype=obj", "-relocation-model=pic", new_ll, "-o", obj], check=True)
t2 = time.time()
mine = [a for a in args if a.endswith(".rcgu.o") and os.path.basename(a).startswith(stem)]
# The crate's own code is the biggest object; the others are the allocator shim and the symbol list.
mine.sort(key=lambda a: -os.path.getsize(a))
if not mine:
    sys.exit("link.py: no object of the crate on the link line: " + " ".join(args))
new = [obj if a == mine[0] else a for a in args]
new += [z3lib, "-Wl,-rpath," + os.path.dirname(z3lib)]
r = subprocess.run(["cc"] + new)
json.dump({"instrumented": ins.count, "functions": len(fns), "blocks": [pretty[b] for b in ins.blocks], "instrument_s": round(t1 - t0, 2),
           "llc_s": round(t2 - t1, 2)}, open(os.environ["SYM_LINKLOG"], "w"))
sys.exit(r.returncode)
