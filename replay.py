#!/usr/bin/env python3
"""replay.py HARNESS.cpp ENTRY MODEL FILL: build the harness natively against the repository and run one counterexample."""
import sys, os, tempfile, shutil
import check
src = os.path.join(check.VERIF, "harness", sys.argv[1]); m = check.meta(src); flags = [x for f in m["flags"] for x in f.split()]
flags = [f.replace("@VERIF@", check.VERIF) for f in flags]
w = tempfile.mkdtemp(prefix="symx_replay_")
try:
    if sys.argv[3] == "--build":
        ok, msg = check.compile_native(src, w, flags, w + "/n"); print(msg or "compiles"); sys.exit(0 if ok else 1)
    ok, msg = check.compile_native(src, w, flags, w + "/n")
    if not ok:   # some entries may not compile: take them out
        ok, msg, used, dropped = check.compile_tolerant(src, w, list(flags))
        if ok: ok, msg = check.compile_native(used, w, flags, w + "/n")
    if not ok: print(msg); sys.exit(2)
    rc, out = check.run_native(w + "/n", sys.argv[2], "fp" if sys.argv[2][1] == "f" else "real", open(sys.argv[3]).read().split("\n"), w, "r", int(sys.argv[4]))
    print(out); print("exit code", rc)
finally: shutil.rmtree(w, ignore_errors=True)
sys.exit(0 if rc == 0 else 1)
