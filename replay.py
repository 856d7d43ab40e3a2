#!/usr/bin/env python3
"""Re-run a recorded counterexample against a native build of /repo."""
import json, os, sys, tempfile, shutil
import check
d = json.load(open(sys.argv[1]))
w = tempfile.mkdtemp(prefix="flprsx_")
try:
    B = check.Build(w)
    bad = False
    for variant in (sys.argv[2:] or ["plain", "asan"]):
        exe = B.native(variant, d["harness"], [d["harness"]])
        rc, out, err = check.run_native(exe, d["entry"], d["args"], os.path.join(os.path.dirname(os.path.abspath(sys.argv[1])), d["values_file"]))
        print("--- %s: exit %s" % (variant, rc))
        print(err)
        bad |= check.failing(rc)
finally:
    shutil.rmtree(w, ignore_errors=True)
sys.exit(1 if bad else 0)
