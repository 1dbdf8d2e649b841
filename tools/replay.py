#!/usr/bin/env python3
"""usage: replay.py FILE  -- runs a recorded counterexample natively against the current build of /repo's code"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = json.load(open(sys.argv[1]))
if "--build" in sys.argv:
    subprocess.check_call(["bash", f"{V}/tools/build.sh", d["harness"]])
f = f"{V}/.work/replay.in"
open(f, "w").write("".join(f"{v} {n}\n" for n, v in d["inputs"]))
env = dict(os.environ, SYM_REPLAY=f)
for i, a in enumerate(d["args"]):
    env[f"SYM_ARG{i}"] = str(a)
sys.exit(subprocess.run([f"{V}/.work/target/sym/harness-{d['harness']}", d["entry"]], env=env).returncode)
