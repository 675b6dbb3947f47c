#!/usr/bin/env python3
"""Run the failing input of a replay file against the real code of /repo.

usage: replay.py evidence/replay/<file>.json   (exit 1: the failure shows again)
"""
import json, os, sys, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
j = json.load(open(sys.argv[1]))
print("failed obligation:", j["obligation"], j["replayed_obligation"])
if not j.get("inputs") and not j.get("confirmed_on_real_code"):
    print("no failing input; verifier output:\n", j.get("output"))
    sys.exit(0)
w = tempfile.mkdtemp(prefix="vh_replay_")
try:
    u = check.Unit(os.path.join(check.VERIF, j["harness"]), w, "quick")
    u.extra = j.get("extra_links", [])
    rc, out = check.replay_native(u, j["obligation"].split(".")[-1], j["inputs"] or [], w)
finally:
    shutil.rmtree(w, ignore_errors=True)
print("exit", rc)
print(out)
sys.exit(1 if rc not in (0, 98) else 0)
