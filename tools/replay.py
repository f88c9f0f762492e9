#!/usr/bin/env python3
"""Replays a counterexample natively: tools/replay.py FILE.json  (exit 0: it reproduced)."""
import json, sys
import check
r = json.load(open(sys.argv[1]))
c = check.Check(r["property"], r.get("tier", "quick"))
c.generate(); c.native_build()
ok, text = c.native(r["entry"], r["inputs"], r["kind"], r["id"])
print(text)
print("reproduced" if ok else "did not reproduce")
sys.exit(0 if ok else 1)
