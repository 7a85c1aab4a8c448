#!/usr/bin/env python3
"""Compare a test result file with the recorded baseline."""
import json, sys
b = json.load(open("/opt/vp/BASELINE.json")); o = json.load(open(sys.argv[1]))
def passed(x):
    for k in ("stable", "passed", "pass", "tests_pass", "tests"):
        if k in x:
            v = x[k]
            return set(v) if isinstance(v, list) else {t for t, r in v.items() if r in ("pass", "ok", True)}
    return None
pb, po = passed(b), passed(o)
if pb is None or po is None:
    print("keys", list(b), list(o)); sys.exit(2)
print("baseline", len(pb), "now", len(po), "missing", sorted(pb - po))
sys.exit(1 if pb - po else 0)
