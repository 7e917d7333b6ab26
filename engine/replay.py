"""Replays a recorded counterexample on the real code: exit 1 when it still fails."""
import importlib
import json
import sys

from engine.run import _setup

_setup()
from engine import harness  # noqa: E402

d = json.load(open(sys.argv[1]))
m = importlib.import_module("checks." + d["property"])
r = harness.run_concrete(m.HARNESSES[d["harness"]], d["case"], d["inputs"])
print("\n".join(r["failed"]) or "no failure")
sys.exit(1 if r["failed"] else 0)
