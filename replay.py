#!/opt/venv/bin/python
"""replay.py FILE: runs a reported counterexample on the untouched code.
Exit 1 when the property is violated, 0 when it holds."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from symex import engine, instrument

instrument.install_concrete()
with open(sys.argv[1]) as f:
    d = json.load(f)
case = importlib.import_module("props." + d["module"]).CASES[d["case"]]
r = engine.run_concrete(case["fn"], case.get("params", {}), d["assignment"])
print(json.dumps(r, indent=1))
sys.stdout.flush()
os._exit(1 if r["status"] == "violated" else 0)
