"""Replay a violation file on the natively compiled current source: python3-vt -m vp.replay FILE"""
import json
import os
import shutil
import sys
import tempfile

sys.setrecursionlimit(100000)
from . import driver
from .runner import native_eval, run_contract

rep = json.load(open(sys.argv[1]))
con = next(c for c in driver.load(None, "thorough") + driver.load(None, "quick") if c.cid == rep["contract"])
d = tempfile.mkdtemp(prefix="vp-")
try:
    if hasattr(con, "replay"):
        print(json.dumps(con.replay(d, rep), indent=1, default=str))
    else:
        con.tu.build_ir(d)
        con.tu.build_native(d)
        vals = {k: int(v, 16) for k, v in rep.get("inputs", {}).items()}
        print(json.dumps(native_eval(con, d, rep.get("case"), vals), indent=1, default=str))
finally:
    shutil.rmtree(d, ignore_errors=True)
