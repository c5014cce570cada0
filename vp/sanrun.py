"""Evaluate one contract on concrete inputs against the sanitizer build (run under LD_PRELOAD=libasan)."""
import importlib
import json
import sys

from .unit import NatKit, Reject
from . import driver

job = json.load(open(sys.argv[1]))
con = next(c for c in driver.load(None, "thorough") + driver.load(None, "quick") if c.cid == job["cid"])
con.tu.build_ir(job["scratch"])
k = NatKit(con.tu, job["case"], job["scratch"], job["vals"], None, sanitize=True)
try:
    con.body(k)
except Reject:
    pass
