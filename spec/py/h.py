"""Shared pieces of the run-time contract suites (executed on the built extension modules)."""
import copy
import ctypes
import json
import os
import pickle
import random
import sys
import time
import warnings

import numpy as np

warnings.simplefilter("ignore")
import randomgen as rg  # noqa: E402

SEED = int(sys.argv[1]) if len(sys.argv) > 1 else 1
TIER = sys.argv[2] if len(sys.argv) > 2 else "quick"
R = random.Random(SEED)
COUNT = [0]
FAILS = {}
T0 = time.time()
BUDGET = 150 if TIER == "quick" else 1200


def fail(key, what):
    """key identifies the violated clause and the call site; one example each"""
    if key not in FAILS:
        FAILS[key] = str(what)[:600]


def check(cond, key, what):
    COUNT[0] += 1
    if not cond:
        fail(key, what() if callable(what) else what)


def done():
    print("RESULT " + json.dumps({"evaluations": COUNT[0], "failures": FAILS, "seconds": round(time.time() - T0, 1)}))


def refused(f):
    """f raises an ordinary exception"""
    try:
        f()
    except Exception:
        return True
    return False


def cfg():
    out = [("AESCounter", {}), ("ChaCha", {}), ("ChaCha", {"rounds": 8}), ("DSFMT", {}), ("EFIIX64", {}), ("HC128", {}), ("LXM", {}), ("LXM", {"b": 12345677}), ("MT19937", {}), ("MT64", {}), ("PCG32", {}), ("PCG64", {}), ("PCG64", {"variant": "dxsm"}),
           ("PCG64", {"variant": "cm-dxsm"}), ("PCG64DXSM", {}), ("SFC64", {}), ("SFC64", {"w": 3, "k": 5}), ("SFMT", {}), ("SPECK128", {}), ("SPECK128", {"rounds": 33}),
           ("Tyche", {}), ("Tyche", {"original": False}), ("Xoroshiro128", {}), ("Xoroshiro128", {"plusplus": True}), ("Xorshift1024", {}), ("Xoshiro256", {}), ("Xoshiro512", {}), ("Romu", {}), ("Romu", {"variant": "trio"}),
           ("Squares", {}), ("Squares", {"variant": 32})]
    for s in (1, 2, 3):
        out += [("JSF", {"seed_size": s})] + [("JSF", {"size": 32, "seed_size": s})]
    out += [("JSF", {"p": 39, "q": 11, "r": 0}), ("JSF", {"size": 32, "p": 9, "q": 16, "r": 5})]
    for c in ("Philox", "ThreeFry"):
        for n in (2, 4):
            for w in (32, 64):
                out.append((c, {"number": n, "width": w}))
    for o in ("xsl-rr", "dxsm", "murmur3", "upper", "lower"):
        out.append(("LCG128Mix", {"output": o}))
    out += [("LCG128Mix", {"post": False}), ("LCG128Mix", {"multiplier": 0xDA942042E4DD58B5, "dxsm_multiplier": 0xDA942042E4DD58B5, "output": "dxsm"})]
    return out


CONFIGS = cfg()


def name(c):
    return c[0] + ("(" + ",".join(f"{k}={v}" for k, v in c[1].items()) + ")" if c[1] else "")


def new(c, seed=1, **kw):
    return getattr(rg, c[0])(seed, **dict(c[1], **kw))


class _BG(ctypes.Structure):
    _fields_ = [("state", ctypes.c_void_p), ("u64", ctypes.CFUNCTYPE(ctypes.c_uint64, ctypes.c_void_p)), ("u32", ctypes.CFUNCTYPE(ctypes.c_uint32, ctypes.c_void_p)),
                ("dbl", ctypes.CFUNCTYPE(ctypes.c_double, ctypes.c_void_p)), ("raw", ctypes.CFUNCTYPE(ctypes.c_uint64, ctypes.c_void_p))]


_ptr = ctypes.pythonapi.PyCapsule_GetPointer
_ptr.restype, _ptr.argtypes = ctypes.c_void_p, [ctypes.py_object, ctypes.c_char_p]


def bitgen(b):
    """the generator's interface structure, as every consumer of the capsule sees it now"""
    return _BG.from_address(_ptr(b.capsule, b"BitGenerator"))


def u32(b):
    t = bitgen(b)
    return t.u32(t.state)


def u64(b):
    t = bitgen(b)
    return t.u64(t.state)


def dbl(b):
    t = bitgen(b)
    return t.dbl(t.state)


def fut(b, n=40, raw=1500, via="capsule"):
    """the visible future: every kind of draw, interleaved, then a long raw run"""
    if via == "capsule":
        t = bitgen(b)
        s, f32, f64, fd = t.state, t.u32, t.u64, t.dbl
    else:
        t = b.ctypes
        s, f32, f64, fd = t.state, t.next_uint32, t.next_uint64, t.next_double
    out = []
    for i in range(n):
        out.append(f32(s))
        if i % 3 == 0:
            out.append(f64(s))
        if i % 4 == 1:
            out.append(fd(s))
        if i % 5 == 2:
            out += [f32(s), f32(s)]
        if i % 7 == 3:
            out.append(int(b.random_raw()))
    if raw:
        out += b.random_raw(raw).tolist()
        out += [f32(s), f64(s), fd(s), f32(s)]
    return out


def history(b, r, big=True):
    """random draws; returns a description"""
    h = []
    for _ in range(r.randint(0, 5)):
        k = r.choice(["u32", "u64", "dbl", "raw", "raws"])
        n = r.choice([1, 1, 2, 3, 7]) if k != "raws" or not big else r.choice([1, 15, 16, 63, 311, 312, 381, 382, 623, 624, 625, 1000])
        if k == "raws":
            b.random_raw(n)
        else:
            for _ in range(n):
                {"u32": u32, "u64": u64, "dbl": dbl, "raw": lambda q: q.random_raw()}[k](b)
        h.append((k, n))
    return h


def eqs(a, b):
    """structural equality of state values"""
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(eqs(a[k], b[k]) for k in a)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return np.array_equal(np.asarray(a), np.asarray(b))
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(eqs(x, y) for x, y in zip(a, b))
    return a == b


def snap(s):
    """a copy of a state that shares nothing with it"""
    if isinstance(s, dict):
        return {k: snap(v) for k, v in s.items()}
    if isinstance(s, np.ndarray):
        return s.copy()
    if isinstance(s, list):
        return [snap(v) for v in s]
    return s


def scribble(s):
    """overwrite every array of a state dict in place"""
    for v in s.values():
        if isinstance(v, dict):
            scribble(v)
        elif isinstance(v, np.ndarray) and v.size and v.flags.writeable:
            v[...] = v + 1 if v.dtype.kind != "f" else 1.25


def clone(b, c):
    """an instance in the same state, by the state property"""
    n = new(c, 99)
    n.state = snap(b.state)
    return n


def diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return f"draw {i}: {x} instead of {y}"
    return "lengths differ" if len(a) != len(b) else "equal"
