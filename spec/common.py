"""Shared contract shapes."""
from vp.bv import *
from vp.unit import TU
from vp.runner import Contract
from vp import gf2

H32 = {"has_uint32": 32, "uinteger": 32}


def next64_contract(fn, ctype, fields, step, pre=None, skip=(), state="state"):
    """fn returns step(old).out and leaves exactly step(old).state; nothing else changes"""

    def body(k):
        init = pre(k) if pre else {}
        st = k.obj(state, ctype, fields, **init)
        if pre and hasattr(pre, "req"):
            pre.req(k, st)
        r = k.call(fn, st)
        out, new = step(k, st.old)
        k.same("return value", r, out)
        k.post(st, new)
        k.frame(st)

    return body


def next32_contract(fn, ctype, fields, step, pre=None, state="state", flip=False):
    """low half first, high half kept for the next call"""

    def body(k):
        init = pre(k) if pre else {}
        st = k.obj(state, ctype, fields, **init)
        if pre and hasattr(pre, "req"):
            pre.req(k, st)
        h = st.old["has_uint32"][0].ne(0)
        r = k.call(fn, st)
        out, new = step(k, st.old)
        lo, hi = out.extract(31, 0), out.extract(63, 32)
        k.same("return value: buffered half, else low half", r, ite(h, st.old["uinteger"][0], lo))
        exp = {}
        for f in fields:
            if f in H32:
                continue
            n = new.get(f)
            if n is None:
                continue
            n = n if isinstance(n, list) else [n]
            exp[f] = [None if b is None else ite(h, a, b) for a, b in zip(st.old[f], n)]
        k.post(st, exp, skip=("has_uint32", "uinteger"))
        hb = k.now(st, "has_uint32")[0].ne(0)
        k.ensure("buffer flag toggles", hb.ne(h), pair=None)
        k.same("buffered value is the high half", ite(h, hi, k.now(st, "uinteger")[0]), hi)
        k.frame(st)

    return body


def dstep(k, a, b):
    """53-bit double from two 32-bit draws: ((a>>5)*2^26 + (b>>6)) * 2^-53"""
    return (a >> 5).zext(64) * (1 << 26) + (b >> 6).zext(64)
