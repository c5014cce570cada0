"""C14: positions outside a generator's buffers are refused, fills write exactly what was asked for."""
from h import *
from numpy.random import Generator
from randomgen import ExtendedGenerator

r = random.Random(SEED)
FIELDS = {"AESCounter": {"s.offset": 64}, "DSFMT": {"state.idx": 382, "buffer_loc": 382}, "HC128": {"state.hc_idx": 1023, "state.buffer_idx": 16}, "MT19937": {"state.pos": 624}, "MT64": {"state.pos": 313},
          "SFMT": {"state.idx": 624, "buffer_loc": 312}, "SPECK128": {"state.offset": 96, "state.rounds": 34}, "Philox": {"buffer_pos": 4}, "ThreeFry": {"buffer_pos": 4}, "Xorshift1024": {"state.p": 15}}


def setf(s, f, v):
    for k in f.split(".")[:-1]:
        s = s[k]
    s[f.split(".")[-1]] = v


def getf(s, f):
    for k in f.split("."):
        s = s[k]
    return s


for c in CONFIGS:
    for f, top in FIELDS.get(c[0], {}).items():
        for bad in (top + 1, top + 2, top + 8, top + 16, 2 * top + 2, -1, -2, -8, -16, -top, 2**31 - 1, 2**31, -(2**31), 2**32, 2**63, 2**64 - 1, 2**32 + top):
            b = new(c, 1)
            history(b, r)
            s = snap(b.state)
            setf(s, f, bad)
            ok = refused(lambda: setattr(b, "state", s))
            if not ok:
                # only a position the generator replaces at once by a valid one is harmless
                ok = 0 <= int(getf(b.state, f)) <= top
            check(ok, f"{name(c)}:{f}:accepted", bad)
            if not ok:
                continue
            fut(b, 5, 2000)  # draws after a refusal
        # every position a draw can leave behind is accepted and continues
        b = new(c, r.getrandbits(50))
        for _ in range(12):
            history(b, r)
            d = new(c, 5)
            d.state = snap(b.state)
            check(0 <= int(getf(d.state, f)) <= top, f"{name(c)}:{f}:range", getf(d.state, f))

# arrays of the wrong length are refused
for c in CONFIGS:
    b = new(c, 1)

    def walk(d, p=()):
        for k, v in d.items():
            if isinstance(v, dict):
                yield from walk(v, p + (k,))
            elif isinstance(v, np.ndarray) and v.ndim:
                yield ".".join(p + (k,)), v

    for f, a in walk(b.state):
        for m in (0, 1, len(a) - 1, len(a) // 2):
            if m >= len(a):
                continue
            d = new(c, 2)
            pre = snap(d.state)
            s = snap(b.state)
            setf(s, f, a[:m].copy())
            if not refused(lambda: setattr(d, "state", s)):
                # accepted: then nothing outside the given words may have been read, so the result is reproducible and complete
                check(False, f"{name(c)}:{f}:accepts-length", f"{m} of {len(a)}")
            else:
                fut(d, 3, 50)

# fills: the elements asked for, in stream order, and nothing next to them
for c in CONFIGS:
    for t in range(4 if TIER == "quick" else 30):
        b = new(c, r.getrandbits(60))
        history(b, r)
        n = r.choice([0, 1, 2, 3, 7, 15, 16, 17, 63, 64, 65, 255, 311, 312, 313, 381, 382, 383, 623, 624, 625, r.randint(700, 3000)])
        kind = r.choice(["raw", "double", "npdouble", "u64", "u32", "longdouble"])
        q = clone(b, c)
        g, gq = ExtendedGenerator(b), ExtendedGenerator(q)
        if kind == "raw":
            a, e = b.random_raw(n).tolist(), [int(q.random_raw()) for _ in range(n)]
        elif kind in ("double", "longdouble", "npdouble"):
            dt = np.longdouble if kind == "longdouble" else np.float64
            guard = np.full(n + 64, -3.25, dtype=dt)
            out = guard[32 : 32 + n]
            if kind == "npdouble":
                Generator(b).random(out=out)
            else:
                g.random(out=out, dtype=dt)
            check((guard[:32] == -3.25).all() and (guard[32 + n :] == -3.25).all(), f"{kind}:writes-outside", f"{name(c)} {n} elements")
            a = out.tolist() if kind != "longdouble" else [x for x in out]
            e = [gq.random(dtype=dt) for _ in range(n)]
        else:
            w = int(kind[1:])
            a, e = g.uintegers(n, bits=w).tolist(), [int(gq.uintegers(bits=w)) for _ in range(n)]
        check(a == e, f"{kind}:order", lambda: f"{name(c)} {n} elements: {diff(a, e)}")
        check(fut(b, 5, 0) == fut(q, 5, 0), f"{kind}:consumption", f"{name(c)} {n} elements")
done()
