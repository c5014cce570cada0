"""C18: ExtendedGenerator draws are the documented function of the bit stream, for every shape, dtype and output array."""
from h import *
from numpy.random import Generator
from randomgen import ExtendedGenerator

r = random.Random(SEED)
LD = np.longdouble
LD64 = np.finfo(LD).nmant == 63


def shapes():
    return [None, 0, 1, 2, 3, 7, 64, 625, (), (0,), (1,), (3, 4), (2, 0, 3), (2, 3, 5), [2, 2], np.int64(5), (np.int32(2), 3)] + [r.randint(1, 1400) for _ in range(2)] + [(r.randint(1, 30), r.randint(1, 30))]


def shp(s):
    return () if s is None else tuple(int(v) for v in s) if hasattr(s, "__len__") else (int(s),)


def num(s):
    n = 1
    for v in shp(s):
        n *= v
    return n


def pair(c):
    """a used generator and a reference instance in the same state"""
    b = new(c, r.getrandbits(40))
    history(b, r)
    return b, clone(b, c)


def same_future(a, b, key, what):
    check(fut(a, 6, 0) == fut(b, 6, 0), key, what)


def bits(x):
    return np.ascontiguousarray(x).view(np.uint8).tobytes()


def ref(kind, q):
    if kind == "u64":
        return u64(q)
    if kind == "u32":
        return u32(q)
    if kind == "float64":
        return dbl(q)
    if kind == "float32":
        return np.float32(u32(q) >> 9) * np.float32(1 / 8388608.0)
    if LD64:
        return LD(u64(q)) / LD(2) ** 64
    return LD(dbl(q))


DT = {"u64": np.uint64, "u32": np.uint32, "float64": np.float64, "float32": np.float32, "longdouble": LD}


def call(g, kind, size, out=None):
    if kind[0] == "u":
        return g.uintegers(size, bits=int(kind[1:]))
    d = {"float64": [np.float64, "d", "float64", float, np.dtype("f8")], "float32": [np.float32, "f", "float32", np.dtype("f4")], "longdouble": [LD, "longdouble", np.dtype("longdouble"), "g"]}[kind]
    if out is None:
        return g.random(size, dtype=r.choice(d))
    return g.random(size, dtype=r.choice(d), out=out)


cfgs = CONFIGS if TIER == "thorough" else CONFIGS[:]
for c in cfgs:
    for kind in DT:
        for size in r.sample(shapes(), 4 if TIER == "quick" else 14) + [None]:
            b, q = pair(c)
            g = ExtendedGenerator(b)
            w = f"{name(c)} {kind} size={size}"
            x = call(g, kind, size)
            n = num(size)
            if size is None:
                check(np.ndim(x) == 0 and not isinstance(x, np.ndarray), f"{kind}:scalar-type", f"{w}: {type(x)}")
                if kind != "longdouble" and kind[0] != "u":
                    check(isinstance(x, float), f"{kind}:scalar-type", f"{w}: {type(x)}")
                if kind[0] == "u":
                    check(isinstance(x, (int, np.integer)), f"{kind}:scalar-type", f"{w}: {type(x)}")
                if kind == "longdouble":
                    check(isinstance(x, LD), f"{kind}:scalar-type", f"{w}: {type(x)}")
                e = ref(kind, q)
                check(x == e, f"{kind}:value", lambda: f"{w}: {x!r}, the stream gives {e!r}")
            else:
                check(isinstance(x, np.ndarray) and x.shape == shp(size) and x.dtype == DT[kind] and x.flags.owndata | (x.base is not None), f"{kind}:shape", lambda: f"{w}: {getattr(x, 'shape', None)} {getattr(x, 'dtype', None)}")
                e = np.array([ref(kind, q) for _ in range(n)], dtype=DT[kind]).reshape(shp(size))
                check(np.array_equal(x, e), f"{kind}:value", lambda: f"{w}: element {np.argmax(np.ravel(x) != np.ravel(e))}: {np.ravel(x)[np.argmax(np.ravel(x) != np.ravel(e))]!r} instead of {np.ravel(e)[np.argmax(np.ravel(x) != np.ravel(e))]!r}")
            if kind[0] != "u" and n:
                m = np.asarray(x)
                check((m >= 0).all() and (m < 1).all(), f"{kind}:range", w)
            same_future(b, q, f"{kind}:consumption", f"{w}: the generator is not where {n} draws leave it")
# output arrays
for t in range(60 if TIER == "quick" else 600):
    c = r.choice(CONFIGS)
    kind = r.choice(["float64", "float32", "longdouble"])
    b, q = pair(c)
    g = ExtendedGenerator(b)
    s = r.choice([(5,), (3, 4), (2, 3, 4), (0,), (1,), (700,)])
    form = r.choice(["C", "F", "view"])
    n = num(s)
    guard = np.full(n + 32, 7.5, dtype=DT[kind])
    out = guard[16 : 16 + n].reshape(s)
    if form == "F":
        out = guard[16 : 16 + n].reshape(s[::-1]).T
    give = r.choice([None, s, list(s)]) if len(s) > 1 else r.choice([None, s, s[0]])
    w = f"{name(c)} {kind} out of shape {s} ({form}), size={give}"
    x = call(g, kind, give, out)
    check(x is out, f"{kind}:out-identity", w)
    e = np.array([ref(kind, q) for _ in range(n)], dtype=DT[kind])
    check(np.array_equal(guard[16 : 16 + n], e), f"{kind}:out-value", w)
    check((guard[:16] == 7.5).all() and (guard[16 + n :] == 7.5).all(), f"{kind}:out-bounds", w)
    same_future(b, q, f"{kind}:out-consumption", w)
    # unsuitable arrays are refused before anything is drawn or written
    wrong = [np.zeros(s, dtype=d) for k, d in DT.items() if k != kind] + [np.zeros(s, dtype=np.complex128), np.zeros(s, dtype=np.dtype(DT[kind]).newbyteorder())]
    if n:
        ro = np.zeros(s, dtype=DT[kind])
        ro.flags.writeable = False
        big = np.zeros(tuple(2 * v for v in s), dtype=DT[kind])
        wrong += [ro, np.zeros(n * np.dtype(DT[kind]).itemsize + 1, dtype=np.uint8)[1:].view(DT[kind]).reshape(s)]
        if n > 1:
            wrong.append(big[tuple(slice(None, None, 2) for _ in s)])
    q2 = clone(b, c)
    for bad in wrong:
        keep = bad.copy()
        check(refused(lambda: call(g, kind, None, bad)), f"{kind}:accepts-out", f"{w}: {bad.dtype} {bad.flags.contiguous} {bad.flags.writeable}")
        check(np.array_equal(keep, bad), f"{kind}:writes-refused-out", w)
    for sz in (n + 1, (n, 2), s + (1,), ()):
        check(refused(lambda: call(g, kind, sz, out)), f"{kind}:accepts-size", f"{w}: size={sz}")
    same_future(b, q2, f"{kind}:refused-draws", w)
for sz in (-1, (2, -1), "a", 1.5, (1.5, 2)):
    for kind in DT:
        b, q = pair(("PCG64", {}))
        g = ExtendedGenerator(b)
        check(refused(lambda: call(g, kind, sz)), f"{kind}:accepts-size", sz)
        same_future(b, q, f"{kind}:refused-draws", sz)
for bad in (16, 8, 0, -64, 128):
    g = ExtendedGenerator(new(("PCG64", {})))
    check(refused(lambda: g.uintegers(3, bits=bad)), "uintegers:accepts-bits", bad)
for bad in ("int32", np.float16, np.complex128, "u8"):
    check(refused(lambda: ExtendedGenerator(new(("PCG64", {}))).random(3, dtype=bad)), "random:accepts-dtype", bad)


# extreme words: every value stays below one and is exact
class Words:
    def __init__(self, ws):
        self.ws, self.i = ws, 0

    def __call__(self, p):
        self.i += 1
        return self.ws[(self.i - 1) % len(self.ws)]


edge = [0, 1, 2**64 - 1, 2**63, 2**63 - 1, 2**32 - 1, 2**32, 2**11 - 1, 2**11, 2**53, 2**64 - 2**11, 2**64 - 2**10, 2**64 - 2**40] + [r.getrandbits(64) for _ in range(200)]
for kind in DT:
    g = ExtendedGenerator(rg.UserBitGenerator(Words(edge)))
    x = call(g, kind, len(edge))
    e = {"u64": lambda v: v, "u32": lambda v: v >> 32, "float64": lambda v: (v >> 11) / 2.0**53, "float32": lambda v: np.float32((v >> 41) / 2.0**23), "longdouble": (lambda v: LD(np.uint64(v)) / LD(2) ** 64) if LD64 else (lambda v: LD((v >> 11) / 2.0**53))}[kind]
    for v, y in zip(edge, x):
        check(y == e(v), f"{kind}:edge-value", lambda: f"word {v:#x}: {y!r} instead of {e(v)!r}")
        if kind[0] != "u":
            check(0 <= y < 1, f"{kind}:range", f"word {v:#x}: {y!r}")
# state and identity
for c in CONFIGS:
    b, q = pair(c)
    g = ExtendedGenerator(b)
    check(g.bit_generator is b, "bit_generator", name(c))
    check(eqs(g.state, b.state), "state", name(c))
    s = snap(g.state)
    a = fut(b, 10, 0)
    g.state = snap(s)
    check(fut(b, 10, 0) == a, "state-restore", name(c))
    g.state = snap(s)
    p = pickle.loads(pickle.dumps(g))
    check(p.bit_generator is not b and type(p.bit_generator) is type(b), "pickle", name(c))
    check(p.uintegers(20).tolist() == g.uintegers(20).tolist() and p.random(5).tolist() == g.random(5).tolist() and p.uintegers(3, bits=32).tolist() == g.uintegers(3, bits=32).tolist(), "pickle-stream", name(c))
    p2 = copy.deepcopy(g)
    a = g.uintegers(9).tolist()
    check(p2.uintegers(9).tolist() == a, "deepcopy-stream", name(c))
# a state of another variant or size selects its own functions
for c in CONFIGS:
    for d in [x for x in CONFIGS if x[0] == c[0] and x != c]:
        b, q = new(c, 3), new(d, 4)
        history(q, r)
        g = ExtendedGenerator(b)
        try:
            g.state = snap(q.state)
        except Exception:
            continue
        gq = ExtendedGenerator(q)
        check(g.uintegers(9).tolist() == gq.uintegers(9).tolist() and g.uintegers(5, bits=32).tolist() == gq.uintegers(5, bits=32).tolist() and g.random(5).tolist() == gq.random(5).tolist(), "state-other-variant", f"{name(d)} into {name(c)}")
        x, y = g.multivariate_normal([0, 0], np.eye(2), 3), gq.multivariate_normal([0, 0], np.eye(2), 3)
        check(np.array_equal(x, y), "state-other-variant", f"{name(d)} into {name(c)}: multivariate_normal")
g = ExtendedGenerator()
p = pickle.loads(pickle.dumps(g))
check(p.uintegers(20).tolist() == g.uintegers(20).tolist(), "pickle-stream", "default generator")
# complex normals: array parameters are the element by element scalar draws
for t in range(40 if TIER == "quick" else 400):
    c = r.choice(CONFIGS)
    b, q = pair(c)
    g, gq = ExtendedGenerator(b), ExtendedGenerator(q)
    m = r.randint(1, 6)
    rr = np.random.RandomState(r.getrandbits(31))
    loc = rr.standard_normal(m) + 1j * rr.standard_normal(m)
    gam = rr.uniform(0.5, 3, m)
    rel = (rr.uniform(-0.9, 0.9, m) * gam) * np.exp(1j * rr.uniform(-0.5, 0.5, m)) * 0.9
    rel = np.where(rr.uniform(size=m) < 0.3, 0, rel)
    if r.random() < 0.5:
        x = g.complex_normal(loc, gam, rel)
    else:
        x = g.complex_normal(loc, gam, rel, size=(m,))
    e = np.array([gq.complex_normal(complex(loc[i]), float(gam[i]), complex(rel[i])) for i in range(m)])
    check(np.allclose(x, e, rtol=1e-13, atol=1e-13), "complex_normal:elementwise", lambda: f"{name(c)} loc={loc} gamma={gam} relation={rel}: {x} instead of {e}")
    same_future(b, q, "complex_normal:consumption", name(c))
    k = r.randint(1, 9)
    x = g.complex_normal(complex(loc[0]), float(gam[0]), complex(rel[0]), size=k)
    e = np.array([gq.complex_normal(complex(loc[0]), float(gam[0]), complex(rel[0])) for i in range(k)])
    check(np.array_equal(x, e), "complex_normal:fill", name(c))
    same_future(b, q, "complex_normal:consumption", name(c))
# broadcasting parameters: every combination of parameter shapes, with and without a size
PSH = [(), (3,), (2, 1), (2, 3), (1, 3), (1,)]
SZS = [None, None, (2, 3), (4, 2, 3), (3,), (2, 1), 3, 1, (3, 2)]
for sl in PSH:
    for sg in PSH:
        for sr in PSH:
            size = r.choice(SZS)
            c = r.choice(CONFIGS)
            b, q = pair(c)
            g, gq = ExtendedGenerator(b), ExtendedGenerator(q)
            rr = np.random.RandomState(r.getrandbits(31))
            loc = rr.standard_normal(sl) + 1j * rr.standard_normal(sl)
            gam = rr.uniform(1, 3, sg)
            rel = rr.uniform(-0.4, 0.4, sr) + 1j * rr.uniform(-0.4, 0.4, sr) * r.choice([0, 1])
            bs = np.broadcast_shapes(sl, sg, sr)
            what = f"{name(c)} loc {sl} gamma {sg} relation {sr} size {size}"
            if size is not None:
                ok = True
                try:
                    ok = np.broadcast_shapes(bs, size) == tuple(np.atleast_1d(size))
                except ValueError:
                    ok = False
                if not ok and bs != ():
                    check(refused(lambda: g.complex_normal(loc, gam, rel, size)), "complex_normal:size-mismatch", what)
                    continue
            osh = bs if size is None else tuple(np.atleast_1d(size).tolist())
            try:
                x = np.asarray(g.complex_normal(loc, gam, rel, size))
            except Exception as ex:
                check(False, "complex_normal:broadcast", f"{what}: {ex!r}")
                continue
            L, G, R, _ = np.broadcast_arrays(loc, gam, rel, np.empty(osh))
            e = np.array([gq.complex_normal(complex(u), float(v), complex(w)) for u, v, w in zip(L.flat, G.flat, R.flat)]).reshape(osh)
            check(x.shape == osh and np.allclose(x, e, rtol=1e-13, atol=1e-13), "complex_normal:broadcast", what)
            same_future(b, q, "complex_normal:consumption", what)
done()
