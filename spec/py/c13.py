"""C13: integers convert exactly to words or are rejected; random_raw delivers every word in the documented shape and type."""
from h import *

M = 2**64 - 1


def speck_keys(key):
    r = lambda x, n: ((x >> n) | (x << (64 - n))) & M
    k, l = [key & M], [(key >> 64 * i) & M for i in (1, 2, 3)]
    for i in range(33):
        l.append(((k[i] + r(l[i], 8)) & M) ^ i)
        k.append(((r(k[i], 61)) ^ l[i + 3]) & M)
    return k


def hc_init(key):
    W = 2**32 - 1
    ror = lambda x, n: ((x >> n) | (x << (32 - n))) & W
    w = []
    kw = [(key >> (32 * i)) & W for i in range(8)]
    k, iv = kw[:4], kw[4:]
    w = k + k + iv + iv
    f1 = lambda x: ror(x, 7) ^ ror(x, 18) ^ (x >> 3)
    f2 = lambda x: ror(x, 17) ^ ror(x, 19) ^ (x >> 10)
    for i in range(16, 1280):
        w.append((f2(w[i - 2]) + w[i - 7] + f1(w[i - 15]) + w[i - 16] + i) & W)
    p, q = w[256:768], w[768:1280]
    g1 = lambda x, y, z: ((ror(x, 10) ^ ror(z, 23)) + ror(y, 8)) & W
    g2 = lambda x, y, z: ((ror(x, 22) ^ ror(z, 9)) + ror(y, 24)) & W
    h1 = lambda x: (q[x & 255] + q[256 + ((x >> 16) & 255)]) & W
    h2 = lambda x: (p[x & 255] + p[256 + ((x >> 16) & 255)]) & W
    for i in range(512):
        p[i] = ((p[i] + g1(p[(i - 3) % 512], p[(i - 10) % 512], p[(i - 511) % 512])) & W) ^ h1(p[(i - 12) % 512])
    for i in range(512):
        q[i] = ((q[i] + g2(q[(i - 3) % 512], q[(i - 10) % 512], q[(i - 511) % 512])) & W) ^ h2(q[(i - 12) % 512])
    return p, q


def words(v, n, w=64):
    return [(v >> (w * i)) & (2**w - 1) for i in range(n)]


def ints(a):
    return [int(x) for x in a]


def key_ok(c, b, key):
    s = b.state
    if c[0] == "AESCounter":
        return ints(s["s"]["seed"][:2]) == words(key, 2)
    if c[0] == "ChaCha":
        return ints(s["state"]["keysetup"]) == words(key, 8, 32)
    if c[0] == "SPECK128":
        ks = speck_keys(key)
        return ints(s["state"]["round_key"])[::2][: len(ks)] == ks[: len(ints(s["state"]["round_key"])[::2])]
    if c[0] == "HC128":
        p, q = hc_init(key)
        return ints(s["state"]["p"]) == p and ints(s["state"]["q"]) == q
    if c[0] == "Squares":
        return int(s["state"]["key"]) == key
    n, w = c[1]["number"], c[1]["width"]
    return ints(s["state"]["key"]) == words(key, n // 2 if c[0] == "Philox" else n, w)


def ctr_ok(c, b, v):
    s = b.state
    if c[0] == "AESCounter":
        return ints(s["s"]["counter"]) == sum([words((v + i) % 2**128, 2) for i in range(4)], [])
    if c[0] == "ChaCha":
        return ints(s["state"]["ctr"]) == words(v, 2)
    if c[0] == "SPECK128":
        return ints(s["state"]["ctr"]) == sum([words((v + i) % 2**128, 2) for i in range(6)], [])
    if c[0] == "Squares":
        return int(s["state"]["counter"]) == v
    n, w = c[1]["number"], c[1]["width"]
    return ints(s["state"]["counter"]) == words(v, n, w)


BITS = {"AESCounter": (128, 128), "ChaCha": (256, 128), "HC128": (256, None), "SPECK128": (256, 128), "Squares": (64, 64)}


def bits(c):
    if c[0] in BITS:
        return BITS[c[0]]
    if c[0] in ("Philox", "ThreeFry"):
        n, w = c[1]["number"], c[1]["width"]
        return (n // 2 * w if c[0] == "Philox" else n * w), n * w
    return None


def valid_ints(nb, r, odd):
    vs = {0, 1, 2, 2**nb - 1, 2**nb - 2, 2 ** (nb - 1), 2 ** (nb - 1) - 1}
    for p in range(32, nb, 32):
        vs |= {2**p - 1, 2**p, 2**p + 1, 2**p - 2}
    for _ in range(8 if TIER == "quick" else 60):
        vs.add(r.getrandbits(r.randint(1, nb)))
        vs.add(r.getrandbits(nb))
    return sorted(v | 1 if odd else v for v in vs)


def objects(nb, r):
    """(object, exact value or None when it denotes no admissible integer)"""
    n64 = nb // 64
    out = [(-1, None), (-(2**70), None), (2**nb, None), (2**nb + 1, None), (2 ** (nb + 64), None), (1.5, None), (0.5, None), (-0.5, None), (float("nan"), None), (float("inf"), None), (2.0**nb, None), (2.0 ** (nb + 3), None), (-1.0, None), ("a", None), ([], None), ([[1]], None), ([1.5], None),
           ([-1], None), ([2**64], None), ([1] * (n64 + 1) if n64 else [2**40], None), (np.array([1.0]), None), (np.array([1], dtype=np.int64), None), (np.array([[1]], dtype=np.uint64), None), (np.array([], dtype=np.uint64), None),
           (np.int64(-3), None), ([1, -1], None), ([2**64 - 1, 1.5], None), (1 + 1j, None), (np.array([1, 2], dtype=np.int32), None), (np.float64(3.25), None), ([float("inf")], None), ([0, 2**64], None)]
    out += [(np.uint64(2**32 - 1), 2**32 - 1), (np.int8(5), 5), (7, 7), (np.uint32(9), 9)]
    if n64:
        out += [([3], 3), ((5,), 5), (np.array([2**63 + 1], dtype=np.uint64), 2**63 + 1), (np.uint64(2**64 - 1), 2**64 - 1), (np.array(11, dtype=np.uint64), 11), ([2**64 - 1], 2**64 - 1), ([2**53 + 1], 2**53 + 1)]
    for _ in range(10):
        if n64:
            a = [r.choice([0, 1, 3, 2**63, 2**64 - 1, 2**32, 2**53 + 1, r.getrandbits(64), r.getrandbits(20)]) for _ in range(n64)]
            out += [(a, sum(x << (64 * i) for i, x in enumerate(a))), (np.array(a, dtype=np.uint64), sum(x << (64 * i) for i, x in enumerate(a)))]
            big = np.zeros(2 * n64, dtype=np.uint64)
            big[::2] = np.array(a, dtype=np.uint64)
            out.append((big[::2], sum(x << (64 * i) for i, x in enumerate(a))))
    return out


for c in CONFIGS:
    nb = bits(c)
    if nb is None:
        continue
    k = name(c)
    r = random.Random(SEED * 31 + 5)
    cls = getattr(rg, c[0])
    for which, n, good in (("key", nb[0], key_ok), ("counter", nb[1], ctr_ok)):
        if n is None:
            continue
        odd = c[0] == "Squares" and which == "key"

        def make(v, how):
            kw = {which: v}
            if which == "counter":
                kw["key"] = 12345
            if how == "new":
                return cls(None, **dict(c[1], **kw))
            b = new(c, 5)
            history(b, r, False)
            b.seed(**kw)
            return b

        for v in valid_ints(n, r, odd):
            try:
                b = make(v, r.choice(["new", "seed"]))
            except Exception as e:
                fail(f"{k}:{which}-refused", f"{which}={v}: {e!r}")
                continue
            check(good(c, b, v), f"{k}:{which}-words", lambda: f"{which}={v:#x}: state {b.state}")
        objs = [(o, v) for o, v in objects(n, r) if not (c[0] == "Squares" and isinstance(o, (list, tuple, np.ndarray, str, complex)))]
        for o, v in objs:
            if odd and v is not None and not v & 1:
                v = None
            try:
                b = make(o, r.choice(["new", "seed"]))
            except Exception:
                COUNT[0] += 1
                check(v is None or not isinstance(o, (int, np.ndarray, list)), f"{k}:{which}-refused", f"{which}={o!r} denotes {v}")
                continue
            check(v is not None, f"{k}:{which}-accepted-invalid", lambda: f"{which}={o!r}: state {b.state}")
            if v is not None:
                check(good(c, b, v), f"{k}:{which}-words", lambda: f"{which}={o!r} denotes {v:#x}: state {b.state}")
# increments
for c in CONFIGS:
    if c[0] not in ("PCG64", "PCG32", "LCG128Mix", "PCG64DXSM"):
        continue
    nb = 64 if c[0] == "PCG32" else 128
    r = random.Random(SEED)
    for v in valid_ints(nb, r, False):
        b = new(c, 3, inc=v)
        check(int(b.state["state"]["inc"]) == (2 * v + 1) % 2**nb, f"{name(c)}:inc", lambda: f"inc={v}: {b.state}")
    for o in (-1, 2**nb, 2**nb + 1, 2 ** (nb + 9), 1.5, 0.25, -0.5, float("nan"), [1], np.array([1]), "1", np.float64(7.5)):
        check(refused(lambda: new(c, 3, inc=o)), f"{name(c)}:inc-accepted-invalid", f"inc={o!r}")
# seeds
for c in CONFIGS:
    for o in (-1, 1.5, [1, -2], "a", [1.5], float("nan"), {}, [[1.0]]):
        check(refused(lambda: new(c, o)), f"{name(c)}:seed-accepted-invalid", f"seed={o!r}")
        b = new(c, 3)
        check(refused(lambda: b.seed(o)), f"{name(c)}:seed-accepted-invalid", f"seed({o!r})")
    if c[0] == "Tyche":
        for o in (-1, 2**32, 2**40):
            check(refused(lambda: new(c, 3, idx=o)), f"{name(c)}:idx-accepted-invalid", o)
# advance by any integer counts modulo the period, and never by a truncated one
for c in CONFIGS:
    if not hasattr(rg.__dict__[c[0]], "advance") or c[0] == "Squares":
        continue
    if c[0] in ("PCG64", "LCG128Mix", "PCG64DXSM"):
        per = 2**128
    elif c[0] == "PCG32":
        per = 2**64
    else:
        continue
    r = random.Random(SEED + 2)
    for _ in range(20):
        d = r.choice([0, 1, 5, 2**64 - 1, 2**64, 2**64 + 1, 2**127, 2**128 - 1, r.getrandbits(128), r.getrandbits(64)])
        t = r.choice([d - per, d + per, d + 5 * per, d - 3 * per, d - 2**70 * per])
        a, b = new(c, 4), new(c, 4)
        a.advance(d)
        b.advance(t)
        check(eqs(a.state, b.state), f"{name(c)}:advance-wrap", f"advance({d}) and advance({t})")
# conversions used by every constructor
try:
    from randomgen.tests._shims import int_to_array_shim, object_to_int_shim
except ImportError:
    int_to_array_shim = None
if int_to_array_shim:
    r = random.Random(SEED + 9)
    for us in (32, 64):
        for nb in (us, 2 * us, 4 * us, 8 * us, 3 * us, None):
            for _ in range(60):
                v = r.choice([0, 1, 2**us - 1, 2**us, r.getrandbits(nb or 300), (2**nb - 1) if nb else 2**290])
                if nb and v >= 2**nb:
                    continue
                a = int_to_array_shim(v, "x", nb, us)
                check(a.dtype == np.dtype(f"uint{us}") and (nb is None or a.shape == (nb // us,)) and sum(int(x) << (us * i) for i, x in enumerate(a)) == v, "int_to_array", lambda: f"{v} {nb} {us}: {a}")
            if nb:
                for v in (-1, 2**nb, 2**nb + 7, 1.5):
                    check(refused(lambda: int_to_array_shim(v, "x", nb, us)), "int_to_array:accepted-invalid", f"{v} {nb} {us}")
                n = nb // us
                for a in ([0] * n, [2**us - 1] * n, [r.getrandbits(us) for _ in range(n)]):
                    check([int(x) for x in int_to_array_shim(a, "x", nb, us)] == a, "int_to_array:array", f"{a}")
                for a in ([0] * (n + 1), [2**us] * n, [-1] * n, [[0] * n]):
                    check(refused(lambda: int_to_array_shim(a, "x", nb, us)), "int_to_array:accepted-invalid", f"{a}")
# random_raw
for c in CONFIGS:
    k = name(c)
    for size in (None, 0, 1, 7, (), (0,), (3,), (2, 3), (4, 0, 2), (2, 1, 3, 2), [2, 2], np.int64(5), 1000):
        a = new(c, 13)
        u32(a)
        b = clone(a, c)
        n = 1 if size is None else int(np.prod(size))
        t = bitgen(b)
        want = [int(t.raw(t.state)) for _ in range(n)]
        x = a.random_raw(size)
        if size is None:
            check(isinstance(x, int) and x == want[0], f"{k}:raw-scalar", f"{x!r} instead of {want[0]}")
        else:
            shp = tuple(size) if isinstance(size, (tuple, list)) else (int(size),)
            check(isinstance(x, np.ndarray) and x.dtype == np.uint64 and x.shape == shp, f"{k}:raw-shape", lambda: f"size {size}: {x.dtype} {x.shape}")
            check(ints(x.ravel()) == want, f"{k}:raw-words", lambda: f"size {size}")
        check(eqs(a.state, b.state), f"{k}:raw-draws", lambda: f"size {size}: not {n} raw draws")
        d = clone(new(c, 13), c)
        d.state = new(c, 13).state
        u32(d)
        check(d.random_raw(size, output=False) is None and eqs(d.state, b.state), f"{k}:raw-no-output", lambda: f"size {size}: not {n} raw draws")
done()
