"""C09: the distance of a jump, from linear algebra over the real streams and states."""
from h import *
from gf2poly import charpoly, lcm, xpow2

r = random.Random(SEED)
ROUNDS = 4 if TIER == "quick" else 40


def idx(a):
    return np.array([i for i, ch in enumerate(reversed(bin(a)[2:])) if ch == "1"])


def xor(seq, ix):
    return int(np.bitwise_xor.reduce(seq[ix]))


def par(x):
    return int(x).bit_count() & 1


def jumps(b, c):
    """every way to jump once, on copies"""
    out = [("jumped()", b.jumped()), ("jumped(1)", b.jumped(1))]
    d = clone(b, c)
    if hasattr(d, "jump"):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                d.jump()
                out.append(("jump()", d))
            except NotImplementedError:
                pass
    return out


# -- small linear generators: the visible words obey a linear recurrence under single steps
def words(b):
    s = b.state
    if "s" in s:
        return [int(v) for v in s["s"]]
    s = s["state"]
    if "x" in s:
        return [int(v) for v in s["x"]]
    p = int(s["p"])
    k = [int(v) for v in s["s"]]
    return k[p:] + k[:p]


LIN = [(("Xoroshiro128", {}), 128, 64), (("Xoroshiro128", {"plusplus": True}), 128, 64), (("Xoshiro256", {}), 256, 128), (("Xoshiro512", {}), 512, 256), (("Xorshift1024", {}), 1024, 512), (("LXM", {}), 256, 128)]
for c, deg, k in LIN:
    b = new(c, r.getrandbits(60))
    bits = []
    for _ in range(2 * deg + 200):
        bits.append(words(b)[0] >> 11 & 1)
        b.random_raw()
    p, L = charpoly(bits)
    check(L == deg, f"{name(c)}:degree", L)
    ix = idx(xpow2(p, k))
    for t in range(ROUNDS):
        b = new(c, r.getrandbits(60))
        h = history(b, r)
        if t % 2:
            b.random_raw(r.randint(0, 40))
            u32(b)
        js = jumps(b, c)
        q = clone(b, c)
        seq = []
        for _ in range(deg + 1):
            seq.append(words(q))
            q.random_raw()
        nw = len(seq[0])
        cols = [np.array([s[i] for s in seq], dtype=np.uint64) for i in range(nw)]
        want = [xor(cols[i], ix) for i in range(nw)]
        for how, j in js:
            got = words(j)
            check(got == want, f"{name(c)}:distance", f"{how} after {h}: not 2**{k} draws on")
        if c[0] == "LXM":
            for how, j in js:  # 2**128 steps of a 64-bit LCG with full period return to the same state
                check(int(j.state["state"]["lcg_state"]) == int(b.state["state"]["lcg_state"]) and j.state["state"]["b"] == b.state["state"]["b"], "LXM:lcg", h)

# -- SFMT and DSFMT: a step is one 128-bit recursion, counted from the next buffer boundary
for cn, blk, mask in (("SFMT", 312, 2**64 - 1), ("DSFMT", 382, 2**52 - 1)):
    c = (cn, {})
    p = 1
    for sd in range(6):
        o = new(c, sd).random_raw(2 * 40400).astype(np.uint64)
        w = [r.getrandbits(64) & mask for _ in range(2)]
        bits = [par(x & w[0]) ^ par(y & w[1]) for x, y in zip(o[0::2].tolist(), o[1::2].tolist())]
        p = lcm(p, charpoly(bits)[0])
    L = p.bit_length() - 1
    check(19937 <= L <= 20000, f"{cn}:degree", L)
    ix = idx(xpow2(p, 128))
    for t in range(ROUNDS):
        b = new(c, r.getrandbits(60))
        n = r.choice([0, 1, 2, 5, blk - 1, blk, blk + 1, 2 * blk, r.randint(0, 5 * blk)])
        if n:
            b.random_raw(n)
        n32 = r.randint(0, 3)
        for _ in range(n32):
            u32(b)
        js = jumps(b, c)
        s = b.state
        q = clone(b, c)
        used = int(s["buffer_loc"])
        if used < blk:
            q.random_raw(blk - used)
        o = q.random_raw(2 * (L + 18) + 8).astype(np.uint64) & np.uint64(mask)
        if any(xor(o[e::2], idx(p)) for e in (0, 1)):
            continue  # an orbit outside the span of the sampled ones: the modulus does not apply
        want = [xor(o[e::2], ix + d) for d in range(3) for e in (0, 1)]
        for how, j in js:
            got = (j.random_raw(6).astype(np.uint64) & np.uint64(mask)).tolist()
            check(got == want, f"{cn}:distance", f"{how} after {n} draws and {n32} half draws: not 2**128 steps on")

# -- MT19937
c = ("MT19937", {})
o = new(c, 1).random_raw(40200)
p, L = charpoly([int(v) >> 5 & 1 for v in o])
check(L == 19937, "MT19937:degree", L)
ix = idx(xpow2(p, 128))


def ring(b):
    """the 624 words in the order the recurrence replaces them, seen by the jump: from pos, wrapping"""
    s = b.state["state"]
    k, q = [int(v) for v in s["key"]], int(s["pos"]) % 624
    return k[q:] + k[:q]


def extend(w, n):
    w = list(w)
    for i in range(n):
        y = (w[i] & 0x80000000) | (w[i + 1] & 0x7FFFFFFF)
        w.append(w[i + 397] ^ (y >> 1) ^ (0x9908B0DF if y & 1 else 0))
    return np.array(w, dtype=np.uint64)


for t in range(ROUNDS + 2):
    b = new(c, r.getrandbits(60))
    n = [0, 624, 1, 623, 300, 700][t] if t < 6 else r.randint(0, 2000)
    if n:
        b.random_raw(n)
    js = jumps(b, c)
    seq = extend(ring(b), 20600 + 624)
    want = [xor(seq, ix + d) for d in range(624)]
    q = clone(b, c)
    raw = q.random_raw(20000 + 30).astype(np.uint64)
    draws = [xor(raw, ix + d) for d in range(5)]
    for how, j in js:
        got = ring(j)
        got[0] &= 0x80000000
        want[0] &= 0x80000000
        check(got == want, "MT19937:ring-distance", f"{how} after {n} draws")
        x = j.random_raw(5).tolist()
        check(x == draws, "MT19937:draw-distance", f"{how} after {n} draws: the next outputs are {x[:2]}, the outputs 2**128 draws on are {draws[:2]}")

# -- generators that advance: jumped(n) is n times the documented step
PHI128 = 0x9E3779B97F4A7C15F39CC0605CEDC834


def step(c):
    n, kw = c
    if n in ("PCG64", "PCG64DXSM", "LCG128Mix"):
        return PHI128, 2**128
    if n == "PCG32":
        return 0x9E3779B97F4A7C16, 2**64
    if n == "Squares":
        return 11400714819323198485, 2**64
    if n in ("AESCounter", "SPECK128"):
        return 2**64, 2**129
    if n in ("Philox", "ThreeFry"):
        # counted in counter blocks
        return 2 ** (kw["width"] * kw["number"] // 2), 2 ** (kw["width"] * kw["number"])
    return None, None


for c in CONFIGS:
    s, period = step(c)
    if s is None:
        continue
    for t in range(ROUNDS):
        b = new(c, r.getrandbits(60))
        h = history(b, r)
        if t % 2:
            u32(b)
        for n in (1, 2, 3, r.randint(4, 40), 300):
            a = clone(b, c)
            d = s * n % period
            if c[0] in ("Philox", "ThreeFry"):
                st = snap(b.state)
                ctr = st["state"]["counter"]
                w = c[1]["width"]
                v = sum(int(x) << (w * i) for i, x in enumerate(ctr))
                v = (v + d) % period
                for i in range(len(ctr)):
                    ctr[i] = v >> (w * i) & (2**w - 1)
                j = b.jumped(n)
                jc = j.state["state"]["counter"]
                check([int(x) for x in jc] == [int(x) for x in ctr], f"{name(c)}:distance", lambda: f"jumped({n}) after {h}: counter {jc} instead of {ctr}")
                check(eqs(j.state["state"]["key"], st["state"]["key"]), f"{name(c)}:key", h)
                continue
            if c[0] in ("AESCounter", "SPECK128") and n > 3:
                continue
            for q in (1, 2):
                a.advance(d // 2 if q == 1 else d - d // 2)
            j = b.jumped(n)
            check(fut(a, 10, 20) == fut(j, 10, 20), f"{name(c)}:distance", f"jumped({n}) after {h} is not advance({n} * {s:#x})")

# -- jumping n times is jumped(n), in place or not
for c in CONFIGS:
    b = new(c, 3)
    if not hasattr(b, "jumped"):
        continue
    try:
        b.jumped()
    except NotImplementedError:
        continue
    slow = c[0] in ("MT19937", "SFMT", "DSFMT")
    for t in range(2 if slow else ROUNDS):
        b = new(c, r.getrandbits(60))
        h = history(b, r)
        if t % 2:
            u32(b)
        for n in (2, 3) if slow else (2, 3, 7, 20):
            a = b.jumped(n)
            d = b
            for _ in range(n):
                d = d.jumped()
            check(fut(clone(a, c), 10, 700) == fut(clone(d, c), 10, 700), f"{name(c)}:repeated", f"jumped({n}) after {h}")
            m = r.randint(1, n - 1)
            e = b.jumped(m).jumped(n - m)
            check(fut(clone(a, c), 10, 30) == fut(e, 10, 30), f"{name(c)}:split", f"jumped({n}) after {h} is not jumped({m}).jumped({n - m})")
            g = clone(b, c)
            if hasattr(g, "jump"):
                try:
                    g.jump(n)
                    check(fut(clone(a, c), 10, 30) == fut(g, 10, 30), f"{name(c)}:in-place", f"jump({n}) after {h}")
                except NotImplementedError:
                    pass

# -- the larger steps the twisters are jumped by: 16 ** k jumps at once are 16 times 16 ** (k - 1) jumps
for cn in ("SFMT", "DSFMT", "MT19937"):
    c = (cn, {})
    if not hasattr(new(c, 1), "jumped"):
        continue

    def jfut(x):
        if cn == "MT19937":  # the draws of a jumped MT19937 are a recorded finding; its ring is not
            g = ring(x)
            g[0] &= 0x80000000
            return g
        return fut(x, 10, 700)

    for k in range(1, 5):
        b = new(c, r.getrandbits(60))
        n0 = r.choice([0, 1, 100, 624, 1000])
        if n0:
            b.random_raw(n0)
        a = b.jumped(16**k)
        d = b
        for _ in range(16):
            d = d.jumped(16 ** (k - 1))
        check(jfut(clone(a, c)) == jfut(d), f"{cn}:weights", f"jumped({16**k}) is not 16 times jumped({16 ** (k - 1)}) after {n0} draws")
    for t in range(2 if TIER == "quick" else 12):
        b = new(c, r.getrandbits(60))
        n = r.randint(2, 1 << r.randint(2, 18))
        m = r.randint(1, n - 1)
        a, d = b.jumped(n), b.jumped(m).jumped(n - m)
        check(jfut(a) == jfut(d), f"{cn}:split", f"jumped({n}) is not jumped({m}).jumped({n - m})")
done()
