"""C12: equal seed material gives equal streams; reseeding equals a fresh instance."""
from h import *
from numpy.random import SeedSequence

SEEDS = [0, 1, 2**31, 2**32 - 1, 2**32, 2**64 - 1, 2**64, 2**128 + 5, [0], [1, 2, 3], [0, 0, 1], list(range(700)), 123456789012345678901234567890]
KEYED = {"AESCounter": (128, 128), "ChaCha": (256, 128), "HC128": (256, None), "SPECK128": (256, 128), "Squares": (64, 64)}


def keybits(c):
    if c[0] in KEYED:
        kb, cb = KEYED[c[0]]
        if c[0] == "SPECK128" and c[1].get("rounds") == 33:
            return kb, cb
        return kb, cb
    if c[0] in ("Philox", "ThreeFry"):
        n, w = c[1]["number"], c[1]["width"]
        return (n // 2 * w, n * w) if c[0] == "Philox" else (n * w, n * w)
    return None


def same(a, b, key, what):
    x, y = fut(a), fut(b)
    check(x == y, key + ":stream", lambda: f"{what}: {diff(x, y)}")


def ss(s):
    return s if isinstance(s, SeedSequence) else SeedSequence(s)


for c in CONFIGS:
    k = name(c)
    r = random.Random(SEED)
    for i, s in enumerate(SEEDS):
        same(new(c, s), new(c, s), f"{k}:determinism", f"seed {str(s)[:60]}")
        same(new(c, ss(s)), new(c, s), f"{k}:seed-sequence", f"SeedSequence({str(s)[:60]})")
        d = new(c, r.getrandbits(50))
        h = history(d, r)
        if i % 2 == 0:
            u32(d)
            h.append(("u32", 1))
        if i % 3 == 0 and hasattr(d, "jumped"):
            d = d.jumped()
            u32(d)
            h.append(("jumped, u32", 1))
        if i % 4 == 3:
            d.state = new(c, 8).state
            u32(d)
        d.seed(s)
        same(d, new(c, s), f"{k}:reseed", f"seed({str(s)[:60]}) after {h}")
        d.seed(s)
        d.seed(s)
        same(d, new(c, s), f"{k}:reseed-twice", f"seed({str(s)[:60]})")
    # arrays, numpy integers and lists of the same value
    same(new(c, np.uint32(7)), new(c, 7), f"{k}:numpy-int", "np.uint32(7)")
    same(new(c, np.array([5, 6], dtype=np.uint32)), new(c, [5, 6]), f"{k}:array", "uint32 array")
    # different seeds give different streams
    seen = {}
    for s in [0, 1, 2, 2**32, 2**64, 2**96, 5, 6, 7]:
        x = tuple(new(c, s).random_raw(4).tolist())
        check(x not in seen, f"{k}:seeds-collide", f"{s} and {seen.get(x)}")
        seen[x] = s
    # spawned children differ from the parent and from each other, deterministically
    p1, p2 = SeedSequence(9).spawn(3), SeedSequence(9).spawn(3)
    xs = [tuple(new(c, q).random_raw(4).tolist()) for q in p1]
    check(len(set(xs)) == 3 and xs == [tuple(new(c, q).random_raw(4).tolist()) for q in p2], f"{k}:spawn", "")
    # keys
    kb = keybits(c)
    if kb:
        for t in range(6):
            key = r.getrandbits(kb[0]) | 1 if t else 1
            kw = {"key": key}
            if kb[1] and t % 2:
                kw["counter"] = r.getrandbits(kb[1]) if t != 5 else 2 ** kb[1] - 1
            a = getattr(rg, c[0])(None, **dict(c[1], **kw))
            b = getattr(rg, c[0])(None, **dict(c[1], **kw))
            same(a, b, f"{k}:key-determinism", kw)
            d = new(c, 3)
            h = history(d, r)
            u32(d)
            d.seed(**kw)
            same(d, getattr(rg, c[0])(None, **dict(c[1], **kw)), f"{k}:reseed-by-key", f"{kw} after {h}")
            d.seed(5)
            same(d, new(c, 5), f"{k}:reseed-after-key", f"{kw}")
            # array forms of key and counter
            if c[0] != "Squares":
                if kb[0] % 64:
                    continue
                w, dt = 64, np.uint64
                ka = np.array([(key >> (w * q)) & (2**w - 1) for q in range(kb[0] // w)], dtype=dt)
                kw2 = {"key": ka}
                if "counter" in kw:
                    kw2["counter"] = np.array([(kw["counter"] >> (w * q)) & (2**w - 1) for q in range(kb[1] // w)], dtype=dt)
                same(getattr(rg, c[0])(None, **dict(c[1], **kw2)), getattr(rg, c[0])(None, **dict(c[1], **kw)), f"{k}:key-array", kw)
        if kb[1]:
            # counter with a seed
            for ctr in (0, 1, 2**32, 2 ** kb[1] - 1):
                a, b = new(c, 11, counter=ctr), new(c, 11)
                d = new(c, 4)
                history(d, r)
                u32(d)
                d.seed(11, counter=ctr)
                same(d, a, f"{k}:reseed-with-counter", ctr)
                if ctr == 0:
                    same(new(c, 11, counter=0), b, f"{k}:counter-0-is-default", ctr)
    if c[0] in ("PCG64", "PCG32", "LCG128Mix", "PCG64DXSM"):
        for inc in (0, 1, 2, 2**63, 2**64 - 1):
            a = new(c, 21, inc=inc)
            d = new(c, 4)
            u32(d)
            d.seed(21, inc)
            same(d, a, f"{k}:reseed-with-inc", inc)
    if c[0] == "Tyche":
        for idx in (0, 1, 2**32 - 1):
            d = new(c, 4)
            u32(d)
            d.seed(21, idx=idx)
            same(d, new(c, 21, idx=idx), f"{k}:reseed-with-idx", idx)
# numpy-compatible seeding is numpy's stream
for nm in ("MT19937", "PCG64", "Philox", "SFC64"):
    for s in (0, 1, 12345, 2**70, [1, 2, 3]):
        x = getattr(rg, nm)(s, numpy_seed=True).random_raw(1000).tolist()
        y = getattr(np.random, nm)(s).random_raw(1000).tolist()
        check(x == y, f"{nm}:numpy-seed", lambda: f"seed {s}: {diff(x, y)}")
        d = getattr(rg, nm)(77, numpy_seed=True)
        u32(d)
        d.seed(s)
        x = d.random_raw(1000).tolist()
        check(x == y, f"{nm}:numpy-reseed", lambda: f"seed {s}: {diff(x, y)}")
done()
