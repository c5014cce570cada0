"""C16: RDRAND reports failure. The instruction is made to fail by setting the number of retries to -1 (no attempt is made)."""
from h import *
from numpy.random import Generator

try:
    rg.RDRAND()
    OK = True
except RuntimeError:
    OK = False
if not OK:
    check(refused(lambda: rg.RDRAND()), "no-hardware", "")
    done()
    sys.exit(0)


def broken(b, on=True):
    s = b.state
    s["retries"] = -1 if on else 10
    b.state = s


def raises(f):
    try:
        f()
    except RuntimeError:
        return True
    except Exception as e:
        return f"{e!r}"
    return False


DRAWS = {"raw": lambda b: b.random_raw(), "raw-n": lambda b: b.random_raw(5), "raw-shape": lambda b: b.random_raw((2, 3)), "raw-none": lambda b: b.random_raw(output=False), "raw-n-none": lambda b: b.random_raw(7, output=False), "raw-shape-none": lambda b: b.random_raw((2, 2), output=False), "raw-1": lambda b: b.random_raw(1)}
BULK = {"random": lambda g, n: g.random(n), "normal": lambda g, n: g.standard_normal(n), "integers": lambda g, n: g.integers(0, 2**64 - 1, n, dtype=np.uint64, endpoint=True), "exp": lambda g, n: g.standard_exponential(n)}
for k in DRAWS:
    for pre in (0, 1, 255, 256, 257, 300):
        b = rg.RDRAND()
        for _ in range(pre):
            u64(b)
        DRAWS[k](b)
        check(b.success is True, "success-flag", f"after a working {k}")
        broken(b)
        x = raises(lambda: DRAWS[k](b))
        check(x is True, f"{k}:failure-not-reported", f"after {pre} buffered draws: {x}")
        check(b.success is False, "failure-flag", f"{k} after {pre} buffered draws")
        for k2 in DRAWS:
            x = raises(lambda: DRAWS[k2](b))
            check(x is True, f"{k2}:failure-not-reported", f"repeated failure, after {k}: {x}")
        check(b.success is False, "failure-flag", "does not stay false")
        b._reset()
        broken(b, False)
        check(b.success is True, "reset", "")
        y = DRAWS[k](b)
for k in BULK:
    for pre in (0, 1, 100, 256, 511):
        b = rg.RDRAND()
        g = Generator(b)
        for _ in range(pre):
            u64(b)
        broken(b)
        # the words left in the buffer were delivered by the hardware; the refill fails
        x = raises(lambda: BULK[k](g, 1200))
        check(x is True, f"{k}:failure-not-reported", f"1200 draws after {pre} buffered draws: {x}")
        check(b.success is False, "failure-flag", f"{k}")
        for _ in range(3):
            raises(lambda: BULK[k](g, 5000))
        b._reset()
        broken(b, False)
        check(raises(lambda: BULK[k](g, 100)) is False, "reset", f"{k}: still failing after reset")
        check(b.success is True, "reset", "")
# the buffer: each word is delivered once, in order
for t in range(5):
    b = rg.RDRAND()
    for i in range(600):
        s = b.state
        loc = int(s["buffer_loc"])
        v = u64(b)
        s2 = b.state
        loc2 = int(s2["buffer_loc"])
        if loc < 256:
            check(v == int(s["buffer"][loc]) and loc2 == loc + 1, "buffer-order", f"word {i}: {v} at {loc}")
        else:
            check(loc2 == 1 and v == int(s2["buffer"][0]), "buffer-refill", f"word {i}: position {loc2}")
            check(len(set(s2["buffer"].tolist())) == 256 and not set(s2["buffer"].tolist()) & set(s["buffer"].tolist()), "buffer-refill", "the refill repeats words")
    v32 = b.state
    loc = int(v32["buffer_loc"])
    x = u32(b)
    check(x == int(v32["buffer"][loc]) & 0xFFFFFFFF, "u32", x)
    loc = int(b.state["buffer_loc"])
    bf = b.state["buffer"]
    d = dbl(b)
    if loc < 256:
        check(d == (int(bf[loc]) >> 11) / 9007199254740992.0, "double", d)
    a = b.random_raw(2000)
    check(len(set(a.tolist())) == 2000, "raw-repeats", "")
    s = b.state
    check(not set(a.tolist()) & set(s["buffer"].tolist()), "raw-buffer-overlap", "")
# fabricated words never leave the interpreter without a report: ctypes draws set the error and the flag
b = rg.RDRAND()
broken(b)
try:
    u64(b)
except (RuntimeError, SystemError):
    pass
check(b.success is False, "failure-flag", "pointer-level draw")
for o in (-1, -5, 2**40, "a", 1.5, None):
    if o == 1.5:
        continue
    check(refused(lambda: rg.RDRAND(retries=o)), "accepts-retries", o)
for o in (0, 1, [1], 2**70):
    check(refused(lambda: rg.RDRAND(o)), "accepts-seed", o)
    check(refused(lambda: rg.RDRAND().seed(o)), "accepts-seed", o)
b = rg.RDRAND(retries=3)
check(b.state["retries"] == 3, "retries", b.state["retries"])
j = b.jumped()
check(j is not b and j.success, "jumped", "")
done()
