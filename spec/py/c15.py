"""C15: Squares keys obey the documented digit rules."""
from h import *
from numpy.random import SeedSequence
from randomgen.squares import generate_keys
from randomgen.seed_sequence import ISeedSequence


def rules(key, where):
    w = [(int(key) >> (4 * i)) & 15 for i in range(16)]
    check(w[0] & 1, "word0-even", f"{int(key):#018x} from {where}")
    check(len(set(w[:8])) == 8, "words0-7-repeat", f"{int(key):#018x} from {where}")
    check(0 not in w[:8], "words0-7-zero", f"{int(key):#018x} from {where}")
    check(0 not in w[8:], "words8-15-zero", f"{int(key):#018x} from {where}")
    check(all(w[i] != w[i - 1] for i in range(8, 16)), "word-equals-previous", f"{int(key):#018x} from {where}")


class Stream(ISeedSequence):
    """a seed sequence whose expansion is a given prefix followed by arbitrary words"""

    def __init__(self, prefix, seed):
        self.prefix, self.seed = prefix, seed
        self.reads = []

    def generate_state(self, n, dtype=np.uint32):
        r = random.Random(self.seed)
        out = self.prefix[:n] + [r.getrandbits(64) for _ in range(n - len(self.prefix[:n]))]
        self.reads.append(n)
        return np.array(out, dtype=np.uint64).astype(dtype)


def model(words):
    """the documented procedure on an unbounded word stream (used for streams that exhaust the first expansion)"""
    st = {"w": 0, "loc": 64, "i": 0}

    def refill():
        st["w"], st["loc"] = words(st["i"]), 0
        st["i"] += 1

    refill()

    def gen(n):
        if st["loc"] + n > 64:
            refill()
        o = st["w"] & ((1 << n) - 1)
        st["w"] >>= n
        st["loc"] += n
        return o

    def interval(m):
        if m == 1:
            return 0
        if m == 2:
            return gen(1)
        b = 2 if m < 4 else 3 if m < 8 else 4
        while True:
            o = gen(b)
            if o < m:
                return o

    def key():
        t = list(range(16))
        for i in range(15):
            j = i + interval(16 - i)
            t[i], t[j] = t[j], t[i]
        if not t[0] & 1:
            old = t[0]
            t[0] += 1
            for i in range(1, 8):
                if t[i] == t[0]:
                    t[i] = old
        last = t[7]
        out = t[:8]
        for _ in range(8):
            v = 0
            while v == last or v == 0:
                v = gen(4)
            last = v
            out.append(v)
        return sum(x << (4 * i) for i, x in enumerate(out))

    return key


n = 40 if TIER == "quick" else 1000
r = random.Random(SEED)
for s in [0, 1, 2**32, 2**64 - 1, [1, 2, 3], 2**200] + [r.getrandbits(90) for _ in range(n)]:
    m = r.choice([1, 2, 3, 10, 50, 333])
    ks = generate_keys(s, m)
    check(isinstance(ks, np.ndarray) and ks.dtype == np.uint64 and ks.shape == (m,), "shape", f"{ks.dtype} {ks.shape}")
    for x in ks:
        rules(x, f"generate_keys({s}, {m})")
    check(ks.tolist() == generate_keys(s, m).tolist() == generate_keys(SeedSequence(s), m).tolist(), "not-deterministic", f"generate_keys({s}, {m})")
    k2 = generate_keys(s, m + r.choice([1, 7, 100]))
    check(k2[:m].tolist() == ks.tolist(), "depends-on-count", f"generate_keys({s}, {m}) is not a prefix of a longer request")
    u = generate_keys(s, m, unique=True)
    check(len(set(u.tolist())) == m, "unique-repeats", f"generate_keys({s}, {m}, unique=True)")
    for x in u:
        rules(x, f"generate_keys({s}, {m}, unique=True)")
    for v in (64, 32):
        b = rg.Squares(s, variant=v)
        rules(b.state["state"]["key"], f"Squares({s}, variant={v})")
        check(int(b.state["state"]["key"]) == int(ks[0]), "constructor-key", f"Squares({s}).key is not generate_keys({s})[0]")
        d = rg.Squares(9, variant=v)
        u32(d)
        d.seed(s)
        check(int(d.state["state"]["key"]) == int(ks[0]), "reseed-key", f"seed({s})")
for bad in (0, -1, -5):
    check(refused(lambda: generate_keys(1, bad)), "accepts-no-keys", bad)
# streams that repeat whole keys, and streams that are almost never accepted
for t in range(30 if TIER == "quick" else 300):
    q = r.randint(0, 6)
    pre = []
    for _ in range(q):
        pre += r.choice([[0], [2**64 - 1], [0, 0, 0], [0x1111111111111111], [2**64 - 1] * 4, [0] * 12, [0xFFFF000000000000], [r.getrandbits(64)]])
    sd = r.getrandbits(40)

    def words(i, pre=pre, sd=sd):
        rr = random.Random(sd)
        if i < len(pre):
            return pre[i]
        out = None
        for _ in range(i - len(pre) + 1):
            out = rr.getrandbits(64)
        return out

    for m in (1, 2, 5):
        ks = generate_keys(Stream(pre, sd), m)
        for x in ks:
            rules(x, f"a word stream starting {[hex(p) for p in pre[:6]]}, {m} keys")
        check(generate_keys(Stream(pre, sd), m + 4)[:m].tolist() == ks.tolist() if len(pre) < 8 * m else True, "depends-on-count", f"word stream starting {[hex(p) for p in pre[:6]]}, {m} keys")
        g = model(words)
        want = [g() for _ in range(m)]
        check(ks.tolist() == want, "reads-other-words", lambda: f"word stream starting {[hex(p) for p in pre]}, {m} keys: {[hex(v) for v in ks.tolist()]} instead of {[hex(v) for v in want]}")
# duplicates force new draws: every request is still met with distinct keys
from randomgen import squares as sq  # noqa: E402

r2 = random.Random(SEED + 1)
for t in range(10):
    m = r2.choice([2, 10, 100])
    base = [r2.getrandbits(64) for _ in range(8)]
    # the first words repeat, so that the first keys coincide
    probe = Stream(base, 5)
    u = generate_keys(Stream(base * 6, 5 + t), m, unique=True)
    check(len(set(u.tolist())) == m, "unique-repeats", f"repeating word stream {base}, {m} keys")
    for x in u:
        rules(x, "a repeating word stream")
if hasattr(sq, "_test_sentinal"):
    sq._test_sentinal.set_testing(True)
    for m in (2, 3, 10, 50):
        u = generate_keys(3, m, unique=True)
        check(len(set(u.tolist())) == m, "unique-repeats", f"regeneration, {m} keys")
        for x in u:
            rules(x, "regeneration")
    sq._test_sentinal.set_testing(False)
done()
