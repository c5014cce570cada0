"""C19: seed material expands exactly, entropy arrives in full or not at all."""
import subprocess

SHIM = r"""
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <string.h>
#include <sys/types.h>
#include <unistd.h>
int armed, mode, amount, opens, closes, fd_, reads; unsigned char log_[1 << 22]; size_t logn; static unsigned long long x = 88172645463325252ull;
static int is(const char *p) { return armed && p && (!strcmp(p, "/dev/urandom") || !strcmp(p, "/dev/random")); }
static int got(int fd) { if (fd >= 0) { opens++; fd_ = fd; } return fd; }
#define OPEN(N) int N(const char *p, int fl, ...) { static int (*f)(const char *, int, ...); va_list a; mode_t m = 0; if (!f) f = dlsym(RTLD_NEXT, #N); \
  if (fl & O_CREAT) { va_start(a, fl); m = va_arg(a, mode_t); va_end(a); } if (is(p)) { if (mode == 1) { errno = EMFILE; return -1; } return got(f(p, fl, m)); } return f(p, fl, m); }
OPEN(open)
OPEN(open64)
ssize_t read(int fd, void *b, size_t n) {
  static ssize_t (*f)(int, void *, size_t); if (!f) f = dlsym(RTLD_NEXT, "read");
  if (!armed || opens == closes || fd != fd_) return f(fd, b, n);
  reads++;
  if (mode == 2 || (mode == 5 && reads > 1)) { errno = EIO; return -1; }
  size_t k = n; if (mode == 3 || (mode == 5)) k = (size_t)amount < n ? (size_t)amount : n; if (mode == 4) k = 0;
  for (size_t i = 0; i < k; i++) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; ((unsigned char *)b)[i] = (unsigned char)(x >> 24); if (logn < sizeof log_) log_[logn++] = ((unsigned char *)b)[i]; }
  return (ssize_t)k; }
int close(int fd) { static int (*f)(int); if (!f) f = dlsym(RTLD_NEXT, "close"); int r = f(fd); if (armed && opens != closes && fd == fd_) { closes++; if (mode == 6) { errno = EIO; return -1; } } return r; }
"""
import os  # noqa: E402
import sys  # noqa: E402

so = os.path.join(os.getcwd(), "c19shim.so")
if os.environ.get("C19SHIM") is None:
    with open("c19shim.c", "w") as f:
        f.write(SHIM)
    if subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", so, "c19shim.c", "-ldl"], capture_output=True).returncode == 0:
        os.environ.update(C19SHIM=so, LD_PRELOAD=so)
        os.execv(sys.executable, [sys.executable, "-X", "faulthandler"] + sys.argv)
    os.environ["C19SHIM"] = ""
from h import *  # noqa: E402
from randomgen import _seed_sequence as rs  # noqa: E402
from randomgen.entropy import random_entropy, seed_by_array  # noqa: E402
from numpy.random import SeedSequence  # noqa: E402

r = random.Random(SEED)
M = 2**64 - 1
N = 60 if TIER == "quick" else 2000


def sm(s):
    s = (s + 0x9E3779B97F4A7C15) & M
    z = s
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9 & M
    z = (z ^ (z >> 27)) * 0x94D049BB133111EB & M
    return s, z ^ (z >> 31)


def expand(words, n):
    """every seed word is mixed in; the output wraps around when there are more words than outputs"""
    out, s = [0] * n, 0
    for i in range(max(n, len(words))):
        if i < len(words):
            s ^= words[i]
        s, out[i % n] = sm(s)
    return out


def word():
    return r.choice([0, 1, M, 2**63, 2**32, r.getrandbits(64), r.getrandbits(32)])


for t in range(N):
    k = r.choice([None, 1, 2, 3, 4, 5, 8, 17, 300])
    n = r.choice([1, 2, 3, 4, 16, 17, 312, 700])
    ws = [word()] if k is None else [word() for _ in range(k)]
    forms = [ws[0], np.uint64(ws[0]), np.array(ws[0], dtype=np.uint64), np.array([ws[0]], dtype=np.uint64), np.array([[ws[0]]], dtype=object)] if k is None else [ws, tuple(ws), np.array(ws, dtype=np.uint64), np.array(ws, dtype=object), np.array(ws + ws, dtype=np.uint64)[:k], np.array([w for w in ws for _ in (0, 1)], dtype=np.uint64)[::2]]
    e = expand(ws, n)
    for f in forms:
        try:
            x = seed_by_array(f, n)
        except Exception as ex:
            check(False, "seed_by_array:refused", f"{f!r:.200}, {n}: {ex!r}")
            continue
        check(isinstance(x, np.ndarray) and x.dtype == np.uint64 and x.shape == (n,), "seed_by_array:shape", f"{x.dtype} {x.shape}")
        check(x.tolist() == e, "seed_by_array:value", lambda: f"{len(ws)} words {[hex(w) for w in ws[:4]]} to {n}: {[hex(v) for v in x.tolist()[:3]]} instead of {[hex(v) for v in e[:3]]}")
    if n >= len(ws) and not any(k.startswith("seed_by_array:refused") for k in FAILS):
        check(seed_by_array(ws, n + r.randint(1, 50))[:n].tolist() == e, "seed_by_array:prefix", f"{len(ws)} words")
for bad in (-1, 2**64, 2**70, 1.5, -0.5, 1j, [1, -1], [2**64], [1.5], [1, 2**65], [[1, 2], [3, 4]], "a", None, ["a"], [1j], np.array([1.5, 2]), np.array([-1, 2])):
    check(refused(lambda: seed_by_array(bad, 4)), "seed_by_array:accepts", repr(bad))
# the package's seed sequence is numpy's, and its words do not depend on how they are requested
for t in range(N):
    ent = r.choice([0, 1, 2**32 - 1, 2**32, 2**64, r.getrandbits(31), r.getrandbits(128), r.getrandbits(700), [1, 2, 3], [r.getrandbits(32) for _ in range(r.randint(1, 9))], (5, 2**40), np.uint64(2**63), range(3)])
    kw = r.choice([{}, {}, {"spawn_key": (1,)}, {"spawn_key": (0, 3)}, {"pool_size": 8}, {"pool_size": 5, "spawn_key": (2**33,)}, {"n_children_spawned": 3}])
    a, b = rs.SeedSequence(ent, **kw), SeedSequence(ent, **kw)
    w = f"SeedSequence({ent!r:.100}, {kw})"
    for lvl in range(3):
        for d in (np.uint32, np.uint64, "uint32", "uint64"):
            n = r.choice([0, 1, 2, 3, 4, 5, 7, 8, 16, 33, 700])
            x = a.generate_state(n, d)
            check(x.dtype == np.dtype(d) and x.tolist() == b.generate_state(n, d).tolist(), "SeedSequence:value", lambda: f"{w}: {n} words of {d}")
            check(a.generate_state(n + r.randint(1, 20), d)[:n].tolist() == x.tolist(), "SeedSequence:prefix", lambda: f"{w}: {n} words of {d}")
        z = a.generate_state(2 * n)
        check(a.generate_state(n, np.uint64).tolist() == [int(z[2 * i]) | int(z[2 * i + 1]) << 32 for i in range(n)], "SeedSequence:width", w)
        check(np.array_equal(a.pool, b.pool), "SeedSequence:pool", w)
        check(eqs(a.state, b.state), "SeedSequence:state", w)
        k = r.choice([1, 2, 5])
        ca, cb = a.spawn(k), b.spawn(k)
        check(len(ca) == k and all(x.generate_state(6).tolist() == y.generate_state(6).tolist() for x, y in zip(ca, cb)), "SeedSequence:spawn", w)
        check(a.n_children_spawned == b.n_children_spawned, "SeedSequence:spawn", w)
        ca2 = a.spawn(1)
        b.spawn(1)
        check(ca2[0].spawn_key not in [c.spawn_key for c in ca], "SeedSequence:spawn-repeats", w)
        a, b = ca[-1], cb[-1]
for bad in (-1, [-1], 1.5, [1.5], "x", {}):
    check(refused(lambda: rs.SeedSequence(bad)), "SeedSequence:accepts", repr(bad))
for d in (np.int32, np.uint8, float):
    check(refused(lambda: rs.SeedSequence(1).generate_state(4, d)), "SeedSequence:accepts-dtype", d)
check(refused(lambda: rs.SeedlessSeedSequence().generate_state(4)), "Seedless", "")
check(len(rs.SeedlessSeedSequence().spawn(3)) == 3, "Seedless", "")
a = rs.SeedSequence(), rs.SeedSequence()
check(a[0].entropy != a[1].entropy, "SeedSequence:fresh", "")
# seeds agree with the expansion the generator asks for
for c in [("PCG64", {}), ("SFC64", {}), ("Xoshiro256", {}), ("MT19937", {}), ("Squares", {})]:
    for t in range(3):
        e = r.getrandbits(90)
        check(fut(new(c, e), 5, 20) == fut(new(c, SeedSequence(e)), 5, 20), "seed-sequence-types", name(c))

# entropy requests
SIZES = [None, 0, 1, 2, 5, 64, 1000, (), (3,), (3, 4), (2, 0), (2, 3, 4), [2, 2], np.int64(3)]


def shp(s):
    return () if s is None else tuple(int(v) for v in s) if hasattr(s, "__len__") else (int(s),)


def form(x, s, w):
    if s is None:
        check(isinstance(x, (int, np.integer)) and 0 <= x < 2**32, "entropy:scalar", f"{w}: {x!r}")
    else:
        check(isinstance(x, np.ndarray) and x.dtype == np.uint32 and x.shape == shp(s), "entropy:shape", f"{w}: {getattr(x, 'shape', x)}")


for s in SIZES:
    for src in ("system", "fallback", "auto"):
        if isinstance(s, list):
            continue
        try:
            x = random_entropy(s, src)
        except Exception as ex:
            check(False, "entropy:refused", f"size={s} source={src}: {ex!r}")
            continue
        form(x, s, f"size={s} source={src}")
for src in ("system", "fallback", "auto"):
    x = random_entropy(4000, src)
    z = int((x == 0).sum())
    check(z <= (3 if src != "fallback" else 200), "entropy:unfilled", f"{z} of 4000 words are 0 from {src}")
    check(x[-1] != 0 or random_entropy(4000, src)[-1] != 0 or random_entropy(4000, src)[-1] != 0, "entropy:unfilled", f"last word, {src}")
for src in ("system", "auto"):
    check(len(set(random_entropy(1000, src).tolist())) > 990, "entropy:repeats", src)
    check(random_entropy(4, src).tolist() != random_entropy(4, src).tolist(), "entropy:repeats", src)
for bad in ("nope", None, 1, ""):
    check(refused(lambda: random_entropy(3, bad)), "entropy:accepts-source", bad)
for bad in (-1, (2, -1), 1.5, "a"):
    check(refused(lambda: random_entropy(bad)), "entropy:accepts-size", bad)

if os.environ["C19SHIM"]:
    L = ctypes.CDLL(os.environ["C19SHIM"])
    I = {k: ctypes.c_int.in_dll(L, k) for k in ("armed", "mode", "amount", "opens", "closes", "reads")}
    LOGN = ctypes.c_size_t.in_dll(L, "logn")
    LOG = (ctypes.c_ubyte * (1 << 22)).in_dll(L, "log_")

    def nfd():
        return len(os.listdir("/proc/self/fd"))

    NAMES = {0: "works", 1: "open fails", 2: "read fails", 3: "short read", 4: "end of file", 5: "short read, then failure", 6: "close fails"}
    for mode in NAMES:
        for s in SIZES:
            if isinstance(s, list):
                continue
            n = 4
            for v in shp(s):
                n *= v
            for am in sorted({0, 1, 3, 4, n - 4, n - 1, n // 2}) if mode in (3, 5) else [0]:
                if am < 0 or (mode in (3, 5) and am == 0):
                    continue
                for src in ("system", "auto"):
                    w = f"{NAMES[mode]} ({am} of {n} bytes), size={s} source={src}"
                    f0 = nfd()
                    for v in I.values():
                        v.value = 0
                    LOGN.value = 0
                    I["mode"].value, I["amount"].value, I["armed"].value = mode, am, 1
                    x = ex = None
                    with warnings.catch_warnings(record=True) as wn:
                        warnings.simplefilter("always")
                        try:
                            x = random_entropy(s, src)
                        except RuntimeError as e:
                            ex = e
                        except Exception as e:
                            ex = e
                            check(False, "entropy-fault:other-error", f"{w}: {e!r}")
                    I["armed"].value = 0
                    opens, reads = I["opens"].value, I["reads"].value
                    f1 = nfd()
                    check(f1 == f0, "entropy-fault:descriptor-leak", f"{w}: {f1 - f0}")
                    used = opens or mode == 1
                    if not used:
                        continue
                    raw = bytes(LOG[: LOGN.value])
                    whole = len(raw) == n
                    if ex is None:
                        form(x, s, w)
                        same = whole and np.asarray(x, dtype=np.uint32).tobytes() == raw
                        if src == "system":
                            check(same or mode == 1 and not opens and n == 0, "entropy-fault:not-reported", f"{w}: returned {len(raw)} delivered bytes as a full result")
                        else:
                            check(same or any(issubclass(q.category, RuntimeWarning) for q in wn), "entropy-fault:not-reported", f"{w}: no warning, {len(raw)} bytes delivered")
                            if not same and n >= 256:
                                check((np.asarray(x) == 0).mean() < 0.1, "entropy-fault:unfilled", w)
                    else:
                        check(src == "system", "entropy-fault:auto-raises", f"{w}: {ex!r}")
                        check(mode != 0, "entropy:refused", f"{w}: {ex!r}")
done()
