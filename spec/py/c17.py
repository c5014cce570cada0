"""C17: UserBitGenerator drives the user's functions and nothing else."""
import gc
import itertools
import weakref

from h import *
from numpy.random import Generator
from randomgen import UserBitGenerator

M32, M64 = 2**32 - 1, 2**64 - 1


class Src:
    """a scripted source that logs the call sequence and the pointer it was given"""

    def __init__(self, bits, kind, seed, edge=True):
        self.r, self.bits, self.kind, self.edge = random.Random(seed), bits, kind, edge
        self.out, self.ptrs = [], []

    def __call__(self, voidp):
        self.ptrs.append(voidp)
        if self.kind == "double":
            v = self.r.random()
        else:
            v = self.r.choice([0, 1, 2**self.bits - 1, 2 ** (self.bits - 1), 1 << 31, 0xFFFFFFFF, 31, 63, 32, 64, self.r.getrandbits(self.bits), self.r.getrandbits(self.bits), self.r.getrandbits(self.bits)])
        self.out.append(v)
        return v


def take(src, n):
    x, src.out[:n] = src.out[:n], []
    assert len(x) == n
    return x


def dbl64(v):
    return (v >> 11) / 9007199254740992.0


def dbl32(a, b):
    return ((a >> 5) * 67108864.0 + (b >> 6)) / 9007199254740992.0


buf = (ctypes.c_uint64 * 4)(1, 2, 3, 4)
r = random.Random(SEED)
for rep in range(2 if TIER == "quick" else 30):
    for bits, w64, w32, wd, st in itertools.product((64, 32), (0, 1), (0, 1), (0, 1), (0, 1)):
        sd = r.getrandbits(40)
        raw = Src(bits, "raw", sd)
        n64 = Src(64, "u64", sd + 1) if w64 else None
        n32 = Src(32, "u32", sd + 2) if w32 else None
        nd = Src(53, "double", sd + 3) if wd else None
        state = ctypes.c_void_p(ctypes.addressof(buf)) if st else None
        cfgs = f"bits={bits}, next_64={bool(w64)}, next_32={bool(w32)}, next_double={bool(wd)}, state={bool(st)}"
        pos = r.random() < 0.3
        b = UserBitGenerator(raw, bits, n64, n32, nd, state) if pos else UserBitGenerator(raw, bits=bits, next_64=n64, next_32=n32, next_double=nd, state=state)
        want_ptr = ctypes.addressof(buf) if st else None
        srcs = [s for s in (raw, n64, n32, nd) if s is not None]
        gc.collect()

        def settle(where):
            for s in srcs:
                check(not s.out, f"{where}:extra-call", lambda: f"{cfgs}: {len(s.out)} values taken from {s.kind} were not delivered")
                s.out.clear()
                check(all(p == want_ptr for p in s.ptrs), f"{where}:state-pointer", lambda: f"{cfgs}: callback got {s.ptrs[:3]}, not {want_ptr}")
                s.ptrs.clear()

        def exp64():
            if n64:
                return take(n64, 1)[0]
            if bits == 64:
                return take(raw, 1)[0]
            a, c = take(raw, 2)
            return a << 32 | c

        def exp32():
            if n32:
                return take(n32, 1)[0]
            if bits == 32:
                return take(raw, 1)[0]
            return take(raw, 1)[0] >> 32

        def expd():
            if nd:
                return take(nd, 1)[0]
            if bits == 64:
                return dbl64(take(raw, 1)[0])
            return dbl32(*take(raw, 2))

        def compare(where, got, exp):
            try:
                w = exp()
            except AssertionError:
                check(False, f"{where}:source", f"{cfgs}: the draw did not come from the user's function")
                w = got
            check(got == w, f"{where}:value", lambda: f"{cfgs}: got {got}, the functions returned {w}")
            settle(where)

        t, c, f = bitgen(b), b.ctypes, None
        try:
            f = b.cffi
        except ImportError:
            pass
        eg = rg.ExtendedGenerator(b)
        npg = Generator(b)
        for i in range(12):
            k = r.randint(0, 12)
            if k == 0:
                compare("capsule-u64", t.u64(t.state), exp64)
            elif k == 1:
                compare("capsule-u32", t.u32(t.state), exp32)
            elif k == 2:
                compare("capsule-double", t.dbl(t.state), expd)
            elif k == 3:
                compare("capsule-raw", t.raw(t.state), lambda: take(raw, 1)[0])
            elif k == 4:
                compare("ctypes-u64", c.next_uint64(c.state), exp64)
            elif k == 5:
                compare("ctypes-u32", c.next_uint32(c.state), exp32)
            elif k == 6:
                compare("ctypes-double", c.next_double(c.state), expd)
            elif k == 7:
                compare("random_raw", int(b.random_raw()), lambda: take(raw, 1)[0])
            elif k == 8:
                n = r.randint(0, 9)
                compare("random_raw-n", b.random_raw(n).tolist(), lambda: take(raw, n))
            elif k == 9 and f is not None:
                which = r.randint(0, 2)
                if which == 0:
                    compare("cffi-u64", f.next_uint64(f.state), exp64)
                elif which == 1:
                    compare("cffi-u32", f.next_uint32(f.state), exp32)
                else:
                    compare("cffi-double", f.next_double(f.state), expd)
            elif k == 10:
                n = r.randint(1, 6)
                w = r.choice((32, 64))
                compare(f"uintegers-{w}", eg.uintegers(n, bits=w).tolist(), lambda: [(exp32 if w == 32 else exp64)() for _ in range(n)])
            elif k == 11:
                n = r.randint(1, 6)
                compare("Generator.random", npg.random(n).tolist(), lambda: [expd() for _ in range(n)])
            else:
                n = r.randint(1, 6)
                b.random_raw(n, output=False)
                compare("random_raw-none", 0, lambda: 0 * len(take(raw, n)))
        # no draws have happened at construction or through the interfaces alone
        fresh = Src(bits, "raw", 1)
        q = UserBitGenerator(fresh, bits)
        q.capsule, q.ctypes
        check(not fresh.out, "construction:extra-call", cfgs)
# the callbacks stay alive with the generator, and only the generator is needed
for bits in (64, 32):
    b = (lambda: UserBitGenerator(Src(bits, "raw", 7), bits, state=ctypes.c_void_p(ctypes.addressof(buf))))()
    gc.collect()
    junk = [ctypes.CFUNCTYPE(ctypes.c_uint64, ctypes.c_void_p)(lambda p: 0xDEAD) for _ in range(200)]
    e = Src(bits, "raw", 7)
    got = b.random_raw(50).tolist()
    check(got == [e(None) for _ in range(50)], "callback-lifetime", f"bits={bits}")
    del junk
# the state property is a pass-through
box = {"v": 1}
obj = [object()]
got = []
b = UserBitGenerator(Src(64, "raw", 1), state_getter=lambda: obj[0], state_setter=got.append)
check(b.state is obj[0], "state-getter", "")
o = object()
b.state = o
check(len(got) == 1 and got[0] is o, "state-setter", "")
for v in (None, 0, {"a": 1}, [1]):
    b.state = v
    check(got[-1] is v, "state-setter", f"{v}")
    obj[0] = v
    check(b.state is v, "state-getter", f"{v}")
for kw, g, s in (({}, 0, 0), ({"state_getter": lambda: 1}, 1, 0), ({"state_setter": lambda v: None}, 0, 1)):
    b = UserBitGenerator(Src(64, "raw", 1), **kw)
    for has, f in ((g, lambda: b.state), (s, lambda: setattr(b, "state", 1))):
        try:
            f()
            ok = bool(has)
        except NotImplementedError:
            ok = not has
        check(ok, "state-missing", f"{list(kw)}")

# exceptions of the state functions reach the caller
class Boom(Exception):
    pass


def boom(*a):
    raise Boom


b = UserBitGenerator(Src(64, "raw", 1), state_getter=boom, state_setter=boom)
for f in (lambda: b.state, lambda: setattr(b, "state", 1)):
    try:
        f()
        check(False, "state-exception", "swallowed")
    except Boom:
        COUNT[0] += 1
# a wrapped generator: every draw equals the original's
for rep in range(5):
    for c in [("PCG64", {}), ("MT19937", {}), ("Philox", {}), ("SFC64", {})]:
        sd = r.getrandbits(30)
        p, q = new(c, sd), new(c, sd)
        wb = 32 if c[0] == "MT19937" else 64

        def gs():
            return p.state

        def ss(v):
            p.state = v

        u = UserBitGenerator(lambda v: int(p.random_raw()), wb, state_getter=gs, state_setter=ss)
        keep = u.state
        n = r.randint(1, 30)
        a = u.random_raw(n).tolist()
        check(a == q.random_raw(n).tolist(), "wrapped-stream", name(c))
        u.state = keep
        check(u.random_raw(n).tolist() == a, "wrapped-state", name(c))
# functions given as ctypes pointers
T64, T32, TD = ctypes.CFUNCTYPE(ctypes.c_uint64, ctypes.c_void_p), ctypes.CFUNCTYPE(ctypes.c_uint32, ctypes.c_void_p), ctypes.CFUNCTYPE(ctypes.c_double, ctypes.c_void_p)
for rep in range(5):
    raw, n64, n32, nd = Src(64, "raw", 1 + rep), Src(64, "u64", 2 + rep), Src(32, "u32", 3 + rep), Src(53, "double", 4 + rep)
    st = ctypes.c_void_p(ctypes.addressof(buf)) if rep % 2 else None
    calls = []
    b = UserBitGenerator.from_ctypes(T64(raw), T64(n64), T32(n32), TD(nd), st, state_getter=lambda: 17, state_setter=calls.append)
    gc.collect()
    t, c = bitgen(b), b.ctypes
    for s, fs in ((raw, [lambda: t.raw(t.state), lambda: int(b.random_raw())]), (n64, [lambda: t.u64(t.state), lambda: c.next_uint64(c.state)]), (n32, [lambda: t.u32(t.state), lambda: c.next_uint32(c.state)]), (nd, [lambda: t.dbl(t.state), lambda: c.next_double(c.state)])):
        for f in fs:
            for _ in range(3):
                v = f()
                check(s.out == [v], "from_ctypes:value", lambda: f"{s.kind}: got {v}, the function returned {s.out}")
                s.out.clear()
                check(s.ptrs == [ctypes.addressof(buf) if st else None], "from_ctypes:state-pointer", lambda: f"{s.kind} {s.ptrs}")
                s.ptrs.clear()
    for s in (raw, n64, n32, nd):
        check(not s.out, "from_ctypes:extra-call", s.kind)
    check(b.state == 17, "from_ctypes:state", "")
    b.state = 5
    check(calls == [5], "from_ctypes:state", "")
good = [T64(lambda p: 1), T64(lambda p: 2), T32(lambda p: 3), TD(lambda p: 0.5)]
for i in range(4):
    for bad in (lambda p: 1, None, good[(i + 2) % 4], ctypes.CFUNCTYPE(ctypes.c_int32, ctypes.c_void_p)(lambda p: 1)):
        a = list(good)
        a[i] = bad
        check(refused(lambda: UserBitGenerator.from_ctypes(*a, None)), "from_ctypes:accepts", f"argument {i}: {bad}")
done()
