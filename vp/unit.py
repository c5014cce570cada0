"""Contracts on C functions: one text, three uses.

A contract is a Python function taking a Kit.  Under SymKit it generates the
proof obligations for *all* inputs from the LLVM IR of the current /repo
source; under NatKit the very same text is evaluated on concrete inputs
against the natively compiled function (counterexample replay, and the bounded
stand-in when the generator meets a construct it cannot express).
"""
import ctypes
import os
import random
import re
import subprocess
import time
from fractions import Fraction
import z3
from .bv import BV, mk, concat, NotConcrete
from . import llir, llsym, gf2
from .tables import table_read
from .llsym import Unsupported, Ptr, Fl, OutOfBounds, PathDead

REPO = os.environ.get("VP_REPO", "/repo")
SRC = REPO + "/randomgen/src/"
BASEFLAGS = ["-std=c99", "-U__GNUC_GNU_INLINE__", "-msse2", "-DNPY_NO_DEPRECATED_API=NPY_1_7_API_VERSION", "-DNDEBUG", "-ffp-contract=off"]


class BuildError(Exception):
    pass


REGISTRY = {}
RANGES = {}  # sampling ranges of the variables of the contract being executed


class TU:
    def __init__(self, name, includes, protos, structs=None, flags=(), pre="", post="", consts=()):
        self.name, self.includes, self.flags, self.pre, self.post = name, includes, list(flags), pre, post
        self.protos = {}
        for p in protos:
            m = re.match(r"\s*(.*?[\s\*])(\w+)\s*\((.*)\)\s*$", p, re.S)
            ret, fn, ps = m.group(1).strip(), m.group(2), m.group(3).strip()
            params = []
            if ps and ps != "void":
                for q in ps.split(","):
                    m2 = re.match(r"\s*(.*?[\s\*])(\w+)\s*(\[\w*\])?\s*$", q)
                    t = m2.group(1).strip()
                    if m2.group(3):
                        t += " *"
                    params.append((t, m2.group(2)))
            self.protos[fn] = (ret, params)
        self.structs = structs or {}
        self.consts = list(consts)
        self.missing = set()  # functions the current source no longer has (their contracts are reported unbuildable)
        self._mod = None
        self._lib = None
        REGISTRY[name] = self

    W128 = ("__uint128_t", "pcg128_t", "unsigned __int128", "pcg64_uint128")

    def csource(self):
        o = ["#include <stddef.h>", "#include <stdint.h>", self.pre]
        for i in self.includes:
            o.append(f'#include "{SRC}{i}"')
        o.append(self.post)
        for fn, (ret, params) in self.protos.items():
            if fn in self.missing:
                continue
            ps, call = [], []
            for t, n in params:
                if t in self.W128:
                    ps += [f"uint64_t {n}_hi", f"uint64_t {n}_lo"]
                    call.append(f"((((unsigned __int128){n}_hi) << 64) | {n}_lo)")
                else:
                    ps.append(f"{t} {n}")
                    call.append(n)
            c = f"{fn}({', '.join(call)})"
            if ret in self.W128:
                ps.append("uint64_t *vp_out")
                o.append(
                    f"void vp_{fn}({', '.join(ps)}) {{ unsigned __int128 r = {c}; vp_out[0] = (uint64_t)r; vp_out[1] = (uint64_t)(r >> 64); }}"
                )
            else:
                o.append(f"{ret} vp_{fn}({', '.join(ps) or 'void'}) {{ {'' if ret == 'void' else 'return '}{c}; }}")
        for i, (st, fields) in enumerate(self.structs.items()):
            o.append(f"const unsigned long vpsz_{i} = sizeof({st});")
            for j, f in enumerate(fields):
                o.append(f"const unsigned long vpof_{i}_{j} = offsetof({st}, {f});")
                o.append(f"const unsigned long vpfs_{i}_{j} = sizeof((({st}*)0)->{f});")
        for i, c in enumerate(self.consts):
            o.append(f"const unsigned long long vpk_{i} = (unsigned long long)({c});")
        return "\n".join(o) + "\n"

    def paths(self, scratch):
        return os.path.join(scratch, self.name)

    def compile_ir(self, scratch):
        b = self.paths(scratch)
        if os.path.exists(b + ".ll"):
            return b
        if os.path.exists(b + ".irerr"):
            raise BuildError("clang: " + open(b + ".irerr").read())
        t = f"{b}.{os.getpid()}"
        with open(b + ".c.tmp", "w") as f:
            f.write(self.csource())
        os.rename(b + ".c.tmp", b + ".c")
        cmd = ["clang"] + BASEFLAGS + self.flags + [
            "-O1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-w", "-S", "-emit-llvm", b + ".c", "-o", t + ".ll",
        ]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            gone = set(re.findall(r"undeclared (?:function|identifier) '(\w+)'", r.stderr)) & set(self.protos) - self.missing
            if gone:
                self.missing |= gone
                return self.compile_ir(scratch)
            with open(b + ".irerr", "w") as f:
                f.write(r.stderr[:2000])
            raise BuildError("clang: " + r.stderr[:2000])
        os.rename(t + ".ll", b + ".ll")
        return b

    def build_ir(self, scratch):
        if self._mod is not None:
            return self._mod
        b = self.compile_ir(scratch)
        self._mod = llir.parse_module(open(b + ".ll").read())
        self._layout()
        return self._mod

    def _layout(self):
        g = self._mod.globals
        self.lay = {}
        for i, (st, fields) in enumerate(self.structs.items()):
            d = {}
            for j, f in enumerate(fields):
                d[f] = (g[f"vpof_{i}_{j}"][2], g[f"vpfs_{i}_{j}"][2])
                d[f] = tuple(x[1] if x[0] == "int" else 0 for x in d[f])
            sz = g[f"vpsz_{i}"][2]
            self.lay[st] = (sz[1] if sz[0] == "int" else 0, d)
        self.k = {}
        for i, c in enumerate(self.consts):
            v = g[f"vpk_{i}"][2]
            self.k[c] = (v[1] if v[0] == "int" else 0) & (2**64 - 1)

    def build_native(self, scratch, sanitize=False):
        b = self.paths(scratch)
        if not os.path.exists(b + ".c"):
            with open(b + ".c", "w") as f:
                f.write(self.csource())
        so = b + ("_san.so" if sanitize else ".so")
        if not os.path.exists(so):
            opt = ["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize=alignment", "-fno-sanitize-recover=undefined"] if sanitize else ["-O2", "-fno-strict-aliasing"]
            tmp = f"{so}.{os.getpid()}"
            cmd = ["gcc"] + BASEFLAGS + self.flags + opt + ["-w", "-fPIC", "-shared", b + ".c", "-o", tmp]
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode:
                raise BuildError("gcc: " + r.stderr[:2000])
            os.rename(tmp, so)
        return so

    def lib(self, scratch, sanitize=False):
        if self._lib is None:
            self._lib = ctypes.CDLL(self.build_native(scratch, sanitize))
        return self._lib


# ---------------------------------------------------------------------------
class ObjBase:
    def __init__(self, kit, name, ctype, fields):
        self.kit, self.name, self.ctype = kit, name, ctype
        self.lay = {}
        size, lay = kit.tu.lay[ctype]
        self.size = size
        for f, w in fields.items():
            off, fs = lay[f]
            if fs % (w // 8):
                raise BuildError(f"layout of {f}")
            self.lay[f] = (off, w, fs // (w // 8))
        self.old = {}


class Kit:
    """common interface"""

    symbolic = False

    def __init__(self, tu, case):
        self.tu = tu
        self.case = case or {}

    def obj(self, name, ctype, fields, ptrs=None, **init):
        o = ObjBase(self, name, ctype, fields)
        o.ptrs = ptrs or {}
        for f, (off, w, n) in o.lay.items():
            v = init.get(f)
            if v is None:
                v = [self.word(f"{name}.{f}" + (f"[{i}]" if n > 1 else ""), w) for i in range(n)]
            elif isinstance(v, (BV, int)):
                v = [v]
            v = [BV(w, x) if isinstance(x, int) else x for x in v]
            if len(v) != n:
                raise BuildError(f"field {f} has {n} elements, contract gives {len(v)}")
            o.old[f] = v
        self._make(o)
        for f, tgt in o.ptrs.items():
            self._setptr(o, f, tgt)
        return o

    def array(self, name, w, n, init=None, pad=0):
        """array of n words of width w"""
        o = ObjBase.__new__(ObjBase)
        o.kit, o.name, o.ctype = self, name, None
        o.size = (w // 8) * n
        o.lay = {"a": (0, w, n)}
        v = init
        if v is None:
            v = [self.word(f"{name}[{i}]", w) for i in range(n)]
        v = [BV(w, x) if isinstance(x, int) else x for x in v]
        o.old = {"a": v}
        self._make(o)
        return o

    def glob(self, name, w, n=1, init=None):
        """a global variable of the translation unit as an object (n words of width w)"""
        o = ObjBase.__new__(ObjBase)
        o.kit, o.name, o.ctype = self, name, None
        o.size = (w // 8) * n
        o.lay = {"a": (0, w, n)}
        v = init
        if v is None:
            v = [self.word(name + (f"[{i}]" if n > 1 else ""), w) for i in range(n)]
        elif isinstance(v, (int, BV)):
            v = [v]
        o.old = {"a": [BV(w, x) if isinstance(x, int) else x for x in v]}
        self._glob(o)
        return o

    def select(self, cells, idx):
        """cells[idx], idx known to be in range (len(cells) a power of two = 2**idx.w)"""
        assert len(cells) == 1 << idx.w
        if idx.conc:
            return cells[idx.v]
        return table_read(cells, idx)

    def at(self, cells, idx):
        """cells[idx] for an index in range"""
        if idx.conc:
            return cells[idx.v]
        cells = list(cells)[: self.ex.reach(idx.z(), len(cells)) + 1]
        n = (len(cells) - 1).bit_length()
        return self.select(cells + [cells[-1]] * ((1 << n) - len(cells)), idx.trunc(n))

    def post(self, o, expect=None, prefix=None, unchanged=True, skip=()):
        """final value of every field of o: as given in `expect`, otherwise unchanged"""
        expect = expect or {}
        prefix = prefix if prefix is not None else o.name
        for f, (off, w, n) in o.lay.items():
            if f in skip:
                continue
            e = expect.get(f)
            if e is None:
                if not unchanged:
                    continue
                e = o.old[f]
            elif isinstance(e, (BV, int)):
                e = [e]
            now = self.now(o, f)
            for i in range(n):
                if e[i] is None:
                    continue
                x = e[i] if isinstance(e[i], BV) else BV(w, e[i])
                self.same(f"{prefix}.{f}" + (f"[{i}]" if n > 1 else ""), now[i], x)
        for f, tgt in getattr(o, "ptrs", {}).items():
            self.ensure(f"{prefix}.{f} still points to {tgt.name}", BV(1, int(self._ptris(o, f, tgt))))

    def ensure(self, name, cond):
        raise NotImplementedError

    def same(self, name, a, b):
        b = b if isinstance(b, BV) else BV(a.w, b)
        self.ensure(name, a.eq(b), pair=(a, b))


class SymKit(Kit):
    symbolic = True

    def __init__(self, tu, case, scratch, externals=None):
        super().__init__(tu, case)
        self.ex = llsym.Exec(tu.build_ir(scratch), externals)
        self.vars = {}
        self.goals = []  # (name, pc, cond, pair)
        self.assume = []
        self.assigns = None

    def word(self, name, w, lo=None, hi=None):
        if name in self.case:
            return BV(w, self.case[name])
        v = BV(w, z3.BitVec(name, w))
        self.vars[name] = w
        if lo or hi is not None:
            RANGES[name] = (lo or 0, hi if hi is not None else (1 << w) - 1)
        else:
            RANGES.pop(name, None)
        if lo:
            self.requires(~v.ult(lo))
        if hi is not None:
            self.requires(~BV(w, hi).ult(v))
        return v

    def requires(self, c):
        if c.conc:
            if not c.v:
                raise Vacuous("contradictory precondition")
            return
        self.assume.append(c.b())
        self.ex.pc.append(c.b())

    def _make(self, o):
        p = self.ex.new_obj(o.name, o.size)
        o.ptr = p
        cells = self.ex.mem.objs[p.obj]
        for f, (off, w, n) in o.lay.items():
            for i in range(n):
                cells[off + i * (w // 8)] = (w // 8, o.old[f][i])

    def _glob(self, o):
        g = "@" + o.name
        if g not in self.ex.mem.objs:
            raise Unsupported("no global " + o.name)
        self.ex.globals_init.pop(g, None)
        o.ptr = Ptr(g)
        cells = self.ex.mem.objs[g]
        cells.clear()
        off, w, n = o.lay["a"]
        for i in range(n):
            cells[off + i * (w // 8)] = (w // 8, o.old["a"][i])

    def _setptr(self, o, f, tgt):
        off = self.tu.lay[o.ctype][1][f][0]
        self.ex.mem.objs[o.ptr.obj][off] = (8, tgt.ptr)

    def _ptris(self, o, f, tgt):
        off = self.tu.lay[o.ctype][1][f][0]
        p = self.ex.load(self.ex.mem, ("ptr",), o.ptr.add(off))
        return isinstance(p, Ptr) and p.same(tgt.ptr)

    def now(self, o, f):
        off, w, n = o.lay[f]
        return [self.ex.load(self.ex.mem, ("i", w), o.ptr.add(off + i * (w // 8))) for i in range(n)]

    def ptr(self, o, f=None, idx=0):
        if f is None:
            return o.ptr
        off, w, n = o.lay[f]
        return o.ptr.add(off + idx * (w // 8))

    def call(self, fn, *args):
        if fn in self.tu.missing:
            raise BuildError(f"function {fn} is not in the current source")
        ret, params = self.tu.protos[fn]
        a = []
        for (t, n), v in zip(params, args):
            if isinstance(v, ObjBase):
                v = v.ptr
            if isinstance(v, int):
                v = BV(WIDTH.get(t, 64), v)
            if t in TU.W128:
                a += [v.extract(127, 64), v.extract(63, 0)]
            else:
                a.append(v)
        if ret in TU.W128:
            out = self.ex.new_obj("$ret", 16)
            a.append(out)
        r, mem = self.ex.call("vp_" + fn, a, self.ex.mem)
        self.ex.mem = mem
        if ret in TU.W128:
            return self.ex.load(mem, ("i", 128), out)
        return r

    def linear(self, name, now, old, M):
        """now == M*old over GF(2), old being distinct symbolic words"""
        idx = {}
        for i, x in enumerate(old):
            idx[x.z().decl().name()] = i * x.w
        rows = gf2.linear_map([x.z() for x in now], idx)
        got = [r for word in rows for r in word]
        ok = got == M
        if not ok:  # witness: a unit vector on which they differ
            bad = [i for i in range(len(M)) if got[i] != M[i]][0]
            j = (got[bad] ^ M[bad]).bit_length() - 1
            w = old[0].w
            vals = {x.z().decl().name(): ((1 << (j - i * w)) if 0 <= j - i * w < w else 0) for i, x in enumerate(old)}
            self.goals.append((name, [], BV(1, 0), ("witness", vals)))
        else:
            self.goals.append((name, [], BV(1, 1), ("linear", None)))

    def override(self, fn, f):
        """use the contract `f(kit, args)` of callee `fn` at call sites"""
        self.ex.over[fn] = lambda ex, st, args: f(self, st, args)

    def ensure(self, name, cond, pair=None):
        self.goals.append((name, list(self.ex.pc), cond, pair))

    def double(self, name, r, mant, exp):
        """r (double) is exactly mant * 2^exp"""
        if not isinstance(r, Fl):
            raise Unsupported("not a float")
        if r.c is not None:
            m, e = llsym.fl_dy(r)
            r = Fl(mant=BV(64, m), exp=e, mx=m)
        e = min(r.exp, exp)
        a, b = r.mant << (r.exp - e), mant.to(64) << (exp - e)
        self.same(name, a, b)

    def double_unit(self, name, r):
        """0 <= r < 1"""
        if r.c is not None:
            self.ensure(name, BV(1, int(0 <= Fraction(*frac(llsym.fl_dy(r))) < 1)))
            return
        if not r.mant.conc and llsym.umax_bits(r.mant.z()) <= -r.exp:
            return self.ensure(name, BV(1, 1))  # by its leading zero bits
        self.ensure(name, r.mant.ult(BV(64, 1 << (-r.exp))))

    def double_bits(self, r):
        raise Unsupported("double bits")

    def frame(self, *objs):
        ok = {o.ptr.obj for o in objs}
        bad = [w for w in self.ex.written if w not in ok and not w.startswith("%") and not w.startswith("$")]
        self.ensure("frame:assigns-only-listed-objects" + (":" + ",".join(bad) if bad else ""), BV(1, int(not bad)))


def frac(me):
    m, e = me
    f = Fraction(m) * Fraction(2) ** e
    return f.numerator, f.denominator


WIDTH = {"int": 32, "uint32_t": 32, "uint64_t": 64, "size_t": 64, "unsigned int": 32, "uint8_t": 8, "int32_t": 32, "long": 64, "unsigned": 32, "bool": 8}


class Vacuous(Exception):
    pass


class Reject(Exception):
    pass


class NatKit(Kit):
    """concrete evaluation against the native library"""

    def __init__(self, tu, case, scratch, values=None, rng=None, sanitize=False):
        super().__init__(tu, case)
        self.libr = tu.lib(scratch, sanitize)
        self.values = values if values is not None else {}
        self.rng = rng
        self.used = {}
        self.failures = []
        self.checked = 0
        self.keep = []

    def word(self, name, w, lo=None, hi=None):
        if name in self.case:
            return BV(w, self.case[name])
        if name in self.values:
            v = self.values[name]
        elif self.rng is not None:
            v = draw(self.rng, w, lo, hi)
        else:
            v = lo or 0
        self.used[name] = v
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Reject()
        return BV(w, v)

    def requires(self, c):
        if not c.v:
            raise Reject()

    def _make(self, o):
        raw = ctypes.create_string_buffer(o.size + 64 + 64)
        base = ctypes.addressof(raw)
        al = (base + 63) // 64 * 64
        self.keep.append(raw)
        o.addr = al
        rnd = self.rng or random.Random(0)
        ctypes.memset(al, 0xA5, o.size)
        for f, (off, w, n) in o.lay.items():
            for i in range(n):
                ctypes.memmove(al + off + i * (w // 8), o.old[f][i].int().to_bytes(w // 8, "little"), w // 8)

    def _glob(self, o):
        try:
            t = (ctypes.c_ubyte * o.size).in_dll(self.libr, o.name)
        except ValueError as e:
            raise BuildError(str(e))
        self.keep.append(t)
        o.addr = ctypes.addressof(t)
        off, w, n = o.lay["a"]
        for i in range(n):
            ctypes.memmove(o.addr + i * (w // 8), o.old["a"][i].int().to_bytes(w // 8, "little"), w // 8)

    def _setptr(self, o, f, tgt):
        off = self.tu.lay[o.ctype][1][f][0]
        ctypes.memmove(o.addr + off, tgt.addr.to_bytes(8, "little"), 8)

    def _ptris(self, o, f, tgt):
        off = self.tu.lay[o.ctype][1][f][0]
        return int.from_bytes(ctypes.string_at(o.addr + off, 8), "little") == tgt.addr

    def now(self, o, f):
        off, w, n = o.lay[f]
        b = w // 8
        raw = ctypes.string_at(o.addr + off, b * n)
        return [BV(w, int.from_bytes(raw[i * b : (i + 1) * b], "little")) for i in range(n)]

    def ptr(self, o, f=None, idx=0):
        if f is None:
            return o.addr
        off, w, n = o.lay[f]
        return o.addr + off + idx * (w // 8)

    def call(self, fn, *args):
        if fn in self.tu.missing:
            raise BuildError(f"function {fn} is not in the current source")
        ret, params = self.tu.protos[fn]
        c = getattr(self.libr, "vp_" + fn)
        a = []
        for (t, n), v in zip(params, args):
            if isinstance(v, ObjBase):
                a.append(ctypes.c_void_p(v.addr))
            elif "*" in t:
                a.append(ctypes.c_void_p(v))
            elif isinstance(v, BV):
                if t in TU.W128:
                    a += [ctypes.c_uint64(v.v >> 64), ctypes.c_uint64(v.v & (2**64 - 1))]
                else:
                    w = WIDTH.get(t, v.w)
                    a.append({8: ctypes.c_uint8, 32: ctypes.c_uint32, 64: ctypes.c_uint64}[w](v.v))
            else:
                w = WIDTH.get(t, 64)
                a.append({8: ctypes.c_uint8, 32: ctypes.c_uint32, 64: ctypes.c_uint64}[w](v))
        out = None
        if ret in TU.W128:
            out = (ctypes.c_uint64 * 2)()
            a.append(ctypes.byref(out))
            c.restype = None
        elif ret == "void":
            c.restype = None
        elif ret == "double":
            c.restype = ctypes.c_double
        elif "*" in ret:
            c.restype = ctypes.c_void_p
        else:
            w = WIDTH.get(ret, 64)
            c.restype = {8: ctypes.c_uint8, 32: ctypes.c_uint32, 64: ctypes.c_uint64}[w]
        r = c(*a)
        if out is not None:
            return BV(128, out[0] | (out[1] << 64))
        if ret == "void" or ret == "double" or "*" in ret:
            return r
        return BV(WIDTH.get(ret, 64), r)

    def override(self, fn, f):
        pass

    def linear(self, name, now, old, M):
        w = old[0].w
        want = gf2.mat_apply(M, gf2.words_to_bits([x.v for x in old], w))
        got = gf2.words_to_bits([x.v for x in now], w)
        self.checked += 1
        if want != got:
            self.failures.append((name, [hex(got), hex(want)]))

    def ensure(self, name, cond, pair=None):
        self.checked += 1
        if not cond.v:
            self.failures.append((name, [hex(x.v) for x in pair] if pair else None))

    def double(self, name, r, mant, exp):
        want = Fraction(mant.int()) * Fraction(2) ** exp
        self.checked += 1
        if Fraction(r) != want:
            self.failures.append((name, [repr(r), repr(float(want))]))

    def double_unit(self, name, r):
        self.checked += 1
        if not (0.0 <= r < 1.0):
            self.failures.append((name, [repr(r)]))

    def frame(self, *objs):
        pass


def draw(rng, w, lo=None, hi=None):
    lo = lo or 0
    hi = (1 << w) - 1 if hi is None else hi
    k = rng.random()
    if k < 0.45:
        return rng.randint(lo, hi)
    if k < 0.6:
        v = rng.choice([0, 1, 2, 3, (1 << w) - 1, (1 << w) - 2, 1 << (w - 1), (1 << (w - 1)) - 1])
    elif k < 0.75:
        v = rng.getrandbits(rng.randint(1, w))
    elif k < 0.85:
        v = 1 << rng.randrange(w)
    elif k < 0.95:
        v = ((1 << w) - 1) ^ rng.getrandbits(rng.randint(1, w))
    else:
        v = rng.choice([lo, hi])
    if lo <= v <= hi:
        return v
    return rng.randint(lo, hi)


# ---------------------------------------------------------------------------
# discharging


def simp(e):
    return z3.simplify(e, bv_sort_ac=True, blast_distinct=False)


_mulcache = {}


def _fresh(kind, x, vs, ufs):
    key = (kind, x.size(), tuple(t.get_id() for t in vs))
    if key not in ufs:
        ufs[key] = (z3.BitVec(f"mul!{len(ufs)}", x.size()), vs)
    return ufs[key][0]


def abstract_mul(e, cache, ufs, fresh=False):
    """replace every nonlinear/wide multiplication by an uninterpreted function (sound for proving)"""
    stack = [(e, False)]
    while stack:
        x, ready = stack.pop()
        i = x.get_id()
        if i in cache:
            continue
        ch = x.children()
        if not ready:
            stack.append((x, True))
            for c in ch:
                if c.get_id() not in cache:
                    stack.append((c, False))
            continue
        nc = [cache[c.get_id()][0] for c in ch]
        if not ch:
            r = x
        elif x.decl().kind() in (z3.Z3_OP_BMUL,) and x.size() >= 8 and not _sparse(x):
            w = x.size()
            f = None if fresh else ufs.setdefault(("mul", w), z3.Function(f"umul{w}", z3.BitVecSort(w), z3.BitVecSort(w), z3.BitVecSort(w)))
            vs = sorted(nc, key=lambda t: t.get_id())
            if fresh:
                r = _fresh("mul", x, vs, ufs)
            else:
                r = vs[0]
                for t in vs[1:]:
                    r = f(r, t)
        elif x.decl().kind() in (z3.Z3_OP_BUREM, z3.Z3_OP_BUDIV, z3.Z3_OP_BUREM_I, z3.Z3_OP_BUDIV_I):
            w = x.size()
            if fresh:
                r = _fresh(x.decl().name(), x, nc, ufs)
            else:
                f = ufs.setdefault((x.decl().name(), w), z3.Function(f"u{x.decl().name()}{w}", z3.BitVecSort(w), z3.BitVecSort(w), z3.BitVecSort(w)))
                r = f(*nc)
        else:
            if all(a is b or a.eq(b) for a, b in zip(nc, ch)):
                r = x
            elif z3.is_and(x):
                r = z3.And(nc)
            elif z3.is_or(x):
                r = z3.Or(nc)
            else:
                k = x.decl().kind()
                if k == z3.Z3_OP_BADD:
                    r = nc[0]
                    for t in nc[1:]:
                        r = r + t
                elif k == z3.Z3_OP_BXOR:
                    r = nc[0]
                    for t in nc[1:]:
                        r = r ^ t
                elif k == z3.Z3_OP_BOR:
                    r = nc[0]
                    for t in nc[1:]:
                        r = r | t
                elif k == z3.Z3_OP_BAND:
                    r = nc[0]
                    for t in nc[1:]:
                        r = r & t
                elif k == z3.Z3_OP_CONCAT:
                    r = z3.Concat(nc)
                else:
                    r = x.decl()(*nc)
        cache[i] = (r, x)
    return cache[e.get_id()][0]


def _sparse(x):
    """product with a constant of few set bits: a shift-and-add"""
    c = [y for y in x.children() if z3.is_bv_value(y)]
    if x.num_args() != 2 or len(c) != 1:
        return False
    v = c[0].as_long()
    n = (1 << x.size()) - v
    return bin(v).count("1") <= 3 or bin(n).count("1") <= 2


def has_mul(e):
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            k = x.decl().kind()
            if k == z3.Z3_OP_BMUL and x.size() >= 16 and not _sparse(x):
                return True
            if k in (z3.Z3_OP_BUREM, z3.Z3_OP_BUDIV):
                return True
            st.extend(x.children())
    return False


class Result:
    def __init__(self, name, status, how="", model=None, t=0.0):
        self.name, self.status, self.how, self.model, self.t = name, status, how, model, t


def discharge(name, pc, cond, pair=None, timeout=20000, sweepers=None):
    """prove pc => cond.  status: proved / refuted(model) / unknown"""
    t0 = time.time()
    if pair is not None and isinstance(pair[0], str):
        if pair[0] == "witness":
            return Result(name, "refuted", "GF(2) linear algebra", pair[1])
        return Result(name, "proved", "GF(2) linear algebra")
    if cond.conc and cond.v:
        return Result(name, "proved", "evaluation", t=0.0)
    pcs = [c for c in (pc or [])]
    swept = False
    if pair is not None and not cond.conc:
        a, b = pair
        ra, rb = a.z(), b.z()
        if ra.eq(rb):
            return Result(name, "proved", "identity", t=time.time() - t0)
        if sweepers and "lin" in sweepers and sweepers["lin"].equal(ra, rb):
            return Result(name, "proved", "GF(2) normal form", t=time.time() - t0)
        raw = goal = ra == rb
        big = not _trivial_size(goal, 60)
        if big:
            from .sweep import Sweeper

            swept = True
            sweepers = {} if sweepers is None else sweepers
            key = tuple(p.get_id() for p in pcs)
            if key not in sweepers:
                sweepers[key] = Sweeper(pcs, tlimit=max(30.0, timeout / 1000.0))
            sw = sweepers[key]
            if sw.prove_equal(ra, rb):
                return Result(name, "proved", "sweeping (z3 cut-point equalities)", t=time.time() - t0)
            if sw.model is not None:
                return Result(name, "refuted", "evaluation of the generated terms", sw.model, time.time() - t0)
        if not big or not has_mul(goal):
            sa, sb = simp(ra), simp(rb)
            if sa.eq(sb):
                return Result(name, "proved", "rewriting", t=time.time() - t0)
            goal = sa == sb
    else:
        raw = goal = cond.zb()
        if _trivial_size(goal, 400):
            goal = simp(goal)
        if z3.is_true(goal):
            return Result(name, "proved", "rewriting", t=time.time() - t0)
    hm = has_mul(raw) or any(has_mul(c) for c in pcs)
    if hm:
        cache, ufs = {}, {}
        s = z3.SolverFor("QF_BV")
        s.set("timeout", timeout // 4)
        for c in pcs:
            s.add(abstract_mul(c, cache, ufs, True))
        s.add(z3.Not(abstract_mul(raw, cache, ufs, True)))
        if s.check() == z3.unsat:
            return Result(name, "proved", "z3 QF_BV (products opaque)", t=time.time() - t0)
        cache, ufs = {}, {}
        s = z3.Solver()
        s.set("timeout", timeout // 2)
        for c in pcs:
            s.add(abstract_mul(c, cache, ufs))
        s.add(z3.Not(abstract_mul(goal, cache, ufs)))
        if s.check() == z3.unsat:
            return Result(name, "proved", "z3 (multiplication uninterpreted)", t=time.time() - t0)
    if pair is not None and not cond.conc and not swept and hm:
        from .sweep import Sweeper

        sw = Sweeper(pcs, tlimit=max(30.0, timeout / 1000.0))
        if sw.prove_equal(ra, rb):
            return Result(name, "proved", "sweeping (z3 cut-point equalities)", t=time.time() - t0)
        if sw.model is not None:
            return Result(name, "refuted", "evaluation of the generated terms", sw.model, time.time() - t0)
    s = z3.SolverFor("QF_BV") if not _has_uf(goal) and not any(_has_uf(c) for c in pcs) else z3.Solver()
    s.set("timeout", timeout)
    for c in pcs:
        s.add(c)
    s.add(z3.Not(goal))
    r = s.check()
    if r == z3.unsat:
        return Result(name, "proved", "z3 QF_BV", t=time.time() - t0)
    if r == z3.sat:
        m = s.model()
        vals = {}
        for d in m.decls():
            v = m[d]
            if z3.is_bv_value(v):
                vals[d.name()] = v.as_long()
        if _has_uf(goal) or any(_has_uf(c) for c in pcs):  # tables are abstract here: only a replay can confirm
            return Result(name, "unknown", "z3 model (abstract tables)", vals, time.time() - t0)
        return Result(name, "refuted", "z3 model", vals, time.time() - t0)
    return Result(name, "unknown", "z3: " + s.reason_unknown(), None, time.time() - t0)


def _trivial_size(e, lim=120):
    """few enough distinct nodes to hand straight to the solver"""
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if len(seen) > lim:
            return False
        st.extend(x.children())
    return True


def _has_uf(e):
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0:
                return True
            if x.decl().kind() in (z3.Z3_OP_SELECT, z3.Z3_OP_STORE):
                return True
            st.extend(x.children())
    return False
