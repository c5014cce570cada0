"""Symbolic executor / verification-condition generator for LLVM IR.

Executes one function of a module compiled from /repo's C sources over
BV values (bv.py).  Path merging happens at immediate post-dominators, so a
function body becomes one term per output; loops are executed until their
exit condition is decided (by simplification, or by the solver under the path
condition), which is complete when it terminates -- there is no unwinding
bound that could hide behaviour.
"""
import copy
import sys
import z3
from . import bv as bvmod
from .tables import table_read
from .bv import BV, ite, concat, mk, NotConcrete

sys.setrecursionlimit(20000)


class Unsupported(Exception):
    """the generator cannot express this construct (a tool limit, not a violation)"""


class Ptr:
    """obj: name of a memory object (or None); const + sum(scale*idx)"""

    __slots__ = ("obj", "const", "terms", "kidx")

    def __init__(self, obj, const=0, terms=()):
        self.obj, self.const, self.terms = obj, const, terms
        self.kidx = None

    def add(self, k):
        return Ptr(self.obj, self.const + k, self.terms)

    def addterm(self, idx, scale):
        if idx.conc:
            return self.add(idx.sint() * scale)
        ts = list(self.terms)
        for i, (a, s) in enumerate(ts):
            if a.z().eq(idx.z()):
                ts[i] = (a, s + scale)
                return Ptr(self.obj, self.const, tuple(ts))
        ts.append((idx, scale))
        return Ptr(self.obj, self.const, tuple(ts))

    def off(self):
        r = BV(64, self.const)
        for a, s in self.terms:
            r = r + a * s
        return r

    def same(self, o):
        return (
            self.obj == o.obj
            and self.const == o.const
            and len(self.terms) == len(o.terms)
            and all(a[1] == b[1] and a[0].z().eq(b[0].z()) for a, b in zip(self.terms, o.terms))
        )

    def __repr__(self):
        return f"Ptr({self.obj}+{self.const}{'+..' if self.terms else ''})"


class PSel:
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class FnPtr:
    def __init__(self, name):
        self.name = name


NULL = Ptr(None, 0)


class Fl:
    """floating value: concrete (c) or exact dyadic mant * 2^exp (mant: BV64,
    0 <= mant <= mx < 2^prec).  Every operation on dyadics that is kept is
    exact in IEEE-754, so no rounding is ignored; anything else is Unsupported."""

    __slots__ = ("c", "mant", "exp", "mx", "prec", "bits")

    def __init__(self, c=None, mant=None, exp=0, mx=0, prec=53, bits=None):
        self.bits = bits  # the encoding, when it was read as such
        self.c, self.mant, self.exp, self.mx, self.prec = c, mant, exp, mx, prec


def fl_dy(f):
    """concrete nonneg float -> (int mant, exp)"""
    import math

    if f.c is None:
        return None
    if isinstance(f.c, tuple):
        return f.c
    m, e = math.frexp(f.c)
    m = int(m * (1 << 53))
    e -= 53
    while m and m % 2 == 0:
        m //= 2
        e += 1
    return m, e


def umax_bits(e, depth=0):
    """upper bound (in bits) on a z3 BV term, by cheap syntactic analysis"""
    w = e.size()
    if z3.is_bv_value(e):
        return e.as_long().bit_length()
    k = e.decl().kind()
    if k == z3.Z3_OP_CONCAT:
        ch = e.children()
        rest = w
        for c in ch:
            rest -= c.size()
            if z3.is_bv_value(c) and c.as_long() == 0:
                continue
            return rest + umax_bits(c, depth + 1)
        return 0
    if k == z3.Z3_OP_ZERO_EXT:
        return umax_bits(e.arg(0), depth + 1)
    return w


class Mem:
    def __init__(self):
        self.objs = {}  # name -> cells dict
        self.owned = set()

    def fork(self):
        m = Mem()
        m.objs = dict(self.objs)
        self.owned = set()
        return m

    def cells(self, name, write=False):
        c = self.objs[name]
        if write and name not in self.owned:
            c = dict(c)
            self.objs[name] = c
            self.owned.add(name)
        return c


class State:
    def __init__(self, mem, regs):
        self.mem, self.regs = mem, regs
        self.ret = None
        self.dead = False


class Exec:
    def __init__(self, module, externals=None, overrides=None, solver_timeout=20000):
        self.m = module
        self.ext = dict(externals or {})
        self.over = dict(overrides or {})
        self.sizes = {}
        self.readonly = set()
        self.obligs = []  # (name, pc list, BV1)
        self.pc = []
        self.written = set()
        self.globals_init = {}
        self.mem = Mem()
        self.fresh = 0
        self.solver_timeout = solver_timeout
        self.nsolver = 0
        self.stack = []
        self.calls = set()
        self.steps = 0
        self.max_steps = 6_000_000
        self.track_fresh = {}
        self._load_globals()

    # -- types -------------------------------------------------------------
    def size(self, t):
        k = t[0]
        if k == "i":
            n = t[1]
            b = (n + 7) // 8
            if b in (3,):
                b = 4
            return 16 if n == 128 else (1 if n == 1 else b)
        if k == "ptr" or k == "double":
            return 8
        if k == "float":
            return 4
        if k == "fp80":
            return 16
        if k == "arr":
            return t[1] * self.size(t[2])
        if k == "vec":
            return t[1] * self.size(t[2])
        if k == "struct":
            return self.layout(t)[1]
        if k == "named":
            return self.size(self.m.types[t[1]])
        raise Unsupported("size " + str(t))

    def align(self, t):
        k = t[0]
        if k == "arr":
            return self.align(t[2])
        if k == "struct":
            return 1 if t[1] else max([self.align(x) for x in t[2]] or [1])
        if k == "named":
            return self.align(self.m.types[t[1]])
        if k == "vec":
            return self.size(t)
        return self.size(t)

    def layout(self, t):
        if t[0] == "named":
            t = self.m.types[t[1]]
        off = 0
        offs = []
        for x in t[2]:
            if not t[1]:
                a = self.align(x)
                off = (off + a - 1) // a * a
            offs.append(off)
            off += self.size(x)
        if not t[1]:
            a = self.align(t)
            off = (off + a - 1) // a * a
        return offs, off

    def resolve(self, t):
        while t[0] == "named":
            t = self.m.types[t[1]]
        return t

    # -- objects -----------------------------------------------------------
    def new_obj(self, name, size, readonly=False):
        base = name
        k = 0
        while name in self.mem.objs:
            k += 1
            name = f"{base}.{k}"
        self.mem.objs[name] = {}
        self.mem.owned.add(name)
        self.sizes[name] = size
        if readonly:
            self.readonly.add(name)
        return Ptr(name, 0)

    def _load_globals(self):
        for nm, (const, ty, init) in self.m.globals.items():
            g = "@" + nm
            self.mem.objs[g] = {}
            self.mem.owned.add(g)
            self.sizes[g] = self.size(ty)
            if const:
                self.readonly.add(g)
            self.globals_init[g] = (ty, init)

    def _materialize(self, g):
        r = self.globals_init.pop(g, None)
        if r and r[1] is not None:
            self.init_const(self.mem.objs[g], 0, r[0], r[1])

    def init_const(self, cells, off, ty, v):
        ty = self.resolve(ty)
        if v[0] == "bytes":
            for i, b in enumerate(v[1]):
                cells[off + i] = (1, BV(8, b))
            return
        if v[0] in ("zero", "undef") and ty[0] in ("arr", "vec", "struct"):
            if ty[0] == "struct":
                for o, t in zip(self.layout(ty)[0], ty[2]):
                    self.init_const(cells, off + o, t, v)
            else:
                s = self.size(ty[2])
                for i in range(ty[1]):
                    self.init_const(cells, off + i * s, ty[2], v)
            return
        if v[0] == "agg":
            if ty[0] == "struct":
                for o, (t, x) in zip(self.layout(ty)[0], v[1]):
                    self.init_const(cells, off + o, t, x)
            else:
                s = self.size(ty[2])
                for i, (t, x) in enumerate(v[1]):
                    self.init_const(cells, off + i * s, t, x)
            return
        val = self.const(ty, v)
        cells[off] = (self.size(ty), val)

    def const(self, ty, v):
        k = v[0]
        ty = self.resolve(ty)
        if ty[0] in ("vec", "arr") and k in ("zero", "undef"):
            return [self.const(ty[2], v) for _ in range(ty[1])]
        if ty[0] == "struct" and k in ("zero", "undef"):
            return [self.const(t, v) for t in ty[2]]
        if k == "int":
            return BV(ty[1], v[1])
        if k == "null" or (k == "zero" and ty[0] == "ptr"):
            return NULL
        if k == "zero":
            if ty[0] == "i":
                return BV(ty[1], 0)
            return Fl(c=0.0)
        if k == "fp":
            return Fl(c=v[1])
        if k == "fp80":
            raw = v[1]
            se, m = raw >> 64, raw & ((1 << 64) - 1)
            e = (se & 0x7FFF) - 16383 - 63
            if m == 0:
                return Fl(c=0.0, prec=64)
            while m % 2 == 0:
                m //= 2
                e += 1
            return Fl(c=((-m if se >> 15 else m), e), prec=64)
        if k == "undef":
            if ty[0] == "i":
                return self.fresh_bv("undef", ty[1])
            if ty[0] == "ptr":
                return NULL
            return Fl(c=0.0)
        if k == "glob":
            if v[1] in self.m.globals:
                return Ptr("@" + v[1], 0)
            return FnPtr(v[1])
        if k == "agg":
            return [self.const(t, x) for t, x in v[1]]
        if k == "cgep":
            return self.gep(v[1], [(t, self.const(t, x)) for t, x in v[2]])
        if k == "bytes":
            return [BV(8, b) for b in v[1]]
        if k == "ccast":
            x = self.const(v[2], v[3])
            return self.cast(v[1], v[2], x, v[4])
        if k == "cbin":
            return self.binop(v[1], self.const(v[2], v[3]), self.const(v[2], v[4]))
        raise Unsupported("const " + str(v)[:80])

    def fresh_bv(self, base, w):
        self.fresh += 1
        return BV(w, z3.BitVec(f"{base}!{self.fresh}", w))

    # -- solver ------------------------------------------------------------
    cut = None  # a LoopCut: loops are replaced by their invariant instead of being executed

    def solver_check(self, cond, timeout=None):
        """is pc & cond satisfiable?  -> True/False/None"""
        if isinstance(cond, bool):
            if not cond:
                return False
        s = z3.SolverFor("QF_BV") if not self.pc_has_other() else z3.Solver()
        s.set("timeout", timeout or self.solver_timeout)
        for c in self.pc:
            s.add(c)
        s.add(cond)
        self.nsolver += 1
        r = s.check()
        return True if r == z3.sat else False if r == z3.unsat else None

    def pc_has_other(self):
        return False

    def oblig(self, name, cond):
        if cond.conc and cond.v:
            self.obligs.append((name, None, cond))
            return
        self.obligs.append((name, list(self.pc), cond))

    # -- memory --------------------------------------------------------------
    def rd(self, cells, off, n):
        """list of BV/Ptr pieces -> value of n bytes"""
        c = cells.get(off)
        if c is not None and c[0] == n:
            return c[1]
        parts = []
        p = off
        end = off + n
        while p < end:
            hit = None
            for q in range(p, p - 17, -1):
                c = cells.get(q)
                if c is not None:
                    if q + c[0] > p:
                        hit = (q, c)
                    break
            if hit is None:
                # uninitialised byte
                nxt = p + 1
                while nxt < end and nxt not in cells:
                    nxt += 1
                v = self.fresh_bv("uninit", 8 * (nxt - p))
                parts.append(v)
                p = nxt
                continue
            q, (cn, val) = hit
            lo = p - q
            hi = min(cn, end - q)
            if not isinstance(val, BV):
                if isinstance(val, Fl):
                    val = self.fl_bits(val)
                else:
                    raise Unsupported("partial read of pointer")
            parts.append(val.extract(8 * hi - 1, 8 * lo) if (lo, hi) != (0, cn) else val)
            p = q + hi
        return concat(*reversed(parts))

    def wr(self, cells, off, n, val):
        c = cells.get(off)
        if c is None or c[0] != n:
            self.clear(cells, off, n)
        cells[off] = (n, val)

    def clear(self, cells, off, n):
        for q in range(off - 16, off + n):
            c = cells.get(q)
            if c is None:
                continue
            cn, v = c
            if q + cn <= off:
                continue
            del cells[q]
            if q < off:
                if not isinstance(v, BV):
                    raise Unsupported("partial overwrite of pointer")
                cells[q] = (off - q, v.extract(8 * (off - q) - 1, 0))
            if q + cn > off + n:
                k = off + n - q
                if not isinstance(v, BV):
                    raise Unsupported("partial overwrite of pointer")
                cells[off + n] = (cn - k, v.extract(8 * cn - 1, 8 * k))

    def fl_bits(self, f):
        if f.c is not None and not isinstance(f.c, tuple):
            import struct

            return BV(64, int.from_bytes(struct.pack("<d", f.c), "little"))
        if f.bits is not None:
            return f.bits
        raise Unsupported("bits of a symbolic float")

    def candidates(self, p, n, what):
        orig = p
        size = self.sizes[p.obj]
        if not p.terms:
            ok = 0 <= p.const and p.const + n <= size
            self.oblig(f"{what}:in-bounds[{p.obj}]", BV(1, int(ok)))
            if not ok:
                raise OutOfBounds(f"{what} at {p} size {n} of {size}")
            return [(None, p.const)]
        if len(p.terms) > 1:
            # combine by total offset, byte granularity limited to gcd
            import math

            g = 0
            for _, s in p.terms:
                g = math.gcd(g, abs(s))
            tot = BV(64, 0)
            for a, s in p.terms:
                tot = tot + a * (s // g)
            idx, scale = tot, g
        else:
            idx, scale = p.terms[0]
        if not idx.conc and z3.is_app(idx.v) and idx.v.decl().kind() == z3.Z3_OP_CONCAT and not idx.v.arg(0).num_args():
            ch = idx.v.children()  # constant leading bits and a variable rest: base + rest
            low = ch[-1].size()
            if all(z3.is_bv_value(c) for c in ch[:-1]):
                top = 0
                for c in ch[:-1]:
                    top = (top << c.size()) | c.as_long()
                if 0 < top < 1 << 40:
                    p = copy.copy(p)
                    p.const = p.const + scale * (top << low)
                    idx = BV(low, ch[-1]).zext(idx.w)
        if scale < 0:
            idx, scale = -idx, -scale
        # valid k: 0 <= const + scale*k <= size-n
        import math

        kmin = math.ceil(-p.const / scale)
        kmax = (size - n - p.const) // scale
        if kmax < kmin:
            self.oblig(f"{what}:in-bounds[{p.obj}]", BV(1, 0))
            raise OutOfBounds(f"{what} at {p}")
        # narrow the index to its value range
        e = idx.z()
        nb = umax_bits(e)
        if nb < 63 and kmin <= 0 and (1 << nb) - 1 <= kmax:
            inb = BV(1, 1)  # 0 <= idx < 2**nb by its leading zero bits
        else:
            inb = ~idx.slt(BV(64, kmin)) & ~BV(64, kmax).slt(idx)
        self.oblig(f"{what}:in-bounds[{p.obj}]", inb)
        ks = range(kmin, kmax + 1)
        if len(ks) > 4096:
            raise Unsupported("symbolic index over a large object")
        if nb < 63:
            ks = [k for k in ks if 0 <= k < (1 << nb)]
        orig.kidx = None
        if what == "load" and len(ks) >= 64 and len(ks) & (len(ks) - 1) and ks[0] == 0:
            hi = self.reach(e, len(ks))  # cells beyond the largest reachable index are never read
            ks = ks[: hi + 1]
        if ks and list(ks)[0] == 0 and len(ks) > 1 and (len(ks) & (len(ks) - 1) == 0 or len(ks) >= 64):
            orig.kidx = idx.trunc((len(ks) - 1).bit_length())
            if len(ks) >= 64 and what == "load":
                return [(None, p.const + scale * k) for k in ks]
        return [(idx.eq(k), p.const + scale * k) for k in ks]

    def load(self, mem, ty, p):
        ty = self.resolve(ty)
        if isinstance(p, PSel):
            a = self.load(mem, ty, p.a)
            b = self.load(mem, ty, p.b)
            return self.vite(p.c, a, b)
        if isinstance(p, FnPtr) or p.obj is None:
            raise Unsupported("load through null/function pointer")
        if p.obj in self.globals_init:
            self._materialize(p.obj)
            mem.objs[p.obj] = self.mem.objs[p.obj]
        if p.obj not in mem.objs:
            mem.objs[p.obj] = self.mem.objs[p.obj]
        if ty[0] == "struct":
            return [self.load(mem, t, p.add(o)) for o, t in zip(self.layout(ty)[0], ty[2])]
        if ty[0] in ("arr", "vec"):
            s = self.size(ty[2])
            return [self.load(mem, ty[2], p.add(i * s)) for i in range(ty[1])]
        n = self.size(ty)
        cells = mem.cells(p.obj)
        cand = self.candidates(p, n, "load")
        vals = [self.rd(cells, o, n) for _, o in cand]
        if len(cand) == 1:
            v = vals[0]
        else:
            v = self.chain([c for c, _ in cand], vals, p)
        return self.astype(v, ty)

    def reach(self, e, n):
        """upper bound (at most n - 1) on the index e under the path condition"""
        lo, hi = 0, n - 1
        while lo < hi:
            mid = (lo + hi) // 2
            if self.solver_check(z3.UGT(e, z3.BitVecVal(mid, e.size())), timeout=2000) is False:
                hi = mid
            else:
                lo = mid + 1
        return hi

    def chain(self, conds, vals, p):
        if not all(isinstance(v, BV) for v in vals):
            raise Unsupported("symbolic select of non-words")
        n = len(vals)
        if n >= 64 and p.kidx is not None:  # in bounds by the separate obligation; the padding is never read
            return table_read(vals + [vals[-1]] * ((1 << p.kidx.w) - n), p.kidx)
        if conds[0] is None:
            raise Unsupported("table select")
        v = vals[-1]
        for c, x in zip(reversed(conds[:-1]), reversed(vals[:-1])):
            v = ite(c, x, v)
        return v

    def astype(self, v, ty):
        if ty[0] == "i":
            if isinstance(v, BV):
                return v if v.w == ty[1] else v.to(ty[1])
            if isinstance(v, Fl):
                return self.fl_bits(v)
            if isinstance(v, (Ptr, PSel, FnPtr)):
                return v  # pointer loaded as integer (memcpy-like)
        if ty[0] == "ptr":
            if isinstance(v, (Ptr, PSel, FnPtr)):
                return v
            if isinstance(v, BV) and v.conc and v.v == 0:
                return NULL
            raise Unsupported("integer loaded as pointer")
        if ty[0] in ("double", "float", "fp80"):
            if isinstance(v, Fl):
                return v
            return self.bits_fl(v, ty)
        raise Unsupported("astype " + str(ty))

    def bits_fl(self, v, ty):
        if ty[0] != "double":
            raise Unsupported("float bits")
        if v.conc:
            import struct

            return Fl(c=struct.unpack("<d", v.v.to_bytes(8, "little"))[0])
        top = v.extract(63, 52)
        if not top.conc:
            t = z3.simplify(top.z())
            top = mk(12, t)
        if not top.conc:
            from .tables import TABLES

            cells = TABLES.get(v.v.decl().name()) if z3.is_app(v.v) else None
            if cells:
                tops = [BV(v.w, c).extract(63, 52) for c in cells]
                if all(t.conc and t.v == tops[0].v for t in tops):
                    top = tops[0]
        if not top.conc:
            # decide by solver under the path condition
            if self.solver_check(top.z() != 0x3FF) is False:
                top = BV(12, 0x3FF)
        if top.conc and top.v == 0x3FF:
            low = v.extract(51, 0)
            return Fl(mant=concat(BV(12, 1), low), exp=-52, mx=(1 << 53) - 1, bits=v)
        raise Unsupported("bits of unknown exponent as double")

    def store(self, mem, ty, v, p):
        ty = self.resolve(ty)
        if isinstance(p, PSel):
            old = self.load(mem, ty, p.a)
            self.store(mem, ty, self.vite(p.c, v, old), p.a)
            old = self.load(mem, ty, p.b)
            self.store(mem, ty, self.vite(p.c, old, v), p.b)
            return
        if isinstance(p, FnPtr) or p.obj is None:
            raise Unsupported("store through null")
        if ty[0] == "struct":
            for o, t, x in zip(self.layout(ty)[0], ty[2], v):
                self.store(mem, t, x, p.add(o))
            return
        if ty[0] in ("arr", "vec"):
            s = self.size(ty[2])
            for i, x in enumerate(v):
                self.store(mem, ty[2], x, p.add(i * s))
            return
        if p.obj in self.globals_init:
            self._materialize(p.obj)
            mem.objs[p.obj] = self.mem.objs[p.obj]
        if p.obj not in mem.objs:
            mem.objs[p.obj] = self.mem.objs[p.obj]
        if p.obj in self.readonly:
            self.oblig(f"store:writable[{p.obj}]", BV(1, 0))
        self.written.add(p.obj)
        n = self.size(ty)
        if isinstance(v, BV) and v.w < 8 * n:
            v = v.zext(8 * n)
        cells = mem.cells(p.obj, write=True)
        cand = self.candidates(p, n, "store")
        if len(cand) == 1:
            c0, o0 = cand[0]
            if c0 is None:
                self.wr(cells, o0, n, v)
                return
        for c, o in cand:
            old = self.rd(cells, o, n)
            if not isinstance(old, BV) or not isinstance(v, BV):
                raise Unsupported("symbolic store of non-word")
            self.wr(cells, o, n, ite(c, v, old))

    def copy(self, mem, d, s, n):
        """memcpy of n (int) bytes"""
        if n == 0:
            return
        if isinstance(d, PSel) or isinstance(s, PSel) or d.terms or s.terms:
            for i in range(n):
                v = self.load(mem, ("i", 8), padd(s, i))
                self.store(mem, ("i", 8), v, padd(d, i))
            return
        for q in (s, d):
            if q.obj in self.globals_init:
                self._materialize(q.obj)
            if q.obj not in mem.objs:
                mem.objs[q.obj] = self.mem.objs[q.obj]
        ok = s.const >= 0 and s.const + n <= self.sizes[s.obj]
        self.oblig(f"memcpy:source in-bounds[{s.obj}]", BV(1, int(ok)))
        ok2 = d.const >= 0 and d.const + n <= self.sizes[d.obj]
        self.oblig(f"memcpy:destination in-bounds[{d.obj}]", BV(1, int(ok2)))
        if not (ok and ok2):
            raise OutOfBounds("memcpy")
        if d.obj in self.readonly:
            self.oblig(f"store:writable[{d.obj}]", BV(1, 0))
        self.written.add(d.obj)
        src = mem.cells(s.obj)
        pieces = []
        p = s.const
        end = p + n
        while p < end:
            c = src.get(p)
            if c is not None and p + c[0] <= end:
                pieces.append((p - s.const, c[0], c[1]))
                p += c[0]
                continue
            # partial cell or hole
            k = 1
            while p + k < end and (p + k) not in src and k < 8:
                k += 1
            pieces.append((p - s.const, k, self.rd(src, p, k)))
            p += k
        dst = mem.cells(d.obj, write=True)
        for o, k, v in pieces:
            self.wr(dst, d.const + o, k, v)

    # -- value merging -------------------------------------------------------
    def vite(self, c, a, b):
        if a is b:
            return a
        if c.conc:
            return a if c.v else b
        if isinstance(a, BV) and isinstance(b, BV):
            return ite(c, a, b)
        if isinstance(a, list):
            return [self.vite(c, x, y) for x, y in zip(a, b)]
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.same(b):
                return a
            return PSel(c, a, b)
        if isinstance(a, (Ptr, PSel)) and isinstance(b, (Ptr, PSel)):
            return PSel(c, a, b)
        if isinstance(a, FnPtr) and isinstance(b, FnPtr):
            if a.name == b.name:
                return a
            return PSel(c, a, b)
        if isinstance(a, Fl) and isinstance(b, Fl):
            if a.c is not None and a.c == b.c:
                return a
            A, B = self.as_dy(a), self.as_dy(b)
            e = min(A.exp, B.exp)
            A, B = self.align_dy(A, e), self.align_dy(B, e)
            bits = ite(c, a.bits, b.bits) if a.bits is not None and b.bits is not None else None
            return Fl(mant=ite(c, A.mant, B.mant), exp=e, mx=max(A.mx, B.mx), prec=A.prec, bits=bits)
        raise Unsupported(f"merge of {type(a)} and {type(b)}")

    def merge(self, c, s1, s2):
        """state = c ? s1 : s2"""
        if s1.dead:
            return s2
        if s2.dead:
            return s1
        regs = {}
        for k, v in s1.regs.items():
            w = s2.regs.get(k)
            if w is None:
                continue
            regs[k] = v if v is w else self.vite(c, v, w)
        m1, m2 = s1.mem, s2.mem
        mem = Mem()
        for o in set(m1.objs) | set(m2.objs):
            a, b = m1.objs.get(o), m2.objs.get(o)
            if a is None or b is None:
                mem.objs[o] = a if b is None else b
                continue
            if a is b:
                mem.objs[o] = a
                continue
            mem.objs[o] = self.merge_cells(c, a, b)
            mem.owned.add(o)
        s = State(mem, regs)
        if s1.ret is not None or s2.ret is not None:
            if s1.ret is None or s2.ret is None:
                raise Unsupported("merge of returned and non-returned state")
            s.ret = s1.ret if s1.ret is s2.ret else (self.vite(c, s1.ret[0], s2.ret[0]),) if s1.ret != (None,) else (None,)
        return s

    def merge_cells(self, c, a, b):
        out = {}
        keys = set(a) | set(b)
        done_to = -1
        for o in sorted(keys):
            ca, cb = a.get(o), b.get(o)
            if ca is not None and cb is not None and ca[0] == cb[0]:
                if o < done_to:
                    continue
                out[o] = ca if ca[1] is cb[1] else (ca[0], self.vite(c, ca[1], cb[1]))
                continue
            n = max(ca[0] if ca else 0, cb[0] if cb else 0)
            if o + n <= done_to:
                continue
            st = max(o, done_to)
            n = o + n - st
            for i in range(st, st + n):
                out[i] = (1, self.vite(c, self.rd(a, i, 1), self.rd(b, i, 1)))
            done_to = st + n
        return out

    # -- floats ----------------------------------------------------------------
    def as_dy(self, f):
        if f.c is None:
            return f
        m, e = fl_dy(f)
        if m < 0:
            raise Unsupported("negative float constant")
        return Fl(mant=BV(64, m), exp=e, mx=m, prec=f.prec)

    def align_dy(self, f, e):
        if f.exp == e:
            return f
        k = f.exp - e
        assert k > 0
        mx = f.mx << k
        if mx.bit_length() > 64:
            raise Unsupported("dyadic overflow")
        return Fl(mant=f.mant << k, exp=e, mx=mx, prec=f.prec)

    def bound(self, bv):
        if bv.conc:
            return bv.v
        nb = umax_bits(bv.z())
        if nb != 53:
            nb = umax_bits(z3.simplify(bv.z()))
        if nb <= 53:
            return (1 << nb) - 1
        for b in (53, 63):
            if nb <= b:
                break
            if self.solver_check(z3.UGE(bv.z(), z3.BitVecVal(1 << b, bv.w))) is False:
                return (1 << b) - 1
        return (1 << nb) - 1

    def fbin(self, op, a, b):
        prec = max(a.prec, b.prec)
        if a.c is not None and b.c is not None and not isinstance(a.c, tuple) and not isinstance(b.c, tuple) and prec == 53:
            x, y = a.c, b.c
            if op == "fdiv":
                return Fl(c=x / y)
            return Fl(c={"fadd": x + y, "fsub": x - y, "fmul": x * y}[op])
        if op in ("fmul", "fdiv"):
            for p, q in ((a, b), (b, a)):
                if q.c is not None and (op == "fmul" or q is b):
                    m, e = fl_dy(q)
                    if m == 0:
                        return Fl(c=0.0, prec=prec)
                    if m == 1:
                        P = self.as_dy(p)
                        return Fl(mant=P.mant, exp=P.exp + (e if op == "fmul" else -e), mx=P.mx, prec=prec)
            raise Unsupported("non power-of-two float multiply")
        if op == "fadd":
            for x, y in ((a, b), (b, a)):
                if y.c is not None and not isinstance(y.c, tuple) and y.c < 0:
                    return self.fbin("fsub", x, Fl(c=-y.c, prec=y.prec))
        A, B = self.as_dy(a), self.as_dy(b)
        e = min(A.exp, B.exp)
        A, B = self.align_dy(A, e), self.align_dy(B, e)
        if op == "fadd":
            mx = A.mx + B.mx
            if mx.bit_length() > prec:
                raise Unsupported("inexact float add")
            return Fl(mant=A.mant + B.mant, exp=e, mx=mx, prec=prec)
        if op == "fsub":
            if self.solver_check(z3.ULT(A.mant.z(), B.mant.z())) is False:
                return Fl(mant=A.mant - B.mant, exp=e, mx=A.mx, prec=prec)
        raise Unsupported("float " + op)

    # -- instructions ------------------------------------------------------------
    def binop(self, op, a, b, flags=()):
        if isinstance(a, list):
            return [self.binop(op, x, y, flags) for x, y in zip(a, b)]
        if isinstance(a, Fl):
            return self.fbin(op, a, b)
        if isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
            if op == "sub" and isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
                return a.off() - b.off()
            raise Unsupported("pointer arithmetic via integers")
        if op == "add":
            return a + b
        if op == "sub":
            return a - b
        if op == "mul":
            return a * b
        if op == "and":
            return a & b
        if op == "or":
            return a | b
        if op == "xor":
            return a ^ b
        if op in ("shl", "lshr", "ashr"):
            r = a << b if op == "shl" else a >> b if op == "lshr" else a.ashr(b)
            if b.conc:
                return r if b.v < a.w else self.poison(a.w)
            ok = b.ult(BV(b.w, a.w))
            if self.entailed(ok):
                return r
            # an over-wide shift has no defined value: arbitrary, so no obligation may depend on it
            return ite(ok, r, self.poison(a.w))
        if op in ("udiv", "urem", "sdiv", "srem"):
            self.oblig(f"{op}:nonzero-divisor", b.ne(0))
            return getattr(a, op)(b)
        raise Unsupported("binop " + op)

    def poison(self, w):
        self.npoison = getattr(self, "npoison", 0) + 1
        return BV(w, z3.BitVec(f"undef!{self.npoison}", w))

    def entailed(self, c):
        if c.conc:
            return bool(c.v)
        g = z3.simplify(c.zb())
        if z3.is_true(g):
            return True
        key = (g.get_id(), len(self.pc))
        memo = self.__dict__.setdefault("_ent", {})
        if key not in memo:
            s = z3.Solver()
            s.set("timeout", 1000)
            for p in self.pc:
                s.add(p)
            s.add(z3.Not(g))
            memo[key] = (s.check() == z3.unsat, g)
        return memo[key][0]

    def icmp(self, pr, a, b):
        if isinstance(a, list):
            return [self.icmp(pr, x, y) for x, y in zip(a, b)]
        if isinstance(a, PSel):
            return ite(a.c, self.icmp(pr, a.a, b), self.icmp(pr, a.b, b))
        if isinstance(b, PSel):
            return ite(b.c, self.icmp(pr, a, b.a), self.icmp(pr, a, b.b))
        if isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
            if isinstance(a, FnPtr) or isinstance(b, FnPtr):
                r = isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name
                if pr in ("eq", "ne"):
                    return BV(1, int(r == (pr == "eq")))
                raise Unsupported("fnptr order")
            if not (isinstance(a, Ptr) and isinstance(b, Ptr)):
                raise Unsupported("pointer/integer comparison")
            if a.obj != b.obj:
                if pr in ("eq", "ne"):
                    return BV(1, int(pr == "ne"))
                raise Unsupported("ordering of distinct objects")
            a, b = a.off(), b.off()
        return {
            "eq": a.eq, "ne": a.ne, "ult": a.ult, "ule": a.ule, "ugt": a.ugt, "uge": a.uge,
            "slt": a.slt, "sle": a.sle, "sgt": a.sgt, "sge": a.sge,
        }[pr](b)

    def fcmp(self, pr, a, b):
        if a.c is not None and b.c is not None:
            x, y = a.c, b.c
            return BV(1, int({"oeq": x == y, "une": x != y, "olt": x < y, "ole": x <= y, "ogt": x > y, "oge": x >= y,
                              "ult": x < y, "ugt": x > y, "uge": x >= y, "ule": x <= y}[pr]))
        A, B = self.as_dy(a), self.as_dy(b)
        e = min(A.exp, B.exp)
        A, B = self.align_dy(A, e).mant, self.align_dy(B, e).mant
        p = pr[1:]
        return {"eq": A.eq, "ne": A.ne, "lt": A.ult, "le": A.ule, "gt": A.ugt, "ge": A.uge}[p](B)

    def flat_bits(self, v, ty):
        ty = self.resolve(ty)
        if ty[0] == "vec":
            return concat(*[self.flat_bits(x, ty[2]) for x in reversed(v)])
        if isinstance(v, Fl):
            return self.fl_bits(v)
        return v

    def unflat(self, b, ty):
        if ty[0] == "vec":
            w = self.size(ty[2]) * 8 if ty[2][0] != "i" else ty[2][1]
            return [self.unflat(b.extract((i + 1) * w - 1, i * w), ty[2]) for i in range(ty[1])]
        if ty[0] in ("double", "float"):
            return self.bits_fl(b, ty)
        return b

    def cast(self, op, t, v, to):
        t, to = self.resolve(t), self.resolve(to)
        if op == "bitcast":
            if t[0] == "ptr" or to[0] == "ptr":
                return v
            return self.unflat(self.flat_bits(v, t), to)
        if isinstance(v, list):
            return [self.cast(op, t[2], x, to[2]) for x in v]
        if op == "trunc":
            if not isinstance(v, BV):
                raise Unsupported("truncated pointer")
            return v.trunc(to[1])
        if op == "zext":
            return v.zext(to[1])
        if op == "sext":
            return v.sext(to[1])
        if op in ("ptrtoint", "inttoptr"):
            if op == "inttoptr" and isinstance(v, BV):
                if v.conc and v.v == 0:
                    return NULL
                if v.conc:
                    return Ptr("int:%x" % v.v, 0)
                raise Unsupported("inttoptr")
            return v
        if op in ("uitofp", "sitofp"):
            prec = {"double": 53, "float": 24, "fp80": 64}[to[0]]
            if v.conc:
                x = v.v if op == "uitofp" else v.sint()
                if x.bit_length() > prec:
                    raise Unsupported("inexact uitofp")
                return Fl(c=float(x)) if prec == 53 else Fl(c=(x, 0), prec=prec)
            if op == "sitofp":
                # exact only if provably non-negative
                if self.solver_check(z3.Extract(v.w - 1, v.w - 1, v.z()) == 1) is not False:
                    raise Unsupported("sitofp of possibly negative word")
            vv = v.zext(64) if v.w < 64 else v
            if vv.w != 64:
                raise Unsupported("uitofp wide")
            mx = self.bound(vv)
            if mx.bit_length() > prec:
                raise Unsupported("inexact uitofp")
            return Fl(mant=vv, exp=0, mx=mx, prec=prec)
        if op == "fpext" or op == "fptrunc":
            if v.c is not None:
                return Fl(c=v.c, prec={"double": 53, "float": 24, "fp80": 64}[to[0]])
            prec = {"double": 53, "float": 24, "fp80": 64}[to[0]]
            if v.mx.bit_length() > prec:
                raise Unsupported("inexact fptrunc")
            return Fl(mant=v.mant, exp=v.exp, mx=v.mx, prec=prec)
        raise Unsupported("cast " + op)

    def gep(self, ty, args):
        p = args[0][1]
        if isinstance(p, PSel):
            return PSel(p.c, self.gep(ty, [(None, p.a)] + args[1:]), self.gep(ty, [(None, p.b)] + args[1:]))
        if not isinstance(p, Ptr):
            raise Unsupported("gep on non-pointer")
        cur = ty
        first = True
        for t, v in args[1:]:
            if not isinstance(v, BV):
                raise Unsupported("gep idx")
            if first:
                s = self.size(cur)
                p = self._idx(p, v, s)
                first = False
                continue
            cur = self.resolve(cur)
            if cur[0] == "struct":
                k = v.int()
                p = p.add(self.layout(cur)[0][k])
                cur = cur[2][k]
            else:
                cur = cur[2]
                p = self._idx(p, v, self.size(cur))
        return p

    def _idx(self, p, v, s):
        if v.conc:
            return p.add(v.sint() * s)
        v = v if v.w == 64 else v.sext(64)
        # split off constant addends so that equal indices are recognised
        return p.addterm(v, s)

    def val(self, st, ty, v):
        if v[0] == "loc":
            return st.regs[v[1]]
        return self.const(ty, v)

    # -- post-dominators ------------------------------------------------------------
    def ipdom(self, f):
        r = getattr(f, "_ipdom", None)
        if r is not None:
            return r
        succ = {}
        for b, ins in f.blocks.items():
            t = ins[-1]
            if t.op == "br":
                succ[b] = [x for x in (t.a[1], t.a[2]) if x is not None]
            elif t.op == "switch":
                succ[b] = [t.a[1]] + [l for _, l in t.a[2]]
            elif t.op == "ret":
                succ[b] = ["$exit"]
            else:
                succ[b] = []  # unreachable: never merges
        # drop blocks that only reach unreachable
        nodes = list(f.blocks) + ["$exit"]
        allset = set(nodes)
        # backwards reachability from exit
        pred = {n: [] for n in nodes}
        for b, ss in succ.items():
            for s in ss:
                pred[s].append(b)
        reach = {"$exit"}
        wl = ["$exit"]
        while wl:
            x = wl.pop()
            for p in pred[x]:
                if p not in reach:
                    reach.add(p)
                    wl.append(p)
        pd = {n: (set([n]) if n == "$exit" else set(reach)) for n in reach}
        ch = True
        order = [n for n in reversed(nodes) if n in reach and n != "$exit"]
        while ch:
            ch = False
            for n in order:
                ss = [s for s in succ[n] if s in reach]
                new = set.intersection(*[pd[s] for s in ss]) | {n}
                if new != pd[n]:
                    pd[n] = new
                    ch = True
        ip = {}
        for n in order:
            cands = pd[n] - {n}
            # immediate: the one dominated by... i.e. whose pd set is the largest
            ip[n] = max(cands, key=lambda c: len(pd[c]))
        f._ipdom = ip
        return ip

    # -- running --------------------------------------------------------------
    def call(self, name, args, mem=None):
        """execute a defined function; returns (ret, mem)"""
        mem = mem or self.mem
        if name in self.over:
            st = State(mem, {})
            r = self.over[name](self, st, args)
            return r, st.mem
        f = self.m.funcs.get(name)
        if f is None:
            if name in self.ext:
                st = State(mem, {})
                r = self.ext[name](self, st, args)
                return r, st.mem
            raise Unsupported("call of undefined function " + name)
        self.calls.add(name)
        if len(self.stack) > 60:
            raise Unsupported("call depth")
        self.stack.append(name)
        regs = {}
        for (t, pn), a in zip(f.params, args):
            regs[pn] = a
        st = State(mem, regs)
        st = self.run(f, f.entry, None, st, "$exit", {})
        self.stack.pop()
        if st.dead:
            raise PathDead()
        return (st.ret[0] if st.ret else None), st.mem

    def enter(self, f, blk, prev, st):
        """traverse the edge prev->blk: evaluate phis"""
        ins = f.blocks[blk]
        new = {}
        for x in ins:
            if x.op != "phi":
                break
            t, inc = x.a
            for v, l in inc:
                if l == prev:
                    new[x.dst] = self.val(st, t, v)
                    break
        if new:
            st.regs = dict(st.regs)
            st.regs.update(new)
        if self.cut is not None:
            self.cut.enter(self, f, blk, prev, st)

    def run(self, f, blk, prev, st, stop, seen):
        """run from (already entered) block blk until `stop`"""
        while True:
            if blk == stop:
                return st
            ins = f.blocks[blk]
            for x in ins[:-1]:
                if x.op == "phi":
                    continue
                self.steps += 1
                try:
                    self.step(f, x, st)
                except OutOfBounds:
                    # the failed obligation is recorded under the path condition
                    st.dead = True
                if st.dead:
                    return st
            if self.steps > self.max_steps:
                raise Unsupported("step limit")
            t = ins[-1]
            if t.op == "ret":
                if t.a is None:
                    st.ret = (None,)
                else:
                    st.ret = (self.val(st, t.a[0], t.a[1]),)
                return st
            if t.op == "unreachable":
                if not st.dead:
                    self.oblig("unreachable-not-reached", BV(1, 0))
                st.dead = True
                return st
            if t.op == "br":
                c, a, b = t.a
                if c is None:
                    self.enter(f, a, blk, st)
                    prev, blk = blk, a
                    continue
                c = self.val(st, ("i", 1), c)
                targets = [(c, a), (~c, b)]
            elif t.op == "switch":
                (ty, v), d, cases = t.a
                v = self.val(st, ty, v)
                if v.conc:
                    tgt = d
                    for k, l in cases:
                        if (k & ((1 << v.w) - 1)) == v.v:
                            tgt = l
                            break
                    self.enter(f, tgt, blk, st)
                    prev, blk = blk, tgt
                    continue
                by = {}
                for k, l in cases:
                    by.setdefault(l, []).append(v.eq(k))
                targets = []
                rest = BV(1, 1)
                for l, cs in by.items():
                    c = cs[0]
                    for q in cs[1:]:
                        c = c | q
                    targets.append((c, l))
                    rest = rest & ~c
                targets.append((rest, d))
            else:
                raise Unsupported("terminator " + t.op)
            # decide
            live = []
            cnt = seen.get(blk, 0)
            seen[blk] = cnt + 1
            for c, l in targets:
                if not c.conc:
                    z = z3.simplify(c.zb())
                    c = BV(1, 1) if z3.is_true(z) else BV(1, 0) if z3.is_false(z) else c if bvmod.SUMC else BV(1, z)
                if c.conc and not c.v:
                    continue
                if c.conc:
                    live = [(c, l)]
                    break
                live.append((c, l))
            if len(live) > 1 and not getattr(self, "no_prune", False):
                live2 = []
                for c, l in live:
                    r = self.solver_check(c.b(), timeout=5000 if cnt < 8 else None)
                    if r is None and cnt > 300:
                        raise Unsupported("undecided loop condition")
                    if r is not False:
                        live2.append((c, l))
                live = live2
            if not live:
                st.dead = True
                return st
            if len(live) == 1:
                l = live[0][1]
                self.enter(f, l, blk, st)
                prev, blk = blk, l
                continue
            join = self.ipdom(f).get(blk, "$exit")
            if cnt > 700:
                raise Unsupported("loop with undecided exit after 700 iterations")
            outs = []
            for c, l in live:
                s2 = State(st.mem.fork(), dict(st.regs))
                self.pc.append(c.b())
                npc = len(self.pc)
                try:
                    self.enter(f, l, blk, s2)
                    # phis of the join block are evaluated on arrival
                    s2 = self.run_to(f, l, blk, s2, join, stop, seen)
                except PathDead:
                    s2.dead = True
                finally:
                    del self.pc[npc - 1 :]
                outs.append((c, s2))
            acc = outs[-1][1]
            for c, s2 in reversed(outs[:-1]):
                acc = self.merge(c, s2, acc)
            st_new = acc
            st.mem, st.regs, st.ret, st.dead = st_new.mem, st_new.regs, st_new.ret, st_new.dead
            if st.dead or st.ret is not None:
                return st
            seen[blk] = cnt if cnt == 0 else cnt
            if join == "$exit":
                return st
            blk = join
            # phis of join were evaluated during arrival in each branch

    def run_to(self, f, blk, prev, st, join, stop, seen):
        return self.run(f, blk, prev, st, join, seen)

    def step(self, f, x, st):
        op = x.op
        a = x.a
        regs = st.regs
        if op == "bin":
            o, fl, t, u, v = a
            regs[x.dst] = self.binop(o, self.val(st, t, u), self.val(st, t, v), fl)
        elif op == "load":
            regs[x.dst] = self.load(st.mem, a[0], self.val(st, ("ptr",), a[1]))
        elif op == "store":
            self.store(st.mem, a[0], self.val(st, a[0], a[1]), self.val(st, ("ptr",), a[2]))
        elif op == "getelementptr":
            regs[x.dst] = self.gep(a[0], [(t, self.val(st, t, v)) for t, v in a[1]])
        elif op == "icmp":
            regs[x.dst] = self.icmp(a[0], self.val(st, a[1], a[2]), self.val(st, a[1], a[3]))
        elif op == "fcmp":
            regs[x.dst] = self.fcmp(a[0], self.val(st, a[1], a[2]), self.val(st, a[1], a[3]))
        elif op == "cast":
            regs[x.dst] = self.cast(a[0], a[1], self.val(st, a[1], a[2]), a[3])
        elif op == "select":
            c = self.val(st, a[0][0], a[0][1])
            p = self.val(st, a[1][0], a[1][1])
            q = self.val(st, a[2][0], a[2][1])
            if isinstance(c, list):
                regs[x.dst] = [self.vite(k, u, v) for k, u, v in zip(c, p, q)]
            else:
                regs[x.dst] = self.vite(c, p, q)
        elif op == "alloca":
            t, n = a
            k = 1 if n is None else self.val(st, n[0], n[1]).int()
            p = self.new_obj(f"%{f.name}.{x.dst}", self.size(t) * k)
            st.mem.objs[p.obj] = {}
            st.mem.owned.add(p.obj)
            regs[x.dst] = p
        elif op == "call":
            rt, cal, args = a
            if cal[0] == "glob":
                name = cal[1]
            else:
                fp = regs[cal[1]]
                if isinstance(fp, FnPtr):
                    name = fp.name
                else:
                    raise Unsupported("indirect call")
            av = [None if v is None else self.val(st, t, v) for t, v in args]
            if name.startswith("llvm."):
                r = self.intrinsic(name, av, args, st, rt)
            else:
                try:
                    r, st.mem = self.call(name, av, st.mem)
                except PathDead:
                    st.dead = True
                    return
            if x.dst is not None:
                regs[x.dst] = r
        elif op == "extractelement":
            v = self.val(st, a[0][0], a[0][1])
            k = self.val(st, a[1][0], a[1][1])
            regs[x.dst] = v[k.int()]
        elif op == "insertelement":
            v = list(self.val(st, a[0][0], a[0][1]))
            k = self.val(st, a[2][0], a[2][1])
            v[k.int()] = self.val(st, a[1][0], a[1][1])
            regs[x.dst] = v
        elif op == "shufflevector":
            u = self.val(st, a[0][0], a[0][1])
            v = self.val(st, a[1][0], a[1][1])
            uv = u + v
            mt, mv = a[2]
            if mv[0] in ("zero",):
                regs[x.dst] = [uv[0]] * mt[1]
            elif mv[0] == "undef":
                regs[x.dst] = [uv[0]] * mt[1]
            else:
                regs[x.dst] = [uv[0] if e[0] == "undef" else uv[e[1]] for _, e in mv[1]]
        elif op == "extractvalue":
            v = self.val(st, a[0][0], a[0][1])
            for k in a[1]:
                v = v[k]
            regs[x.dst] = v
        elif op == "insertvalue":
            v = self.val(st, a[0][0], a[0][1])
            e = self.val(st, a[1][0], a[1][1])
            regs[x.dst] = insv(v, a[2], e)
        elif op == "freeze":
            regs[x.dst] = self.val(st, a[0], a[1])
        else:
            raise Unsupported("instruction " + x.text[:100])

    def intrinsic(self, name, av, args, st, rt):
        base = name.split(".")
        k = base[1]
        if k in ("lifetime", "dbg", "experimental", "assume", "stackrestore", "invariant", "donothing"):
            return None
        if k == "stacksave":
            return NULL
        if k == "expect":
            return av[0]
        if k in ("memcpy", "memmove"):
            self.copy(st.mem, av[0], av[1], self.cint(av[2]))
            return None
        if k == "memset":
            n = self.cint(av[2])
            d = av[0]
            b = av[1]
            i = 0
            while i < n:
                s = 8 if (n - i >= 8 and not d.terms and (d.const + i) % 8 == 0) else 4 if (n - i >= 4 and not d.terms and (d.const + i) % 4 == 0) else 1
                self.store(st.mem, ("i", 8 * s), concat(*([b] * s)), d.add(i))
                i += s
            return None
        if k in ("fshl", "fshr"):
            return self.vmap(lambda a, b, c: self.fsh(k, a, b, c), av)
        if k == "bswap":
            return self.vmap(lambda a: concat(*[a.extract(i * 8 + 7, i * 8) for i in range(a.w // 8)]), av)
        if k in ("umax", "umin", "smax", "smin"):
            lt = {"u": lambda a, b: a.ult(b), "s": lambda a, b: a.slt(b)}[k[0]]
            if k.endswith("max"):
                return self.vmap(lambda a, b: ite(lt(a, b), b, a), av)
            return self.vmap(lambda a, b: ite(lt(a, b), a, b), av)
        if k == "abs":
            a = av[0]
            return ite(a.slt(0), -a, a)
        if k == "ctpop":
            a = av[0]
            r = BV(a.w, 0)
            for i in range(a.w):
                r = r + a.extract(i, i).zext(a.w)
            return r
        if k in ("uadd", "usub", "umul", "sadd", "ssub", "smul") and base[2] == "with":
            a, b = av[0], av[1]
            w = a.w
            ext = (lambda v: v.zext(2 * w)) if k[0] == "u" else (lambda v: v.sext(2 * w))
            o = {"add": lambda p, q: p + q, "sub": lambda p, q: p - q, "mul": lambda p, q: p * q}[k[1:]]
            full = o(ext(a), ext(b))
            r = o(a, b)
            return [r, full.ne(ext(r))]
        if k == "usub" and base[2] == "sat":
            a, b = av
            return ite(a.ult(b), BV(a.w, 0), a - b)
        if k == "uadd" and base[2] == "sat":
            a, b = av
            s = a + b
            return ite(s.ult(a), BV(a.w, -1), s)
        if k == "x86":
            h = self.ext.get(name)
            if h:
                return h(self, st, av)
            from . import x86

            r = x86.intrinsic(name, av)
            if r is not None:
                return r
            raise Unsupported("intrinsic " + name)
        if k == "trap":
            self.oblig("trap-not-reached", BV(1, 0))
            st.dead = True
            return None
        if k == "vector" and base[2] == "reduce":
            o = base[3]
            v = av[0]
            r = v[0]
            for y in v[1:]:
                r = self.binop(o, r, y)
            return r
        raise Unsupported("intrinsic " + name)

    def cint(self, v):
        if v.conc:
            return v.v
        z = z3.simplify(v.z())
        if z3.is_bv_value(z):
            return z.as_long()
        raise Unsupported("symbolic length")

    def vmap(self, fn, av):
        if isinstance(av[0], list):
            return [self.vmap(fn, list(t)) for t in zip(*av)]
        return fn(*av)

    def fsh(self, k, a, b, c):
        w = a.w
        if c.conc:
            s = c.v % w
            if s == 0:
                return a if k == "fshl" else b
            if k == "fshr":
                s = w - s
            return concat(a.extract(w - 1 - s, 0), b.extract(w - 1, w - s))
        full = concat(a, b)
        cc = c.urem(w).zext(2 * w)
        if not a.conc and not b.conc and a.z().eq(b.z()):
            return a.rotl(c) if k == "fshl" else a.rotr(c)
        if k == "fshl":
            return (full << cc).extract(2 * w - 1, w)
        return (full >> cc).extract(w - 1, 0)


def padd(p, k):
    if isinstance(p, PSel):
        return PSel(p.c, padd(p.a, k), padd(p.b, k))
    return p.add(k)


def insv(v, idx, e):
    v = list(v)
    if len(idx) == 1:
        v[idx[0]] = e
    else:
        v[idx[0]] = insv(v[idx[0]], idx[1:], e)
    return v


class PathDead(Exception):
    pass


class OutOfBounds(Exception):
    """a concrete out-of-bounds access on a feasible path: a failed memory-safety obligation"""


class LoopCut:
    """One loop is cut at its header: the invariant is an obligation on entry and at the end of an arbitrary iteration.

    havoc(ex, st)         give the ghost objects arbitrary values
    inv(ex, st, phis)     [(name, condition)]; phis: [(register, type, value)]
    done(ex, st)          [(name, condition)] on every edge that leaves the loop
    Objects other than the ghosts must be left alone by the body."""

    def __init__(self, ghosts, havoc, inv, done):
        self.ghosts, self.havoc, self.inv, self.done = set(ghosts), havoc, inv, done
        self.loops = {}
        self.used = None
        self.left = 0

    @staticmethod
    def succ(b):
        t = b[-1]
        if t.op == "br":
            return [l for l in t.a[1:] if l is not None]
        if t.op == "switch":
            return [t.a[1]] + [l for _, l in t.a[2]]
        return []

    def find(self, f):
        if f.name in self.loops:
            return self.loops[f.name]
        back, done = [], set()
        path, onp = [], set()

        def dfs(b):
            done.add(b)
            onp.add(b)
            for s in self.succ(f.blocks[b]):
                if s in onp:
                    back.append((b, s))
                elif s not in done:
                    dfs(s)
            onp.discard(b)

        dfs(f.entry)
        heads = {h for _, h in back}
        if len(heads) > 1:
            raise Unsupported("more than one loop under a loop invariant")
        r = None
        if heads:
            h = heads.pop()
            pred = {}
            for b in f.blocks:
                for s in self.succ(f.blocks[b]):
                    pred.setdefault(s, []).append(b)
            body, todo = {h}, [b for b, _ in back]
            while todo:
                b = todo.pop()
                if b not in body:
                    body.add(b)
                    todo += pred.get(b, [])
            r = (h, body)
        self.loops[f.name] = r
        return r

    def enter(self, ex, f, blk, prev, st):
        lp = self.find(f)
        if lp is None:
            return
        h, body = lp
        if blk == h:
            phis = [(x.dst, x.a[0], st.regs[x.dst]) for x in f.blocks[h] if x.op == "phi"]
            if prev not in body:
                if self.used is not None:
                    raise Unsupported("the loop under the invariant is entered twice")
                self.used = f.name
                self.start = list(phis)
                self.prepare = [c for c in self.inv(ex, st, phis, 0)]
                for n, c in self.prepare:
                    ex.oblig("loop:" + n + " on entry", c)
                st.mem = st.mem.fork()
                self.havoc(ex, st)
                st.regs = dict(st.regs)
                for r, v in self.fresh(ex, phis):
                    st.regs[r] = v
                st.mem = st.mem.fork()
                self.at = dict(st.mem.objs)
                phis = [(r, t, st.regs[r]) for r, t, _ in phis]
                for n, c in self.inv(ex, st, phis, 1):
                    ex.pc.append(c.b())
            else:
                for n, c in self.inv(ex, st, phis, 2):
                    ex.oblig("loop:" + n + " kept by every iteration", c)
                self.untouched(st)
                raise PathDead()
        elif self.used == f.name and prev in body and blk not in body:
            self.left += 1
            self.untouched(st)
            for n, c in self.done(ex, st):
                ex.oblig("loop:" + n + " when it ends", c)

    def fresh(self, ex, phis):
        out = []
        for r, t, v in phis:
            if not isinstance(v, BV):
                raise Unsupported("a loop variable that is not a word under an invariant")
            out.append((r, ex.fresh_bv("loopvar", v.w)))
        return out

    def untouched(self, st):
        for o, c in st.mem.objs.items():
            if o in self.ghosts or o not in self.at:
                continue
            if c is not self.at[o] and c != self.at[o]:
                raise Unsupported("the loop under the invariant writes " + o)
