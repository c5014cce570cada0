"""Fixed-width machine words with a concrete fast path.

A BV is either concrete (`v` is a Python int, already reduced mod 2^w) or
symbolic (`v` is a z3 expression: BitVec sort of width w, or, for w == 1,
possibly a Bool).  Contracts (specification functions) and the LLVM-IR symbolic
executor both compute with BVs; given concrete inputs every operation stays
concrete, which is what makes each specification function executable for
counterexample replay.
"""
import z3


def _simp(e):
    return z3.simplify(e)


class BV:
    __slots__ = ("w", "v")

    def __init__(self, w, v):
        self.w = w
        if isinstance(v, int):
            v &= (1 << w) - 1
        self.v = v

    # -- helpers -------------------------------------------------------
    @property
    def conc(self):
        return isinstance(self.v, int)

    def z(self):
        """z3 BitVec expression"""
        v = self.v
        if isinstance(v, int):
            return z3.BitVecVal(v, self.w)
        if self.w == 1 and z3.is_bool(v):
            return z3.If(v, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        return v

    def b(self):
        """z3 Bool expression or Python bool (w must be 1)"""
        assert self.w == 1
        v = self.v
        if isinstance(v, int):
            return v != 0
        if z3.is_bool(v):
            return v
        return v == z3.BitVecVal(1, 1)

    def zb(self):
        r = self.b()
        return z3.BoolVal(r) if isinstance(r, bool) else r

    def int(self):
        if not isinstance(self.v, int):
            raise NotConcrete(str(self)[:200])
        return self.v

    def sint(self):
        v = self.int()
        return v - (1 << self.w) if v >> (self.w - 1) else v

    def __repr__(self):
        return f"BV{self.w}({hex(self.v) if self.conc else str(self.v)[:80]})"

    def _c(self, o):
        if isinstance(o, BV):
            if o.w != self.w:
                raise TypeError(f"width mismatch {self.w} vs {o.w}")
            return o
        if isinstance(o, int):
            return BV(self.w, o)
        raise TypeError(type(o))

    # -- arithmetic ----------------------------------------------------
    def __add__(s, o):
        o = s._c(o)
        if s.conc and o.conc:
            return BV(s.w, s.v + o.v)
        if o.conc and o.v == 0:
            return s
        if s.conc and s.v == 0:
            return o
        for a, b in ((s, o), (o, s)):
            if b.conc:
                j = _const_over_zeros(a, b.v)
                if j is not None:
                    return j
        return _sum(s, o) if SUMC else BV(s.w, s.z() + o.z())

    __radd__ = __add__

    def __sub__(s, o):
        o = s._c(o)
        if s.conc and o.conc:
            return BV(s.w, s.v - o.v)
        if o.conc and SUMC:
            return s + (-o.v & ((1 << s.w) - 1))
        return BV(s.w, s.z() - o.z())

    def __rsub__(s, o):
        return s._c(o) - s

    def __neg__(s):
        return BV(s.w, 0) - s

    def __mul__(s, o):
        o = s._c(o)
        if s.conc and o.conc:
            return BV(s.w, s.v * o.v)
        for a, b in ((s, o), (o, s)):
            if a.conc:
                if a.v == 0:
                    return BV(s.w, 0)
                if a.v == 1:
                    return b
                if a.v & (a.v - 1) == 0:
                    return b << (a.v.bit_length() - 1)
                t = (a.v & -a.v).bit_length() - 1
                if t >= 8:  # the low t bits of the product are zero
                    return concat(b.trunc(s.w - t) * (a.v >> t), BV(t, 0))
        return BV(s.w, _ord(s, o, lambda a, b: a * b))

    __rmul__ = __mul__

    def udiv(s, o):
        o = s._c(o)
        if s.conc and o.conc:
            return BV(s.w, s.v // o.v)
        if o.conc and o.v and o.v & (o.v - 1) == 0:
            return s >> (o.v.bit_length() - 1)
        return BV(s.w, z3.UDiv(s.z(), o.z()))

    def urem(s, o):
        o = s._c(o)
        if s.conc and o.conc:
            return BV(s.w, s.v % o.v)
        if o.conc and o.v and o.v & (o.v - 1) == 0:
            return s & (o.v - 1)
        return BV(s.w, z3.URem(s.z(), o.z()))

    def sdiv(s, o):
        o = s._c(o)
        if s.conc and o.conc:
            a, b = s.sint(), o.sint()
            q = abs(a) // abs(b)
            return BV(s.w, q if (a < 0) == (b < 0) else -q)
        return BV(s.w, s.z() / o.z())

    def srem(s, o):
        o = s._c(o)
        if s.conc and o.conc:
            a, b = s.sint(), o.sint()
            r = abs(a) % abs(b)
            return BV(s.w, -r if a < 0 else r)
        return BV(s.w, z3.SRem(s.z(), o.z()))

    # -- bitwise -------------------------------------------------------
    def __and__(s, o):
        o = s._c(o)
        if s.conc and o.conc:
            return BV(s.w, s.v & o.v)
        if s.w == 1:
            for a, b in ((s, o), (o, s)):
                if a.conc:
                    return b if a.v else a
            return BV(1, z3.And(s.b(), o.b()))
        m = (1 << s.w) - 1
        for a, b in ((s, o), (o, s)):
            if a.conc:
                if a.v == 0:
                    return BV(s.w, 0)
                if a.v == m:
                    return b
                # low mask -> zext(extract)
                if a.v & (a.v + 1) == 0:
                    k = a.v.bit_length()
                    return b.trunc(k).zext(s.w)
                # high mask
                lo = (a.v & -a.v).bit_length() - 1
                if (a.v >> lo) & ((a.v >> lo) + 1) == 0 and a.v.bit_length() < s.w:  # one run of ones
                    return concat(BV(s.w - a.v.bit_length(), 0), b.extract(a.v.bit_length() - 1, lo), BV(lo, 0))
                inv = a.v ^ m
                if inv & (inv + 1) == 0:
                    k = inv.bit_length()
                    return concat(b.extract(s.w - 1, k), BV(k, 0))
        return BV(s.w, _ord(s, o, lambda a, b: a & b))

    __rand__ = __and__

    def __or__(s, o):
        o = s._c(o)
        if s.conc and o.conc:
            return BV(s.w, s.v | o.v)
        if s.w == 1:
            for a, b in ((s, o), (o, s)):
                if a.conc:
                    return a if a.v else b
            return BV(1, z3.Or(s.b(), o.b()))
        for a, b in ((s, o), (o, s)):
            if a.conc:
                if a.v == 0:
                    return b
                if a.v == (1 << s.w) - 1:
                    return a
        for a, b in ((s, o), (o, s)):
            if b.conc:
                j = _const_over_zeros(a, b.v)
                if j is not None:
                    return j
        j = _disjoint(s, o)
        if j is not None:
            return j
        return BV(s.w, _ord(s, o, lambda a, b: a | b))

    __ror__ = __or__

    def __xor__(s, o):
        o = s._c(o)
        if s.conc and o.conc:
            return BV(s.w, s.v ^ o.v)
        if s.w == 1:
            for a, b in ((s, o), (o, s)):
                if a.conc:
                    return ~b if a.v else b
            return BV(1, z3.Xor(s.b(), o.b()))
        for a, b in ((s, o), (o, s)):
            if a.conc and a.v == 0:
                return b
        if SUMC:
            return _xsum(s, o)
        return BV(s.w, _ord(s, o, lambda a, b: a ^ b))

    __rxor__ = __xor__

    def __invert__(s):
        if s.conc:
            return BV(s.w, ~s.v)
        if s.w == 1:
            return BV(1, z3.Not(s.b()))
        return BV(s.w, ~s.z())

    # -- shifts (amount: int or BV; >=w gives 0 / sign) -----------------
    def __lshift__(s, k):
        if isinstance(k, BV):
            if k.conc:
                k = k.v
            else:
                return BV(s.w, s.z() << s._c(k).z())
        if k >= s.w:
            return BV(s.w, 0)
        if k == 0:
            return s
        if s.conc:
            return BV(s.w, s.v << k)
        return concat(s.extract(s.w - 1 - k, 0), BV(k, 0))

    def __rshift__(s, k):
        if isinstance(k, BV):
            if k.conc:
                k = k.v
            else:
                return BV(s.w, z3.LShR(s.z(), s._c(k).z()))
        if k >= s.w:
            return BV(s.w, 0)
        if k == 0:
            return s
        if s.conc:
            return BV(s.w, s.v >> k)
        return s.extract(s.w - 1, k).zext(s.w)

    def ashr(s, k):
        if isinstance(k, BV):
            if k.conc:
                k = k.v
            else:
                return BV(s.w, s.z() >> s._c(k).z())
        k = min(k, s.w - 1)
        if k == 0:
            return s
        if s.conc:
            return BV(s.w, s.sint() >> k)
        return s.extract(s.w - 1, k).sext(s.w)

    def rotl(s, k):
        if isinstance(k, BV):
            if k.conc:
                k = k.v
            else:
                kk = s._c(k).urem(s.w)
                return (s << kk) | (s >> (BV(s.w, s.w) - kk))
        k %= s.w
        if k == 0:
            return s
        if s.conc:
            return BV(s.w, (s.v << k) | (s.v >> (s.w - k)))
        return concat(s.extract(s.w - 1 - k, 0), s.extract(s.w - 1, s.w - k))

    def rotr(s, k):
        if isinstance(k, int):
            return s.rotl((s.w - k) % s.w)
        if k.conc:
            return s.rotl((s.w - k.v) % s.w)
        kk = s._c(k).urem(s.w)
        return (s >> kk) | (s << (BV(s.w, s.w) - kk))

    # -- width changes ---------------------------------------------------
    def extract(s, hi, lo):
        n = hi - lo + 1
        if n == s.w:
            return s
        if s.conc:
            return BV(n, s.v >> lo)
        e = s.z()
        # look through concat / zero_ext / extract
        while True:
            if z3.is_app(e):
                k = e.decl().kind()
                if k == z3.Z3_OP_CONCAT:
                    pos = e.size()
                    hit = None
                    for c in e.children():
                        pos -= c.size()
                        if lo >= pos and hi < pos + c.size():
                            hit = (c, pos)
                            break
                    if hit is not None:
                        c, pos = hit
                        hi -= pos
                        lo -= pos
                        e = c
                        if hi - lo + 1 == e.size():
                            return mk(n, e)
                        continue
                    pos, pcs = e.size(), []
                    for c in e.children():
                        pos -= c.size()
                        h, l = min(hi, pos + c.size() - 1), max(lo, pos)
                        if h >= l:
                            pcs.append(BV(c.size(), c.as_long() if z3.is_bv_value(c) else c).extract(h - pos, l - pos))
                    return concat(*pcs)
                elif k == z3.Z3_OP_EXTRACT:
                    p = e.params()
                    lo += p[1]
                    hi += p[1]
                    e = e.arg(0)
                    continue
                elif k == z3.Z3_OP_SIGN_EXT and hi < e.arg(0).size():
                    e = e.arg(0)
                    if n == e.size():
                        return mk(n, e)
                    continue
                elif k == z3.Z3_OP_BNUM:
                    return BV(n, e.as_long() >> lo)
                elif k == z3.Z3_OP_BADD and hi < 16 and (v := _low(e, hi + 1)) is not None:
                    return BV(n, v >> lo)
                elif not LINEAR and (n in (32, 64) and lo % 32 == 0 or PUSH8 and n == 8 and lo % 8 == 0 and k in BITWISE) and (k in BITWISE or lo == 0 and n == 32 and e.size() == 64 and k in RING):
                    key = (e.get_id(), hi, lo)
                    m = _xmemo.get(key)
                    if m is None:
                        xs = [BV(e.size(), c.as_long() if z3.is_bv_value(c) else c).extract(hi, lo) for c in e.children()]
                        r = xs[0]
                        for y in xs[1:]:
                            r = RING[k](r, y) if k in RING else BITWISE[k](r, y)
                        m = _xmemo[key] = (r, e)
                        if not r.conc and n < e.size():
                            _prov.setdefault(r.v.get_id(), []).append((e, hi, lo))
                    return m[0]
            break
        if n == e.size():
            return mk(n, e)
        return BV(n, z3.Extract(hi, lo, e))

    def trunc(s, n):
        if n == s.w:
            return s
        if n == 1 and not s.conc:
            return BV(1, s.extract(0, 0).v)
        return s.extract(n - 1, 0)

    def zext(s, n):
        if n == s.w:
            return s
        assert n > s.w
        if s.conc:
            return BV(n, s.v)
        return concat(BV(n - s.w, 0), s)

    def sext(s, n):
        if n == s.w:
            return s
        if s.conc:
            return BV(n, s.sint())
        return BV(n, z3.SignExt(n - s.w, s.z()))

    def to(s, n):
        """zero-extend or truncate"""
        return s.zext(n) if n >= s.w else s.trunc(n)

    # -- comparisons -> BV1 ------------------------------------------------
    def eq(s, o):
        o = s._c(o)
        if s.conc and o.conc:
            return BV(1, int(s.v == o.v))
        if s.w == 1:
            if o.conc:
                return s if o.v else ~s
            if s.conc:
                return o if s.v else ~o
            return BV(1, s.b() == o.b())
        for x, c in ((s, o), (o, s)):
            if c.conc and z3.is_app(x.v) and x.v.decl().kind() == z3.Z3_OP_CONCAT:
                h = x.v
                while z3.is_app(h) and h.decl().kind() == z3.Z3_OP_CONCAT:
                    h = h.arg(0)
                if z3.is_bv_value(h):  # known leading bits
                    n = s.w - h.size()
                    return x.trunc(n).eq(c.trunc(n)) if h.as_long() == c.v >> n else BV(1, 0)
        a, b = s.z(), o.z()
        if a.eq(b):
            return BV(1, 1)
        return BV(1, a == b if a.get_id() <= b.get_id() else b == a)

    def ne(s, o):
        return ~s.eq(o)

    def ult(s, o):
        o = s._c(o)
        if s.conc and o.conc:
            return BV(1, int(s.v < o.v))
        if o.conc and o.v == 0:
            return BV(1, 0)
        return BV(1, z3.ULT(s.z(), o.z()))

    def ule(s, o):
        return ~s._c(o).ult(s)

    def ugt(s, o):
        return s._c(o).ult(s)

    def uge(s, o):
        return ~s.ult(o)

    def slt(s, o):
        o = s._c(o)
        if s.conc and o.conc:
            return BV(1, int(s.sint() < o.sint()))
        return BV(1, s.z() < o.z())

    def sle(s, o):
        return ~s._c(o).slt(s)

    def sgt(s, o):
        return s._c(o).slt(s)

    def sge(s, o):
        return ~s.slt(o)

    def __eq__(self, o):
        raise TypeError("use .eq()")

    __hash__ = None

    def __bool__(self):
        if self.conc:
            return self.v != 0
        raise NotConcrete("branch on symbolic word")


class NotConcrete(Exception):
    pass


_xmemo = {}
_prov = {}
LINEAR = False  # leave bitwise terms as they come: the obligations go to the GF(2) normal form
PUSH8 = True  # bytes of bitwise operations: pushed inwards (block ciphers on bytes) or kept (word-oriented code)
SUMC = False  # constants outermost in sums, commutative operands in a fixed order
BITWISE = {z3.Z3_OP_BXOR: lambda a, b: a ^ b, z3.Z3_OP_BAND: lambda a, b: a & b, z3.Z3_OP_BOR: lambda a, b: a | b}
RING = {z3.Z3_OP_BMUL: lambda a, b: a * b, z3.Z3_OP_BADD: lambda a, b: a + b}


def mk(w, e):
    """BV from z3 expr (folding numerals)"""
    if z3.is_bv_value(e):
        return BV(w, e.as_long())
    if z3.is_true(e):
        return BV(1, 1)
    if z3.is_false(e):
        return BV(1, 0)
    return BV(w, e)


def sym(name, w):
    return BV(w, z3.BitVec(name, w))


def _ord(a, b, f):
    """f(a, b) for commutative f in a fixed operand order (constants last)"""
    x, y = a.z(), b.z()
    if a.conc or (SUMC and not b.conc and y.get_id() < x.get_id()):
        x, y = y, x
    return f(x, y)


def _chain(e, kind, out):
    """operands of a nested sum / exclusive or"""
    st = [e]
    while st:
        x = st.pop()
        if z3.is_app(x) and x.decl().kind() == kind:
            st.extend(x.children())
        else:
            out.append(x)


def _acsum(a, b, kind, op, fold, cancel):
    """a op b as a flat sum: constants folded outermost, operands in a fixed order"""
    k, xs = 0, []
    for t in (a, b):
        if t.conc:
            k = fold(k, t.v)
        else:
            _chain(t.v, kind, xs)
    ys = []
    for x in xs:
        if z3.is_bv_value(x):
            k = fold(k, x.as_long())
        else:
            ys.append(x)
    k &= (1 << a.w) - 1
    if cancel:
        n = {}
        for y in ys:
            n.setdefault(y.get_id(), []).append(y)
        ys = [v[0] for v in n.values() if len(v) & 1]
    if len(ys) > 24:  # long sums stay nested
        x, y = a.z(), b.z()
        return BV(a.w, op(x, y) if x.get_id() <= y.get_id() else op(y, x))
    if not ys:
        return BV(a.w, k)
    ys.sort(key=lambda y: y.get_id())
    r = ys[0]
    for y in ys[1:]:
        r = op(r, y)
    return mk(a.w, op(r, z3.BitVecVal(k, a.w)) if k else r)


def _sum(a, b):
    return _acsum(a, b, z3.Z3_OP_BADD, lambda x, y: x + y, lambda x, y: x + y, False)


def _xsum(a, b):
    return _acsum(a, b, z3.Z3_OP_BXOR, lambda x, y: x ^ y, lambda x, y: x ^ y, True)


def _cparts(e):
    """the pieces of a concatenation, most significant first"""
    out = []
    for c in e.children():
        if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_CONCAT:
            out += _cparts(c)
        else:
            out.append(c)
    return out


def concat(*xs):
    """most significant first"""
    xs = [x for x in xs if x is not None]
    if len(xs) == 1:
        return xs[0]
    w = sum(x.w for x in xs)
    if all(x.conc for x in xs):
        v = 0
        for x in xs:
            v = (v << x.w) | x.v
        return BV(w, v)
    # flatten and fuse
    parts = []
    for x in xs:
        if not x.conc and z3.is_app(x.v) and not z3.is_bool(x.v) and x.v.decl().kind() == z3.Z3_OP_CONCAT:
            for c in _cparts(x.v):
                parts.append(mk(c.size(), c))
        else:
            parts.append(x)
    out = []
    for p in parts:
        if out:
            q = out[-1]
            if q.conc and p.conc:
                out[-1] = BV(q.w + p.w, (q.v << p.w) | p.v)
                continue
            if not q.conc and not p.conc:
                f = _join(q.z(), p.z())
                if f is not None:
                    out[-1] = BV(q.w + p.w, f)
                    continue
        out.append(p)
    if len(out) == 1:
        return out[0]
    return BV(w, z3.Concat([p.z() for p in out]))


def _split0(x):
    """(list of (width, term or None for zero bits)), most significant first"""
    e = x.v
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_CONCAT:
        return [(c.size(), None if z3.is_bv_value(c) and c.as_long() == 0 else c) for c in _cparts(e)]
    return None


def _const_over_zeros(x, v):
    """x + v (= x | v) when every set bit of v meets a constant zero bit of the leading part of x"""
    if x.conc:
        return None
    e = x.v
    if not z3.is_app(e) or e.decl().kind() not in (z3.Z3_OP_CONCAT, z3.Z3_OP_ZERO_EXT):
        return None
    if e.decl().kind() == z3.Z3_OP_ZERO_EXT:
        parts = [(x.w - e.arg(0).size(), 0), (e.arg(0).size(), e.arg(0))]
    else:
        parts = [(c.size(), c.as_long() if z3.is_bv_value(c) else c) for c in e.children()]
    pos, out = x.w, []
    for w, t in parts:
        pos -= w
        b = (v >> pos) & ((1 << w) - 1)
        if isinstance(t, int):
            if t & b:
                return None
            out.append(BV(w, t | b))
        else:
            if b:
                return None
            out.append(BV(w, t))
    return concat(*out)


def _disjoint(s, o):
    """a | b when every bit of one of them is known zero: the concatenation"""
    if s.conc or o.conc:
        return None
    a, b = _split0(s), _split0(o)
    if a is None or b is None:
        return None
    out, i, j = [], 0, 0
    a, b = list(a), list(b)
    while a:
        (wa, ta), (wb, tb) = a[0], b[0]
        if ta is not None and tb is not None:
            return None
        w = min(wa, wb)
        t, wt = (ta, wa) if ta is not None else (tb, wb)
        if t is None:
            out.append(BV(w, 0))
        else:
            if wt != w:  # the zero part covers only some of it
                z = b if ta is not None else a
                if z[0][0] == w:
                    p = BV(wt, t)
                    out.append(p.extract(wt - 1, wt - w))
                    rest = p.extract(wt - w - 1, 0)
                    y = a if ta is not None else b
                    y[0] = (wt - w, rest.z())
                    z.pop(0)
                    continue
            out.append(BV(w, t))
        for l, wl, tl in ((a, wa, ta), (b, wb, tb)):
            if wl == w:
                l.pop(0)
            else:
                l[0] = (wl - w, tl)
    return concat(*out)


def _low(e, n, depth=4):
    """the n low bits of e when they are known"""
    k = e.decl().kind()
    if k == z3.Z3_OP_BNUM:
        return e.as_long() & ((1 << n) - 1)
    if k == z3.Z3_OP_CONCAT:
        c = e.arg(e.num_args() - 1)
        return _low(c, n, depth) if c.size() >= n else None
    if k == z3.Z3_OP_BADD and depth:
        r = 0
        for c in e.children():
            v = _low(c, n, depth - 1)
            if v is None:
                return None
            r += v
        return r & ((1 << n) - 1)
    return None


def _sources(t):
    """(e, hi, lo) such that t is bits hi..lo of e"""
    r = list(_prov.get(t.get_id(), ())[-4:])
    if t.decl().kind() == z3.Z3_OP_EXTRACT:
        hi, lo = t.params()
        r.append((t.arg(0), hi, lo))
    return r


def _refuse(a, b):
    """two adjacent pieces of one term whose extraction was pushed inwards: the longer piece"""
    sb = _sources(b)
    if not sb:
        return None
    for e, hi, lo in _sources(a):
        for e2, hi2, lo2 in sb:
            if hi2 + 1 == lo and e.eq(e2):
                if hi - lo2 + 1 == e.size():
                    return e
                m = _xmemo.get((e.get_id(), hi, lo2))
                return m[0].z() if m is not None else z3.Extract(hi, lo2, e)
    return None


def _flat(t, k):
    r, st = [], [t]
    while st:
        x = st.pop()
        if z3.is_app(x) and x.decl().kind() == k and len(r) < 12:
            st.extend(x.children())
        else:
            r.append(x)
    return r


def _join(a, b, depth=2):
    """one term equal to the concatenation of a and b, when one is at hand"""
    f = _fuse(a, b)
    if PUSH8 or LINEAR:
        return f
    if f is None and _prov:
        f = _refuse(a, b)
    if f is not None or not depth:
        return f
    if z3.is_bv_value(a) and z3.is_bv_value(b):
        return z3.BitVecVal((a.as_long() << b.size()) | b.as_long(), a.size() + b.size())
    k = a.decl().kind()
    if k != z3.Z3_OP_BXOR or b.decl().kind() != k:
        return None
    la, lb = _flat(a, k), _flat(b, k)
    if len(la) != len(lb):
        return None
    out = []
    for x in la:
        for i, y in enumerate(lb):
            f = _join(x, y, depth - 1)
            if f is not None:
                out.append(f)
                del lb[i]
                break
        else:
            return None
    w = a.size() + b.size()
    out.sort(key=lambda t: t.get_id())
    r = BV(w, out[0])
    for x in out[1:]:
        r = r ^ BV(w, x)
    return r.z()


def _fuse(a, b):
    if (
        z3.is_app(a)
        and z3.is_app(b)
        and a.decl().kind() == z3.Z3_OP_EXTRACT
        and b.decl().kind() == z3.Z3_OP_EXTRACT
    ):
        pa, pb = a.params(), b.params()
        if pa[1] == pb[0] + 1 and a.arg(0).eq(b.arg(0)):
            e = a.arg(0)
            if pa[0] == e.size() - 1 and pb[1] == 0:
                return e
            return z3.Extract(pa[0], pb[1], e)
    return None


def ite(c, a, b):
    """c: BV1"""
    if c.conc:
        return a if c.v else b
    if a is b:
        return a
    if a.conc and b.conc and a.v == b.v:
        return a
    if a.w == 1:
        if a.conc and b.conc:
            return c if a.v else ~c
        return BV(1, z3.If(c.b(), a.zb(), b.zb()))
    za, zb = a.z(), b.z()
    if za.eq(zb):
        return a
    q = c.b()
    if z3.is_not(q):
        q, za, zb = q.arg(0), zb, za
    return BV(a.w, z3.If(q, za, zb))


def conj(xs):
    r = BV(1, 1)
    for x in xs:
        r = r & x
    return r


def disj(xs):
    r = BV(1, 0)
    for x in xs:
        r = r | x
    return r


def mulhi(a, b):
    w = a.w
    return (a.zext(2 * w) * b.zext(2 * w)).extract(2 * w - 1, w)


def u8(x):
    return BV(8, x)


def u16(x):
    return BV(16, x)


def u32(x):
    return BV(32, x)


def u64(x):
    return BV(64, x)


def u128(x):
    return BV(128, x)
