"""C04: Philox, ThreeFry, Squares (C level); C07 next32/next_double; C08 advance."""
from .common import *

CONTRACTS = []


# ---- published block functions (Salmon et al. 2011) ---------------------------
def mulhilo(w, c, x):
    p = BV(2 * w, c) * x.zext(2 * w)
    return p.extract(2 * w - 1, w), p.trunc(w)


PM = {(2, 64): [0xD2B74407B1CE6E93], (4, 64): [0xD2E7470EE14C6C93, 0xCA5A826395121157], (2, 32): [0xD256D193], (4, 32): [0xD2511F53, 0xCD9E8D57]}
PW = {64: [0x9E3779B97F4A7C15, 0xBB67AE8584CAA73B], 32: [0x9E3779B9, 0xBB67AE85]}


def philox(n, w, ctr, key, rounds=10):
    c, k = list(ctr), list(key)
    m = PM[n, w]
    for r in range(rounds):
        if n == 2:
            hi, lo = mulhilo(w, m[0], c[0])
            c = [hi ^ k[0] ^ c[1], lo]
        else:
            h0, l0 = mulhilo(w, m[0], c[0])
            h1, l1 = mulhilo(w, m[1], c[2])
            c = [h1 ^ c[1] ^ k[0], l1, h0 ^ c[3] ^ k[1], l0]
        k = [x + y for x, y in zip(k, PW[w])]
    return c


TR = {
    (4, 64): [(14, 16), (52, 57), (23, 40), (5, 37), (25, 33), (46, 12), (58, 22), (32, 32)],
    (2, 64): [16, 42, 12, 31, 16, 32, 24, 21],
    (4, 32): [(10, 26), (11, 21), (13, 27), (23, 5), (6, 20), (17, 11), (25, 10), (18, 20)],
    (2, 32): [13, 15, 26, 6, 17, 29, 16, 24],
}
TP = {64: 0x1BD11BDAA9FC1A22, 32: 0x1BD11BDA}


def threefry(n, w, ctr, key, rounds=20):
    ks = list(key)
    p = BV(w, TP[w])
    for x in key:
        p = p ^ x
    ks.append(p)
    x = [a + b for a, b in zip(ctr, ks)]
    for r in range(rounds):
        t = TR[n, w][r % 8]
        if n == 2:
            x0 = x[0] + x[1]
            x = [x0, x[1].rotl(t) ^ x0]
        elif r % 2 == 0:
            a, c = x[0] + x[1], x[2] + x[3]
            x = [a, x[1].rotl(t[0]) ^ a, c, x[3].rotl(t[1]) ^ c]
        else:
            a, c = x[0] + x[3], x[2] + x[1]
            x = [a, x[1].rotl(t[1]) ^ c, c, x[3].rotl(t[0]) ^ a]
        if r % 4 == 3:
            s = r // 4 + 1
            x = [a + ks[(s + i) % (n + 1)] for i, a in enumerate(x)]
            x[n - 1] = x[n - 1] + s
    return x


def increment(c):
    out, cy = [], BV(1, 1)
    for x in c:
        y = x + cy.zext(x.w)
        out.append(y)
        cy = cy & y.eq(0)
    return out


class G:
    """one of the eight variants"""

    def __init__(self, fam, n, w):
        self.fam, self.n, self.w = fam, n, w
        self.nm = f"{fam}{n}x{w}"
        self.nk = n // 2 if fam == "philox" else n
        self.blk = philox if fam == "philox" else threefry
        self.fc, self.fk = f"state.state{n}x{w}.ctr.v", f"state.state{n}x{w}.key.v"
        self.F = {self.fc: w, self.fk: w, "buffer_pos": 32, "buffer": w, "has_uint32": 32, "uinteger": 32}
        t = f"{fam}_all_t"
        self.t = t
        sv = f"uint{w}_t *step"
        self.tu = TU(
            self.nm, [f"{fam}/{fam}.c"],
            [f"uint64_t {self.nm}_next64({t} *state)", f"uint32_t {self.nm}_next32({t} *state)", f"double {self.nm}_next_double({t} *state)",
             f"void {self.nm}_advance({t} *state, {sv}, int use_carry)"],
            {t: list(self.F)}, flags=["-DR123_USE_PHILOX_64BIT=1"],
        )

    def slots(self, buf):
        """value slots of the 8-byte buffer cells"""
        return buf if self.w == 64 else buf[0::2]

    def spread(self, slots):
        if self.w == 64:
            return slots
        return [x for s in slots for x in (s, None)]

    def obj(self, k):
        st = k.obj("state", self.t, self.F, buffer_pos=k.word("pos", 32, 0, 4))
        return st

    def draw(self, pos, ctr, key, buf):
        """one word at concrete position pos: (value, pos', ctr', buf')"""
        if pos < self.n:
            nb = list(buf)
            nb[pos] = None  # consumed: never read again
            return buf[pos], pos + 1, ctr, nb
        c = increment(ctr)
        b = self.blk(self.n, self.w, c, key)
        return b[0], 1, c, [None] + b[1:] + [None] * (4 - self.n)

    def draws(self, k, st, m):
        ctr, key, pos = st.old[self.fc], st.old[self.fk], k.case["pos"]
        buf = [x if pos <= i < self.n else None for i, x in enumerate(self.slots(st.old["buffer"]))]
        vs = []
        for _ in range(m):
            v, pos, ctr, buf = self.draw(pos, ctr, key, buf)
            vs.append(v)
        return vs, {self.fc: ctr, "buffer_pos": u32(pos), "buffer": self.spread(buf)}

    def next64(self, k):
        st = self.obj(k)
        r = k.call(f"{self.nm}_next64", st)
        vs, exp = self.draws(k, st, 64 // self.w)
        k.same("return value", r, vs[0] if self.w == 64 else concat(vs[0], vs[1]))
        k.post(st, exp)
        k.frame(st)

    def next_double(self, k):
        st = self.obj(k)
        r = k.call(f"{self.nm}_next_double", st)
        vs, exp = self.draws(k, st, 64 // self.w)
        k.double("return value", r, vs[0] >> 11 if self.w == 64 else dstep(k, vs[0], vs[1]), -53)
        k.double_unit("return value in [0,1)", r)
        k.post(st, exp)
        k.frame(st)

    def next32(self, k):
        st = self.obj(k)
        r = k.call(f"{self.nm}_next32", st)
        if self.w == 32:
            vs, exp = self.draws(k, st, 1)
            k.same("return value", r, vs[0])
            k.post(st, exp)
        else:
            vs, exp = self.draws(k, st, 1)
            h = st.old["has_uint32"][0].ne(0)
            lo, hi = vs[0].extract(31, 0), vs[0].extract(63, 32)
            k.same("return value: buffered half, else low half", r, ite(h, st.old["uinteger"][0], lo))
            e = {}
            for f, n in exp.items():
                n = n if isinstance(n, list) else [n]
                # slot `pos` is consumed only when a word is drawn
                e[f] = [(None if b is None else ite(h, a, b)) for a, b in zip(st.old[f], n)]
            k.post(st, e, skip=("has_uint32", "uinteger"))
            if k.case["pos"] < self.n:
                i = k.case["pos"]
                k.same("undrawn word kept", ite(h, k.now(st, "buffer")[i], st.old["buffer"][i]), st.old["buffer"][i])
            else:
                k.ensure("nothing undrawn", BV(1, 1))
            hb = k.now(st, "has_uint32")[0].ne(0)
            k.ensure("buffer flag toggles", hb.ne(h))
            k.same("buffered value is the high half", ite(h, hi, k.now(st, "uinteger")[0]), hi)
        k.frame(st)

    def advance(self, k):
        """words: the absolute position ctr*N + pos moves by delta (mod 2^(N*w)*N)"""
        n, w = self.n, self.w
        lg = n // 2
        st = self.obj(k)
        top = k.word("top", w, 0, n - 1)
        step = k.array("step", w, n + 1, init=[k.word(f"s{i}", w) for i in range(n)] + [top])
        k.call(f"{self.nm}_advance", st, step, 1)
        W = n * w + lg
        ctr, pos = st.old[self.fc], k.case["pos"]
        p = min(pos, n)
        P = concat(concat(*reversed(ctr)), BV(lg, 0)) + p
        d = concat(top.trunc(lg), *reversed(step.old["a"][:n]))
        Q = P + d
        cn, bp = k.now(st, self.fc), k.now(st, "buffer_pos")[0]
        k.ensure("buffer_pos within the block", bp.ult(n + 1))
        got = concat(concat(*reversed(cn)), BV(lg, 0)) + bp.zext(W)
        k.same("absolute position advanced by delta", got, Q)
        b = self.blk(n, w, cn, st.old[self.fk])
        now = self.slots(k.now(st, "buffer"))
        for i in range(n):
            k.same(f"buffer[{i}] is word {i} of the current block", now[i], b[i])
        k.same("key kept", concat(*k.now(st, self.fk)), concat(*st.old[self.fk]))
        k.frame(st)

    def advance_counter(self, k):
        """use_carry=0 (deprecated counter form): counter moves by delta/N exactly, for delta a multiple of N"""
        n, w = self.n, self.w
        lg = n // 2
        st = self.obj(k)
        top = k.word("top", w, 0, n - 1)
        s0 = concat(k.word("s0", w - lg), BV(lg, 0))
        step = k.array("step", w, n + 1, init=[s0] + [k.word(f"s{i}", w) for i in range(1, n)] + [top])
        k.call(f"{self.nm}_advance", st, step, 0)
        d = concat(top.trunc(lg), *reversed(step.old["a"][:n])) >> lg
        k.same("counter advanced by delta/N", concat(*reversed(k.now(st, self.fc))), concat(*reversed(st.old[self.fc])) + d.trunc(n * w))
        k.same("key kept", concat(*k.now(st, self.fk)), concat(*st.old[self.fk]))
        k.frame(st)

    def contracts(self):
        ps = [{"pos": i} for i in range(self.n + 1)] + ([{"pos": 4}] if self.n == 2 else [])
        c = lambda nm, b, p, **kw: Contract(f"{self.nm}.{nm}", self.tu, b, cases=ps, props=p, **kw)
        return [c("next64", self.next64, ("C04", "C14")), c("next32", self.next32, ("C04", "C07", "C14")), c("next_double", self.next_double, ("C04", "C07", "C14")),
                c("advance", self.advance, ("C08",)), c("advance_counter", self.advance_counter, ("C08",))]


for fam in ("philox", "threefry"):
    for n in (2, 4):
        for w in (32, 64):
            CONTRACTS += G(fam, n, w).contracts()

# ---- Squares (Widynski) ------------------------------------------------------------
SQ = TU(
    "squares", ["squares/squares.c"],
    ["uint64_t squares_next64(squares_state_t *state)", "uint32_t squares_next32(squares_state_t *state)", "double squares_next_double(squares_state_t *state)",
     "uint64_t squares_32_next64(squares_state_t *state)", "uint32_t squares_32_next32(squares_state_t *state)", "double squares_32_next_double(squares_state_t *state)"],
    {"squares_state_t": ["key", "counter", "has_uint32", "uinteger"]},
)
SF = {"key": 64, "counter": 64, **H32}


def swap(x):
    return x.rotl(32)


def sq32(ctr, key):
    y = ctr * key
    z = y + key
    x = swap(y * y + y)
    x = swap(x * x + z)
    x = swap(x * x + y)
    return ((x * x + z) >> 32).trunc(32)


def sq64(ctr, key):
    y = ctr * key
    z = y + key
    x = swap(y * y + y)
    x = swap(x * x + z)
    x = swap(x * x + y)
    t = x * x + z
    x = swap(t)
    return t ^ ((x * x + y) >> 32)


def sq_step(k, o):
    c, key = o["counter"][0], o["key"][0]
    return sq64(c, key), {"counter": c + 1}


def sqd(k):
    st = k.obj("state", "squares_state_t", SF)
    r = k.call("squares_next_double", st)
    out, new = sq_step(k, st.old)
    k.double("return value", r, out >> 11, -53)
    k.double_unit("in [0,1)", r)
    k.post(st, new)
    k.frame(st)


def sq32_next32(k):
    st = k.obj("state", "squares_state_t", SF)
    r = k.call("squares_32_next32", st)
    c, key = st.old["counter"][0], st.old["key"][0]
    k.same("return value", r, sq32(c, key))
    k.post(st, {"counter": c + 1})
    k.frame(st)


def sq32_next64(k):
    st = k.obj("state", "squares_state_t", SF)
    r = k.call("squares_32_next64", st)
    c, key = st.old["counter"][0], st.old["key"][0]
    k.same("return value: first draw low, second draw high", r, concat(sq32(c + 1, key), sq32(c, key)))
    k.post(st, {"counter": c + 2})
    k.frame(st)


def sq32_nextd(k):
    st = k.obj("state", "squares_state_t", SF)
    r = k.call("squares_32_next_double", st)
    c, key = st.old["counter"][0], st.old["key"][0]
    k.double("return value", r, dstep(k, sq32(c, key), sq32(c + 1, key)), -53)
    k.double_unit("in [0,1)", r)
    k.post(st, {"counter": c + 2})
    k.frame(st)


CONTRACTS += [
    Contract("squares.next64", SQ, next64_contract("squares_next64", "squares_state_t", SF, sq_step), props=("C04",)),
    Contract("squares.next32", SQ, next32_contract("squares_next32", "squares_state_t", SF, sq_step), props=("C04", "C07")),
    Contract("squares.next_double", SQ, sqd, props=("C04", "C07")),
    Contract("squares32.next64", SQ, sq32_next64, props=("C04",)),
    Contract("squares32.next32", SQ, sq32_next32, props=("C04",)),
    Contract("squares32.next_double", SQ, sq32_nextd, props=("C04", "C07")),
]
