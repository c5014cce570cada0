"""C02: PCG32 / PCG64 / LCG128Mix / LXM / SplitMix64 (C level), C08: LCG advance."""
from .common import *

CONTRACTS = []
M64 = 6364136223846793005
M128 = (2549297995355413924 << 64) | 4865540595714422341
CHEAP = 0xDA942042E4DD58B5


# ---- published output functions ------------------------------------------
def xsh_rr(s):
    return (((s >> 18) ^ s) >> 27).trunc(32).rotr((s >> 59).trunc(32))


def xsl_rr(hi, lo):
    return (hi ^ lo).rotr(hi >> 58)


def dxsm(hi, lo, mult):
    mult = u64(mult) if isinstance(mult, int) else mult
    lo = lo | 1
    hi = hi ^ (hi >> 32)
    hi = hi * mult
    hi = hi ^ (hi >> 48)
    return hi * lo


def murmur(hi, lo=None):
    z = (hi ^ (hi >> 30)) * 0xBF58476D1CE4E5B9
    z = (z ^ (z >> 27)) * 0x94D049BB133111EB
    return z ^ (z >> 31)


# ---- PCG32 ------------------------------------------------------------------
P32 = TU(
    "pcg32",
    ["pcg32/pcg32.c"],
    ["uint64_t pcg32_next64(pcg32_state_t *state)", "uint32_t pcg32_next32(pcg32_state_t *state)", "double pcg32_next_double(pcg32_state_t *state)",
     "void pcg32_advance_state(pcg32_state_t *state, uint64_t step)", "void pcg32_set_seed(pcg32_state_t *state, uint64_t seed, uint64_t inc)",
     "uint64_t pcg_advance_lcg_64(uint64_t state, uint64_t delta, uint64_t cur_mult, uint64_t cur_plus)"],
    {"pcg32_state_t": ["pcg_state.state", "pcg_state.inc"]},
)
PF = {"pcg_state.state": 64, "pcg_state.inc": 64}


def p32(s, inc):
    return xsh_rr(s), s * M64 + inc


def _p32(k):
    st = k.obj("state", "pcg32_state_t", PF)
    return st, st.old["pcg_state.state"][0], st.old["pcg_state.inc"][0]


def p32_next32(k):
    st, s, inc = _p32(k)
    r = k.call("pcg32_next32", st)
    a, s1 = p32(s, inc)
    k.same("return value", r, a)
    k.post(st, {"pcg_state.state": s1})
    k.frame(st)


def p32_next64(k):
    st, s, inc = _p32(k)
    r = k.call("pcg32_next64", st)
    a, s1 = p32(s, inc)
    b, s2 = p32(s1, inc)
    k.same("return value", r, concat(a, b))
    k.post(st, {"pcg_state.state": s2})
    k.frame(st)


def p32_nextd(k):
    st, s, inc = _p32(k)
    r = k.call("pcg32_next_double", st)
    a, s1 = p32(s, inc)
    b, s2 = p32(s1, inc)
    k.double("return value", r, dstep(k, a, b), -53)
    k.double_unit("return value in [0,1)", r)
    k.post(st, {"pcg_state.state": s2})
    k.frame(st)


def p32_seed(k):
    st, s, inc = _p32(k)
    seed, seq = k.word("seed", 64), k.word("inc", 64)
    k.call("pcg32_set_seed", st, seed, seq)
    i = (seq << 1) | 1
    k.post(st, {"pcg_state.inc": i, "pcg_state.state": (i + seed) * M64 + i})
    k.frame(st)


def sqmul(bits, m, p, w):
    """affine map (m,p) composed with itself as many times as `bits` says: (mult, plus)"""
    am, ap = BV(w, 1), BV(w, 0)
    for b in bits:
        am, ap = ite(b, am * m, am), ite(b, ap * m + p, ap)
        p, m = (m + 1) * p, m * m
    return am, ap


def delta_of_len(k, name, w, n):
    """a delta whose highest set bit is bit n-1 (n = 0: zero); its low bits, symbolic"""
    if n == 0:
        return BV(w, 0), []
    low = k.word(name, n - 1) if n > 1 else None
    one = BV(1, 1)
    x = concat(one, low) if low is not None else one
    bits = [x.extract(i, i) for i in range(n)]
    return x.zext(w) if n < w else x, bits


def p32_adv_core(k):
    s, m, p = k.word("s", 64), k.word("m", 64), k.word("p", 64)
    d, bits = delta_of_len(k, "delta", 64, k.case["len"])
    r = k.call("pcg_advance_lcg_64", s, d, m, p)
    am, ap = sqmul(bits, m, p, 64)
    k.same("result = (x -> m*x+p) iterated delta times", r, am * s + ap)


def p32_advance(k):
    st, s, inc = _p32(k)
    d, bits = delta_of_len(k, "delta", 64, k.case["len"])
    k.call("pcg32_advance_state", st, d)
    am, ap = sqmul(bits, u64(M64), inc, 64)
    k.post(st, {"pcg_state.state": am * s + ap})
    k.frame(st)


CONTRACTS += [
    Contract("pcg32.next32", P32, p32_next32, props=("C02",)),
    Contract("pcg32.next64", P32, p32_next64, props=("C02",)),
    Contract("pcg32.next_double", P32, p32_nextd, props=("C07",)),
    Contract("pcg32.set_seed", P32, p32_seed, props=("C12",)),
    Contract("pcg32.pcg_advance_lcg_64", P32, p32_adv_core, cases=[{"len": i} for i in range(65)], props=("C08",)),
    Contract("pcg32.advance_state", P32, p32_advance, cases=[{"len": i} for i in range(65)], props=("C08",)),
]

# ---- PCG64 --------------------------------------------------------------------
P64 = TU(
    "pcg64",
    ["pcg64/pcg64-common.c", "pcg64/pcg64-v2.c"],
    ["uint64_t pcg64_next64(pcg64_state_t *state)", "uint32_t pcg64_next32(pcg64_state_t *state)", "uint64_t pcg64_cm_dxsm_next64(pcg64_state_t *state)",
     "uint32_t pcg64_cm_dxsm_next32(pcg64_state_t *state)", "void pcg64_advance(pcg64_state_t *state, uint64_t *step, int cheap_multiplier)",
     "void pcg64_set_seed(pcg64_state_t *state, uint64_t *seed, uint64_t *inc, int cheap_multiplier)",
     "void pcg64_set_state(pcg64_state_t *state, uint64_t *state_arr, int use_dxsm, int has_uint32, uint32_t uinteger)",
     "void pcg64_get_state(pcg64_state_t *state, uint64_t *state_arr, int *use_dxsm, int *has_uint32, uint32_t *uinteger)",
     "pcg128_t pcg_advance_lcg_128(pcg128_t state, pcg128_t delta, pcg128_t cur_mult, pcg128_t cur_plus)"],
    {"pcg64_state_t": ["pcg_state", "use_dxsm", "has_uint32", "uinteger"], "pcg64_random_t": ["state", "inc"]},
)
SF = {"use_dxsm": 32, **H32}


def _p64(k):
    rng = k.obj("rng", "pcg64_random_t", {"state": 128, "inc": 128})
    st = k.obj("st", "pcg64_state_t", SF, ptrs={"pcg_state": rng})
    return rng, st, rng.old["state"][0], rng.old["inc"][0]


hi, lo = lambda x: x.extract(127, 64), lambda x: x.extract(63, 0)


def _p64out(cheap, s, inc, use_dxsm):
    if cheap:
        return dxsm(hi(s), lo(s), CHEAP), s * CHEAP + inc
    n = s * M128 + inc
    return ite(use_dxsm.ne(0), dxsm(hi(n), lo(n), CHEAP), xsl_rr(hi(n), lo(n))), n


def p64_next64(cheap, fn):
    def body(k):
        rng, st, s, inc = _p64(k)
        r = k.call(fn, st)
        out, n = _p64out(cheap, s, inc, st.old["use_dxsm"][0])
        k.same("return value", r, out)
        k.post(rng, {"state": n})
        k.post(st)
        k.frame(rng, st)

    return body


def p64_next32(cheap, fn):
    def body(k):
        rng, st, s, inc = _p64(k)
        r = k.call(fn, st)
        out, n = _p64out(cheap, s, inc, st.old["use_dxsm"][0])
        buf32(k, st, r, out)
        h = st.old["has_uint32"][0].ne(0)
        k.post(rng, {"state": ite(h, s, n)})
        k.post(st, skip=("has_uint32", "uinteger"))
        k.frame(rng, st)

    return body


def buf32(k, st, r, out):
    h = st.old["has_uint32"][0].ne(0)
    k.same("return value: buffered half, else low half", r, ite(h, st.old["uinteger"][0], out.extract(31, 0)))
    k.ensure("buffer flag toggles", k.now(st, "has_uint32")[0].ne(0).ne(h))
    k.same("buffered value is the high half", ite(h, out.extract(63, 32), k.now(st, "uinteger")[0]), out.extract(63, 32))


def p64_seed(cheap):
    def body(k):
        rng, st, s, inc = _p64(k)
        seed, seq = k.array("seed", 64, 2), k.array("seq", 64, 2)
        k.call("pcg64_set_seed", st, seed, seq, u32(cheap))
        sd, sq = concat(*seed.old["a"]), concat(*seq.old["a"])
        i = (sq << 1) | 1
        k.post(rng, {"inc": i, "state": (i + sd) * (CHEAP if cheap else M128) + i})
        k.post(st)
        k.post(seed)
        k.post(seq)
        k.frame(rng, st)

    return body


def p64_adv_core(k):
    s, m, p = k.word("s", 128), k.word("m", 128), k.word("p", 128)
    d, bits = delta_of_len(k, "delta", 128, k.case["len"])
    r = k.call("pcg_advance_lcg_128", s, d, m, p)
    am, ap = sqmul(bits, m, p, 128)
    k.same("result = (x -> m*x+p) iterated delta times", r, am * s + ap)


def p64_advance(cheap):
    def body(k):
        rng, st, s, inc = _p64(k)
        d, bits = delta_of_len(k, "delta", 128, k.case["len"])
        step = k.array("step", 64, 2, init=[hi(d), lo(d)])
        k.call("pcg64_advance", st, step, u32(cheap))
        am, ap = sqmul(bits, u128(CHEAP if cheap else M128), inc, 128)
        k.post(rng, {"state": am * s + ap})
        k.post(st)
        k.frame(rng, st)

    return body


def p64_set(k):
    rng, st, s, inc = _p64(k)
    a = k.array("arr", 64, 4)
    d, h, u = k.word("use_dxsm", 32, 0, 1), k.word("has", 32), k.word("u", 32)
    k.call("pcg64_set_state", st, a, d, h, u)
    v = a.old["a"]
    k.post(rng, {"state": concat(v[0], v[1]), "inc": concat(v[2], v[3])})
    k.post(st, {"use_dxsm": d, "has_uint32": h, "uinteger": u})
    k.frame(rng, st)


def p64_get(k):
    rng, st, s, inc = _p64(k)
    a = k.array("arr", 64, 4)
    d, h, u = k.array("d", 32, 1), k.array("h", 32, 1), k.array("u", 32, 1)
    k.call("pcg64_get_state", st, a, d, h, u)
    k.post(a, {"a": [hi(s), lo(s), hi(inc), lo(inc)]})
    for x, f in ((d, "use_dxsm"), (h, "has_uint32"), (u, "uinteger")):
        k.post(x, {"a": st.old[f][0]})
    k.post(rng)
    k.post(st)
    k.frame(a, d, h, u)


C65, C129 = [{"len": i} for i in range(65)], [{"len": i} for i in range(129)]
CONTRACTS += [
    Contract("pcg64.next64", P64, p64_next64(0, "pcg64_next64"), props=("C02",)),
    Contract("pcg64.cm_dxsm_next64", P64, p64_next64(1, "pcg64_cm_dxsm_next64"), props=("C02",)),
    Contract("pcg64.next32", P64, p64_next32(0, "pcg64_next32"), props=("C07",)),
    Contract("pcg64.cm_dxsm_next32", P64, p64_next32(1, "pcg64_cm_dxsm_next32"), props=("C07",)),
    Contract("pcg64.set_seed", P64, p64_seed(0), props=("C12",)),
    Contract("pcg64.set_seed.cheap", P64, p64_seed(1), props=("C12",)),
    Contract("pcg64.pcg_advance_lcg_128", P64, p64_adv_core, cases=C129, props=("C08",)),
    Contract("pcg64.advance", P64, p64_advance(0), cases=C129, props=("C08",)),
    Contract("pcg64.advance.cheap", P64, p64_advance(1), cases=C129, props=("C08",)),
    Contract("pcg64.set_state", P64, p64_set, props=("C11",)),
    Contract("pcg64.get_state", P64, p64_get, props=("C11",)),
]

# ---- LCG128Mix ------------------------------------------------------------------
LMX = TU(
    "lcg128mix",
    ["pcg64/pcg64-common.c", "pcg64/lcg128mix.c"],
    ["uint64_t lcg128mix_next64(lcg128mix_state_t *state)", "uint32_t lcg128mix_next32(lcg128mix_state_t *state)",
     "void lcg128mix_set_state(lcg128mix_random_t *rng, uint64_t *state, uint64_t *inc, uint64_t *multiplier)",
     "void lcg128mix_get_state(lcg128mix_random_t *rng, uint64_t *state, uint64_t *inc, uint64_t *multiplier)",
     "void lcg128mix_seed(lcg128mix_random_t *rng, uint64_t *state, uint64_t *inc, uint64_t *multiplier)",
     "void lcg128mix_advance(lcg128mix_state_t *rng, uint64_t *step)"],
    {"lcg128mix_state_t": ["pcg_state", "use_dxsm", "has_uint32", "uinteger"],
     "lcg128mix_random_t": ["state", "inc", "multiplier", "dxsm_multiplier", "post", "output_idx", "output_func"]},
)
LF = {"state": 128, "inc": 128, "multiplier": 128, "dxsm_multiplier": 64, "post": 32, "output_idx": 32}


def _lmx(k, **init):
    rng = k.obj("rng", "lcg128mix_random_t", LF, **init)
    st = k.obj("st", "lcg128mix_state_t", SF, ptrs={"pcg_state": rng})
    return rng, st, rng.old


def _lmxout(o):
    s, inc, m, dm, post, idx = (o[f][0] for f in LF)
    n = s * m + inc
    x = ite(post.eq(1), n, s)
    H, L = hi(x), lo(x)
    i = idx.int()
    out = {0: xsl_rr(H, L), 1: dxsm(H, L, dm), 2: murmur(H), 3: H, 4: L}[i]
    return out, n


LC = [{"rng.output_idx": i} for i in range(5)]


def lmx_next64(k):
    rng, st, o = _lmx(k, output_idx=k.word("rng.output_idx", 32, 0, 4))
    r = k.call("lcg128mix_next64", st)
    out, n = _lmxout(o)
    k.same("return value", r, out)
    k.post(rng, {"state": n})
    k.post(st)
    k.frame(rng, st)


def lmx_next32(k):
    rng, st, o = _lmx(k, output_idx=k.word("rng.output_idx", 32, 0, 4))
    r = k.call("lcg128mix_next32", st)
    out, n = _lmxout(o)
    buf32(k, st, r, out)
    k.post(rng, {"state": ite(st.old["has_uint32"][0].ne(0), o["state"][0], n)})
    k.post(st, skip=("has_uint32", "uinteger"))
    k.frame(rng, st)


def lmx_set(k):
    rng, st, o = _lmx(k)
    a, b, c = (k.array(n, 64, 2) for n in "abc")
    k.call("lcg128mix_set_state", rng, a, b, c)
    k.post(rng, {"state": concat(*a.old["a"]), "inc": concat(*b.old["a"]), "multiplier": concat(*c.old["a"])})
    k.frame(rng)


def lmx_get(k):
    rng, st, o = _lmx(k)
    a, b, c = (k.array(n, 64, 2) for n in "abc")
    k.call("lcg128mix_get_state", rng, a, b, c)
    for x, f in ((a, "state"), (b, "inc"), (c, "multiplier")):
        k.post(x, {"a": [hi(o[f][0]), lo(o[f][0])]})
    k.post(rng)
    k.frame(a, b, c)


def lmx_seed(k):
    rng, st, o = _lmx(k)
    a, b, c = (k.array(n, 64, 2) for n in "abc")
    k.call("lcg128mix_seed", rng, a, b, c)
    sd, sq, m = (concat(*x.old["a"]) for x in (a, b, c))
    i = (sq << 1) | 1
    k.post(rng, {"inc": i, "state": (i + sd) * m + i, "multiplier": m})
    k.frame(rng)


def lmx_advance(k):
    rng, st, o = _lmx(k)
    d, bits = delta_of_len(k, "delta", 128, k.case["len"])
    step = k.array("step", 64, 2, init=[hi(d), lo(d)])
    k.call("lcg128mix_advance", st, step)
    am, ap = sqmul(bits, o["multiplier"][0], o["inc"][0], 128)
    k.post(rng, {"state": am * o["state"][0] + ap})
    k.post(st)
    k.frame(rng, st)


CONTRACTS += [
    Contract("lcg128mix.next64", LMX, lmx_next64, cases=LC, props=("C02",)),
    Contract("lcg128mix.next32", LMX, lmx_next32, cases=LC, props=("C07",)),
    Contract("lcg128mix.set_state", LMX, lmx_set, props=("C11",)),
    Contract("lcg128mix.get_state", LMX, lmx_get, props=("C11",)),
    Contract("lcg128mix.seed", LMX, lmx_seed, props=("C12",)),
    Contract("lcg128mix.advance", LMX, lmx_advance, cases=C129, props=("C08",)),
]

# ---- LXM -----------------------------------------------------------------------
LXM = TU(
    "lxm",
    ["lxm/lxm.c"],
    ["uint64_t lxm_next64(lxm_state_t *state)", "uint32_t lxm_next32(lxm_state_t *state)", "void lxm_jump(lxm_state_t *state)"],
    {"lxm_state_t": ["x", "lcg_state", "b", "has_uint32", "uinteger"]},
)
XF = {"x": 64, "lcg_state": 64, "b": 64, **H32}


def lxm_x(x):
    x = list(x)
    t = x[1] << 17
    x[2] ^= x[0]
    x[3] ^= x[1]
    x[1] ^= x[2]
    x[0] ^= x[3]
    x[2] ^= t
    x[3] = x[3].rotl(45)
    return x


def lxm(k, o):
    l = o["lcg_state"][0]
    return murmur(o["x"][0] + l), {"x": lxm_x(o["x"]), "lcg_state": l * 2862933555777941757 + o["b"][0]}


def lxm_jump(k):
    from .xorshift import jump_matrix

    st = k.obj("state", "lxm_state_t", XF)
    k.call("lxm_jump", st)
    k.linear("xor-shift state after jump = step^(2^128) applied to it", k.now(st, "x"), st.old["x"], jump_matrix("lxm", lxm_x, 4, 64, 128))
    # 2^128 steps of an LCG modulo 2^64 with odd... : step^(2^128) is the identity (period divides 2^64)
    k.post(st, skip=("x",))
    k.frame(st)


CONTRACTS += [
    Contract("lxm.next64", LXM, next64_contract("lxm_next64", "lxm_state_t", XF, lxm), props=("C02",)),
    Contract("lxm.next32", LXM, next32_contract("lxm_next32", "lxm_state_t", XF, lxm), props=("C07",)),
    Contract("lxm.jump", LXM, lxm_jump, props=("C09",)),
]

# ---- SplitMix64 -------------------------------------------------------------------
SM = TU(
    "splitmix64",
    ["splitmix64/splitmix64.c"],
    ["uint64_t splitmix64_next64(splitmix64_state *state)", "uint32_t splitmix64_next32(splitmix64_state *state)"],
    {"splitmix64_state": ["state", "has_uint32", "uinteger"]},
)


def smx(k, o):
    s = o["state"][0] + 0x9E3779B97F4A7C15
    return murmur(s), {"state": s}


CONTRACTS += [
    Contract("splitmix64.next64", SM, next64_contract("splitmix64_next64", "splitmix64_state", {"state": 64, **H32}, smx), props=("C02",)),
    Contract("splitmix64.next32", SM, next32_contract("splitmix64_next32", "splitmix64_state", {"state": 64, **H32}, smx), props=("C07",)),
]
