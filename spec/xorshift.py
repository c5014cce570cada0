"""C01/C09: xorshift-family generators (C level)."""
from .common import *

CONTRACTS = []


def _mk(name, inc, ctype, n, variants, extra=None):
    protos, out = [], []
    fields = {"s": 64, **(extra or {}), **H32}
    for v, step, jump in variants:
        protos += [f"uint64_t {v}_next64({ctype} *state)", f"uint32_t {v}_next32({ctype} *state)", f"void {v}_jump({ctype} *state)"]
    tu = TU(name, inc, protos, {ctype: list(fields)})
    for v, step, jump in variants:
        CONTRACTS.append(Contract(f"{v}.next64", tu, next64_contract(f"{v}_next64", ctype, fields, step), props=("C01",)))
        CONTRACTS.append(Contract(f"{v}.next32", tu, next32_contract(f"{v}_next32", ctype, fields, step), props=("C07",)))
        CONTRACTS.append(Contract(f"{v}.jump", tu, jump_contract(v, ctype, fields, step, n, jump), props=("C09",)))


_mats = {}


def jump_matrix(key, stepw, n, w, k2):
    """matrix of 2^k2 applications of the word-level step"""
    if key not in _mats:
        def f(v):
            ws = [BV(w, v >> (w * i) & ((1 << w) - 1)) for i in range(n)]
            return gf2.words_to_bits([x.v for x in stepw(ws)], w)

        _mats[key] = gf2.mat_pow2(gf2.mat_of(f, n * w), k2, n * w)
    return _mats[key]


def jump_contract(v, ctype, fields, step, n, k2):
    def body(k):
        st = k.obj("state", ctype, fields)
        k.call(f"{v}_jump", st)
        M = jump_matrix(v, lambda ws: step(None, {"s": ws})[1]["s"], n, 64, k2)
        k.linear(f"state after jump = step^(2^{k2}) applied to state", k.now(st, "s"), st.old["s"], M)
        k.post(st, {}, skip=("s",))
        k.frame(st)

    return body


# -- xoroshiro128+ (24,16,37) and xoroshiro128++ (49,21,28): Blackman & Vigna reference
def xoroshiro(k, o):
    s0, s1 = o["s"]
    r = s0 + s1
    s1 = s1 ^ s0
    return r, {"s": [s0.rotl(24) ^ s1 ^ (s1 << 16), s1.rotl(37)]}


def xoroshiropp(k, o):
    s0, s1 = o["s"]
    r = (s0 + s1).rotl(17) + s0
    s1 = s1 ^ s0
    return r, {"s": [s0.rotl(49) ^ s1 ^ (s1 << 21), s1.rotl(28)]}


_mk("xoroshiro128", ["xoroshiro128/xoroshiro128.c"], "xoroshiro128_state_t", 2, [("xoroshiro128", xoroshiro, 64), ("xoroshiro128plusplus", xoroshiropp, 64)])


def xoshiro256(k, o):
    s = list(o["s"])
    r = (s[1] * 5).rotl(7) * 9
    t = s[1] << 17
    s[2] ^= s[0]
    s[3] ^= s[1]
    s[1] ^= s[2]
    s[0] ^= s[3]
    s[2] ^= t
    s[3] = s[3].rotl(45)
    return r, {"s": s}


_mk("xoshiro256", ["xoshiro256/xoshiro256.c"], "xoshiro256_state_t", 4, [("xoshiro256", xoshiro256, 128)])


def xoshiro512(k, o):
    s = list(o["s"])
    r = (s[1] * 5).rotl(7) * 9
    t = s[1] << 11
    s[2] ^= s[0]
    s[5] ^= s[1]
    s[1] ^= s[2]
    s[7] ^= s[3]
    s[3] ^= s[4]
    s[4] ^= s[5]
    s[0] ^= s[6]
    s[6] ^= s[7]
    s[6] ^= t
    s[7] = s[7].rotl(21)
    return r, {"s": s}


_mk("xoshiro512", ["xoshiro512/xoshiro512.c"], "xoshiro512_state_t", 8, [("xoshiro512", xoshiro512, 256)])

# -- xorshift1024*phi: circular buffer of 16 words, index p
XS = TU(
    "xorshift1024",
    ["xorshift1024/xorshift1024.c"],
    ["uint64_t xorshift1024_next64(xorshift1024_state_t *state)", "uint32_t xorshift1024_next32(xorshift1024_state_t *state)", "void xorshift1024_jump(xorshift1024_state_t *state)"],
    {"xorshift1024_state_t": ["s", "p", "has_uint32", "uinteger"]},
)
XF = {"s": 64, "p": 32, **H32}


def xs1024(k, o):
    s, p = list(o["s"]), o["p"][0].int()
    q = (p + 1) & 15
    s0, s1 = s[p], s[q]
    s1 = s1 ^ (s1 << 31)
    s[q] = s1 ^ s0 ^ (s1 >> 11) ^ (s0 >> 30)
    return s[q] * 0x9E3779B97F4A7C13, {"s": s, "p": u32(q)}


def xs_pre(k):
    return {"p": k.word("state.p", 32, 0, 15)}


def xs_jump(k):
    st = k.obj("state", "xorshift1024_state_t", XF, **xs_pre(k))
    p = st.old["p"][0].int()
    k.call("xorshift1024_jump", st)

    def stepw(ws):  # ws in logical order (ws[0] = word at p); one step rotates the window by one
        _, n = xs1024(None, {"s": ws, "p": [u32(0)]})
        return n["s"][1:] + n["s"][:1]

    M = jump_matrix("xs1024", stepw, 16, 64, 512)
    now = k.now(st, "s")
    q = k.now(st, "p")[0]
    k.ensure("position in range", q.ult(u32(16)))
    q = q.int()
    rot = lambda a, b: a[b:] + a[:b]
    k.linear("state after jump = step^(2^512) applied to state", rot(now, q), rot(st.old["s"], p), M)
    k.post(st, {}, skip=("s", "p"))
    k.frame(st)


PC = [{"state.p": i} for i in range(16)]
CONTRACTS += [
    Contract("xorshift1024.next64", XS, next64_contract("xorshift1024_next64", "xorshift1024_state_t", XF, xs1024, xs_pre), cases=PC, props=("C01", "C14")),
    Contract("xorshift1024.next32", XS, next32_contract("xorshift1024_next32", "xorshift1024_state_t", XF, xs1024, xs_pre), cases=PC, props=("C07", "C14")),
    Contract("xorshift1024.jump", XS, xs_jump, cases=PC, props=("C09",), samples=20),
]
