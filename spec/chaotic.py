"""C03: SFC64, JSF32/JSF64, EFIIX64, RomuQuad/RomuTrio, Tyche/Tyche-openrand (C level)."""
from .common import *

CONTRACTS = []

# ---- SFC64 ------------------------------------------------------------------------
SFC = TU("sfc", ["sfc/sfc.c"], ["uint64_t sfc_next64(sfc_state_t *state)", "uint32_t sfc_next32(sfc_state_t *state)", "void sfc_seed(sfc_state_t *state, uint64_t *seed, uint64_t w, uint64_t k)"],
         {"sfc_state_t": ["a", "b", "c", "w", "k", "has_uint32", "uinteger"]})
SFF = {"a": 64, "b": 64, "c": 64, "w": 64, "k": 64, **H32}


def sfc(k, o):
    a, b, c, w, kk = (o[f][0] for f in ("a", "b", "c", "w", "k"))
    out = a + b + w
    return out, {"a": b ^ (b >> 11), "b": c + (c << 3), "c": c.rotl(24) + out, "w": w + kk}


def sfc_seed(k):
    st = k.obj("state", "sfc_state_t", SFF)
    seed = k.array("seed", 64, 3)
    w, kk = k.word("w", 64), k.word("k", 64)
    k.call("sfc_seed", st, seed, w, kk)
    o = dict(zip("abcwk", [[x] for x in seed.old["a"]] + [[w], [kk]]))
    for _ in range(12):
        _, n = sfc(k, o)
        o.update({f: [v] for f, v in n.items()})
    k.post(st, {f: o[f] for f in "abcwk"})
    k.post(seed)
    k.frame(st)


CONTRACTS += [
    Contract("sfc.next64", SFC, next64_contract("sfc_next64", "sfc_state_t", SFF, sfc), props=("C03",)),
    Contract("sfc.next32", SFC, next32_contract("sfc_next32", "sfc_state_t", SFF, sfc), props=("C07",)),
    Contract("sfc.seed", SFC, sfc_seed, props=("C12",)),
]

# ---- JSF -----------------------------------------------------------------------------
JSF = TU("jsf", ["jsf/jsf.c"],
         ["uint64_t jsf64_next64(jsf_state_t *state)", "uint32_t jsf64_next32(jsf_state_t *state)", "double jsf64_next_double(jsf_state_t *state)",
          "uint64_t jsf32_next64(jsf_state_t *state)", "uint32_t jsf32_next32(jsf_state_t *state)", "double jsf32_next_double(jsf_state_t *state)",
          "void jsf64_seed(jsf_state_t *state, uint64_t *seed, int size)", "void jsf32_seed(jsf_state_t *state, uint32_t *seed, int size)"],
         {"jsf_state_t": ["a", "b", "c", "d", "p", "q", "r", "has_uint32", "uinteger"]})
JF = {"a": 64, "b": 64, "c": 64, "d": 64, "p": 32, "q": 32, "r": 32, **H32}


def jstep(w, a, b, c, d, p, q, r):
    rot = lambda x, n: x.rotl(n.to(w))
    e = a - rot(b, p)
    a = b ^ rot(c, q)
    b = c + (d if r.conc and r.v == 0 else rot(d, r))
    c = d + e
    d = e + a
    return a, b, c, d


def jsf64(k, o):
    p, q, r = (o[f][0] for f in "pqr")
    a, b, c, d = jstep(64, *(o[f][0] for f in "abcd"), p, q, r)
    return d, {"a": a, "b": b, "c": c, "d": d}


def jpre(w):
    def f(k):
        return {"p": k.word("p", 32, 1, w - 1), "q": k.word("q", 32, 1, w - 1), "r": u32(0) if k.case.get("r0") else k.word("r", 32, 1, w - 1)}

    return f


def j64d(k):
    st = k.obj("state", "jsf_state_t", JF, **jpre(64)(k))
    r = k.call("jsf64_next_double", st)
    out, n = jsf64(k, st.old)
    k.double("return value", r, out >> 11, -53)
    k.double_unit("return value in [0,1)", r)
    k.post(st, n)
    k.frame(st)


def _j32(k):
    st = k.obj("state", "jsf_state_t", JF, **jpre(32)(k))
    v = [st.old[f][0].trunc(32) for f in "abcd"]
    return st, v, [st.old[f][0] for f in "pqr"]


def _j32post(k, st, v):
    for f, x in zip("abcd", v):
        k.same(f"state.{f}.u32", k.now(st, f)[0].trunc(32), x)
    k.post(st, skip=tuple("abcd"))
    k.frame(st)


def j32_next32(k):
    st, v, pqr = _j32(k)
    r = k.call("jsf32_next32", st)
    v = jstep(32, *v, *pqr)
    k.same("return value", r, v[3])
    _j32post(k, st, v)


def j32_next64(k):
    st, v, pqr = _j32(k)
    r = k.call("jsf32_next64", st)
    v = jstep(32, *v, *pqr)
    hi = v[3]
    v = jstep(32, *v, *pqr)
    k.same("return value", r, concat(hi, v[3]))
    _j32post(k, st, v)


def j32_double(k):
    st, v, pqr = _j32(k)
    r = k.call("jsf32_next_double", st)
    v = jstep(32, *v, *pqr)
    hi = v[3]
    v = jstep(32, *v, *pqr)
    k.double("return value", r, dstep(k, hi, v[3]), -53)
    k.double_unit("return value in [0,1)", r)
    _j32post(k, st, v)


def jseed(w):
    def body(k):
        st = k.obj("state", "jsf_state_t", JF, **jpre(w)(k))
        n = k.case["size"]
        seed = k.array("seed", w, n)
        k.call(f"jsf{w}_seed", st, seed, u32(n))
        s = seed.old["a"]
        v = [BV(w, 0xF1EA5EED), s[0], s[1] if n > 1 else s[0], s[2] if n > 2 else s[0]]
        pqr = [st.old[f][0] for f in "pqr"]
        for _ in range(20):
            v = jstep(w, *v, *pqr)
        if w == 32:
            _j32post(k, st, v)
        else:
            k.post(st, dict(zip("abcd", v)))
        k.post(seed)
        k.frame(st)

    return body


SZ = [{"size": i, "r0": z} for i in (1, 2, 3) for z in (0, 1)]
R0 = [{"r0": 0}, {"r0": 1}]
CONTRACTS += [
    Contract("jsf64.next64", JSF, next64_contract("jsf64_next64", "jsf_state_t", JF, jsf64, jpre(64)), cases=R0, props=("C03",)),
    Contract("jsf64.next32", JSF, next32_contract("jsf64_next32", "jsf_state_t", JF, jsf64, jpre(64)), cases=R0, props=("C07",)),
    Contract("jsf64.next_double", JSF, j64d, cases=R0, props=("C07",)),
    Contract("jsf32.next32", JSF, j32_next32, cases=R0, props=("C03",)),
    Contract("jsf32.next64", JSF, j32_next64, cases=R0, props=("C03",)),
    Contract("jsf32.next_double", JSF, j32_double, cases=R0, props=("C07",)),
    Contract("jsf64.seed", JSF, jseed(64), cases=SZ, props=("C12",)),
    Contract("jsf32.seed", JSF, jseed(32), cases=SZ, props=("C12",)),
]

# ---- EFIIX64 ------------------------------------------------------------------------
EF = TU("efiix64", ["efiix64/efiix64.c"], ["uint64_t efiix64_next64(efiix64_state_t *state)", "uint32_t efiix64_next32(efiix64_state_t *state)", "void efiix64_seed(efiix64_state_t *state, uint64_t seed[4])"],
        {"efiix64_state_t": ["indirection_table", "iteration_table", "i", "a", "b", "c", "has_uint32", "uinteger"]})
EFF = {"indirection_table": 64, "iteration_table": 64, "i": 64, "a": 64, "b": 64, "c": 64, **H32}


def pick(t, idx):
    r = t[0]
    for j in range(1, len(t)):
        r = ite(idx.eq(j), t[j], r)
    return r


def put(t, idx, v):
    return [ite(idx.eq(j), v, x) for j, x in enumerate(t)]


def efiix(k, o):
    ind, itr = list(o["indirection_table"]), list(o["iteration_table"])
    i, a, b, c = (o[f][0] for f in "iabc")
    x, y = c.extract(3, 0), i.extract(4, 0)
    iterated, indirect = pick(itr, y), pick(ind, x)
    new = {"indirection_table": put(ind, x, iterated + a), "iteration_table": put(itr, y, indirect), "a": b + i, "i": i + 1, "b": c + indirect, "c": (a ^ b) + c.rotl(25)}
    return (c + indirect) ^ iterated, new


def arbee(s):
    a, b, c, d, i = s
    e = a + b.rotl(45)
    a = b ^ c.rotl(13)
    b = c + d.rotl(37)
    c = e + d + i
    d = e + a
    return (a, b, c, d, i + 1), d


def efiix_seed(k):
    """bounded (concrete states): the seeding indexes tables with data for 64+48 rounds"""
    st = k.obj("state", "efiix64_state_t", EFF)
    seed = k.array("seed", 64, 4)
    if k.symbolic:
        from vp.unit import Unsupported

        raise Unsupported("data-dependent table indices over 112 rounds")
    k.call("efiix64_seed", st, seed)
    s = list(seed.old["a"])

    def seeded(v):
        z = tuple(v) + (u64(1),)
        for _ in range(12):
            z, _ = arbee(z)
        return z

    z = seeded(s)
    o = {}
    o["indirection_table"] = []
    for _ in range(16):
        z, v = arbee(z)
        o["indirection_table"].append(v)
    z, i = arbee(z)
    o["i"] = [i]
    o["iteration_table"] = [None] * 32
    for w in range(32):
        z, v = arbee(z)
        o["iteration_table"][(w + i.v) % 32] = v
    for f in "abc":
        z, v = arbee(z)
        o[f] = [v]

    def rounds(n):
        for _ in range(n):
            _, m = efiix(k, o)
            for f, v in m.items():
                o[f] = v if isinstance(v, list) else [v]

    rounds(64)
    z, _ = arbee(z)
    for q in range(3):
        z, v = arbee(z)
        s[q] = s[q] + v
    z = seeded([s[0] ^ o["a"][0], s[1] ^ o["b"][0], s[2] ^ o["c"][0], ~s[3]])
    for w in range(16):
        z, v = arbee(z)
        o["indirection_table"][w] = o["indirection_table"][w] ^ v
    rounds(48)
    k.post(st, o)


CONTRACTS += [
    Contract("efiix64.next64", EF, next64_contract("efiix64_next64", "efiix64_state_t", EFF, efiix), props=("C03", "C14")),
    Contract("efiix64.next32", EF, next32_contract("efiix64_next32", "efiix64_state_t", EFF, efiix), props=("C07", "C14")),
    Contract("efiix64.seed", EF, efiix_seed, props=("C12",), samples=60, bounded=True),
]

# ---- Romu ------------------------------------------------------------------------------
RO = TU("romu", ["romu/romu.c"], ["uint64_t romuquad_next64(romu_state_t *state)", "uint32_t romuquad_next32(romu_state_t *state)", "uint64_t romutrio_next64(romu_state_t *state)", "uint32_t romutrio_next32(romu_state_t *state)",
        "void romu_seed(romu_state_t *state, uint64_t w, uint64_t x, uint64_t y, uint64_t z, int quad)"], {"romu_state_t": ["w", "x", "y", "z", "has_uint32", "uinteger"]})
RF = {"w": 64, "x": 64, "y": 64, "z": 64, **H32}
RM = 15241094284759029579


def quad(k, o):
    w, x, y, z = (o[f][0] for f in "wxyz")
    return x, {"w": z * RM, "x": z + w.rotl(52), "y": y - x, "z": (y + w).rotl(19)}


def trio(k, o):
    x, y, z = (o[f][0] for f in "xyz")
    return x, {"x": z * RM, "y": (y - x).rotl(12), "z": (z - y).rotl(44)}


def romu_seed(k):
    st = k.obj("state", "romu_state_t", RF)
    w, x, y, z = (k.word(n, 64) for n in "wxyz")
    q = k.case["quad"]
    k.call("romu_seed", st, w, x, y, z, u32(q))
    o = {"w": [w], "x": [x], "y": [y], "z": [z]}
    for _ in range(10):
        _, n = (quad if q else trio)(k, o)
        o.update({f: [v] for f, v in n.items()})
    k.post(st, o)
    k.frame(st)


for nm, f in (("romuquad", quad), ("romutrio", trio)):
    CONTRACTS += [
        Contract(f"{nm}.next64", RO, next64_contract(f"{nm}_next64", "romu_state_t", RF, f), props=("C03",)),
        Contract(f"{nm}.next32", RO, next32_contract(f"{nm}_next32", "romu_state_t", RF, f), props=("C07",)),
    ]
CONTRACTS.append(Contract("romu.seed", RO, romu_seed, cases=[{"quad": 0}, {"quad": 1}], props=("C12",)))

# ---- Tyche ------------------------------------------------------------------------------
TY = TU("tyche", ["tyche/tyche.c"],
        [f"{t} tyche_{v}next{n}(tyche_state_t *state)" for v in ("", "openrand_") for t, n in (("uint32_t", "32"), ("uint64_t", "64"), ("double", "_double"))]
        + ["void tyche_seed(tyche_state_t *state, uint64_t seed, uint32_t idx, int original)"], {"tyche_state_t": ["a", "b", "c", "d"]})
TF = {f: 32 for f in "abcd"}


def mix(a, b, c, d):
    a = a + b
    d = (d ^ a).rotl(16)
    c = c + d
    b = (b ^ c).rotl(12)
    a = a + b
    d = (d ^ a).rotl(8)
    c = c + d
    b = (b ^ c).rotl(7)
    return a, b, c, d


def mixo(a, b, c, d):
    b = b.rotl(7) ^ c
    c = c - d
    d = d.rotl(8) ^ a
    a = a - b
    b = b.rotl(12) ^ c
    c = c - d
    d = d.rotl(16) ^ a
    a = a - b
    return a, b, c, d


def ty(v, what):
    m, out = (mixo, 0) if v else (mix, 1)

    def body(k):
        st = k.obj("state", "tyche_state_t", TF)
        s = [st.old[f][0] for f in "abcd"]
        r = k.call(f"tyche_{v}next{what}", st)
        s = m(*s)
        x = s[out]
        if what == "32":
            k.same("return value", r, x)
        else:
            s = m(*s)
            if what == "64":
                k.same("return value", r, concat(x, s[out]))
            else:
                k.double("return value", r, dstep(k, x, s[out]), -53)
                k.double_unit("return value in [0,1)", r)
        k.post(st, dict(zip("abcd", s)))
        k.frame(st)

    return body


def ty_seed(k):
    st = k.obj("state", "tyche_state_t", TF)
    seed, idx = k.word("seed", 64), k.word("idx", 32)
    o = k.case["original"]
    k.call("tyche_seed", st, seed, idx, u32(o))
    s = (seed.extract(63, 32), seed.extract(31, 0), u32(2654435769), idx ^ 1367130551)
    for _ in range(20):
        s = (mix if o else mixo)(*s)
    k.post(st, dict(zip("abcd", s)))
    k.frame(st)


for v in ("", "openrand_"):
    for what in ("32", "64", "_double"):
        CONTRACTS.append(Contract(f"tyche.{v}next{what}", TY, ty(v, what), props=("C07" if what == "_double" else "C03",)))
CONTRACTS.append(Contract("tyche.seed", TY, ty_seed, cases=[{"original": 0}, {"original": 1}], props=("C12",)))
