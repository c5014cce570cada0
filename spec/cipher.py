"""C05: AES counter mode, ChaCha, SPECK-128/256, HC-128: both code paths against the published ciphers; C08 advance; C12 seeding."""
from .common import *
from vp import x86

CONTRACTS = []
STUB = "int vp_flags[32];\nvoid feature_flags(int f[32], int major) { for (int i = 0; i < 32; i++) f[i] = vp_flags[i]; }\n"


# ---- AES-128 counter mode ------------------------------------------------------
AES = TU(
    "aes", ["aesctr/aesctr.c"],
    ["uint64_t aes_next64(aesctr_state_t *state)", "uint32_t aes_next32(aesctr_state_t *state)", "double aes_next_double(aesctr_state_t *state)",
     "void aesctr_seed(aesctr_state_t *state, uint64_t *seed)", "void aesctr_advance(aesctr_state_t *state, uint64_t *step)",
     "void aesctr_set_seed_counter(aesctr_state_t *state, uint64_t *seed, uint64_t *counter)",
     "void aesctr_get_seed_counter(aesctr_state_t *state, uint64_t *seed, uint64_t *counter)",
     "void aesctr_set_counter(aesctr_state_t *state, uint64_t *counter)", "void vp_tiny_encrypt(uint8_t *state, uint8_t *RoundKey)"],
    {"aesctr_state_t": ["ctr", "seed", "state", "offset", "has_uint32", "uinteger"]}, flags=["-maes"], post=STUB + "void vp_tiny_encrypt(uint8_t *s, uint8_t *k) { tiny_encrypt((state_t *)s, k); }\n",
)
AF = {"ctr": 64, "seed": 64, "state": 8, "offset": 64, "has_uint32": 32, "uinteger": 32}


def by(words):
    return x86.bytes_of(words)


def add128(lo, hi, dlo, dhi=0):
    """128-bit sum of (hi:lo) and (dhi:dlo), as words"""
    dlo = u64(dlo) if isinstance(dlo, int) else dlo
    n = lo + dlo
    return n, hi + dhi + n.ult(dlo).zext(64)


def sub128(lo, hi, d):
    return lo - d, hi - lo.ult(d).zext(64)


def aes_keys(old):
    s = old["seed"]
    return [by(s[2 * r : 2 * r + 2]) for r in range(11)]


def aes_block(lo, hi, keys):
    return x86.encrypt(by([lo, hi]), keys)


def enc_contract(kit, st, args):
    """contract of tiny_encrypt (proved separately): the 16 bytes become their AES-128 encryption"""
    ex = kit.ex
    rd = lambda p, n: [ex.load(st.mem, ("i", 8), p.add(i)) for i in range(n)]
    pt, rk = rd(args[0], 16), rd(args[1], 176)
    for i, b in enumerate(x86.encrypt(pt, [rk[16 * r : 16 * r + 16] for r in range(11)])):
        ex.store(st.mem, ("i", 8), b, args[0].add(i))


def tiny_encrypt(k):
    s, rk = k.array("state", 8, 16), k.array("RoundKey", 8, 176)
    k.call("vp_tiny_encrypt", s, rk)
    ks = rk.old["a"]
    e = x86.encrypt(s.old["a"], [ks[16 * r : 16 * r + 16] for r in range(11)])
    k.post(s, {"a": e})
    k.frame(s)


def aes_obj(k, **kw):
    k.glob("RANDOMGEN_USE_AESNI", 32, init=k.case["simd"])
    k.override("tiny_encrypt", enc_contract)
    st = k.obj("state", "aesctr_state_t", AF, offset=k.case["off"], **kw)
    return st


def aes_draw(k, st):
    """(64-bit output, expected fields)"""
    off = k.case["off"]
    if off < 64:
        by8 = st.old["state"][off : off + 8]
        keep = [None] * (off + 8) + st.old["state"][off + 8 :]
        return concat(*reversed(by8)), {"offset": u64(off + 8), "state": keep}
    keys = aes_keys(st.old)
    bs, cw = [], []
    c = st.old["ctr"]
    for i in range(4):
        bs += aes_block(c[2 * i], c[2 * i + 1], keys)
        cw += add128(c[2 * i], c[2 * i + 1], 4)
    return concat(*reversed(bs[:8])), {"offset": u64(8), "state": [None] * 8 + bs[8:], "ctr": cw}


def aes_next64(k):
    st = aes_obj(k)
    r = k.call("aes_next64", st)
    out, exp = aes_draw(k, st)
    k.same("return value", r, out)
    k.post(st, exp)
    k.frame(st)


def aes_nextd(k):
    st = aes_obj(k)
    r = k.call("aes_next_double", st)
    out, exp = aes_draw(k, st)
    k.double("return value", r, out >> 11, -53)
    k.double_unit("in [0,1)", r)
    k.post(st, exp)
    k.frame(st)


def aes_next32(k):
    """buffered flag: case split (0/1)"""
    h = k.case["h"]
    st = aes_obj(k, has_uint32=h)
    r = k.call("aes_next32", st)
    if h:
        k.same("buffered half returned", r, st.old["uinteger"][0])
        k.post(st, {"has_uint32": u32(0)}, skip=("uinteger",))
    else:
        out, exp = aes_draw(k, st)
        k.same("low half returned", r, out.extract(31, 0))
        exp["uinteger"] = out.extract(63, 32)
        k.post(st, exp, skip=("has_uint32",))
        k.ensure("flag set", k.now(st, "has_uint32")[0].ne(0))
    k.frame(st)


def aes_seed(k):
    fl = k.glob("vp_flags", 32, 32)
    g = k.glob("RANDOMGEN_USE_AESNI", 32)
    st = k.obj("state", "aesctr_state_t", AF)
    sd = k.array("seed", 64, 2)
    k.call("aesctr_seed", st, sd)
    ks = x86.expand_key(by(sd.old["a"]))
    kw = []
    for r in ks:
        kw += x86.vec_of(r, 64)
    k.post(st, {"seed": kw, "ctr": [u64(v) for i in range(4) for v in (i, 0)], "offset": u64(64)}, skip=("state", "has_uint32", "uinteger"))
    k.frame(st, g, fl)


def aes_setget(k):
    st = k.obj("state", "aesctr_state_t", AF)
    sd, ct = k.array("seed", 64, 22), k.array("counter", 64, 8)
    k.call("aesctr_set_seed_counter", st, sd, ct)
    k.post(st, {"seed": sd.old["a"], "ctr": ct.old["a"]})
    s2, c2 = k.array("s2", 64, 22), k.array("c2", 64, 8)
    k.call("aesctr_get_seed_counter", st, s2, c2)
    for i in range(22):
        k.same(f"seed word {i} read back", k.now(s2, "a")[i], sd.old["a"][i])
    for i in range(8):
        k.same(f"counter word {i} read back", k.now(c2, "a")[i], ct.old["a"][i])
    k.frame(st, s2, c2)


def aes_setctr(k):
    st = k.obj("state", "aesctr_state_t", AF)
    ct = k.array("counter", 64, 8)
    k.call("aesctr_set_counter", st, ct)
    k.post(st, {"ctr": ct.old["a"]})
    k.frame(st)


def delta129(k, far):
    """a step of 129 bits in three words; far: at least two draws"""
    s0, s1, s2 = k.word("s0", 64), k.word("s1", 64), k.word("top", 64, 0, 1)
    near = s0.ult(2) & s1.eq(0) & s2.eq(0)
    k.requires(~near if far else near)
    return k.array("step", 64, 3, init=[s0, s1, s2]), s0, s1, s2


def check_position(k, name, old, now, off, o, unroll, s0, s1, s2):
    """each counter moved by c, the buffer offset by f draws: 2*c + f = delta (mod 2^129)"""
    regen = 1 if off == 8 * 2 * unroll else 0  # an exhausted buffer may be replaced by a fresh one
    half = (concat(s2.trunc(1), s1, s0) >> 1).trunc(128)
    want = s0.extract(0, 0).zext(64) + (0 if regen else off // 8)
    for i in range(unroll):
        lo, hi = add128(old[2 * i], old[2 * i + 1], half.extract(63, 0), half.extract(127, 64))
        if regen:
            lo, hi = add128(lo, hi, unroll)
        k.same(f"{name}: counter {i} low", now[2 * i], lo)
        k.same(f"{name}: counter {i} high", now[2 * i + 1], hi)
    k.same(f"{name}: buffer position", o, want << 3)


def aes_advance(k):
    """every counter moves by delta/2 and the offset by delta%2 draws (mod 2^129): the position moves by delta"""
    far, off = k.case["far"], k.case["off"]
    st = aes_obj(k)
    step, s0, s1, s2 = delta129(k, far)
    k.call("aesctr_advance", st, step)
    now, keys = k.now(st, "ctr"), aes_keys(st.old)
    check_position(k, "draw position moved by delta", st.old["ctr"], now, off, k.now(st, "offset")[0], 4, s0, s1, s2)
    buf = k.now(st, "state")
    if far or off == 64:
        for i in range(64):
            if i % 16 == 0:
                blk = aes_block(*sub128(now[i // 8], now[i // 8 + 1], 4), keys)
            k.same(f"buffer[{i}] is the encrypted counter", buf[i], blk[i % 16])
    else:
        for i in range(off, 64):
            k.same(f"buffer[{i}] kept", buf[i], st.old["state"][i])
    for i in range(22):
        k.same(f"seed[{i}] kept", k.now(st, "seed")[i], st.old["seed"][i])
    k.frame(st)


OFFS = [0, 8, 16, 24, 32, 40, 48, 56, 64]
AC = [{"simd": s, "off": o} for s in (0, 1) for o in OFFS]
CONTRACTS += [
    Contract("aes.tiny_encrypt", AES, tiny_encrypt, props=("C05", "C08"), samples=60),
    Contract("aes.next64", AES, aes_next64, cases=AC, props=("C05", "C14"), samples=60),
    Contract("aes.next32", AES, aes_next32, cases=[dict(c, h=h) for c in AC for h in (0, 1)], props=("C05", "C07", "C14"), samples=60),
    Contract("aes.next_double", AES, aes_nextd, cases=AC, props=("C05", "C07", "C14"), samples=60),
    Contract("aes.seed", AES, aes_seed, props=("C05", "C12"), samples=60),
    Contract("aes.set_get", AES, aes_setget, props=("C11",), samples=60),
    Contract("aes.set_counter", AES, aes_setctr, props=("C05", "C11", "C12"), samples=60),
    Contract("aes.advance", AES, aes_advance, cases=[dict(c, far=f) for c in AC for f in (0, 1)], props=("C08",), samples=60),
]

# ---- SPECK-128/256 counter mode -----------------------------------------------------
SPK = TU(
    "speck", ["speck-128/speck-128.c"],
    ["uint64_t speck_next64(speck_state_t *state)", "uint32_t speck_next32(speck_state_t *state)", "void speck_seed(speck_state_t *state, uint64_t seed[4])",
     "void speck_set_counter(speck_state_t *state, uint64_t *ctr)", "void speck_advance(speck_state_t *state, uint64_t *step)"],
    {"speck_state_t": ["round_key", "ctr", "buffer", "rounds", "offset", "has_uint32", "uinteger"]}, flags=["-mssse3"], post=STUB,
)
SPK.push8 = False
KF = {"round_key": 64, "ctr": 64, "buffer": 8, "rounds": 32, "offset": 32, "has_uint32": 32, "uinteger": 32}


def speck_round(x, y, key):
    x = (x.rotr(8) + y) ^ key
    return x, y.rotl(3) ^ x


def speck_block(lo, hi, rk, rounds):
    """[y, x] = encryption of (y=lo, x=hi)"""
    x, y = hi, lo
    for i in range(rounds):
        x, y = speck_round(x, y, rk[i])
    return [y, x]


def speck_schedule(key):
    a, ls = key[0], list(key[1:])
    out = []
    for i in range(34):
        out.append(a)
        l, a = speck_round(ls[i % 3], a, u64(i))
        ls[i % 3] = l
    return out


def spk_obj(k, **kw):
    k.glob("RANDOMGEN_USE_SSE41", 32, init=k.case["simd"])
    rk = [k.word(f"rk[{i}]", 64) for i in range(34)]
    st = k.obj("state", "speck_state_t", KF, offset=k.case["off"], rounds=k.case["rounds"], round_key=[x for r in rk for x in (r, r)], **kw)
    return st, rk


def spk_draw(k, st, rk):
    off = k.case["off"]
    if off < 96:
        b = st.old["buffer"]
        return concat(*reversed(b[off : off + 8])), {"offset": u32(off + 8), "buffer": [None] * (off + 8) + b[off + 8 :]}
    c, bs, cw = st.old["ctr"], [], []
    for i in range(6):
        bs += by(speck_block(c[2 * i], c[2 * i + 1], rk, k.case["rounds"]))
        cw += add128(c[2 * i], c[2 * i + 1], 6)
    return concat(*reversed(bs[:8])), {"offset": u32(8), "buffer": [None] * 8 + bs[8:], "ctr": cw}


def spk_next64(k):
    st, rk = spk_obj(k)
    r = k.call("speck_next64", st)
    out, exp = spk_draw(k, st, rk)
    k.same("return value", r, out)
    k.post(st, exp)
    k.frame(st)


def spk_next32(k):
    h = k.case["h"]
    st, rk = spk_obj(k, has_uint32=h)
    r = k.call("speck_next32", st)
    if h:
        k.same("buffered half returned", r, st.old["uinteger"][0])
        k.post(st, {"has_uint32": u32(0)}, skip=("uinteger",))
    else:
        out, exp = spk_draw(k, st, rk)
        k.same("low half returned", r, out.extract(31, 0))
        exp["uinteger"] = out.extract(63, 32)
        k.post(st, exp, skip=("has_uint32",))
        k.ensure("flag set", k.now(st, "has_uint32")[0].ne(0))
    k.frame(st)


def spk_seed(k):
    fl = k.glob("vp_flags", 32, 32)
    g = k.glob("RANDOMGEN_USE_SSE41", 32)
    st = k.obj("state", "speck_state_t", KF)
    sd = k.array("seed", 64, 4)
    k.call("speck_seed", st, sd)
    ks = speck_schedule(sd.old["a"])
    k.post(st, {"round_key": [x for r in ks for x in (r, r)], "ctr": [u64(v) for i in range(6) for v in (i, 0)], "offset": u32(96)},
           skip=("buffer", "has_uint32", "uinteger"))
    k.frame(st, g, fl)


def spk_setctr(k):
    st = k.obj("state", "speck_state_t", KF)
    c = k.array("ctr", 64, 2)
    k.call("speck_set_counter", st, c)
    exp = []
    for i in range(6):
        exp += add128(c.old["a"][0], c.old["a"][1], i) if i else c.old["a"]
    k.post(st, {"ctr": exp})
    k.frame(st)


def spk_advance(k):
    far, off = k.case["far"], k.case["off"]
    st, rk = spk_obj(k)
    step, s0, s1, s2 = delta129(k, far)
    k.call("speck_advance", st, step)
    now = k.now(st, "ctr")
    check_position(k, "draw position moved by delta", st.old["ctr"], now, off, k.now(st, "offset")[0].zext(64), 6, s0, s1, s2)
    buf = k.now(st, "buffer")
    if far or off == 96:
        for i in range(96):
            if i % 16 == 0:
                blk = by(speck_block(*sub128(now[i // 8], now[i // 8 + 1], 6), rk, k.case["rounds"]))
            k.same(f"buffer[{i}] is the encrypted counter", buf[i], blk[i % 16])
    else:
        for i in range(off, 96):
            k.same(f"buffer[{i}] kept", buf[i], st.old["buffer"][i])
    for f in ("round_key", "rounds"):
        for i, x in enumerate(k.now(st, f)):
            k.same(f"{f}[{i}] kept", x, st.old[f][i])
    k.frame(st)


SO = list(range(0, 104, 8))
SC = [{"simd": s, "off": o, "rounds": 34} for s in (0, 1) for o in SO]
SALL = [{"simd": s, "off": 96, "rounds": r} for s in (0, 1) for r in range(1, 34)]
CONTRACTS += [
    Contract("speck.next64", SPK, spk_next64, cases=SC, props=("C05", "C14"), samples=60),
    Contract("speck.next64_some_rounds", SPK, spk_next64, cases=[c for c in SALL if c["rounds"] in (1, 2, 7, 12)], props=("C05",), samples=60, tiers=("quick",)),
    Contract("speck.next64_all_rounds", SPK, spk_next64, cases=SALL, props=("C05",), samples=60, tiers=("thorough",), note="every permitted number of rounds"),
    Contract("speck.next32", SPK, spk_next32, cases=[dict(c, h=h) for c in SC for h in (0, 1)], props=("C05", "C07", "C14"), samples=60),
    Contract("speck.seed", SPK, spk_seed, props=("C05", "C12"), samples=60),
    Contract("speck.set_counter", SPK, spk_setctr, props=("C05", "C12"), samples=60),
    Contract("speck.advance", SPK, spk_advance, cases=[dict(c, far=f) for c in SC for f in (0, 1)], props=("C08",), samples=60),
]

# ---- ChaCha ----------------------------------------------------------------------------
CHA = TU(
    "chacha", ["chacha/chacha.c"],
    ["uint64_t chacha_next64(chacha_state_t *state)", "uint32_t chacha_next32(chacha_state_t *state)", "double chacha_next_double(chacha_state_t *state)",
     "void chacha_seed(chacha_state_t *state, uint64_t *seedval, uint64_t *stream, uint64_t *ctr)", "void chacha_advance(chacha_state_t *state, uint64_t *delta)"],
    {"chacha_state_t": ["block", "keysetup", "ctr", "rounds"]}, flags=["-mssse3"], post=STUB,
)
CHA.push8 = False
HF = {"block": 32, "keysetup": 32, "ctr": 64, "rounds": 32}


def quarter(x, a, b, c, d):
    x[a] = x[a] + x[b]
    x[d] = (x[d] ^ x[a]).rotl(16)
    x[c] = x[c] + x[d]
    x[b] = (x[b] ^ x[c]).rotl(12)
    x[a] = x[a] + x[b]
    x[d] = (x[d] ^ x[a]).rotl(8)
    x[c] = x[c] + x[d]
    x[b] = (x[b] ^ x[c]).rotl(7)


def chacha_block(key, n, rounds):
    """n: 128-bit block number in words 12..15"""
    inp = [u32(v) for v in (0x61707865, 0x3320646E, 0x79622D32, 0x6B206574)] + list(key) + [n.extract(32 * i + 31, 32 * i) for i in range(4)]
    x = list(inp)
    for _ in range(0, rounds, 2):
        for i in range(4):
            quarter(x, i, i + 4, i + 8, i + 12)
        for i in range(4):
            quarter(x, i, 4 + (i + 1) % 4, 8 + (i + 2) % 4, 12 + (i + 3) % 4)
    return [a + b for a, b in zip(x, inp)]


def cha_obj(k, **kw):
    k.glob("RANDOMGEN_USE_SIMD", 32, init=k.case["simd"])
    lo = concat(k.word("ctr0", 60), BV(4, k.case["idx"]))
    return k.obj("state", "chacha_state_t", HF, ctr=[lo, k.word("ctr1", 64)], rounds=k.case["rounds"], **kw)


def cha_draws(k, st, m):
    """m 32-bit words; invariant: unless ctr%16 == 0, block is the key stream block number ctr/16"""
    lo, hi = st.old["ctr"]
    idx, blk = k.case["idx"], [x if i >= k.case["idx"] else None for i, x in enumerate(st.old["block"])]
    out = []
    for _ in range(m):
        if idx == 0:
            blk = chacha_block(st.old["keysetup"], concat(hi, lo) >> 4, k.case["rounds"])
        out.append(blk[idx])
        lo, hi = add128(lo, hi, 1)
        idx = (idx + 1) % 16
    return out, {"ctr": [lo, hi], "block": [x if i >= idx > 0 else None for i, x in enumerate(blk)]}


def cha_next32(k):
    st = cha_obj(k)
    r = k.call("chacha_next32", st)
    (a,), exp = cha_draws(k, st, 1)
    k.same("return value", r, a)
    k.post(st, exp)
    k.frame(st)


def cha_next64(k):
    st = cha_obj(k)
    r = k.call("chacha_next64", st)
    (a, b), exp = cha_draws(k, st, 2)
    k.same("return value: first word low", r, concat(b, a))
    k.post(st, exp)
    k.frame(st)


def cha_nextd(k):
    st = cha_obj(k)
    r = k.call("chacha_next_double", st)
    (a, b), exp = cha_draws(k, st, 2)
    k.double("return value", r, concat(b, a) >> 11, -53)
    k.double_unit("in [0,1)", r)
    k.post(st, exp)
    k.frame(st)


def cha_seed(k):
    fl = k.glob("vp_flags", 32, 32)
    g = k.glob("RANDOMGEN_USE_SIMD", 32)
    st = k.obj("state", "chacha_state_t", HF, rounds=k.case["rounds"])
    sd, sm, ct = k.array("seedval", 64, 2), k.array("stream", 64, 2), k.array("ctr", 64, 2)
    k.call("chacha_seed", st, sd, sm, ct)
    key = [w.extract(32 * h + 31, 32 * h) for w in sd.old["a"] + sm.old["a"] for h in (0, 1)]
    lo, hi = ct.old["a"]
    k.post(st, {"keysetup": key, "ctr": [lo, hi], "block": chacha_block(key, concat(hi, lo) >> 4, k.case["rounds"])})
    k.frame(st, g, fl)


def cha_advance(k):
    """word position ctr moves by delta mod 2^128; the block is the one the new position reads from"""
    idx = k.case["idx"]
    st = cha_obj(k)
    d = k.array("delta", 64, 2, init=[k.word("d0", 64), k.word("d1", 64)])
    d0, d1 = d.old["a"]
    lo, hi = st.old["ctr"]
    nlo, nhi = add128(lo, hi, d0, d1)
    within = d1.eq(0) & d0.ult(16 - idx) if idx else BV(1, 0)
    kind = k.case["kind"]
    if kind == "within":
        k.requires(within)
    elif kind == "boundary":
        k.requires(nlo.extract(3, 0).eq(0))
    else:
        k.requires(~within & nlo.extract(3, 0).ne(0))
    k.call("chacha_advance", st, d)
    skip = ()
    exp = {"ctr": [nlo, nhi]}
    if kind == "boundary":
        exp["block"] = [None] * 16
    elif kind == "other":
        c = k.now(st, "ctr")
        exp["block"] = chacha_block(st.old["keysetup"], concat(c[1], c[0]) >> 4, k.case["rounds"])
    k.post(st, exp, skip)
    k.frame(st)


HC = [{"simd": s, "idx": i, "rounds": r} for s in (0, 1) for i in range(16) for r in ((20,) if i % 15 else (8, 12, 20))]
HT = [{"simd": s, "idx": 0, "rounds": r} for s in (0, 1) for r in range(2, 42, 2)]
CONTRACTS += [
    Contract("chacha.next32", CHA, cha_next32, cases=HC, props=("C05", "C07", "C14"), samples=60),
    Contract("chacha.next64", CHA, cha_next64, cases=HC, props=("C05", "C14"), samples=60),
    Contract("chacha.next_double", CHA, cha_nextd, cases=HC, props=("C05", "C07", "C14"), samples=60),
    Contract("chacha.rounds", CHA, cha_next32, cases=HT, props=("C05",), samples=60, note="rounds 2..40 enumerated"),
    Contract("chacha.seed", CHA, cha_seed, cases=[{"rounds": r} for r in (8, 12, 20)], props=("C05", "C12"), samples=60),
    Contract("chacha.advance", CHA, cha_advance, cases=[{"simd": s, "idx": i, "rounds": 8, "kind": kd} for s in (0, 1) for i in range(16) for kd in ("within", "boundary", "other") if i or kd != "within"],
             props=("C08",), samples=60),
]

# ---- HC-128 -------------------------------------------------------------------------------
HC1 = TU(
    "hc128", ["hc-128/hc-128.c"],
    ["uint64_t hc128_next64(hc128_state_t *state)", "uint32_t hc128_next32(hc128_state_t *state)", "double hc128_next_double(hc128_state_t *state)",
     "void hc128_seed(hc128_state_t *state, uint32_t *seed)"],
    {"hc128_state_t": ["p", "q", "buffer", "hc_idx", "buffer_idx"]},
)
CF = {"p": 32, "q": 32, "buffer": 32, "hc_idx": 32, "buffer_idx": 32}


def hc_step(k, P, Q, j, odd):
    """one step of HC-128 (Wu 2004): updates P in place and returns the output word"""
    m = lambda i: P[i % 512]
    x, y, z = m(j - 3), m(j - 10), m(j - 511)
    if not odd:
        g = (x.rotr(10) ^ z.rotr(23)) + y.rotr(8)
    else:
        g = (x.rotl(10) ^ z.rotl(23)) + y.rotl(8)
    P[j] = P[j] + g
    t = m(j - 12)
    h = k.select(Q[:256], t.extract(7, 0)) + k.select(Q[256:], t.extract(23, 16))
    return h ^ P[j]


def hc_draws(k, st, m):
    P, Q = list(st.old["p"]), list(st.old["q"])
    i, b, hc = k.case["bi"], [x if n >= k.case["bi"] else None for n, x in enumerate(st.old["buffer"])], k.case["hc"]
    out = []
    for _ in range(m):
        if i % 16 == 0:
            b = [hc_step(k, P, Q, hc + n, 0) if hc < 512 else hc_step(k, Q, P, hc - 512 + n, 1) for n in range(16)]
            hc, i = (hc + 16) % 1024, 0
        out.append(b[i])
        i += 1
    return out, {"p": P, "q": Q, "buffer": [x if n >= i else None for n, x in enumerate(b)], "hc_idx": u32(hc), "buffer_idx": u32(i)}


def hc_obj(k):
    return k.obj("state", "hc128_state_t", CF, hc_idx=k.case["hc"], buffer_idx=k.case["bi"])


def hc_next32(k):
    st = hc_obj(k)
    r = k.call("hc128_next32", st)
    (a,), exp = hc_draws(k, st, 1)
    k.same("return value", r, a)
    k.post(st, exp)
    k.frame(st)


def hc_next64(k):
    st = hc_obj(k)
    r = k.call("hc128_next64", st)
    (a, b), exp = hc_draws(k, st, 2)
    k.same("return value: first word low", r, concat(b, a))
    k.post(st, exp)
    k.frame(st)


def hc_nextd(k):
    st = hc_obj(k)
    r = k.call("hc128_next_double", st)
    (a, b), exp = hc_draws(k, st, 2)
    k.double("return value", r, concat(b, a) >> 11, -53)
    k.double_unit("in [0,1)", r)
    k.post(st, exp)
    k.frame(st)


def hc_seed(k):
    st = k.obj("state", "hc128_state_t", CF)
    sd = k.array("seed", 32, 8)
    k.call("hc128_seed", st, sd)
    s = sd.old["a"]
    W = s[:4] + s[:4] + s[4:] + s[4:]
    for i in range(16, 1280):
        a, b = W[i - 2], W[i - 15]
        W.append((a.rotr(17) ^ a.rotr(19) ^ (a >> 10)) + W[i - 7] + (b.rotr(7) ^ b.rotr(18) ^ (b >> 3)) + W[i - 16] + i)
    P, Q = W[256:768], W[768:]
    for i in range(512):
        P[i] = hc_step(k, P, Q, i, 0)
    for i in range(512):
        Q[i] = hc_step(k, Q, P, i, 1)
    k.post(st, {"p": P, "q": Q, "hc_idx": u32(0)}, skip=("buffer", "buffer_idx"))
    k.frame(st)


CONTRACTS += [
    Contract("hc128.next32", HC1, hc_next32, cases=[{"hc": 16 * h, "bi": b} for h in range(64) for b in ((0, 16) if h % 32 else range(17))], props=("C05", "C07", "C14"), samples=40),
    Contract("hc128.next64", HC1, hc_next64, cases=[{"hc": 16 * h, "bi": b} for h in (0, 31, 32, 63) for b in (0, 1, 14, 15, 16)], props=("C05", "C14"), samples=40),
    Contract("hc128.next_double", HC1, hc_nextd, cases=[{"hc": 16 * h, "bi": b} for h in (0, 31, 32, 63) for b in (0, 1, 14, 15, 16)], props=("C05", "C07", "C14"), samples=40),
    Contract("hc128.seed", HC1, hc_seed, props=("C05", "C12"), samples=20),
]
CONTRACTS[-1].stand_in = "2304 dependent table-driven steps: the term is beyond the sweeper"

