"""C06: MT19937, MT19937-64, SFMT-19937, dSFMT-19937: recurrence, output, seeding; C09: jump polynomials."""
from .common import *

CONTRACTS = []
GLUE = []


def inrange(k, name, w):
    """an index word: fixed by the case, or any value in the case's range"""
    c = k.case
    if "fix" in c:
        return BV(w, c["fix"])
    return k.word(name, w, c["lo"], c["hi"])


# ---- MT19937 (Matsumoto & Nishimura 1998; init 2002) -----------------------------------
MT = TU("mt19937", ["mt19937/mt19937.c", "mt19937/mt19937-jump.c"],
        ["void mt19937_seed(mt19937_state_t *state, uint32_t seed)", "void mt19937_init_by_array(mt19937_state_t *state, uint32_t *init_key, int key_length)", "void mt19937_gen(mt19937_state_t *state)",
         "uint32_t mt19937_next32(mt19937_state_t *state)", "uint64_t mt19937_next64(mt19937_state_t *state)", "double mt19937_next_double(mt19937_state_t *state)"],
        {"mt19937_state_t": ["key", "pos"]})
MT.sumc = True
MTF = {"key": 32, "pos": 32}


def mt_gen(key):
    s = list(key)
    for i in range(624):
        y = (s[i] & 0x80000000) | (s[(i + 1) % 624] & 0x7FFFFFFF)
        s[i] = s[(i + 397) % 624] ^ (y >> 1) ^ ite(y.extract(0, 0), u32(0x9908B0DF), u32(0))
    return s


def mt_temper(y):
    y = y ^ (y >> 11)
    y = y ^ ((y << 7) & 0x9D2C5680)
    y = y ^ ((y << 15) & 0xEFC60000)
    return y ^ (y >> 18)


def mt_knuth(s):
    m = [s]
    for i in range(1, 624):
        m.append((m[-1] ^ (m[-1] >> 30)) * 1812433253 + i)
    return m


def mt_draws(k, old, n, temper, gen, N, fpos, fkey):
    """n successive raw words, the new array and position"""
    key, pos = old[fkey], old[fpos][0]
    out = []
    for _ in range(n):
        if pos.conc and pos.v == N:
            key, pos = gen(key), u32(0)
        out.append(temper(k.at(key, pos)))
        pos = pos + 1
    return out, key, pos


def mt_next(fn, n, result):
    def body(k):
        st = k.obj("state", "mt19937_state_t", MTF, pos=inrange(k, "pos", 32))
        r = k.call(fn, st)
        out, key, pos = mt_draws(k, st.old, n, mt_temper, mt_gen, 624, "pos", "key")
        result(k, r, out)
        k.post(st, {"key": key, "pos": pos})
        k.frame(st)

    return body


def r_double(k, r, o):
    k.double("return value", r, dstep(k, o[0], o[1]), -53)
    k.double_unit("return value in [0, 1)", r)


def mt_seed(k):
    st = k.obj("state", "mt19937_state_t", MTF)
    s = k.word("seed", 32)
    k.call("mt19937_seed", st, s)
    k.post(st, {"key": mt_knuth(s), "pos": u32(624)})
    k.frame(st)


def mt_genc(k):
    st = k.obj("state", "mt19937_state_t", MTF)
    k.call("mt19937_gen", st)
    k.post(st, {"key": mt_gen(st.old["key"]), "pos": u32(0)})
    k.frame(st)


def by_array(m, key, N, sh, f1, f2, top, w):
    i, j = 1, 0
    for _ in range(max(N, len(key))):
        m[i] = (m[i] ^ ((m[i - 1] ^ (m[i - 1] >> sh)) * f1)) + key[j] + j
        i, j = i + 1, (j + 1) % len(key)
        if i >= N:
            m[0], i = m[N - 1], 1
    for _ in range(N - 1):
        m[i] = (m[i] ^ ((m[i - 1] ^ (m[i - 1] >> sh)) * f2)) - i
        i += 1
        if i >= N:
            m[0], i = m[N - 1], 1
    m[0] = BV(w, top)
    return m


def mt_array(k):
    n = k.case["n"]
    st = k.obj("state", "mt19937_state_t", MTF)
    key = k.array("init_key", 32, n)
    k.call("mt19937_init_by_array", st, key, u32(n))
    m = by_array(mt_knuth(u32(19650218)), key.old["a"], 624, 30, 1664525, 1566083941, 0x80000000, 32)
    k.post(st, {"key": m, "pos": u32(624)})
    k.post(key)
    k.frame(st)


ONE = [{"lo": 0, "hi": 623}, {"fix": 624}]
TWO = [{"lo": 0, "hi": 622}, {"fix": 623}, {"fix": 624}]
LENS = [{"n": 624}, {"n": 1}, {"n": 2}, {"n": 3}, {"n": 623}, {"n": 625}, {"n": 1000}]
CONTRACTS += [
    Contract("mt19937.gen", MT, mt_genc, props=("C06",), samples=40),
    Contract("mt19937.next32", MT, mt_next("mt19937_next32", 1, lambda k, r, o: k.same("return value", r, o[0])), cases=ONE, props=("C06", "C07", "C14"), samples=40),
    Contract("mt19937.next64", MT, mt_next("mt19937_next64", 2, lambda k, r, o: k.same("return value", r, concat(o[0], o[1]))), cases=TWO, props=("C06", "C07"), samples=40),
    Contract("mt19937.next_double", MT, mt_next("mt19937_next_double", 2, r_double), cases=TWO, props=("C07",), samples=40),
    Contract("mt19937.seed", MT, mt_seed, props=("C06", "C12"), samples=40),
    Contract("mt19937.init_by_array", MT, mt_array, cases=LENS, props=("C06", "C12"), samples=20),
]
GLUE.append(("mt19937.", "mt19937_", "mt19937", "mt19937", "own", 32))

# ---- MT19937-64 -----------------------------------------------------------------------------
M64 = TU("mt64", ["mt64/mt64.c"],
         ["void mt64_seed(mt64_state_t *mt64, uint64_t seed)", "void mt64_init_by_array(mt64_state_t *mt64, uint64_t *init_key, uint64_t key_length)", "void mt64_gen(mt64_state_t *mt64)",
          "uint64_t mt64_next64(mt64_state_t *mt64)", "uint32_t mt64_next32(mt64_state_t *mt64)"],
         {"mt64_state_t": ["mt", "mti", "has_uint32", "uinteger"]})
M64.sumc = True
M6F = {"mt": 64, "mti": 32, **H32}


def m64_gen(key):
    s = list(key)
    for i in range(312):
        x = (s[i] & 0xFFFFFFFF80000000) | (s[(i + 1) % 312] & 0x7FFFFFFF)
        s[i] = s[(i + 156) % 312] ^ (x >> 1) ^ ite(x.extract(0, 0), u64(0xB5026F5AA96619E9), u64(0))
    return s


def m64_temper(x):
    x = x ^ ((x >> 29) & 0x5555555555555555)
    x = x ^ ((x << 17) & 0x71D67FFFEDA60000)
    x = x ^ ((x << 37) & 0xFFF7EEE000000000)
    return x ^ (x >> 43)


def m64_knuth(s):
    m = [s]
    for i in range(1, 312):
        m.append((m[-1] ^ (m[-1] >> 62)) * 6364136223846793005 + i)
    return m


def m64_step(k, o):
    out, key, pos = mt_draws(k, o, 1, m64_temper, m64_gen, 312, "mti", "mt")
    return out[0], {"mt": key, "mti": pos}


def m64_pre(k):
    return {"mti": inrange(k, "mti", 32)}


def m64_genc(k):
    st = k.obj("state", "mt64_state_t", M6F, mti=k.word("mti", 32, 0, 312))
    k.call("mt64_gen", st)
    k.post(st, {"mt": m64_gen(st.old["mt"]), "mti": u32(0)})
    k.frame(st)


def m64_seed(k):
    st = k.obj("state", "mt64_state_t", M6F)
    s = k.word("seed", 64)
    k.call("mt64_seed", st, s)
    k.post(st, {"mt": m64_knuth(s), "mti": u32(312)})
    k.frame(st)


def m64_array(k):
    n = k.case["n"]
    st = k.obj("state", "mt64_state_t", M6F)
    key = k.array("init_key", 64, n)
    k.call("mt64_init_by_array", st, key, u64(n))
    m = by_array(m64_knuth(u64(19650218)), key.old["a"], 312, 62, 3935559000370003845, 2862933555777941757, 1 << 63, 64)
    k.post(st, {"mt": m, "mti": u32(312)})
    k.post(key)
    k.frame(st)


C64 = [{"lo": 0, "hi": 311}, {"fix": 312}]
L64 = [{"n": 312}, {"n": 1}, {"n": 2}, {"n": 3}, {"n": 311}, {"n": 313}, {"n": 600}]
CONTRACTS += [
    Contract("mt64.gen", M64, m64_genc, props=("C06",), samples=40),
    Contract("mt64.next64", M64, next64_contract("mt64_next64", "mt64_state_t", M6F, m64_step, m64_pre, state="mt64"), cases=C64, props=("C06", "C14"), samples=40),
    Contract("mt64.next32", M64, next32_contract("mt64_next32", "mt64_state_t", M6F, m64_step, m64_pre, state="mt64"), cases=C64, props=("C07",), samples=40),
    Contract("mt64.seed", M64, m64_seed, props=("C06", "C12"), samples=40),
    Contract("mt64.init_by_array", M64, m64_array, cases=L64, props=("C06", "C12"), samples=20),
]
GLUE.append(("mt64.", "mt64_", "mt64", "mt64", "u64", "own64"))

# ---- SFMT-19937 (Saito & Matsumoto 2006), SSE2 and portable code -----------------------------
SFMT_N, SFMT_P = 156, 122
SFF = {"state": 32, "idx": 32}
SSF = {"has_uint32": 32, "uinteger": 32, "buffer_loc": 32}


def sfmt_tu(name, flags):
    return TU(name, ["sfmt/sfmt.c", "sfmt/sfmt-jump.c"],
              ["void sfmt_gen_rand_all(sfmt_t *sfmt)", "void sfmt_fill_array64(sfmt_t *sfmt, uint64_t *array, int size)", "void sfmt_init_gen_rand(sfmt_t *sfmt, uint32_t seed)",
               "void sfmt_init_by_array(sfmt_t *sfmt, uint32_t *init_key, int key_length)", "uint64_t sfmt_next64(sfmt_state_t *state)", "uint32_t sfmt_next32(sfmt_state_t *state)"],
              {"sfmt_t": ["state", "idx"], "sfmt_state_t": ["state", "has_uint32", "uinteger", "buffered_uint64", "buffer_loc"]}, flags=["-DSFMT_MEXP=19937"] + flags)


SF = sfmt_tu("sfmt", ["-DHAVE_SSE2=1"])
SFP = sfmt_tu("sfmt_portable", [])
SF.sumc = SFP.sumc = True
SF.push8 = SFP.push8 = False
SMASK = [0xDFFFFFEF, 0xDDFECB7F, 0xBFFAFFFF, 0xBFFFFFF6]
SPAR = [1, 0, 0, 0x13C9E684]


def v128(ws):
    return concat(*reversed(ws))


def sfmt_rec(a, b, c, d):
    """r = a ^ (a <<128 8) ^ ((b >>32 11) & MASK) ^ (c >>128 8) ^ (d <<32 18)"""
    x, z = v128(a) << 8, v128(c) >> 8
    return [a[i] ^ x.extract(32 * i + 31, 32 * i) ^ ((b[i] >> 11) & SMASK[i]) ^ z.extract(32 * i + 31, 32 * i) ^ (d[i] << 18) for i in range(4)]


def quads(ws):
    return [list(ws[4 * i : 4 * i + 4]) for i in range(len(ws) // 4)]


def sfmt_gen(ws):
    s = quads(ws)
    for i in range(SFMT_N):
        s[i] = sfmt_rec(s[i], s[(i + SFMT_P) % SFMT_N], s[(i - 2) % SFMT_N], s[(i - 1) % SFMT_N])
    return [w for q in s for w in q]


def words64(ws):
    return [concat(ws[2 * i + 1], ws[2 * i]) for i in range(len(ws) // 2)]


def sfmt_genc(k):
    st = k.obj("sfmt", "sfmt_t", SFF)
    k.call("sfmt_gen_rand_all", st)
    k.post(st, {"state": sfmt_gen(st.old["state"])})
    k.frame(st)


def sfmt_fill(k):
    st = k.obj("sfmt", "sfmt_t", SFF)
    arr = k.array("array", 64, 312)
    k.call("sfmt_fill_array64", st, arr, u32(312))
    n = sfmt_gen(st.old["state"])
    k.post(st, {"state": n, "idx": u32(624)})
    k.post(arr, {"a": words64(n)})
    k.frame(st, arr)


def parity(m):
    inner = u32(0)
    for w, p in zip(m, SPAR):
        inner = inner ^ (w & p)
    for i in (16, 8, 4, 2, 1):
        inner = inner ^ (inner >> i)
    ok = (inner & 1).eq(1)
    return [ite(ok, m[0], m[0] ^ 1)] + list(m[1:])


def sfmt_seed(k):
    st = k.obj("sfmt", "sfmt_t", SFF)
    s = k.word("seed", 32)
    k.call("sfmt_init_gen_rand", st, s)
    k.post(st, {"state": parity(mt_knuth(s)), "idx": u32(624)})
    k.frame(st)


def sfmt_mix(size, lag, key):
    """init_by_array of SFMT / dSFMT"""
    f1 = lambda x: (x ^ (x >> 27)) * 1664525
    f2 = lambda x: (x ^ (x >> 27)) * 1566083941
    mid = (size - lag) // 2
    m = [u32(0x8B8B8B8B)] * size
    r = f1(m[0] ^ m[mid] ^ m[size - 1])
    m[mid] = m[mid] + r
    r = r + len(key)
    m[mid + lag] = m[mid + lag] + r
    m[0] = r
    i = 1
    for j in range(max(len(key) + 1, size) - 1):
        r = f1(m[i] ^ m[(i + mid) % size] ^ m[(i + size - 1) % size])
        m[(i + mid) % size] = m[(i + mid) % size] + r
        r = r + i if j >= len(key) else r + (key[j] + i)
        m[(i + mid + lag) % size] = m[(i + mid + lag) % size] + r
        m[i] = r
        i = (i + 1) % size
    for j in range(size):
        r = f2(m[i] + m[(i + mid) % size] + m[(i + size - 1) % size])
        m[(i + mid) % size] = m[(i + mid) % size] ^ r
        r = r - i
        m[(i + mid + lag) % size] = m[(i + mid + lag) % size] ^ r
        m[i] = r
        i = (i + 1) % size
    return m


def sfmt_array(k):
    n = k.case["n"]
    st = k.obj("sfmt", "sfmt_t", SFF)
    key = k.array("init_key", 32, n)
    k.call("sfmt_init_by_array", st, key, u32(n))
    k.post(st, {"state": parity(sfmt_mix(624, 11, key.old["a"])), "idx": u32(624)})
    k.post(key)
    k.frame(st)


def inrange2(k, name, w):
    return BV(w, 0) if k.case[name] == "clear" else k.word(name + "_set", w, 1, (1 << w) - 1)


def sfmt_next(fn):
    def body(k):
        st = k.obj("sfmt", "sfmt_t", SFF)
        buf = k.array("buf", 64, 312)
        s = k.obj("state", "sfmt_state_t", SSF, ptrs={"state": st, "buffered_uint64": buf}, buffer_loc=inrange(k, "loc", 32), **({"has_uint32": inrange2(k, "has", 32)} if "has" in k.case else {}))
        r = k.call(fn, s)
        b, loc, sf = buf.old["a"], s.old["buffer_loc"][0], st.old["state"]
        n32 = fn.endswith("32")
        h = s.old["has_uint32"][0].ne(0) if k.case.get("has") != "set" else BV(1, 1)
        full = loc.conc and loc.v == 312
        if full:
            sf = sfmt_gen(sf)
            b = words64(sf)
            loc = u32(0)
        out = k.at(b, loc)
        if not n32:
            k.same("return value", r, out)
            k.post(s, {"buffer_loc": loc + 1})
            k.post(st, {"state": sf}, skip=("idx",))
            k.post(buf, {"a": b})
        else:
            pick = lambda x, y: [ite(h, p, q) for p, q in zip(x, y)]
            k.same("return value: buffered half, else low half", r, ite(h, s.old["uinteger"][0], out.extract(31, 0)))
            k.post(s, {"buffer_loc": ite(h, s.old["buffer_loc"][0], loc + 1)}, skip=("has_uint32", "uinteger"))
            k.ensure("buffer flag toggles", k.now(s, "has_uint32")[0].ne(0).ne(h), pair=None)
            k.same("buffered value is the high half", ite(h, out.extract(63, 32), k.now(s, "uinteger")[0]), out.extract(63, 32))
            k.post(st, {"state": pick(st.old["state"], sf)}, skip=("idx",))
            k.post(buf, {"a": pick(buf.old["a"], b)})
        k.frame(st, buf, s)

    return body


SL = [{"n": 624}, {"n": 1}, {"n": 2}, {"n": 623}, {"n": 625}, {"n": 700}]
for nm, tu in (("sfmt", SF), ("sfmt-portable", SFP)):
    CONTRACTS += [
        Contract(nm + ".gen_rand_all", tu, sfmt_genc, props=("C06",), samples=40),
        Contract(nm + ".fill_array64", tu, sfmt_fill, props=("C06", "C14"), samples=40),
        Contract(nm + ".init_gen_rand", tu, sfmt_seed, props=("C06", "C12"), samples=40),
        Contract(nm + ".init_by_array", tu, sfmt_array, cases=SL, props=("C06", "C12"), samples=20),
        Contract(nm + ".next64", tu, sfmt_next("sfmt_next64"), cases=C64, props=("C06", "C14"), samples=40),
        Contract(nm + ".next32", tu, sfmt_next("sfmt_next32"), cases=[dict(c, has=h) for c in C64 for h in ("clear", "set")], props=("C06", "C07"), samples=40),
    ]
LINEARS = (".gen_rand_all", ".fill_array64", "sfmt.next64", "sfmt.next32", "portable.next64", "portable.next32")
for c in CONTRACTS:
    if c.cid.endswith(LINEARS) and "sfmt" in c.cid:
        c.lin = True
GLUE.append(("sfmt.", "sfmt_", "sfmt", "sfmt", "u64", "own64"))

# ---- dSFMT-19937 (Saito & Matsumoto 2009), SSE2 and portable code ---------------------------------
DN, DP = 191, 117
DFF = {"status": 64, "idx": 32}
DSF = {"buffer_loc": 32}
DMASK = [0x000FFAFFFFFFFB3F, 0x000FFDFFFC90FFFD]


def dsfmt_tu(name, flags):
    return TU(name, ["dsfmt/dsfmt.c", "dsfmt/dSFMT-jump.c"],
              ["void dsfmt_gen_rand_all(dsfmt_t *dsfmt)", "void dsfmt_fill_array_close1_open2(dsfmt_t *dsfmt, double *array, int size)", "void dsfmt_init_gen_rand(dsfmt_t *dsfmt, uint32_t seed)",
               "void dsfmt_init_by_array(dsfmt_t *dsfmt, uint32_t *init_key, int key_length)", "uint64_t dsfmt_next64(dsfmt_state_t *state)", "uint32_t dsfmt_next32(dsfmt_state_t *state)",
               "double dsfmt_next_double(dsfmt_state_t *state)", "uint64_t dsfmt_next_raw(dsfmt_state_t *state)"],
              {"dsfmt_t": ["status", "idx"], "dsfmt_state_t": ["state", "buffered_uniforms", "buffer_loc"]}, flags=["-DDSFMT_MEXP=19937"] + flags)


DS = dsfmt_tu("dsfmt", ["-DHAVE_SSE2=1"])
DSP = dsfmt_tu("dsfmt_portable", [])
DS.sumc = DSP.sumc = True
DS.push8 = DSP.push8 = False


def dsfmt_gen(ws):
    """one pass of the recursion: the new status words"""
    s = [list(ws[2 * i : 2 * i + 2]) for i in range(DN)]
    L = list(ws[2 * DN :])
    for i in range(DN):
        t, b = s[i], s[(i + DP) % DN]
        L = [(t[j] << 19) ^ L[1 - j].rotl(32) ^ b[j] for j in (0, 1)]
        s[i] = [(L[j] >> 12) ^ (L[j] & DMASK[j]) ^ t[j] for j in (0, 1)]
    return [w for q in s for w in q] + L


def in12(k, name, n):
    """words holding doubles in [1, 2)"""
    return [concat(BV(12, 0x3FF), k.word(f"{name}[{i}]", 52)) for i in range(n)]


def dsfmt_obj(k):
    return k.obj("dsfmt", "dsfmt_t", DFF, status=in12(k, "st", 2 * DN) + [k.word("lung0", 64), k.word("lung1", 64)])


def dsfmt_genc(k):
    st = dsfmt_obj(k)
    k.call("dsfmt_gen_rand_all", st)
    k.post(st, {"status": dsfmt_gen(st.old["status"])})
    k.frame(st)


def dsfmt_fill(k):
    st = dsfmt_obj(k)
    arr = k.array("array", 64, 2 * DN)
    k.call("dsfmt_fill_array_close1_open2", st, arr, u32(2 * DN))
    n = dsfmt_gen(st.old["status"])
    k.post(st, {"status": n}, skip=("idx",))
    k.post(arr, {"a": n[: 2 * DN]})
    k.frame(st, arr)


def dsfmt_finish(m):
    s = [concat(m[2 * i + 1], m[2 * i]) for i in range(2 * DN + 2)]
    s = [concat(BV(12, 0x3FF), w.extract(51, 0)) for w in s[: 2 * DN]] + s[2 * DN :]
    inner = ((s[-2] ^ 0x90014964B32F4329) & 0x3D84E1AC0DC82880) ^ ((s[-1] ^ 0x3B8D12AC548A7C7A) & 1)
    for i in (32, 16, 8, 4, 2, 1):
        inner = inner ^ (inner >> i)
    s[-1] = ite((inner & 1).eq(1), s[-1], s[-1] ^ 1)
    return s


def dsfmt_seed(k):
    st = k.obj("dsfmt", "dsfmt_t", DFF)
    s = k.word("seed", 32)
    k.call("dsfmt_init_gen_rand", st, s)
    m = [s]
    for i in range(1, 4 * (DN + 1)):
        m.append((m[-1] ^ (m[-1] >> 30)) * 1812433253 + i)
    k.post(st, {"status": dsfmt_finish(m), "idx": u32(2 * DN)})
    k.frame(st)


def dsfmt_array(k):
    n = k.case["n"]
    st = k.obj("dsfmt", "dsfmt_t", DFF)
    key = k.array("init_key", 32, n)
    k.call("dsfmt_init_by_array", st, key, u32(n))
    k.post(st, {"status": dsfmt_finish(sfmt_mix(768, 11, key.old["a"])), "idx": u32(2 * DN)})
    k.post(key)
    k.frame(st)


def dsfmt_next(fn, n, result):
    def body(k):
        st = dsfmt_obj(k)
        buf = k.array("buf", 64, 2 * DN, init=in12(k, "buf", 2 * DN))
        s = k.obj("state", "dsfmt_state_t", DSF, ptrs={"state": st, "buffered_uniforms": buf}, buffer_loc=inrange(k, "loc", 32))
        r = k.call(fn, s)
        b, loc, ds = buf.old["a"], s.old["buffer_loc"][0], st.old["status"]
        out = []
        for _ in range(n):
            if loc.conc and loc.v == 2 * DN:
                ds = dsfmt_gen(ds)
                b, loc = ds[: 2 * DN], u32(0)
            out.append(k.at(b, loc))
            loc = loc + 1
        result(k, r, out)
        k.post(s, {"buffer_loc": loc})
        k.post(st, {"status": ds}, skip=("idx",))
        k.post(buf, {"a": b})
        k.frame(st, buf, s)

    return body


def d_double(k, r, o):
    k.double("return value", r, o[0].extract(51, 0).to(64), -52)
    k.double_unit("return value in [0, 1)", r)


D1 = [{"lo": 0, "hi": 381}, {"fix": 382}]
D2 = [{"lo": 0, "hi": 380}, {"fix": 381}, {"fix": 382}]
DL = [{"n": 764}, {"n": 1}, {"n": 2}, {"n": 767}, {"n": 768}, {"n": 800}]
for nm, tu in (("dsfmt", DS), ("dsfmt-portable", DSP)):
    cs = [
        Contract(nm + ".gen_rand_all", tu, dsfmt_genc, props=("C06",), samples=40),
        Contract(nm + ".fill_array", tu, dsfmt_fill, props=("C06", "C14"), samples=40),
        Contract(nm + ".next64", tu, dsfmt_next("dsfmt_next64", 2, lambda k, r, o: k.same("return value", r, concat(o[0].extract(47, 16), o[1].extract(47, 16)))), cases=D2, props=("C06", "C07", "C14"), samples=40),
        Contract(nm + ".next32", tu, dsfmt_next("dsfmt_next32", 1, lambda k, r, o: k.same("return value", r, o[0].extract(47, 16))), cases=D1, props=("C06", "C07", "C14"), samples=40),
        Contract(nm + ".next_raw", tu, dsfmt_next("dsfmt_next_raw", 1, lambda k, r, o: k.same("return value", r, o[0])), cases=D1, props=("C06", "C14"), samples=40),
        Contract(nm + ".next_double", tu, dsfmt_next("dsfmt_next_double", 1, d_double), cases=D1, props=("C07",), samples=40),
    ]
    for c in cs:
        c.lin = True
    CONTRACTS += cs + [
        Contract(nm + ".init_gen_rand", tu, dsfmt_seed, props=("C06", "C12"), samples=40),
        Contract(nm + ".init_by_array", tu, dsfmt_array, cases=DL, props=("C06", "C12"), samples=20),
    ]
GLUE.append(("dsfmt.", "dsfmt_", "dsfmt", "dsfmt", "own", "dsfmt"))
