"""Cython slots: each class serves its draws through cdef nogil functions; they
fulfil the contracts of the C functions they expose (C01-C07 again, one level up)."""
from .common import *
from vp.pytu import PyTU, clone
from . import xorshift, lcg, chaotic, counter, cipher

try:
    from . import twister
except ImportError:
    twister = None

ALL = {}
for m in (xorshift, lcg, chaotic, counter, cipher, twister):
    if m:
        for c in m.CONTRACTS:
            ALL[c.cid] = c
CONTRACTS = []

# (contract prefix, C function prefix, module, slot prefix, double slot, raw slot)
#   double: "u64" = 53 bits of the next 64-bit draw; "own" = the C double function
#   raw: 64 = same as uint64, "own64"/"own32" = own slot
T = [
    ("xoroshiro128.", "xoroshiro128_", "xoroshiro128", "xoroshiro128", "u64", 64),
    ("xoroshiro128plusplus.", "xoroshiro128plusplus_", "xoroshiro128", "xoroshiro128plusplus", "u64", 64),
    ("xoshiro256.", "xoshiro256_", "xoshiro256", "xoshiro256", "u64", 64),
    ("xoshiro512.", "xoshiro512_", "xoshiro512", "xoshiro512", "u64", 64),
    ("xorshift1024.", "xorshift1024_", "xorshift1024", "xorshift1024", "u64", 64),
    ("pcg32.", "pcg32_", "pcg32", "pcg32", "own", 32),
    ("pcg64.", "pcg64_", "pcg64", "pcg64", "u64", 64),
    ("pcg64.cm_dxsm_", "pcg64_cm_dxsm_", "pcg64", "pcg64_cm_dxsm", "u64", 64),
    ("lcg128mix.", "lcg128mix_", "pcg64", "lcg128mix", "u64", 64),
    ("lxm.", "lxm_", "lxm", "lxm", "u64", 64),
    ("sfc.", "sfc_", "sfc", "sfc", "u64", 64),
    ("jsf64.", "jsf64_", "jsf", "jsf64", "u64", 64),
    ("jsf32.", "jsf32_", "jsf", "jsf32", "u64", 32),
    ("efiix64.", "efiix64_", "efiix64", "efiix64", "u64", 64),
    ("romuquad.", "romuquad_", "romu", "romuquad", "u64", 64),
    ("romutrio.", "romutrio_", "romu", "romutrio", "u64", 64),
    ("tyche.", "tyche_", "tyche", "tyche", "own", 64),
    ("tyche.openrand_", "tyche_openrand_", "tyche", "tyche_openrand", "own", 64),
    ("squares.", "squares_", "squares", "squares", "own", 64),
    ("squares32.", "squares_32_", "squares", "squares_32", "own", 64),
    ("aes.", "aes_", "aes", "aes", "u64", 64),
    ("speck.", "speck_", "speck128", "speck", "u64", 64),
    ("chacha.", "chacha_", "chacha", "chacha", "own", 64),
    ("hc128.", "hc128_", "hc128", "hc128", "own", 64),
]
for fam in ("philox", "threefry"):
    for nm in ("2x32", "4x32", "2x64", "4x64"):
        T.append((f"{fam}{nm}.", f"{fam}{nm}_", fam, f"{fam}{nm}", "own", 32 if nm.endswith("32") else 64))
if twister:
    T += twister.GLUE

_tus = {}


def tu_for(base, mod, rows):
    key = (base.name, mod)
    if key not in _tus:
        _tus[key] = {}
    _tus[key].update(rows)
    return key


plan = []
for cp, fp, mod, slot, dbl, raw in T:
    c64, c32 = ALL.get(cp + "next64"), ALL.get(cp + "next32")
    base = c64.tu
    d = {}

    def row(key, fn, sl, ret=None):
        r, ps = base.protos[fn]
        d[key] = (f"{ret or r} {key}({', '.join(f'{t} {n}' for t, n in ps)})", sl)

    row(fp + "next64", fp + "next64", slot + "_uint64")
    row(fp + "next32", fp + "next32", slot + "_uint32")
    use = [(c64, "uint64", {}, "same", c64.props), (c32, "uint32", {}, "same", c32.props)]
    if dbl == "u64":
        row(fp + "next64__d", fp + "next64", slot + "_double", "double")
        use.append((c64, "double", {fp + "next64": fp + "next64__d"}, "double", ("C07",)))
    else:
        cd = ALL[cp + "next_double"]
        row(fp + "next_double", fp + "next_double", slot + "_double")
        use.append((cd, "double", {}, "same", ("C07",)))
    if raw == 32:
        row(fp + "next32__r", fp + "next32", slot + "_raw", "uint64_t")
        use.append((c32, "raw", {fp + "next32": fp + "next32__r"}, "raw", tuple(sorted(set(c64.props) - {"C07"}))))
    elif raw == "own64":
        row(fp + "next64__r", fp + "next64", slot + "_raw")
        use.append((c64, "raw", {fp + "next64": fp + "next64__r"}, "same", c64.props))
    elif raw == "dsfmt":
        cr = ALL[cp + "next_raw"]
        row(fp + "next_raw", fp + "next_raw", slot + "_raw")
        use.append((cr, "raw", {}, "same", cr.props))
    key = tu_for(base, mod, d)
    plan.append((base, key, mod, cp, use))
_built = {}
for base, key, mod, cp, use in plan:
    if key not in _built:
        _built[key] = PyTU(base, mod, _tus[key])
    for con, what, fnmap, kind, props in use:
        CONTRACTS.append(clone(con, _built[key], f"py:{mod}.{cp}{what}", fnmap, kind, props))
