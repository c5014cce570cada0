"""Meaning of the x86 instructions reached through intrinsics (trusted: the ISA manual)."""
from .bv import BV, concat, ite
from .tables import table_read


def _gmul(a, b):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a <<= 1
        if a & 0x100:
            a ^= 0x11B
        b >>= 1
    return r


def _sbox():
    out = []
    for x in range(256):
        inv = next((y for y in range(256) if _gmul(x, y) == 1), 0)
        r = 0x63
        for k in range(5):
            r ^= ((inv << k) | (inv >> (8 - k))) & 0xFF
        out.append(r)
    return out


SBOX = [BV(8, v) for v in _sbox()]  # FIPS-197 section 5.1.1: inverse in GF(2^8), then the affine map


def sub(b):
    return SBOX[b.v] if b.conc else table_read(SBOX, b)


def xtime(b):
    return (b << 1) ^ (BV(8, 0x1B) & b.ashr(7))


def shift_rows(s):
    """s: 16 bytes, column major (byte 4*c + r)"""
    return [s[(4 * (c + r) + r) % 16] for c in range(4) for r in range(4)]


def mix_columns(s):
    out = []
    for c in range(4):
        a = s[4 * c : 4 * c + 4]
        for r in range(4):
            x, y, z, t = a[r], a[(r + 1) % 4], a[(r + 2) % 4], a[(r + 3) % 4]
            out.append(xtime(x ^ y) ^ y ^ z ^ t)  # 2x + 3y + z + t in GF(2^8); xtime is linear
    return out


def bytes_of(vec):
    return [e.extract(8 * i + 7, 8 * i) for e in vec for i in range(e.w // 8)]


def vec_of(bs, w):
    n = w // 8
    return [concat(*reversed(bs[i : i + n])) for i in range(0, len(bs), n)]


def round_full(s, k):
    return [a ^ b for a, b in zip(mix_columns(shift_rows([sub(x) for x in s])), k)]


def round_last(s, k):
    return [a ^ b for a, b in zip(shift_rows([sub(x) for x in s]), k)]


def encrypt(pt, keys):
    """AES-128 (FIPS-197) of 16 bytes under 11 round keys of 16 bytes"""
    s = [a ^ b for a, b in zip(pt, keys[0])]
    for r in range(1, 10):
        s = round_full(s, keys[r])
    return round_last(s, keys[10])


def expand_key(key):
    rcon = 1
    ws = [key[4 * i : 4 * i + 4] for i in range(4)]
    for i in range(4, 44):
        t = ws[i - 1]
        if i % 4 == 0:
            t = [sub(x) for x in t[1:] + t[:1]]
            t = [t[0] ^ rcon] + t[1:]
            rcon = _gmul(rcon, 2)
        ws.append([a ^ b for a, b in zip(ws[i - 4], t)])
    return [sum(ws[4 * i : 4 * i + 4], []) for i in range(11)]


def intrinsic(name, av):
    if name.endswith("aesni.aesenc"):
        return vec_of(round_full(bytes_of(av[0]), bytes_of(av[1])), 64)
    if name.endswith("aesni.aesenclast"):
        return vec_of(round_last(bytes_of(av[0]), bytes_of(av[1])), 64)
    if name.endswith("aesni.aeskeygenassist"):
        b = bytes_of(av[0])
        rc = av[1].v
        w1, w3 = [sub(x) for x in b[4:8]], [sub(x) for x in b[12:16]]
        rot = lambda w: w[1:] + w[:1]
        rx = lambda w: [w[0] ^ rc] + w[1:]
        return vec_of(w1 + rx(rot(w1)) + w3 + rx(rot(w3)), 64)
    if name.endswith("ssse3.pshuf.b.128"):
        a, m = av
        out = []
        for x in m:
            if x.conc:
                out.append(BV(8, 0) if x.v & 0x80 else a[x.v & 15])
            else:
                return None
        return out
    return None
