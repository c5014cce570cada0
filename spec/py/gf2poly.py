"""Polynomials over GF(2) as Python integers: minimal polynomial of a bit sequence, powers of x."""


def berlekamp_massey(bits):
    """connection polynomial of the shortest LFSR; bits: list of 0/1.  Returns (c, L): sum_{i<=L} c_i s_{t-i} = 0"""
    c, b, L, m = 1, 1, 0, 1
    s = 0  # s reversed: bit i of s = s_{t-i}
    for t, v in enumerate(bits):
        s = (s << 1) | v
        if (c & s).bit_count() & 1:
            if 2 * L <= t:
                c, b, L, m = c ^ (b << m), c, t + 1 - L, 1
            else:
                c ^= b << m
                m += 1
        else:
            m += 1
    return c, L


def charpoly(bits):
    """monic P with P(shift) annihilating the sequence: sum p_i s_{t+i} = 0"""
    c, L = berlekamp_massey(bits)
    p = 0
    for i in range(L + 1):
        if c >> i & 1:
            p |= 1 << (L - i)
    return p, L


SPREAD = [sum(((i >> k) & 1) << (2 * k) for k in range(8)) for i in range(256)]
SP16 = [v.to_bytes(2, "little") for v in SPREAD]


def square(a):
    n = (a.bit_length() + 7) // 8
    return int.from_bytes(b"".join(SP16[v] for v in a.to_bytes(n, "little")), "little")


def reducer(p):
    """reduction modulo p by 8-bit steps"""
    d = p.bit_length() - 1
    tab = [0] * 256
    x8 = []
    v = 1 << d
    # tab[v] = multiple of p whose top byte (bits d..d+7) is v
    for k in range(8):
        x8.append(p << k)
    for t in range(256):
        acc, rem = 0, t
        for k in range(7, -1, -1):
            if (rem >> k) & 1:
                acc ^= x8[k]
                rem = t ^ (acc >> d)
        tab[t] = acc

    def red(a):
        n = a.bit_length()
        while n > d + 8:
            k = n - d - 8
            a ^= tab[a >> (d + k)] << k
            n = a.bit_length()
        if n > d:
            a ^= tab[a >> d]
        return a

    return red


def xpow2(p, k):
    """x**(2**k) mod p"""
    red = reducer(p)
    a = red(2)
    for _ in range(k):
        a = red(square(a))
    return a


def apply(poly, seq):
    """sum over set coefficients of seq[i] (seq: list of ints)"""
    out = 0
    i = 0
    while poly:
        if poly & 1:
            out ^= seq[i]
        poly >>= 1
        i += 1
    return out


def divmod2(a, b):
    q, d = 0, b.bit_length()
    while (n := a.bit_length()) >= d:
        q |= 1 << (n - d)
        a ^= b << (n - d)
    return q, a


def gcd(a, b):
    while b:
        a, b = b, divmod2(a, b)[1]
    return a


def mul(a, b):
    out = 0
    while b:
        l = b & -b
        out ^= a * l
        b ^= l
    return out


def lcm(a, b):
    q, r = divmod2(b, gcd(a, b))
    assert not r
    return mul(a, q) if q.bit_length() < a.bit_length() else mul(q, a)
