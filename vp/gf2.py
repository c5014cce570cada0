"""GF(2) linear algebra on states: exact linear map of an executed function, matrix powers, polynomials."""
import z3


class NotLinear(Exception):
    pass


def words_to_bits(words, w):
    v = 0
    for i, x in enumerate(words):
        v |= x << (w * i)
    return v


def linear_map(exprs, var_index):
    """exprs: list of z3 bit-vector terms over variables; var_index: name -> first bit number.
    Returns for every bit of every term the mask of the input bits whose xor it is (None constant part not allowed)."""
    memo = {}

    def leaf(x):
        k = x.decl().kind()
        if k == z3.Z3_OP_UNINTERPRETED and x.num_args() == 0:
            b = var_index[x.decl().name()]
            return [1 << (b + i) for i in range(x.size())]
        if z3.is_bv_value(x):
            v = x.as_long()
            return ("c", v)
        return None

    for e in exprs:
        st = [(e, False)]
        while st:
            x, ready = st.pop()
            i = x.get_id()
            if i in memo:
                continue
            l = leaf(x)
            if l is not None:
                memo[i] = (l, x)
                continue
            if not ready:
                st.append((x, True))
                for c in x.children():
                    if c.get_id() not in memo:
                        st.append((c, False))
                continue
            ch = [memo[c.get_id()][0] for c in x.children()]
            k = x.decl().kind()
            w = x.size()
            memo[i] = (_op(k, x, ch, w), x)
    out = []
    for e in exprs:
        m = memo[e.get_id()][0]
        if isinstance(m, tuple):
            if m[1]:
                raise NotLinear("affine constant")
            m = [0] * e.size()
        out.append(m)
    return out


def _vec(m, w):
    if isinstance(m, tuple):
        if m[1]:
            raise NotLinear("constant operand")
        return [0] * w
    return m


def _op(k, x, ch, w):
    if k == z3.Z3_OP_BXOR:
        r = list(_vec(ch[0], w))
        for c in ch[1:]:
            c = _vec(c, w)
            r = [a ^ b for a, b in zip(r, c)]
        return r
    if k in (z3.Z3_OP_BOR, z3.Z3_OP_BADD):
        # or / add of vectors with disjoint support is xor
        r = [0] * w
        for c in ch:
            c = _vec(c, w)
            for i in range(w):
                if r[i] and c[i]:
                    raise NotLinear("overlapping or/add")
                r[i] = r[i] | c[i]
        return r
    if k == z3.Z3_OP_BAND:
        cs = [c for c in ch if isinstance(c, tuple)]
        vs = [c for c in ch if not isinstance(c, tuple)]
        if len(vs) == 1:
            m = (1 << w) - 1
            for c in cs:
                m &= c[1]
            return [b if m >> i & 1 else 0 for i, b in enumerate(vs[0])]
        raise NotLinear("and")
    if k == z3.Z3_OP_BSHL and isinstance(ch[1], tuple):
        n = min(ch[1][1], w)
        return [0] * n + list(_vec(ch[0], w))[: w - n]
    if k == z3.Z3_OP_BLSHR and isinstance(ch[1], tuple):
        n = min(ch[1][1], w)
        return list(_vec(ch[0], w))[n:] + [0] * n
    if k == z3.Z3_OP_CONCAT:
        r = []
        for c, y in reversed(list(zip(ch, x.children()))):
            r += list(_vec(c, y.size()))
        return r
    if k == z3.Z3_OP_EXTRACT:
        hi, lo = x.params()
        return list(_vec(ch[0], x.children()[0].size()))[lo : hi + 1]
    if k == z3.Z3_OP_ZERO_EXT:
        c = _vec(ch[0], x.children()[0].size())
        return list(c) + [0] * (w - len(c))
    if k == z3.Z3_OP_SIGN_EXT:
        c = _vec(ch[0], x.children()[0].size())
        return list(c) + [c[-1]] * (w - len(c))
    if k in (z3.Z3_OP_ROTATE_LEFT, z3.Z3_OP_EXT_ROTATE_LEFT):
        n = x.params()[0] % w
        c = list(_vec(ch[0], w))
        return c[w - n :] + c[: w - n]
    if k in (z3.Z3_OP_ROTATE_RIGHT,):
        n = x.params()[0] % w
        c = list(_vec(ch[0], w))
        return c[n:] + c[:n]
    if k == z3.Z3_OP_BMUL:
        cs = [c for c in ch if isinstance(c, tuple)]
        vs = [c for c in ch if not isinstance(c, tuple)]
        if len(vs) == 1 and all(c[1] & (c[1] - 1) == 0 and c[1] for c in cs):
            n = sum(c[1].bit_length() - 1 for c in cs)
            return ([0] * n + list(vs[0]))[:w]
    if k == z3.Z3_OP_ITE:
        raise NotLinear("data-dependent choice")
    raise NotLinear(x.decl().name())


# -- matrices: list of n row masks; row i = mask of input bits feeding output bit i
def mat_of(f, n):
    """matrix of the linear function f: int(bits) -> int(bits)"""
    cols = [f(1 << j) for j in range(n)]
    if f(0):
        raise NotLinear("f(0) != 0")
    return transpose(cols, n)


def transpose(rows, n):
    out = [0] * n
    for i, r in enumerate(rows):
        while r:
            j = (r & -r).bit_length() - 1
            out[j] |= 1 << i
            r &= r - 1
    return out


def mat_mul(A, B, n):
    """(A*B) rows: row i = xor of rows j of B for j in A[i]  (method of four Russians)"""
    C = [0] * n
    step = 8
    for b in range(0, n, step):
        tab = [0] * 256
        rows = B[b : b + step]
        for j, r in enumerate(rows):
            s = 1 << j
            for t in range(s):
                tab[s + t] = tab[t] ^ r
        for i in range(n):
            C[i] ^= tab[A[i] >> b & 255]
    return C


def mat_pow2(M, k, n):
    for _ in range(k):
        M = mat_mul(M, M, n)
    return M


def mat_apply(M, v):
    out = 0
    for i, r in enumerate(M):
        out |= (bin(r & v).count("1") & 1) << i
    return out


# -- polynomials over GF(2) as ints
_SPREAD = None


def psquare(a):
    # spread bits via string: bit i -> bit 2i
    return int("0".join(bin(a)[2:]), 2) if a else 0


def pmod(a, m):
    dm = m.bit_length()
    while True:
        d = a.bit_length() - dm
        if d < 0:
            return a
        a ^= m << d


def pmod_fast(a, m, low):
    """reduce a modulo m = x^n + low (low sparse or small): generic fallback"""
    return pmod(a, m)


def pmulmod(a, b, m):
    r = 0
    n = m.bit_length() - 1
    while b:
        if b & 1:
            r ^= a
        b >>= 1
        a <<= 1
        if a >> n & 1:
            a ^= m
    return r


def berlekamp_massey(bits):
    """minimal connection polynomial of a bit sequence (list of 0/1), as int C with C(0)=1; and L"""
    C, B, L, m = 1, 1, 0, 1
    s = 0  # reversed sequence register: bit j = s_{n-j}
    for n, b in enumerate(bits):
        s = (s << 1) | b
        # discrepancy = sum_{i=0}^{L} C_i s_{n-i}
        d = bin(C & s & ((1 << (L + 1)) - 1)).count("1") & 1
        if d == 0:
            m += 1
        elif 2 * L <= n:
            T = C
            C ^= B << m
            L = n + 1 - L
            B = T
            m = 1
        else:
            C ^= B << m
            m += 1
    return C, L


def charpoly_of(bits):
    """minimal polynomial (monic, degree L) of the sequence: reverse of the connection polynomial"""
    C, L = berlekamp_massey(bits)
    r = 0
    for i in range(L + 1):
        if C >> i & 1:
            r |= 1 << (L - i)
    return r, L
