"""Equality of GF(2)-affine bit-vector terms, by normal form.

Every bit of a term is written as the set of the atoms whose sum (mod 2) it is;
two terms with the same sets are equal for every value of the atoms.  Atoms are
the bits of variables and of subterms that are not affine, and, after an
equality has been established, the bits of the common value (cut points).
"""
import z3
from .tables import kids

K = {n: getattr(z3, n) for n in dir(z3) if n.startswith("Z3_OP_")}
ONE = 0
LIMIT = 60000


class TooBig(Exception):
    pass


class Lin:
    def __init__(s):
        s.memo = {}
        s.alias = {}
        s.keep = []
        s.atoms = {}
        s.n = 1

    def atom(s, key):
        a = s.atoms.get(key)
        if a is None:
            a = s.atoms[key] = s.n
            s.n += 1
        return frozenset((a,))

    def bits(s, root):
        memo = s.memo
        st = [root]
        while st:
            x = st[-1]
            i = x.get_id()
            if i in memo:
                st.pop()
                continue
            al = s.alias.get(i)
            w = x.size() if z3.is_bv(x) else 1
            if al is not None and len(al) == w:
                memo[i] = [al[b] for b in range(w)]
                st.pop()
                continue
            ch = s.args(x)
            todo = [c for c in ch if c.get_id() not in memo]
            if todo:
                st.extend(todo)
                continue
            st.pop()
            r = s.node(x, w, [memo[c.get_id()] for c in ch])
            s.keep.append(x)
            if al:
                for b, v in al.items():
                    r[b] = v
            memo[i] = r
        return memo[root.get_id()]

    def args(s, x):
        k = x.decl().kind()
        c = kids(x)
        if k in (K["Z3_OP_BXOR"], K["Z3_OP_CONCAT"], K["Z3_OP_EXTRACT"], K["Z3_OP_ZERO_EXT"], K["Z3_OP_SIGN_EXT"], K["Z3_OP_BNOT"], K["Z3_OP_BAND"], K["Z3_OP_BOR"], K["Z3_OP_BADD"], K["Z3_OP_ITE"], K["Z3_OP_XOR"], K["Z3_OP_NOT"]):
            return c
        if k == K["Z3_OP_EQ"] and z3.is_bv(c[0]) and c[0].size() == 1:
            return c
        if k in (K["Z3_OP_BSHL"], K["Z3_OP_BLSHR"], K["Z3_OP_BASHR"]) and z3.is_bv_value(c[1]):
            return c[:1]
        return []

    def node(s, x, w, cs):
        k = x.decl().kind()
        Z = frozenset()
        if k == K["Z3_OP_BNUM"]:
            v = x.as_long()
            return [frozenset((ONE,)) if v >> b & 1 else Z for b in range(w)]
        if k == K["Z3_OP_BXOR"] or k == K["Z3_OP_XOR"]:
            r = list(cs[0])
            for c in cs[1:]:
                r = [p ^ q if p and q else p or q for p, q in zip(r, c)]
            if sum(map(len, r)) > LIMIT:
                raise TooBig()
            return r
        if k == K["Z3_OP_CONCAT"]:
            return [b for c in reversed(cs) for b in c]
        if k == K["Z3_OP_EXTRACT"]:
            hi, lo = x.params()
            return cs[0][lo : hi + 1]
        if k == K["Z3_OP_ZERO_EXT"]:
            return cs[0] + [Z] * (w - len(cs[0]))
        if k == K["Z3_OP_SIGN_EXT"]:
            return cs[0] + [cs[0][-1]] * (w - len(cs[0]))
        if k == K["Z3_OP_BNOT"] or k == K["Z3_OP_NOT"]:
            return [b ^ {ONE} for b in cs[0]]
        I = frozenset((ONE,))
        if k == K["Z3_OP_BAND"]:
            r = list(cs[0])
            for c in cs[1:]:
                r = [s.conj(x, b, p, q) for b, (p, q) in enumerate(zip(r, c))]
            return r
        if k == K["Z3_OP_BOR"]:
            r = list(cs[0])
            for c in cs[1:]:
                r = [s.conj(x, b, p ^ I, q ^ I) ^ I for b, (p, q) in enumerate(zip(r, c))]
            return r
        if k == K["Z3_OP_BADD"] and len(cs) == 2 and all(not p or not q for p, q in zip(*cs)):
            return [p or q for p, q in zip(*cs)]
        if k == K["Z3_OP_EQ"] and cs:
            return [cs[0][0] ^ cs[1][0] ^ I]
        if k == K["Z3_OP_ITE"]:
            c, p, q = cs
            return [b if a == b else b ^ s.conj(x, n, c[0], a ^ b) for n, (a, b) in enumerate(zip(p, q))]
        if cs and k in (K["Z3_OP_BSHL"], K["Z3_OP_BLSHR"], K["Z3_OP_BASHR"]):
            n = min(kids(x)[1].as_long(), w)
            if k == K["Z3_OP_BSHL"]:
                return [Z] * n + cs[0][: w - n]
            return cs[0][n:] + [cs[0][-1] if k == K["Z3_OP_BASHR"] else Z] * n
        return [s.atom((x.get_id(), b)) for b in range(w)]

    def conj(s, x, b, p, q):
        if not p or not q:
            return frozenset()
        if p == {ONE} or p == q:
            return q
        if q == {ONE}:
            return p
        return s.atom(("and",) + tuple(sorted((tuple(sorted(p)), tuple(sorted(q))))))

    def cut(s, x, lo, bits):
        """bits of x from lo upwards are those cut points"""
        while True:
            k = x.decl().kind()
            if k == K["Z3_OP_EXTRACT"]:
                lo += x.params()[1]
                x = x.arg(0)
            elif k == K["Z3_OP_CONCAT"]:
                pos, done = 0, 0
                for c in reversed(kids(x)):
                    h = pos + c.size()
                    a, b = max(lo, pos), min(lo + len(bits), h)
                    if a < b:
                        s.cut(c, a - pos, bits[a - lo : b - lo])
                    pos = h
                break
            else:
                break
        if k in (K["Z3_OP_BNUM"],):
            return
        al = s.alias.setdefault(x.get_id(), {})
        m = s.memo.get(x.get_id())
        s.keep.append(x)
        for n, v in enumerate(bits):
            al.setdefault(lo + n, v)
            if m is not None:
                m[lo + n] = al[lo + n]
        if m is not None:
            s.memo[x.get_id()] = list(m)

    def equal(s, a, b):
        try:
            x, y = s.bits(a), s.bits(b)
            if x != y:  # forms computed before some cut points were known
                s.memo.clear()
                x, y = s.bits(a), s.bits(b)
        except TooBig:
            return False
        if x != y:
            return False
        if any(len(p) > 1 for p in x):
            v = [p if len(p) <= 1 else s.atom(("cut", a.get_id(), n)) for n, p in enumerate(x)]
            s.keep += [a, b]
            s.cut(a, 0, v)
            s.cut(b, 0, v)
        return True
