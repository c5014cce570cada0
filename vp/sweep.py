"""Equivalence by sweeping: prove internal cut points equal bottom-up.

Every merge is justified by an unsat answer of z3 on the two terms with shared
sub-terms replaced by the *same* fresh variables (a sound abstraction).
"""
import random
import time
import z3
from .tables import TABLES, kids

K = {n: getattr(z3, n) for n in dir(z3) if n.startswith("Z3_OP_")}


def topo(roots, known=()):
    seen = set()
    out = []
    for r in roots:
        st = [(r, False)]
        while st:
            x, rdy = st.pop()
            i = x.get_id()
            if rdy:
                if i not in seen:
                    seen.add(i)
                    out.append(x)
                continue
            if i in seen or i in known:
                continue
            st.append((x, True))
            for c in kids(x):
                ci = c.get_id()
                if ci not in seen and ci not in known:
                    st.append((c, False))
    return out


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def eval_node(x, k, vals, env):
    """vals: list of ints for children"""
    if k == z3.Z3_OP_BNUM:
        return x.as_long()
    if k == z3.Z3_OP_TRUE:
        return 1
    if k == z3.Z3_OP_FALSE:
        return 0
    if k == z3.Z3_OP_UNINTERPRETED:
        if not vals:
            return env(x)
        if x.decl().name() in TABLES:
            t = TABLES[x.decl().name()]
            return t[vals[0]] if len(vals) == 1 else vals[1 + vals[0]]
        w = x.size() if z3.is_bv(x) else 1
        return random.Random(repr((x.decl().name(), tuple(vals)))).getrandbits(w)
    w = x.size() if z3.is_bv(x) else 1
    m = (1 << w) - 1
    if k == z3.Z3_OP_BADD:
        return sum(vals) & m
    if k == z3.Z3_OP_BSUB:
        r = vals[0]
        for v in vals[1:]:
            r -= v
        return r & m
    if k == z3.Z3_OP_BNEG:
        return -vals[0] & m
    if k == z3.Z3_OP_BMUL:
        r = 1
        for v in vals:
            r = r * v & m
        return r
    if k in (z3.Z3_OP_BAND,):
        r = m
        for v in vals:
            r &= v
        return r
    if k in (z3.Z3_OP_BOR,):
        r = 0
        for v in vals:
            r |= v
        return r
    if k in (z3.Z3_OP_BXOR, z3.Z3_OP_XOR):
        r = 0
        for v in vals:
            r ^= v
        return r
    if k == z3.Z3_OP_BNOT:
        return ~vals[0] & m
    if k == z3.Z3_OP_CONCAT:
        r = 0
        for c, v in zip(x.children(), vals):
            r = (r << c.size()) | v
        return r
    if k == z3.Z3_OP_EXTRACT:
        hi, lo = x.params()
        return (vals[0] >> lo) & m
    if k == z3.Z3_OP_ZERO_EXT:
        return vals[0]
    if k == z3.Z3_OP_SIGN_EXT:
        return sgn(vals[0], x.arg(0).size()) & m
    if k == z3.Z3_OP_BSHL:
        return (vals[0] << vals[1]) & m if vals[1] < w else 0
    if k == z3.Z3_OP_BLSHR:
        return vals[0] >> vals[1] if vals[1] < w else 0
    if k == z3.Z3_OP_BASHR:
        return (sgn(vals[0], w) >> min(vals[1], w)) & m
    if k == z3.Z3_OP_ITE:
        return vals[1] if vals[0] else vals[2]
    if k == z3.Z3_OP_EQ or k == z3.Z3_OP_IFF:
        return int(vals[0] == vals[1])
    if k == z3.Z3_OP_DISTINCT:
        return int(len(set(vals)) == len(vals))
    if k == z3.Z3_OP_AND:
        return int(all(vals))
    if k == z3.Z3_OP_OR:
        return int(any(vals))
    if k == z3.Z3_OP_NOT:
        return 1 - vals[0]
    if k == z3.Z3_OP_IMPLIES:
        return int((not vals[0]) or vals[1])
    if k == z3.Z3_OP_ULEQ:
        return int(vals[0] <= vals[1])
    if k == z3.Z3_OP_ULT:
        return int(vals[0] < vals[1])
    if k == z3.Z3_OP_UGEQ:
        return int(vals[0] >= vals[1])
    if k == z3.Z3_OP_UGT:
        return int(vals[0] > vals[1])
    if k in (z3.Z3_OP_SLEQ, z3.Z3_OP_SLT, z3.Z3_OP_SGEQ, z3.Z3_OP_SGT):
        cw = x.arg(0).size()
        a, b = sgn(vals[0], cw), sgn(vals[1], cw)
        return int({z3.Z3_OP_SLEQ: a <= b, z3.Z3_OP_SLT: a < b, z3.Z3_OP_SGEQ: a >= b, z3.Z3_OP_SGT: a > b}[k])
    if k in (z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I):
        return vals[0] % vals[1] if vals[1] else vals[0]
    if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I):
        return vals[0] // vals[1] if vals[1] else m
    if k == z3.Z3_OP_ROTATE_LEFT:
        s = x.params()[0] % w
        return ((vals[0] << s) | (vals[0] >> (w - s))) & m
    if k == z3.Z3_OP_ROTATE_RIGHT:
        s = x.params()[0] % w
        return ((vals[0] >> s) | (vals[0] << (w - s))) & m
    if k == z3.Z3_OP_BCOMP:
        return int(vals[0] == vals[1])
    raise ValueError("eval " + str(x.decl()))


COMM = None


def flat_xor(ch, lim=16):
    """operands of the nested exclusive-or, equal ones cancelled, in a fixed order; None when too many"""
    d = {}
    st = list(ch)
    n = 0
    while st:
        t = st.pop()
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_BXOR:
            st.extend(t.children())
            n += 1
            if n > 3 * lim:
                return None
            continue
        i = t.get_id()
        if i in d:
            del d[i]
        else:
            d[i] = t
    if len(d) > lim:
        return None
    return [d[i] for i in sorted(d)]


def rebuild(x, k, ch):
    """the same operator over the representatives, operands of commutative operators in a fixed order"""
    global COMM
    if COMM is None:
        COMM = {z3.Z3_OP_BADD, z3.Z3_OP_BMUL, z3.Z3_OP_BXOR, z3.Z3_OP_BAND, z3.Z3_OP_BOR, z3.Z3_OP_EQ, z3.Z3_OP_AND, z3.Z3_OP_OR}
    if k == z3.Z3_OP_BXOR and x.size() > 1:
        fl = flat_xor(ch)
        if fl is not None:
            if not fl:
                return z3.BitVecVal(0, x.size())
            if len(fl) == 1:
                return fl[0]
            r = fl[0]
            for t in fl[1:]:
                r = r ^ t
            return r
    if k in COMM:
        ch = sorted(ch, key=lambda t: t.get_id())
    if k == z3.Z3_OP_EQ and z3.is_bv(ch[0]) and ch[0].size() == 1:
        c = [t for t in ch if z3.is_bv_value(t)]
        o = [t for t in ch if not z3.is_bv_value(t)]
        if len(c) == 1 and c[0].as_long() == 0:
            return z3.Not(o[0] == z3.BitVecVal(1, 1))
        if len(c) == 1:
            return o[0] == z3.BitVecVal(1, 1)
    if k == z3.Z3_OP_EQ and z3.is_bv_value(ch[0]) and z3.is_bv_value(ch[1]):
        return z3.BoolVal(ch[0].as_long() == ch[1].as_long())
    if k == z3.Z3_OP_EQ and ch[0].eq(ch[1]):
        return z3.BoolVal(True)
    if k == z3.Z3_OP_ITE and (z3.is_true(ch[0]) or z3.is_false(ch[0])):
        return ch[1] if z3.is_true(ch[0]) else ch[2]
    if k == z3.Z3_OP_ITE and z3.is_not(ch[0]):
        ch = [ch[0].arg(0), ch[2], ch[1]]
    if k == z3.Z3_OP_NOT and z3.is_not(ch[0]):
        return ch[0].arg(0)
    if k == z3.Z3_OP_ITE and ch[1].eq(ch[2]):
        return ch[1]
    old = x.children()
    if all(a.eq(b) for a, b in zip(old, ch)):
        return x
    return _mk(x, k, ch)


def _mk(x, k, ch):
    d = x.decl()
    if k == z3.Z3_OP_AND:
        return z3.And(ch)
    if k == z3.Z3_OP_OR:
        return z3.Or(ch)
    if k in (z3.Z3_OP_BADD, z3.Z3_OP_BMUL, z3.Z3_OP_BXOR, z3.Z3_OP_BAND, z3.Z3_OP_BOR) and len(ch) > 2:
        ctx = ch[0].ctx
        arr = (z3.Ast * len(ch))()
        for i, c in enumerate(ch):
            arr[i] = c.as_ast()
        return z3.z3._to_expr_ref(z3.Z3_mk_app(ctx.ref(), d.ast, len(ch), arr), ctx) if hasattr(z3.z3, "_to_expr_ref") else d(*ch)
    if k == z3.Z3_OP_CONCAT:
        return z3.Concat(*ch) if len(ch) > 1 else ch[0]
    if k == z3.Z3_OP_DISTINCT:
        return z3.Distinct(*ch)
    return d(*ch)


class Sweeper:
    def __init__(self, pc=(), n=24, seed=1, tlimit=60.0):
        self.n, self.tlimit = n, tlimit
        self.rng = random.Random(seed)
        self.env = [dict() for _ in range(n)]
        self.pc = list(pc)
        self.queries = 0
        self.cutvars = {}

    def value(self, j, x):
        from .unit import draw

        e = self.env[j]
        i = x.get_id()
        if i not in e:
            w = x.size() if z3.is_bv(x) else 1
            from .unit import RANGES

            lo, hi = RANGES.get(x.decl().name(), (None, None))
            e[i] = draw(self.rng, w, lo, hi)
        return e[i]

    def sigs(self, nodes):
        sig = {}
        for x in nodes:
            k = x.decl().kind()
            ch = [sig[c.get_id()] for c in kids(x)]
            sig[x.get_id()] = tuple(eval_node(x, k, [c[j] for c in ch], lambda y, j=j: self.value(j, y)) for j in range(self.n))
        return sig

    def cut(self, e, depth, memo):
        key = (e.get_id(), depth)
        if key in memo:
            return memo[key]
        if z3.is_bv_value(e) or z3.is_true(e) or z3.is_false(e):
            r = e
        elif e.num_args() == 0:
            r = e
        elif depth == 0:
            v = self.cutvars.get(e.get_id())
            if v is None:
                v = (z3.BitVec(f"cut!{e.get_id()}", e.size()) if z3.is_bv(e) else z3.Bool(f"cut!{e.get_id()}"), e)
                self.cutvars[e.get_id()] = v
            r = v[0]
        else:
            k = e.decl().kind()
            d = depth if k in (z3.Z3_OP_EXTRACT, z3.Z3_OP_CONCAT, z3.Z3_OP_ZERO_EXT, z3.Z3_OP_NOT) else depth - 1
            r = _mk(e, k, [self.cut(c, d, memo) for c in e.children()])
        memo[key] = r
        return r

    def equal(self, a, b):
        """try to prove a == b"""
        for depth, to in ((1, 300), (2, 300), (3, 500), (99, 2000), (5, 1000), (8, 2000)):
            memo = {}
            if depth == 99:
                from .unit import _trivial_size

                if not _trivial_size(a, 400) or not _trivial_size(b, 400):
                    continue
                ca, cb = a, b
            else:
                ca, cb = self.cut(a, depth, memo), self.cut(b, depth, memo)
            if ca.eq(cb):
                return True
            # the two cuts may sit at different depths of a shared term: refine one side
            from .unit import abstract_mul, has_mul

            g = ca != cb
            if has_mul(g):
                s = z3.SolverFor("QF_BV")
                s.set("timeout", to)
                for p in self.pc:
                    s.add(p)
                s.add(abstract_mul(g, {}, {}, True))
                self.queries += 1
                if s.check() == z3.unsat:
                    return True
                if not self.deep:
                    continue
            s = z3.SolverFor("QF_BV")
            s.set("timeout", to)
            for p in self.pc:
                s.add(p)
            s.add(g)
            self.queries += 1
            if s.check() == z3.unsat:
                return True
            if time.time() > self.end:
                return False
        return False

    def start(self):
        """samples restricted to those meeting the precondition"""
        if getattr(self, "started", False):
            return
        self.started = True
        self.sig, self.rep, self.table, self.hold = {}, {}, {}, []
        if self.pc:
            want, self.n = self.n, 4 * self.n
            self.env = [dict() for _ in range(self.n)]
            nodes = topo(self.pc)
            psig = {}
            self._sigs(nodes, psig)
            keep = [j for j in range(self.n) if all(psig[p.get_id()][j] for p in self.pc)][:want]
            if len(keep) < 4:
                self.env = self.from_models(nodes)
            else:
                self.env = [self.env[j] for j in keep]
            self.n = len(self.env)

    def from_models(self, nodes, want=8):
        """samples built on models of the precondition"""
        leaves = [x for x in nodes if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED]
        s = z3.Solver()
        s.set("timeout", 5000)
        for p in self.pc:
            s.add(p)
        out = []
        for i in range(want):
            s.push()
            for x in leaves:  # prefer random low bits
                if z3.is_bv(x) and i:
                    c = x == self.rng.getrandbits(x.size())
                    if s.check(c) == z3.sat:
                        s.add(c)
                    else:
                        c = z3.Extract(0, 0, x) == self.rng.getrandbits(1)
                        if s.check(c) == z3.sat:
                            s.add(c)
            if s.check() != z3.sat:
                s.pop()
                break
            m = s.model()
            e = {}
            for x in leaves:
                v = m.eval(x, model_completion=True)
                e[x.get_id()] = v.as_long() if z3.is_bv_value(v) else int(z3.is_true(v))
            s.pop()
            out += [dict(e) for _ in range(2)]
        if len(out) < 2:
            self.started = False
            raise ValueError("no samples meet the precondition")
        return out

    def _sigs(self, nodes, sig):
        for x in nodes:
            i = x.get_id()
            if i in sig:
                continue
            k = x.decl().kind()
            ch = [sig[c.get_id()] for c in kids(x)]
            sig[i] = tuple(eval_node(x, k, [c[j] for c in ch], lambda y, j=j: self.value(j, y)) for j in range(self.n))

    def prove_equal(self, a, b, tlimit=None):
        self.model = None
        self.end = time.time() + (tlimit or self.tlimit)
        try:
            self.start()
            nodes = topo([a, b], self.rep)
            if len(nodes) > 1000000:
                return False
            self.hold.append((a, b))
            self._sigs(nodes, self.sig)
        except ValueError:
            return False
        sig = self.sig
        if sig[a.get_id()] != sig[b.get_id()]:
            if any(x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() not in TABLES for x in topo([a, b])):
                return False
            for j in range(self.n):
                if sig[a.get_id()][j] != sig[b.get_id()][j]:
                    leaves = [x for x in topo([a, b] + self.pc) if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED]
                    self.model = {x.decl().name(): self.value(j, x) for x in leaves}
                    return False
        for self.deep in (False, True):
            if self.deep:
                for x in nodes:  # retry what did not merge
                    self.rep.pop(x.get_id(), None)
            for x in nodes:
                if x.get_id() in self.rep:
                    continue
                if time.time() > self.end:
                    return False
                self.rep[x.get_id()] = self.merge(x)
            if self.rep[a.get_id()].eq(self.rep[b.get_id()]):
                return True
            if not has_mul_any(nodes):
                return False
        return False

    def merge(self, x):
        k = x.decl().kind()
        ch = [self.rep[c.get_id()] for c in x.children()]
        y = x if not ch else rebuild(x, k, ch)
        self.hold.append(y)
        s = (x.size() if z3.is_bv(x) else 0, self.sig[x.get_id()])
        c = self.table.setdefault(s, [])
        if z3.is_bv_value(y) or z3.is_true(y) or z3.is_false(y):
            c.insert(0, y)
            return y
        for r in c:
            if r.eq(y):
                return r
        if y.num_args() > 0:
            for r in c[:3]:
                if self.equal(r, y):
                    return r
            if s[0] and len(set(s[1])) == 1:
                cv = z3.BitVecVal(s[1][0], s[0])
                if self.equal(cv, y):
                    return cv
        c.append(y)
        return y


def has_mul_any(nodes):
    return any(x.decl().kind() == z3.Z3_OP_BMUL for x in nodes)
