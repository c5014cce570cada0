"""C09/C14/C18: loops of unbounded length, cut at an invariant (k.call under ex.cut)."""
from .common import *
from vp.llsym import LoopCut

CONTRACTS = []

# -- mt19937/sfmt/dsfmt_jump_n(state, count): the distances of the polynomials used add up to count.
# The single polynomial jump is replaced by a stub that records the weight (in units of 2^128) of the polynomial it is
# given; that each polynomial has that weight is decided by py.jumps (C09).
POST = r"""
unsigned long long vp_dist; int vp_calls;
__attribute__((noinline)) void vp_one_jump(%s *s, const char *p) {
  vp_dist += p == poly_128 ? 1ULL : p == poly_132 ? 16ULL : p == poly_136 ? 256ULL : p == poly_140 ? 4096ULL : p == poly_144 ? 65536ULL : 1ULL << 50; }
"""


def jump_tu(nm, src, fn, inner, ctype, one, flags=()):
    return TU(nm, [src], [f"void {fn}({ctype} *state, int count)"], {ctype: []}, flags=list(flags), pre=f"#define {one} vp_one_jump\n", post=POST % inner)


def jump_n(fn, ctype):
    def body(k):
        count = k.word("count", 32)
        if k.symbolic:
            k.requires(~count.slt(0)) if hasattr(count, "slt") else k.requires(count.extract(31, 31).eq(0))
        elif count.v >> 31 or count.v > 3000000:
            count = BV(32, count.v & 0x1FFFFF)
        st = k.obj("state", ctype, {})
        g = k.glob("vp_dist", 64, 1, 0)
        c64 = count.zext(64)
        if k.symbolic:
            off = (lambda ex, s: ex.load(s.mem, ("i", 64), g.ptr))
            head = []

            def havoc(ex, s):
                ex.store(s.mem, ("i", 64), ex.fresh_bv("done", 64), g.ptr)

            def inv(ex, s, phis, stage):
                w = [v for _, _, v in phis]
                if len(w) != 1:
                    from vp.llsym import Unsupported

                    raise Unsupported("loop variables of the jump loop")
                rem = w[0].zext(64) if w[0].w == 32 else w[0]
                if stage == 0:
                    head.append(ex.solver_check(rem.eq(0).b()) is False)
                out = [("distance done + jumps left = count", (off(ex, s) + rem).eq(c64)), ("jumps left stay within count", ~c64.ult(rem)), ("distance done stays within count", ~c64.ult(off(ex, s)))]
                if head[0]:
                    out.append(("jumps are left", ~rem.eq(0)))
                if stage == 1:
                    head.append(rem)
                if stage == 2:
                    out.append(("fewer jumps are left after it", rem.ult(head[1])))
                return out

            k.ex.cut = LoopCut([g.ptr.obj], havoc, inv, lambda ex, s: [("distance = count", off(ex, s).eq(c64))])
        k.call(fn, st, count)
        if k.symbolic:
            cut, k.ex.cut = k.ex.cut, None
            k.ensure("no jump without a count", c64.ne(0) | k.now(g, "a")[0].eq(0))
            if cut.used is None or not cut.left:
                from vp.llsym import Unsupported

                raise Unsupported("no loop to cut")
        else:
            k.same("distance = count", k.now(g, "a")[0], c64)

    return body


for nm, src, fn, inner, ctype, one, flags in (
    ("mt19937_jn", "mt19937/mt19937.c", "mt19937_jump_n", "mt19937_state_t", "mt19937_state_t", "mt19937_jump_state", ()),
    ("sfmt_jn", "sfmt/sfmt.c", "sfmt_jump_n", "sfmt_t", "sfmt_state_t", "SFMT_jump", ("-DSFMT_MEXP=19937", "-DHAVE_SSE2=1")),
    ("dsfmt_jn", "dsfmt/dsfmt.c", "dsfmt_jump_n", "dsfmt_t", "dsfmt_state_t", "dSFMT_jump", ("-DDSFMT_MEXP=19937", "-DHAVE_SSE2=1")),
):
    c = Contract(nm.split("_")[0] + ".jump_n", jump_tu(nm, src, fn, inner, ctype, one, flags), jump_n(fn, ctype), props=("C09",), samples=60, note="every count >= 0; loop cut at its invariant")
    c.induct = True
    CONTRACTS.append(c)
