"""C10: jumped() leaves the original alone, and the copies are independent."""
from h import *

rounds = 3 if TIER == "quick" else 10
for c in CONFIGS:
    k = name(c)
    if not hasattr(new(c), "jumped"):
        continue
    try:
        new(c).jumped()
    except NotImplementedError:
        continue
    slow = c[0] in ("MT19937", "SFMT", "DSFMT")
    for t in range(rounds):
        r = random.Random(SEED * 77 + t)
        seed = r.getrandbits(70)
        b = new(c, seed)
        h = history(b, r)
        if t != 1:
            u32(b)
            h.append(("u32", 1))
        ss = b.seed_seq
        sst = (ss.entropy, ss.spawn_key, ss.pool_size, ss.n_children_spawned)
        s0 = snap(b.state)
        addr = bitgen(b).state
        want = fut(clone(b, c))
        for n in ((0, 1, 2) if slow else (0, 1, 2, 5)):
            try:
                j = b.jumped(n)
            except Exception as e:
                check(n == 0 and isinstance(e, ValueError), f"{k}:jumped-raises", f"jumped({n}) after {h}: {e!r}")
                check(eqs(b.state, s0), f"{k}:state-changed", f"by a refused jumped({n}) after {h}")
                continue
            check(j is not b and type(j) is type(b), f"{k}:not-a-new-instance", type(j))
            check(eqs(b.state, s0), f"{k}:state-changed", lambda: f"jumped({n}) after {h}: {b.state} was {s0}")
            check(bitgen(j).state != addr and bitgen(b).state == addr, f"{k}:shared-state-memory", h)
            check(b.seed_seq is ss and (ss.entropy, ss.spawn_key, ss.pool_size, ss.n_children_spawned) == sst, f"{k}:seed-sequence-changed", h)
            check(j.lock is not b.lock, f"{k}:shared-lock", h)
            # drawing from, reseeding or re-stating the copy
            jf0 = snap(j.state)
            jw = fut(j)
            check(eqs(b.state, s0), f"{k}:draws-from-copy-change-original", lambda: f"jumped({n}) after {h}")
            j.seed(12345)
            j.state = new(c, 3).state
            check(eqs(b.state, s0), f"{k}:reseeding-copy-changes-original", lambda: f"jumped({n}) after {h}")
            # the original's draws do not touch the copy
            j2 = b.jumped(n)
            check(eqs(j2.state, jf0), f"{k}:jumped-not-a-function-of-state", lambda: f"two calls of jumped({n}) after {h} differ")
            b2 = clone(b, c)
            j3 = b2.jumped(n)
            check(eqs(j3.state, jf0), f"{k}:jumped-depends-on-more-than-state", lambda: f"jumped({n}) after {h}, from a copy by state: {j3.state} instead of {jf0}")
            fut(b2)
            del b2
            got = fut(j3)
            check(got == jw, f"{k}:draws-from-original-change-copy", lambda: f"jumped({n}) after {h}: {diff(got, jw)}")
        # the in-place jump of a copy agrees with jumped
        got = fut(b)
        check(got == want, f"{k}:future-changed", lambda: f"after {h} and jumped: {diff(got, want)}")
        # jumped(k) is k times jumped()
        b6 = new(c, seed)
        b6.state = snap(s0)
        x, y = fut(b6.jumped().jumped().jumped()), fut(b6.jumped(3))
        check(x == y, f"{k}:jumped-k-differs-from-k-times", lambda: f"after {h}: {diff(x, y)}")
        if hasattr(b, "jump"):
            b4, b5 = new(c, seed), new(c, seed)
            for q in (b4, b5):
                q.state = snap(s0)
            try:
                b4.jump(2)
            except NotImplementedError:
                continue
            x, y = fut(b4), fut(b5.jumped(2))
            check(x == y, f"{k}:jump-and-jumped-differ", lambda: f"after {h}: {diff(x, y)}")
done()
