"""C11: state round trip, pickle and copy, refusal of foreign states."""
from h import *

rounds = 3 if TIER == "quick" else 12
for c in CONFIGS:
    for t in range(rounds):
        r = random.Random(SEED * 1000 + t)
        b = new(c, r.getrandbits(64))
        h = history(b, r)
        if t == 0:
            u32(b)
            h.append(("u32", 1))
        k = name(c)
        s = b.state
        keep = snap(s)
        check(eqs(b.state, keep), f"{k}:state-read-changes-state", h)
        pick = pickle.dumps(b)
        cp, dc = copy.copy(b), copy.deepcopy(b)
        stp = pickle.loads(pickle.dumps(s))
        want = fut(b)
        check(eqs(s, keep), f"{k}:state-dict-aliases-generator", lambda: f"history {h}: saved state changed when the generator was drawn from")
        # a used instance of the same configuration
        for j in range(2):
            d = new(c, r.getrandbits(64))
            hd = history(d, r)
            if j == 0:
                u32(d)
            d.state = s
            check(eqs(d.state, keep), f"{k}:state-not-restored", lambda: f"history {h} target history {hd}: {d.state} instead of {keep}")
            scr = snap(s)
            got = fut(d)
            check(got == want, f"{k}:continuation", lambda: f"history {h}, target history {hd}: {diff(got, want)}")
            check(eqs(s, keep), f"{k}:assigned-dict-modified", h)
            d.state = scr
            scribble(scr)
            got2 = fut(d)
            check(got2 == want, f"{k}:state-aliases-assigned-dict", lambda: f"{diff(got2, want)}")
        # another configuration of the same class
        for c2 in CONFIGS:
            if c2[0] == c[0] and c2 is not c and (TIER != "quick" or t == 0):
                d = new(c2, r.getrandbits(64))
                history(d, r)
                if r.random() < 0.5:
                    u32(d)
                pre = snap(d.state)
                try:
                    d.state = s
                except Exception as e:
                    check(eqs(d.state, pre), f"{k}->{name(c2)}:refused-but-changed", repr(e))
                    fail(f"{k}->{name(c2)}:refused", repr(e))
                    continue
                got = fut(d)
                check(got == want, f"{k}->{name(c2)}:continuation", lambda: f"history {h}: {diff(got, want)}")
                d = new(c2, 4)
                d.ctypes
                d.state = s
                got = fut(d, via="ctypes")
                check(got == want, f"{k}->{name(c2)}:continuation-through-ctypes", lambda: f"the ctypes interface was read before the assignment: {diff(got, want)}")
        for kind, d in (("pickle", pickle.loads(pick)), ("copy", cp), ("deepcopy", dc)):
            got = fut(d)
            check(type(d) is type(b), f"{k}:{kind}-type", type(d))
            check(got == want, f"{k}:{kind}", lambda: f"history {h}: {diff(got, want)}")
        d = new(c, 7)
        d.state = stp
        got = fut(d)
        check(got == want, f"{k}:pickled-state", lambda: diff(got, want))
        # the long names are interchangeable with the class name
        # another generator's state
        if t == 0:
            for c2 in CONFIGS:
                if c2[0] == c[0]:
                    continue
                o = new(c2, 3)
                u32(o)
                f = snap(o.state)
                d = new(c, 5)
                u32(d)
                pre = snap(d.state)
                ok = refused(lambda: setattr(d, "state", f))
                check(ok, f"{k}:foreign-state-accepted:{c2[0]}", "no exception")
                check(eqs(d.state, pre), f"{k}:foreign-state-changed-target:{c2[0]}", lambda: f"{d.state} was {pre}")
            for bad in (None, 3, [], "x", {}, {"bit_generator": "nope"}, ("MT19937",)):
                d = new(c, 5)
                u32(d)
                pre = snap(d.state)
                ok = refused(lambda: setattr(d, "state", bad))
                check(ok, f"{k}:non-state-accepted", repr(bad))
                check(eqs(d.state, pre), f"{k}:non-state-changed-target", repr(bad))
done()
