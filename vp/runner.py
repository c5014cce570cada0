"""Running contracts: proof first, concrete replay of counterexamples, bounded stand-in on tool limits."""
import json
import os
import random
import signal
import sys
import time
import traceback
import multiprocessing as mp
import z3
from . import unit
from .unit import SymKit, NatKit, BuildError, Unsupported, Vacuous, Reject, discharge, Result
from .llsym import PathDead, OutOfBounds
from .bv import NotConcrete


class Contract:
    kind = "c"

    def __init__(self, cid, tu, body, cases=None, externals=None, timeout=20000, native=True, note="", samples=400, fns=None, natives=None, props=(), tiers=("quick","thorough"), bounded=False):
        self.cid, self.tu, self.body, self.cases = cid, tu, body, cases or [None]
        self.externals, self.timeout, self.native, self.note, self.samples = externals, timeout, native, note, samples
        self.fns = fns
        self.props = props
        self.bounded = bounded
        self.tiers = tiers
        self.natives = natives  # how to draw samples natively (cases)


class Outcome:
    """what one contract produced"""

    def __init__(self, cid):
        self.cid = cid
        self.status = "proved"  # proved | violated | bounded | failed-obligation
        self.obligations = 0
        self.discharged = 0
        self.how = {}
        self.failed = []  # (obligation, status, how)
        self.replay = None  # dict
        self.bounded = None
        self.time = 0.0
        self.fns = []
        self.reason = ""
        self.assumptions = []
        self.samples = 0


def _in_child(fn, timeout):
    """run fn() in a forked child; returns ('ok',value) | ('crash',sig) | ('timeout',None) | ('err',text)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            v = fn()
            data = json.dumps(["ok", v]).encode()
        except BaseException as e:  # noqa
            data = json.dumps(["err", "".join(traceback.format_exception_only(type(e), e))]).encode()
        with os.fdopen(w, "wb") as f:
            f.write(data)
        os._exit(0)
    os.close(w)
    import select

    buf = b""
    end = time.time() + timeout
    while True:
        left = end - time.time()
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
            return ("timeout", None)
        rl, _, _ = select.select([r], [], [], left)
        if rl:
            d = os.read(r, 1 << 16)
            if not d:
                break
            buf += d
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        return ("crash", os.WTERMSIG(st))
    if not buf:
        return ("crash", -1)
    return tuple(json.loads(buf))


def native_eval(con, scratch, case, values, rng_seed=None):
    """evaluate the contract on concrete inputs; returns dict"""
    rng = random.Random(rng_seed) if rng_seed is not None else None
    k = NatKit(con.tu, case, scratch, values, rng)
    try:
        con.body(k)
    except Reject:
        return {"rejected": True, "failures": []}
    return {"failures": k.failures, "values": {a: hex(b) for a, b in k.used.items()}, "checked": k.checked}


def native_search(con, scratch, seed, n, tlimit=20.0, case=None):
    """bounded differential search; returns (violation or None, evaluated)"""
    con.tu.build_native(scratch)
    progress = os.path.join(scratch, f"prog_{con.cid}_{os.getpid()}")

    def body():
        t0 = time.time()
        done = 0
        i = 0
        base = random.Random(seed)
        while done < n and time.time() - t0 < tlimit:
            i += 1
            c = case if case is not None else con.cases[base.randrange(len(con.cases))]
            sd = base.getrandbits(60)
            with open(progress, "w") as f:
                json.dump([c, sd], f)
            r = native_eval(con, scratch, c, None, sd)
            if r.get("rejected"):
                if i > 50 * n:
                    break
                continue
            done += 1
            if r["failures"]:
                return {"case": c, "seed": sd, "result": r, "n": done}
        return {"n": done}

    st, v = _in_child(body, tlimit + 30)
    if st == "ok":
        if "result" in v:
            return v, v["n"]
        return None, v["n"]
    if st == "crash":
        c, sd = json.load(open(progress))
        return {"case": c, "seed": sd, "result": {"failures": [["native execution crashed", [str(v)]]], "values": {}}}, 0
    raise BuildError("native run: " + str(v)[:500])


def run_contract(con, scratch, seed=1, tier="quick"):
    t0 = time.time()
    out = Outcome(con.cid)
    bad = []
    if getattr(con, "stand_in", None):
        out.reason = con.stand_in
        return _bounded(con, scratch, seed, out, t0, tier)
    from . import bv

    bv.PUSH8 = getattr(con.tu, "push8", True)
    bv.SUMC = getattr(con.tu, "sumc", False)
    bv.LINEAR = getattr(con, "lin", False)
    try:
        for case in con.cases:
            k = SymKit(con.tu, case, scratch, con.externals)
            con.body(k)
            if k.assume:
                s = z3.Solver()
                s.set("timeout", 20000)
                for c in k.assume:
                    s.add(c)
                if s.check() == z3.unsat:
                    raise Vacuous(con.cid)
            if not k.goals:
                raise Vacuous("no obligations generated for " + con.cid)
            out.fns += sorted(k.ex.calls)
            obl = []
            for nm, pc, c in k.ex.obligs:
                obl.append(("safety:" + nm, pc, c, None))
            obl += [("post:" + n, pc, c, p) for n, pc, c, p in k.goals]
            sweepers = {}
            if bv.LINEAR or bv.SUMC:
                from .linear import Lin

                sweepers["lin"] = Lin()
            for nm, pc, c, p in obl:
                out.obligations += 1
                r = discharge(nm, pc, c, p, con.timeout, sweepers)
                out.how[r.how] = out.how.get(r.how, 0) + 1
                if r.status == "proved":
                    out.discharged += 1
                else:
                    bad.append((case, r))
                    out.failed.append((nm + (f" case {case}" if case else ""), r.status, r.how))
                    if len(bad) >= 6:
                        break
            if len(bad) >= 6:
                break
    except (Unsupported, BuildError, NotConcrete, SyntaxError, RecursionError, z3.Z3Exception, KeyError, TypeError, IndexError, AttributeError, AssertionError, PathDead, OutOfBounds) as e:
        out.reason = f"{type(e).__name__}: {e}"[:600]
        if os.environ.get("VP_DEBUG"):
            traceback.print_exc()
        if not bad:
            return _bounded(con, scratch, seed, out, t0, tier)
    if not bad:
        out.status = "proved"
        out.fns = sorted(set(out.fns))
        out.time = time.time() - t0
        return out
    # -- replay -------------------------------------------------------------
    try:
        for case, r in bad:
            if r.model is not None:
                con.tu.build_native(scratch)
                vals = dict(r.model)
                st, v = _in_child(lambda: native_eval(con, scratch, case, vals), 60)
                if st == "crash":
                    v = {"failures": [["native execution crashed", [str(v)]]], "values": {a: hex(b) for a, b in vals.items()}}
                    st = "ok"
                if st == "ok" and v.get("failures"):
                    out.status = "violated"
                    out.replay = {"obligation": r.name, "case": case, "inputs": v["values"], "failures": v["failures"], "source": "verifier counterexample, replayed on the natively compiled function"}
                    out.time = time.time() - t0
                    return out
                if r.status == "refuted":
                    q = sanitized_replay(con, scratch, case, vals)
                    if q:
                        out.status = "violated"
                        out.replay = {"obligation": r.name, "case": case, "inputs": {a: hex(b) for a, b in vals.items()}, "failures": [["sanitizer", [q]]], "source": "verifier counterexample, replayed under AddressSanitizer/UBSan"}
                        out.time = time.time() - t0
                        return out
        viol, n = native_search(con, scratch, seed, con.samples * 5, 40.0)
        out.samples = n
        if viol:
            out.status = "violated"
            out.replay = {"obligation": bad[0][1].name, "case": viol["case"], "seed": viol["seed"], "inputs": viol["result"]["values"], "failures": viol["result"]["failures"], "source": "concrete search after the obligation failed"}
            out.time = time.time() - t0
            return out
    except BuildError as e:
        out.reason = str(e)[:600]
    if any(r.status == "refuted" for _, r in bad) and not getattr(con, "induct", False):
        out.status = "failed-obligation"
        r = [r for _, r in bad if r.status == "refuted"][0]
        out.replay = {"obligation": r.name, "inputs": {a: hex(b) for a, b in (r.model or {}).items()}, "failures": [], "source": "verifier counterexample; no failing native input found"}
    else:
        # every undischarged obligation is a solver timeout: a tool limit
        out.status = "bounded"
        out.bounded = f"solver gave up (or the loop invariant does not fit the current text) on {len(bad)} obligations; {out.samples} random native evaluations agreed"
    out.time = time.time() - t0
    return out


def _nolimit():
    import resource

    _, h = resource.getrlimit(resource.RLIMIT_AS)
    resource.setrlimit(resource.RLIMIT_AS, (h, h))


def sanitized_replay(con, scratch, case, vals):
    import subprocess

    try:
        con.tu.build_native(scratch, sanitize=True)
    except BuildError:
        return None
    job = os.path.join(scratch, f"san_{con.cid}_{os.getpid()}.json")
    with open(job, "w") as f:
        json.dump({"cid": con.cid, "case": case, "vals": vals, "scratch": scratch}, f)
    lib = subprocess.run(["gcc", "-print-file-name=libasan.so"], capture_output=True, text=True).stdout.strip()
    env = dict(os.environ, LD_PRELOAD=lib, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0", PYTHONMALLOC="malloc")
    p = subprocess.run([sys.executable, "-m", "vp.sanrun", job], capture_output=True, text=True, env=env, cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))), timeout=120, preexec_fn=_nolimit)
    for ln in p.stderr.splitlines():
        if "ERROR: AddressSanitizer: " in ln and ("overflow" in ln or "underflow" in ln or "SEGV" in ln or "use-after" in ln) or "runtime error: " in ln:
            return ln.strip()
    return None


def _bounded(con, scratch, seed, out, t0, tier):
    """the generator cannot express the current text of the function: bounded stand-in"""
    n = con.samples * (10 if tier == "thorough" else 3)
    try:
        viol, cnt = native_search(con, scratch, seed, n, 60.0 if tier == "thorough" else 25.0)
    except BuildError as e:
        out.status = "unbuildable"
        out.reason += " | " + str(e)[:600]
        out.time = time.time() - t0
        return out
    out.samples = cnt
    if viol:
        out.status = "violated"
        out.replay = {"obligation": viol["result"]["failures"][0][0], "case": viol["case"], "seed": viol["seed"], "inputs": viol["result"]["values"], "failures": viol["result"]["failures"], "source": "bounded stand-in (concrete search): the generator could not express the function"}
    else:
        out.status = "bounded"
        out.bounded = f"{cnt} native evaluations agreed with the contract; proof not available: {out.reason}"
    out.time = time.time() - t0
    return out
