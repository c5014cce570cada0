"""Run-time contracts of the Python-visible API, evaluated on the built extension modules (bounded)."""
import json
import os

from vp.pynative import run_py
from vp.runner import Outcome

HERE = os.path.dirname(os.path.abspath(__file__))


class PyContract:
    kind = "py"
    tu = None
    needs_module = True
    bounded = True
    weight = 50
    tiers = ("quick", "thorough")

    def __init__(self, cid, script, props, fns, bound, assumptions=(), pre=None):
        self.cid, self.script, self.props, self.fns_, self.note = cid, script, props, fns, bound
        self.assumptions_ = list(assumptions)
        self.cases = [{}]
        self.tlimit = 600

    def run(self, scratch, seed, tier):
        from vp.driver import known_findings

        o = Outcome(self.cid)
        o.fns = self.fns_
        o.assumptions = self.assumptions_
        r, err = run_py(scratch, f"{HERE}/py/{self.script}.py", [str(seed), tier], timeout=560 if tier == "quick" else 1450)
        if err:
            o.status, o.reason = ("unbuildable", err) if err != "timeout" else ("timeout", "native suite")
            return o
        res = next((json.loads(l[7:]) for l in r.stdout.split("\n") if l.startswith("RESULT ")), None)
        o.status, o.bounded = "bounded", self.note
        if res is None:
            # the code under test ended the interpreter: a memory error is a violation, anything else is not decided
            if r.returncode < 0 or r.returncode in (134, 136, 138, 139):
                o.status = "violated"
                o.replay = {"obligation": f"{self.cid}: the process survives the suite", "failures": {"crash": (r.stdout[-300:] + r.stderr[-1200:])}, "script": self.script, "seed": seed}
                return o
            o.status, o.reason = "error", (r.stderr or r.stdout)[-600:]
            o.bounded = None
            return o
        o.samples = res["evaluations"]
        o.time = res["seconds"]
        fl = res["failures"]
        kf = [f for f in known_findings() if f["contract"] == self.cid]
        new, known = {}, []
        for k, v in fl.items():
            m = next((f for f in kf if f["key"] == k and all(s in v for s in f.get("match", []))), None)
            if m:
                known.append(m["id"])
            else:
                new[k] = v
        o.known = known
        if new:
            o.status = "violated"
            k = next(iter(new))
            o.replay = {"obligation": f"{self.cid}: {k}", "failures": {q: new[q] for q in list(new)[:8]}, "script": f"spec/py/{self.script}.py", "seed": seed, "tier": tier}
            o.failed = [(q, "failing input", "executed") for q in list(new)[:8]]
        return o


B = "bounded: generated inputs and histories on the built modules, "
CONTRACTS = [
    PyContract("py.jumped", "c10", ("C10",), ["jumped, jump of every bit generator (Python level)"], B + "every configuration, 3 random histories (10 thorough), jump counts 0, 1, 2, 5"),
    PyContract("py.state", "c11", ("C11",), ["state getter and setter, __reduce__/pickle of every bit generator"], B + "every configuration, random histories of source and target"),
    PyContract("py.seeding", "c12", ("C12",), ["constructor, seed, _seed_from_seq of every bit generator"], B + "every configuration, 13 seeds, 6 keys, random histories"),
    PyContract("py.conversions", "c13", ("C13",), ["int_to_array, object_to_int, wrap_int, random_raw, key/counter/inc/advance arguments of every bit generator"], B + "integers around every word boundary, arrays of every dtype and length, every configuration"),
    PyContract("py.squares-keys", "c15", ("C15",), ["generate_keys, _get_keys, Squares.seed"], B + "random seeds and word streams (adversarial ones included), counts up to 333"),
    PyContract("py.rdrand", "c16", ("C16",), ["RDRAND.random_raw, seed, state, rdrand_fill_buffer through the module"], B + "failure injected by retries=-1 at buffer positions 0, 1, 100, 255..257, 300, 511; every raw and bulk draw"),
    PyContract("py.jumps", "c09", ("C09",), ["jumped, jump of every bit generator: distance and repetition; mt19937_jump, sfmt_jump, dSFMT_jump"], B + "4 random states and histories per generator (40 thorough); distances decided by the minimal polynomial of the stream"),
    PyContract("py.memory", "c14", ("C14",), ["state setters (positions, array lengths), bulk fills of every bit generator"], B + "every position field at 17 out-of-range values, fills of boundary sizes with guard words"),
    PyContract("py.user", "c17", ("C17",), ["UserBitGenerator: constructor, from_ctypes, derived functions, state pass-through"], B + "all 32 combinations of supplied callbacks, edge and random words, every interface"),
    PyContract("py.extended", "c18", ("C18",), ["ExtendedGenerator.uintegers, random, state, pickling, complex_normal"], B + "every configuration, 16 shapes, every dtype, output arrays"),
    PyContract("py.entropy", "c19", ("C19",), ["seed_by_array, SeedSequence.generate_state, random_entropy"], B + "random seed material, seven fault modes of open, read and close injected under the built module"),
]
