"""Driver: run every contract of a property, write evidence, print VIOLATION lines."""
import argparse
import atexit
import copy
import importlib
import json
import os
import pickle
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = ["xorshift", "lcg", "chaotic", "counter", "cipher", "twister", "glue", "dist", "misc", "loops", "pyspec"]
NPROC = int(os.environ.get("VP_JOBS", "8"))


def load(prop=None, tier="quick"):
    cons = []
    for m in SPECS:
        if not os.path.exists(f"{HERE}/spec/{m}.py"):
            continue
        mod = importlib.import_module("spec." + m)
        for c in mod.CONTRACTS:
            if (prop is None or prop in c.props) and tier in c.tiers:
                cons.append(c)
    return cons


class Task:
    def __init__(self, con, cases, n):
        self.con, self.cases, self.n = con, cases, n
        self.pid = None
        self.out = None
        self.path = None
        self.t0 = None


def split(con, tier):
    """one task per chunk of cases"""
    cs = con.cases
    per = getattr(con, "chunk", None)
    if per is None:
        per = max(1, (len(cs) + 15) // 16)
    res = []
    for i in range(0, len(cs), per):
        res.append(Task(con, cs[i : i + per], i // per))
    return res


def start(task, scratch, seed, tier):
    task.path = os.path.join(scratch, f"res_{task.con.cid}_{task.n}.pkl")
    task.t0 = time.time()
    pid = os.fork()
    if pid:
        task.pid = pid
        return
    try:
        os.setpgid(0, 0)
        import resource

        lim = 6 << 30
        if os.environ.get("VP_NOLIMIT") is None and task.con.kind == "c":
            resource.setrlimit(resource.RLIMIT_AS, (lim, resource.getrlimit(resource.RLIMIT_AS)[1]))
        con = copy.copy(task.con)
        con.cases = task.cases
        con.allcases = task.con.cases
        out = con.run(scratch, seed + task.n, tier) if hasattr(con, "run") else None
        if out is None:
            from .runner import run_contract

            out = run_contract(con, scratch, seed + task.n, tier)
        with open(task.path + ".t", "wb") as f:
            pickle.dump(out, f)
        os.rename(task.path + ".t", task.path)
    except BaseException as e:  # noqa
        try:
            with open(task.path + ".err", "w") as f:
                f.write("".join(traceback.format_exception(type(e), e, e.__traceback__)))
        except Exception:
            pass
    os._exit(0)


def kill(task):
    try:
        os.killpg(task.pid, signal.SIGKILL)
    except OSError:
        try:
            os.kill(task.pid, signal.SIGKILL)
        except OSError:
            pass
    try:
        os.waitpid(task.pid, 0)
    except OSError:
        pass


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    t0 = time.time()
    budget = 700 if a.tier == "quick" else 5400
    cons = load(a.prop, a.tier)
    if a.only:
        cons = [c for c in cons if a.only in c.cid]
    if not cons:
        print("no contract for", a.prop)
        return 2
    scratch = tempfile.mkdtemp(prefix="vp-")
    pid = os.getpid()
    atexit.register(lambda: os.getpid() == pid and shutil.rmtree(scratch, ignore_errors=True))
    from .runner import Outcome
    from . import pynative

    os.environ["VP_SCRATCH"] = scratch
    tus = {id(c.tu): c.tu for c in cons if getattr(c, "tu", None) is not None}

    def prep(tu):
        try:
            tu.compile_ir(scratch)
        except Exception as e:  # reported by the contract itself
            pass

    need_mod = any(getattr(c, "needs_module", False) for c in cons)
    with ThreadPoolExecutor(NPROC) as ex:
        fut = ex.submit(pynative.build_module, scratch) if need_mod else None
        list(ex.map(prep, tus.values()))
        if fut:
            fut.result()
    for tu in tus.values():
        try:
            tu.build_ir(scratch)
        except Exception:
            pass
    tasks = []
    for c in cons:
        tasks += split(c, a.tier)
    tasks.sort(key=lambda t: -getattr(t.con, "weight", 1))
    pending, running, done = list(tasks), [], []
    stop = False
    while pending or running:
        while pending and len(running) < NPROC and not stop:
            t = pending.pop(0)
            start(t, scratch, a.seed, a.tier)
            running.append(t)
        time.sleep(0.01)
        now = time.time()
        for t in list(running):
            r, _ = os.waitpid(t.pid, os.WNOHANG)
            lim = getattr(t.con, "tlimit", None) or (240 if a.tier == "quick" else 1500)
            if r:
                running.remove(t)
                if os.path.exists(t.path):
                    t.out = pickle.load(open(t.path, "rb"))
                else:
                    t.out = Outcome(t.con.cid)
                    t.out.status = "error"
                    t.out.reason = open(t.path + ".err").read() if os.path.exists(t.path + ".err") else "worker ended"
                done.append(t)
            elif now - t.t0 > lim or now - t0 > budget:
                kill(t)
                running.remove(t)
                t.out = Outcome(t.con.cid)
                t.out.status = "timeout"
                t.out.reason = f"no result within {int(now - t.t0)} s"
                done.append(t)
            if t.out is not None and a.v:
                o = t.out
                print(f"  {o.status:18s} {o.cid}#{t.n} {o.discharged}/{o.obligations} {now - t.t0:.1f}s {o.reason[-300:] if o.status not in ('proved',) else ''}", flush=True)
            if t.out is not None and t.out.status == "violated":
                stop = True
        if now - t0 > budget:
            stop = True
        if stop:
            for t in running:
                kill(t)
            for t in running + pending:
                t.out = Outcome(t.con.cid)
                t.out.status = "notrun"
                t.out.reason = "stopped: a violation was already found" if now - t0 <= budget else "time budget"
                done.append(t)
            break
    return report(a, cons, done, scratch, t0)


def known_findings():
    p = f"{HERE}/known_findings.json"
    if os.path.exists(p):
        return [f for f in json.load(open(p)) if f.get("status") == "known"]
    return []


def report(a, cons, done, scratch, t0):
    by = {}
    for t in done:
        by.setdefault(t.con.cid, []).append(t)
    rows, viol = [], []
    tot = dis = 0
    how = {}
    fns = set()
    lemmas = 0
    assumptions = set()
    solver = 0.0
    native = 0
    evals = 0
    bounded = []
    for c in cons:
        ts = by.get(c.cid, [])
        o, d, st, tm, why, smp = 0, 0, [], 0.0, "", 0
        for t in ts:
            o += t.out.obligations
            d += t.out.discharged
            tm += t.out.time
            smp += t.out.samples
            fns |= set(t.out.fns)
            assumptions |= set(t.out.assumptions)
            for k2, n in t.out.how.items():
                how[k2] = how.get(k2, 0) + n
            st.append(t.out.status)
            if t.out.status not in ("proved",):
                why = (t.out.bounded or t.out.reason or "")[:400]
            if t.out.status in ("violated", "failed-obligation"):
                viol.append((c, t))
        order = ["violated", "failed-obligation", "error", "unbuildable", "timeout", "notrun", "bounded", "proved"]
        status = next((s for s in order if s in st), "proved")
        tot += o
        dis += d
        solver += tm
        evals += smp
        row = {"contract": c.cid, "status": status, "obligations": o, "discharged": d, "seconds": round(tm, 2)}
        if c.note:
            row["note"] = c.note
        if why:
            row["why"] = why
        if smp:
            row["native_evaluations"] = smp
        rows.append(row)
        if status == "bounded" or c.bounded:
            bounded.append({"contract": c.cid, "bound": why or c.note})
    kf = [f for f in known_findings() if f["property"] == a.prop]
    shown = set()
    real = []
    for ts in by.values():
        for t in ts:
            for f in kf:
                if f["id"] in getattr(t.out, "known", ()) and f["id"] not in shown:
                    print(f"KNOWN-FINDING: property={a.prop} {f['what']}")
                    shown.add(f["id"])
    for c, t in viol:
        m = None
        for f in kf:
            if f["contract"] == c.cid and "key" not in f and all(s in json.dumps(t.out.replay) for s in f.get("match", [])):
                m = f
        if m:
            if m["id"] not in shown:
                print(f"KNOWN-FINDING: property={a.prop} {m['what']}")
                shown.add(m["id"])
        else:
            real.append((c, t))
    if any(t.out.status == "violated" for _, t in real):  # a concrete failing input: report those
        real = [(c, t) for c, t in real if t.out.status == "violated"]
    rc = 0
    os.makedirs(f"{HERE}/evidence", exist_ok=True)
    vlist = []
    for i, (c, t) in enumerate(real[:3]):
        rp = f"{HERE}/evidence/replay-{a.prop}-{i}.json"
        rep = dict(t.out.replay or {})
        rep["property"] = a.prop
        rep["contract"] = c.cid
        rep["failed_obligations"] = t.out.failed[:10]
        rep["rerun"] = f"cd /verif && python3-vt check.py {a.prop} --only {c.cid} -v"
        rep["replay_cmd"] = f"cd /verif && python3-vt -m vp.replay {rp}"
        with open(rp, "w") as f:
            json.dump(rep, f, indent=1, default=str)
        tail = "" if t.out.status == "violated" else " no-failing-input-found"
        print(f"  contract {c.cid}: obligation not met: {rep.get('obligation')} {str(rep.get('failures'))[:300]}")
        print(f"VIOLATION property={a.prop} replay={rp}{tail}")
        vlist.append({"contract": c.cid, "obligation": str(rep.get("obligation")), "replay": rp})
        rc = 1
    level = level_of(a.prop)
    ev = {
        "property": a.prop,
        "tier": a.tier,
        "seed": a.seed,
        "level": level,
        "coverage": {
            "obligations": tot,
            "discharged": dis,
            "checker_cmd": f"cd /verif && python3-vt check.py {a.prop} --tier {a.tier}",
            "contracts": rows,
            "functions_under_contract": sorted(fns),
            "discharged_by": how,
            "solver_seconds": round(solver, 1),
            "bounded_stand_ins": bounded,
            "native_evaluations": evals,
            "known_findings_seen": sorted(shown),
            "trusted_base": TRUSTED,
        },
        "assumptions": sorted(set(ASSUME) | assumptions),
        "wall_s": round(time.time() - t0, 1),
        "violations": len(vlist),
    }
    with open(f"{HERE}/evidence/{a.prop}.json", "w") as f:
        json.dump(ev, f, indent=1)
    np_ = sum(1 for r in rows if r["status"] == "proved")
    print(f"{a.prop}: {len(rows)} contracts, {np_} proved, {len(bounded)} bounded, {dis}/{tot} obligations discharged, {evals} native evaluations, {time.time() - t0:.1f} s")
    for r in rows:
        if r["status"] in ("error", "unbuildable", "timeout", "bounded", "notrun"):
            print(f"  note: {r['contract']}: {r['status']}: {r.get('why','')[-250:]}")
    return rc


def level_of(prop):
    try:
        m = json.load(open(f"{HERE}/MANIFEST.json"))
        for c in m["checks"]:
            if c["property"] == prop:
                return c["level"]
    except Exception:
        pass
    return "proof"


TRUSTED = [
    "clang 18 front end and its -O1 -emit-llvm pipeline (the IR the obligations are generated from)",
    "vp/llir.py, vp/llsym.py (LLVM IR parser and obligation generator), vp/sweep.py, vp/gf2.py",
    "z3 4.x (python3-vt bindings)",
]
ASSUME = [
    "gcc compiles the same C source as clang to the same meaning (the extension is built with gcc)",
    "NDEBUG: assert() is compiled out of the verified text",
    "objects passed to a function through different pointers do not overlap",
]
