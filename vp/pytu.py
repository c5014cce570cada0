"""Contracts on the nogil functions of the Cython layer.

The .pyx of the current tree is translated by Cython itself (the compiler the
build uses) and the resulting C is verified like any other translation unit.
"""
import copy
import os
import re
import subprocess
import threading
from .unit import TU, BuildError, BASEFLAGS, REPO, SRC, Kit

_lock = threading.Lock()
_env = {}
ENVSH = ". /opt/vp/env.sh && "


def env():
    if not _env:
        r = subprocess.run(["bash", "-c", ENVSH + "python - <<'P'\nimport sysconfig, numpy\nprint(sysconfig.get_path('include'))\nprint(numpy.get_include())\nP"], capture_output=True, text=True)
        if r.returncode:
            raise BuildError("python of the build environment: " + r.stderr[-500:])
        _env["inc"] = r.stdout.split()
    return _env


def cythonize(mod, scratch):
    out = os.path.join(scratch, "cy", mod + ".c")
    with _lock:
        if os.path.exists(out):
            return out
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = os.path.join(scratch, "cy", f"{os.getpid()}")
        os.makedirs(tmp, exist_ok=True)
    r = subprocess.run(["bash", "-c", ENVSH + f"cython -3 -X binding=True --module-name randomgen.{mod} -I {REPO} {REPO}/randomgen/{mod}.pyx -o {tmp}/{mod}.c"], capture_output=True, text=True, cwd=REPO)
    if r.returncode:
        raise BuildError("cython: " + r.stderr[-1500:])
    os.rename(f"{tmp}/{mod}.c", out)
    return out


class PyTU(TU):
    """translation unit = Cython output of one module + the C sources of its extension"""

    def __init__(self, base, mod, slots, structs=None):
        """slots: {name in the contracts: (prototype, cdef function)}"""
        self.mod, self.base, self.slots = mod, base, slots
        super().__init__("py_" + base.name + "_" + mod, base.includes, [s[0] for s in slots.values()], structs if structs is not None else base.structs, base.flags, base.pre, base.post, base.consts)
        for q in ("push8", "sumc"):
            if hasattr(base, q):
                setattr(self, q, getattr(base, q))
        if False:
            self.push8 = base.push8

    def extra(self):
        return [f"-I{REPO}/randomgen"] + [f"-I{i}" for i in env()["inc"]]

    def csource_in(self, scratch):
        cy = cythonize(self.mod, scratch)
        text = open(cy).read()
        o = [f'#include "{cy}"', "#include <stddef.h>", self.pre]
        o += [f'#include "{SRC}{i}"' for i in self.includes if i.endswith(".c")]
        o.append(self.post)
        for name, (proto, slot) in self.slots.items():
            m = re.search(r"\b(__pyx_f_\w*?\d*" + re.escape(slot) + r")\s*\(", text)
            fn = None
            for c in set(re.findall(r"\b(__pyx_f_9randomgen_\d+" + self.mod + "_" + re.escape(slot) + r")\b", text)):
                fn = c
            if fn is None:
                self.missing.add(name)
                continue
            ret, params = self.protos[name]
            ps = ", ".join(f"{t} {n}" for t, n in params)
            o.append(f"{ret} vp_{name}({ps}) {{ {'' if ret == 'void' else 'return '}{fn}({', '.join(n for t, n in params)}); }}")
        for i, (st, fields) in enumerate(self.structs.items()):
            o.append(f"const unsigned long vpsz_{i} = sizeof({st});")
            for j, f in enumerate(fields):
                o.append(f"const unsigned long vpof_{i}_{j} = offsetof({st}, {f});")
                o.append(f"const unsigned long vpfs_{i}_{j} = sizeof((({st}*)0)->{f});")
        for i, c in enumerate(self.consts):
            o.append(f"const unsigned long long vpk_{i} = (unsigned long long)({c});")
        return "\n".join(o) + "\n"

    def _src(self, scratch):
        b = self.paths(scratch)
        if not os.path.exists(b + ".c"):
            t = f"{b}.{os.getpid()}.tmp"
            with open(t, "w") as f:
                f.write(self.csource_in(scratch))
            os.rename(t, b + ".c")
        return b

    def compile_ir(self, scratch):
        b = self.paths(scratch)
        if os.path.exists(b + ".ll"):
            return b
        if os.path.exists(b + ".irerr"):
            raise BuildError(open(b + ".irerr").read())
        try:
            self._src(scratch)
            t = f"{b}.{os.getpid()}"
            cmd = ["clang"] + BASEFLAGS + self.flags + self.extra() + ["-O1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-w", "-c", "-emit-llvm", b + ".c", "-o", t + ".bc"]
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode:
                raise BuildError("clang: " + r.stderr[:2000])
            keep = ",".join(["vp_" + n for n in self.slots if n not in self.missing] + [f"vpsz_{i}" for i in range(len(self.structs))] + [f"vpof_{i}_{j}" for i, f in enumerate(self.structs.values()) for j in range(len(f))]
                            + [f"vpfs_{i}_{j}" for i, f in enumerate(self.structs.values()) for j in range(len(f))] + [f"vpk_{i}" for i in range(len(self.consts))])
            # only reachable code is parsed: everything else is discarded (no function body changes)
            r = subprocess.run(["/usr/lib/llvm-18/bin/opt", "-S", "-passes=internalize,globaldce", "--internalize-public-api-list=" + keep, t + ".bc", "-o", t + ".ll"], capture_output=True, text=True)
            if r.returncode:
                raise BuildError("opt: " + r.stderr[:2000])
            os.unlink(t + ".bc")
        except BuildError as e:
            with open(b + ".irerr", "w") as f:
                f.write(str(e))
            raise
        os.rename(t + ".ll", b + ".ll")
        return b

    def build_native(self, scratch, sanitize=False):
        b = self._src(scratch)
        so = b + ("_san.so" if sanitize else ".so")
        if not os.path.exists(so):
            opt = ["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize=alignment", "-fno-sanitize-recover=undefined"] if sanitize else ["-O2", "-fno-strict-aliasing"]
            tmp = f"{so}.{os.getpid()}"
            r = subprocess.run(["gcc"] + BASEFLAGS + self.flags + self.extra() + opt + ["-w", "-fPIC", "-shared", b + ".c", "-o", tmp], capture_output=True, text=True)
            if r.returncode:
                raise BuildError("gcc: " + r.stderr[:2000])
            os.rename(tmp, so)
        return so


class SlotKit:
    """the contract of the C function, evaluated on the Cython slot that serves it"""

    def __init__(self, k, fnmap, kind):
        self.__dict__.update(_k=k, _map=fnmap, _kind=kind)

    def __getattr__(self, a):
        return getattr(self._k, a)

    def __setattr__(self, a, v):
        setattr(self._k, a, v)

    def call(self, fn, *args):
        return self._k.call(self._map.get(fn, fn), *args)

    def same(self, name, a, b):
        if name.startswith("return value") and self._kind != "same":
            if self._kind == "double":
                self._k.double(name, a, b >> 11, -53)
                self._k.double_unit(name + " in [0, 1)", a)
            else:
                self._k.same(name, a, b.zext(64))
            return
        self._k.same(name, a, b)


def clone(con, tu, cid, fnmap, kind, props):
    c = copy.copy(con)
    c.cid, c.tu, c.props = cid, tu, props
    body = con.body

    def run(k):
        body(SlotKit(k, fnmap, kind))

    c.body = run
    c.fns = None
    return c
