"""Parser for textual LLVM IR (clang 18, opaque pointers)."""
import re

TOK = re.compile(
    r"""\s*(?:
      (?P<str>c?"(?:[^"\\]|\\.)*")
    | (?P<loc>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
    | (?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
    | (?P<meta>!(?:[-a-zA-Z$._0-9]+)?)
    | (?P<attr>\#\d+)
    | (?P<num>-?\d+(?:\.\d+(?:[eE][-+]?\d+)?)?(?![a-zA-Z_]))
    | (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
    | (?P<dots>\.\.\.)
    | (?P<word>[a-zA-Z_$.][-a-zA-Z$._0-9]*)
    | (?P<p>[=,()\[\]{}<>*:|])
    )""",
    re.X,
)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == "" or s[i:].lstrip().startswith(";"):
                break
            raise SyntaxError("tok: " + s[i : i + 80])
        i = m.end()
        k = m.lastgroup
        out.append((k, m.group(k)))
    return out


# types: ('i',n) ('ptr',) ('double',) ('float',) ('fp80',) ('void',) ('vec',n,t)
# ('arr',n,t) ('struct',packed,[t]) ('named',name) ('label',) ('metadata',) ('fn',)
class P:
    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j][1] if j < len(self.t) else None

    def kind(self):
        return self.t[self.i][0] if self.i < len(self.t) else None

    def next(self):
        r = self.t[self.i][1]
        self.i += 1
        return r

    def accept(self, s):
        if self.peek() == s:
            self.i += 1
            return True
        return False

    def expect(self, s):
        if not self.accept(s):
            raise SyntaxError(f"expected {s} got {self.peek()} in {self.t}")

    def type(self):
        t = self.next()
        if re.fullmatch(r"i\d+", t):
            r = ("i", int(t[1:]))
        elif t == "ptr":
            r = ("ptr",)
            if self.accept("addrspace"):
                self.expect("("), self.next(), self.expect(")")
        elif t in ("double", "float", "void", "label", "metadata", "half"):
            r = (t,)
        elif t == "x86_fp80":
            r = ("fp80",)
        elif t == "[":
            n = int(self.next())
            self.expect("x")
            e = self.type()
            self.expect("]")
            r = ("arr", n, e)
        elif t == "<":
            if self.accept("{"):
                fs = []
                while not self.accept("}"):
                    fs.append(self.type())
                    self.accept(",")
                self.expect(">")
                r = ("struct", True, fs)
            else:
                n = int(self.next())
                self.expect("x")
                e = self.type()
                self.expect(">")
                r = ("vec", n, e)
        elif t == "{":
            fs = []
            while not self.accept("}"):
                fs.append(self.type())
                self.accept(",")
            r = ("struct", False, fs)
        elif t.startswith("%"):
            r = ("named", t[1:])
        else:
            raise SyntaxError("type " + t)
        # function type: ret (args)
        if self.peek() == "(" and r[0] != "label":
            # only in call with explicit fn type (varargs)
            save = self.i
            try:
                self.next()
                ok = True
                while not self.accept(")"):
                    if self.accept("..."):
                        continue
                    self.type()
                    self.accept(",")
                return ("fnty", r)
            except (SyntaxError, IndexError, AttributeError, TypeError):
                self.i = save
        return r

    ATTRS = {
        "noundef", "nonnull", "nocapture", "readonly", "writeonly", "readnone", "noalias",
        "signext", "zeroext", "inreg", "immarg", "returned", "nofree", "nosync", "noinline",
        "swiftself", "nest", "writable", "dead_on_unwind", "allocptr", "noreturn", "inrange",
    }

    def skip_attrs(self):
        while True:
            t = self.peek()
            if t in self.ATTRS:
                self.i += 1
            elif t in ("align", "dereferenceable", "dereferenceable_or_null", "byval", "sret", "elementtype", "memory", "range", "allocsize"):
                self.i += 1
                if self.accept("("):
                    d = 1
                    while d:
                        x = self.next()
                        d += x == "("
                        d -= x == ")"
                else:
                    self.next()
            else:
                return

    def value(self, ty):
        k = self.kind()
        t = self.next()
        if k == "loc":
            return ("loc", t[1:])
        if k == "glob":
            return ("glob", t[1:].strip('"'))
        if k == "num":
            if ty[0] in ("double", "float", "fp80"):
                return ("fp", float(t))
            return ("int", int(t))
        if k == "hex":
            if ty[0] in ("double", "float") and not t[2] in "KLMHR":
                import struct

                return ("fp", struct.unpack("<d", int(t, 16).to_bytes(8, "little"))[0])
            if t[2] == "K":
                return ("fp80", int(t[3:], 16))
            raise SyntaxError("hex const " + t)
        if k == "str":
            return ("bytes", unescape(t))
        if t == "true":
            return ("int", 1)
        if t == "false":
            return ("int", 0)
        if t in ("null",):
            return ("null",)
        if t == "zeroinitializer":
            return ("zero",)
        if t in ("undef", "poison"):
            return ("undef",)
        if t == "none":
            return ("zero",)
        if t == "[" or t == "{" or t == "<":
            close = {"[": "]", "{": "}", "<": ">"}[t]
            if t == "<" and self.peek() == "{":
                self.next()
                els = []
                while not self.accept("}"):
                    ety = self.type()
                    self.skip_attrs()
                    els.append((ety, self.value(ety)))
                    self.accept(",")
                self.expect(">")
                return ("agg", els)
            els = []
            while not self.accept(close):
                ety = self.type()
                self.skip_attrs()
                els.append((ety, self.value(ety)))
                self.accept(",")
            return ("agg", els)
        if t == "getelementptr":
            while self.peek() in ("inbounds", "nuw", "nusw"):
                self.next()
            self.expect("(")
            bty = self.type()
            self.expect(",")
            args = []
            while True:
                self.accept("inrange")
                a = self.type()
                args.append((a, self.value(a)))
                if not self.accept(","):
                    break
            self.expect(")")
            return ("cgep", bty, args)
        if t in ("ptrtoint", "inttoptr", "bitcast", "trunc", "zext", "sext"):
            self.expect("(")
            a = self.type()
            v = self.value(a)
            self.expect("to")
            b = self.type()
            self.expect(")")
            return ("ccast", t, a, v, b)
        if t in ("add", "sub", "xor", "and", "or", "shl", "mul"):
            while self.peek() in ("nuw", "nsw"):
                self.next()
            self.expect("(")
            a = self.type()
            x = self.value(a)
            self.expect(",")
            b = self.type()
            y = self.value(b)
            self.expect(")")
            return ("cbin", t, a, x, y)
        raise SyntaxError("value " + t)


def unescape(t):
    if t.startswith("c"):
        t = t[1:]
    t = t[1:-1]
    out = bytearray()
    i = 0
    while i < len(t):
        if t[i] == "\\":
            if t[i + 1] == "\\":
                out.append(92)
                i += 2
            else:
                out.append(int(t[i + 1 : i + 3], 16))
                i += 3
        else:
            out += t[i].encode("latin1")
            i += 1
    return bytes(out)


class Instr:
    __slots__ = ("dst", "op", "a", "text", "line")

    def __init__(self, dst, op, a, text):
        self.dst, self.op, self.a, self.text = dst, op, a, text


class Func:
    def __init__(self, name, ret, params):
        self.name, self.ret, self.params = name, ret, params
        self.blocks = {}
        self.entry = None


class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}  # name -> (const?, type, init or None)
        self.funcs = {}
        self.decls = set()


LINKAGE = {
    "private", "internal", "external", "common", "weak", "linkonce_odr", "weak_odr", "linkonce", "dso_local",
    "unnamed_addr", "local_unnamed_addr", "thread_local", "hidden", "protected", "default", "extern_weak",
    "fastcc", "ccc", "coldcc", "available_externally", "appending",
}
FLAGS = {"nuw", "nsw", "exact", "disjoint", "nneg", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "inbounds", "volatile", "atomic", "samesign", "nusw"}


def parse_module(text):
    m = Module()
    lines = text.split("\n")
    i = 0
    while i < len(lines):
        ln = lines[i]
        i += 1
        if not ln or ln[0] in ";!" or ln.startswith(("source_filename", "target", "attributes", "module asm", "$")):
            continue
        if ln[0] == "%":
            p = P(tokenize(ln))
            nm = p.next()[1:].strip('"')
            p.expect("=")
            p.expect("type")
            if p.peek() == "opaque":
                m.types[nm] = None
            else:
                m.types[nm] = p.type()
        elif ln[0] == "@":
            p = P(tokenize(ln))
            nm = p.next()[1:].strip('"')
            p.expect("=")
            ext = False
            while p.peek() in LINKAGE:
                if p.next() in ("external", "extern_weak"):
                    ext = True
            kind = p.next()
            if kind == "alias":
                continue
            assert kind in ("constant", "global"), ln[:100]
            ty = p.type()
            init = None
            if not ext:
                init = p.value(ty)
            m.globals[nm] = (kind == "constant", ty, init)
        elif ln.startswith("declare"):
            mm = re.search(r"@([-a-zA-Z$._0-9]+|\"[^\"]*\")\(", ln)
            m.decls.add(mm.group(1).strip('"'))
        elif ln.startswith("define"):
            p = P(tokenize(ln))
            p.next()
            while p.peek() in LINKAGE:
                p.next()
            p.skip_attrs()
            ret = p.type()
            nm = p.next()[1:].strip('"')
            p.expect("(")
            params = []
            while not p.accept(")"):
                if p.accept("..."):
                    continue
                t = p.type()
                p.skip_attrs()
                pn = p.next()[1:] if p.kind() == "loc" else None
                params.append((t, pn))
                p.accept(",")
            f = Func(nm, ret, params)
            # implicit numbering
            c = 0
            cur = None
            # first block label: explicit or implicit number after params
            for k, (t, pn) in enumerate(params):
                if pn is None:
                    params[k] = (t, str(c))
                    c += 1
                elif pn.isdigit():
                    c = int(pn) + 1
            first = True
            while True:
                ln = lines[i]
                i += 1
                if ln == "}":
                    break
                if not ln.strip() or ln.lstrip().startswith(";"):
                    continue
                lm = re.match(r'^([-a-zA-Z$._0-9]+|"[^"]*"):', ln)
                if lm and not ln.startswith(" "):
                    cur = lm.group(1).strip('"')
                    f.blocks[cur] = []
                    if first:
                        f.entry = cur
                        first = False
                    continue
                if first:
                    cur = str(c)
                    f.blocks[cur] = []
                    f.entry = cur
                    first = False
                # switch spans lines
                s = ln.strip()
                if s.startswith("switch") and s.endswith("["):
                    while True:
                        l2 = lines[i].strip()
                        i += 1
                        s += " " + l2
                        if l2.startswith("]"):
                            break
                f.blocks[cur].append(parse_instr(s))
            m.funcs[nm] = f
        else:
            raise SyntaxError("toplevel " + ln[:120])
    return m


def tyval(p):
    t = p.type()
    p.skip_attrs()
    return (t, p.value(t))


BIN = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor", "fadd", "fsub", "fmul", "fdiv", "frem"}
CAST = {"trunc", "zext", "sext", "bitcast", "ptrtoint", "inttoptr", "uitofp", "sitofp", "fptoui", "fptosi", "fpext", "fptrunc"}


def parse_instr(s):
    # strip metadata suffix
    toks = tokenize(s)
    # cut trailing ", !tbaa !5" etc.
    for k in range(len(toks)):
        if toks[k][0] == "meta" and k and toks[k - 1][1] == ",":
            toks = toks[: k - 1]
            break
    p = P(toks)
    dst = None
    if p.kind() == "loc" and p.peek(1) == "=":
        dst = p.next()[1:]
        p.next()
    op = p.next()
    while op in ("tail", "musttail", "notail"):
        op = p.next()
    flags = set()
    while p.peek() in FLAGS:
        flags.add(p.next())
    if op in BIN:
        t = p.type()
        a = p.value(t)
        p.expect(",")
        b = p.value(t)
        return Instr(dst, "bin", (op, flags, t, a, b), s)
    if op in ("icmp", "fcmp"):
        pr = p.next()
        t = p.type()
        a = p.value(t)
        p.expect(",")
        b = p.value(t)
        return Instr(dst, op, (pr, t, a, b), s)
    if op in CAST:
        t = p.type()
        v = p.value(t)
        p.expect("to")
        return Instr(dst, "cast", (op, t, v, p.type()), s)
    if op == "select":
        c = tyval(p)
        p.expect(",")
        a = tyval(p)
        p.expect(",")
        b = tyval(p)
        return Instr(dst, op, (c, a, b), s)
    if op == "phi":
        t = p.type()
        inc = []
        while p.accept("["):
            v = p.value(t)
            p.expect(",")
            l = p.next()[1:].strip('"')
            p.expect("]")
            p.accept(",")
            inc.append((v, l))
        return Instr(dst, op, (t, inc), s)
    if op == "load":
        t = p.type()
        p.expect(",")
        a = tyval(p)
        return Instr(dst, op, (t, a[1]), s)
    if op == "store":
        v = tyval(p)
        p.expect(",")
        a = tyval(p)
        return Instr(dst, op, (v[0], v[1], a[1]), s)
    if op == "getelementptr":
        t = p.type()
        p.expect(",")
        args = [tyval(p)]
        while p.accept(","):
            args.append(tyval(p))
        return Instr(dst, op, (t, args), s)
    if op == "alloca":
        t = p.type()
        n = None
        if p.accept(",") and p.peek() != "align":
            n = tyval(p)
        return Instr(dst, op, (t, n), s)
    if op == "br":
        if p.accept("label"):
            return Instr(None, "br", (None, p.next()[1:].strip('"'), None), s)
        c = tyval(p)
        p.expect(",")
        p.expect("label")
        a = p.next()[1:].strip('"')
        p.expect(",")
        p.expect("label")
        b = p.next()[1:].strip('"')
        return Instr(None, "br", (c[1], a, b), s)
    if op == "switch":
        v = tyval(p)
        p.expect(",")
        p.expect("label")
        d = p.next()[1:].strip('"')
        p.expect("[")
        cases = []
        while not p.accept("]"):
            t, cv = tyval(p)
            p.expect(",")
            p.expect("label")
            cases.append((cv[1], p.next()[1:].strip('"')))
        return Instr(None, "switch", (v, d, cases), s)
    if op == "ret":
        if p.accept("void"):
            return Instr(None, "ret", None, s)
        return Instr(None, "ret", tyval(p), s)
    if op == "unreachable":
        return Instr(None, op, None, s)
    if op == "call":
        while p.peek() in LINKAGE or p.peek() in FLAGS:
            p.next()
        p.skip_attrs()
        rt = p.type()
        if rt[0] == "fnty":
            rt = rt[1]
        k = p.kind()
        if k == "glob":
            callee = ("glob", p.next()[1:].strip('"'))
        elif k == "loc":
            callee = ("loc", p.next()[1:])
        elif p.peek() == "asm":
            rest = [t[1] for t in p.t[p.i :]]
            return Instr(dst, "asm", (rt, rest), s)
        else:
            raise SyntaxError("call " + s)
        p.expect("(")
        args = []
        while not p.accept(")"):
            t = p.type()
            p.skip_attrs()
            if t[0] == "metadata":
                d = 0
                while not (d == 0 and p.peek() in (",", ")")):
                    x = p.next()
                    d += x == "("
                    d -= x == ")"
                args.append((t, None))
            else:
                args.append((t, p.value(t)))
            p.accept(",")
        return Instr(dst, "call", (rt, callee, args), s)
    if op == "extractelement":
        v = tyval(p)
        p.expect(",")
        k = tyval(p)
        return Instr(dst, op, (v, k), s)
    if op == "insertelement":
        v = tyval(p)
        p.expect(",")
        e = tyval(p)
        p.expect(",")
        k = tyval(p)
        return Instr(dst, op, (v, e, k), s)
    if op == "shufflevector":
        a = tyval(p)
        p.expect(",")
        b = tyval(p)
        p.expect(",")
        mk = tyval(p)
        return Instr(dst, op, (a, b, mk), s)
    if op == "extractvalue":
        v = tyval(p)
        idx = []
        while p.accept(","):
            idx.append(int(p.next()))
        return Instr(dst, op, (v, idx), s)
    if op == "insertvalue":
        v = tyval(p)
        p.expect(",")
        e = tyval(p)
        idx = []
        while p.accept(","):
            idx.append(int(p.next()))
        return Instr(dst, op, (v, e, idx), s)
    if op == "freeze":
        return Instr(dst, op, tyval(p), s)
    if op == "fneg":
        return Instr(dst, op, tyval(p), s)
    return Instr(dst, "unsupported", op, s)
