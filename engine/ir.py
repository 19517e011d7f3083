"""Textual LLVM IR reader (lazy, per function) and data-layout computation.

The input is what clang-18 emits at -O0 for a harness translation unit which
instantiates the real headers of /repo.  Nothing is dropped: every defined
function keeps its full body; functions are parsed on first use.
"""
import re
import subprocess


class IRError(Exception):
    pass


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "a", "b")

    def __init__(self, k, a=None, b=None):
        self.k, self.a, self.b = k, a, b

    def __repr__(self):
        return "Ty(%s,%s,%s)" % (self.k, self.a, self.b)


VOID = Ty("void")
PTR = Ty("ptr")
F64 = Ty("double")


TOK = re.compile(r'''\s*(?:
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<id>[%@](?:"(?:[^"\\]|\\.)*"|[-\w.$]+))
 | (?P<meta>!(?:\d+|[\w.]+)?)
 | (?P<attr>\#\d+)
 | (?P<num>-?(?:0x[KLMHR]?[0-9A-Fa-f]+|\d+(?:\.\d*)?(?:[eE][-+]?\d+)?))
 | (?P<word>[\w.$]+)
 | (?P<dots>\.\.\.)
 | (?P<p>[][(){}<>,=*|:])
)''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m or m.end() == i:
            if s[i:].strip() == "" or s[i:].lstrip().startswith(";"):
                break
            raise IRError("tokenize: %r" % s[i:i + 60])
        i = m.end()
        t = m.group(m.lastgroup)
        out.append(t)
    return out


PARAM_ATTRS = {
    "noundef", "nonnull", "signext", "zeroext", "noalias", "nocapture", "readonly",
    "writeonly", "returned", "immarg", "inreg", "nofree", "readnone", "dead_on_unwind",
    "writable", "noext", "swiftself", "allocptr", "allocalign", "nest"}
PAREN_ATTRS = {"align", "dereferenceable", "dereferenceable_or_null", "sret", "byval",
               "byref", "elementtype", "captures", "range", "initializes", "nofpclass",
               "preallocated", "inalloca"}


class P:
    """token cursor"""

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.m = mod

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise IRError("expected %r got %r in %r" % (x, y, " ".join(self.t)[:300]))

    def type(self):
        x = self.next()
        if x == "void":
            t = VOID
        elif x == "ptr":
            t = PTR
            if self.peek() == "addrspace":
                self.i += 4
        elif x == "double":
            t = F64
        elif x == "float":
            t = Ty("float")
        elif x == "x86_fp80":
            t = Ty("x86_fp80")
        elif x == "metadata":
            t = Ty("metadata")
        elif x == "label":
            t = Ty("label")
        elif x == "token":
            t = Ty("token")
        elif re.fullmatch(r"i\d+", x):
            t = Ty("int", int(x[1:]))
        elif x == "{":
            fs = []
            if not self.accept("}"):
                while True:
                    fs.append(self.type())
                    if self.accept("}"):
                        break
                    self.expect(",")
            t = Ty("struct", fs)
        elif x == "[":
            n = int(self.next())
            self.expect("x")
            e = self.type()
            self.expect("]")
            t = Ty("array", n, e)
        elif x == "<":
            if self.peek() == "{":
                t = self.type()
                t = Ty("packed", t.a)
                self.expect(">")
            else:
                n = int(self.next())
                self.expect("x")
                e = self.type()
                self.expect(">")
                t = Ty("vector", n, e)
        elif x[0] == "%":
            t = Ty("named", x[1:].strip('"'))
        else:
            raise IRError("type? %r in %s" % (x, " ".join(self.t)[:200]))
        # function types  T (args)
        while self.peek() == "(" and t.k != "label":
            # only used in call with varargs:  i32 (ptr, ...)
            d = 0
            while True:
                y = self.next()
                if y == "(":
                    d += 1
                elif y == ")":
                    d -= 1
                    if d == 0:
                        break
            t = Ty("func", t)
        return t

    def param_attrs(self):
        attrs = {}
        while True:
            x = self.peek()
            if x in PARAM_ATTRS:
                self.i += 1
                attrs[x] = True
            elif x in PAREN_ATTRS:
                self.i += 1
                if x == "align" and self.peek() != "(":
                    self.next()
                else:
                    self.expect("(")
                    if x in ("sret", "byval", "byref", "elementtype"):
                        attrs[x] = self.type()
                        self.expect(")")
                    else:
                        d = 1
                        while d:
                            y = self.next()
                            if y == "(":
                                d += 1
                            elif y == ")":
                                d -= 1
            elif x is not None and x[0] == '"':
                self.i += 1
                if self.accept("="):
                    self.next()
            else:
                return attrs

    def value(self, ty):
        """constant or register; returns ('reg',name) | ('int',n) | ('fp',x) | ('null',) | ('undef',) |
        ('global',name) | ('gep',...) | ('agg',[..])"""
        x = self.next()
        if x[0] == "%":
            return ("reg", x[1:].strip('"'))
        if x[0] == "@":
            return ("global", x[1:].strip('"'))
        if x == "null":
            return ("null",)
        if x in ("undef", "poison"):
            return ("undef",)
        if x == "zeroinitializer":
            return ("zero", ty)
        if x == "true":
            return ("int", 1)
        if x == "false":
            return ("int", 0)
        if x == "none":
            return ("undef",)
        if x.startswith('c"'):
            return ("cstr", x[2:-1])
        if x in ("getelementptr",):
            while self.peek() in ("inbounds", "nusw", "nuw"):
                self.next()
            if self.peek() == "inrange":
                raise IRError("inrange gep")
            self.expect("(")
            bt = self.type()
            self.expect(",")
            ops = []
            while True:
                if self.peek() == "inrange":
                    self.next()
                t = self.type()
                ops.append((t, self.value(t)))
                if self.accept(")"):
                    break
                self.expect(",")
            return ("gep", bt, ops)
        if x in ("ptrtoint", "inttoptr", "bitcast", "trunc", "sext", "zext"):
            self.expect("(")
            t = self.type()
            v = self.value(t)
            self.expect("to")
            t2 = self.type()
            self.expect(")")
            return ("cast", x, t, v, t2)
        if x == "{" or x == "[":
            end = "}" if x == "{" else "]"
            vs = []
            if not self.accept(end):
                while True:
                    t = self.type()
                    vs.append((t, self.value(t)))
                    if self.accept(end):
                        break
                    self.expect(",")
            return ("agg", vs)
        if ty.k in ("double", "float", "x86_fp80"):
            if x.startswith("0xK"):
                return ("fp", None)
            if x.startswith("0x"):
                import struct
                d = struct.unpack(">d", bytes.fromhex(x[2:].rjust(16, "0")))[0]
                return ("fp", d)
            return ("fp", float(x))
        if ty.k == "int":
            return ("int", int(x))
        raise IRError("value? %r" % x)

    def tv(self):
        t = self.type()
        self.param_attrs()
        if t.k == "metadata":
            # skip
            d = 0
            while self.peek() is not None and not (d == 0 and self.peek() in (",", ")")):
                y = self.next()
                if y == "(":
                    d += 1
                elif y == ")":
                    d -= 1
            return (t, ("undef",))
        return (t, self.value(t))


class Ins:
    __slots__ = ("op", "dst", "a", "line")

    def __init__(self, op, dst, a, line):
        self.op, self.dst, self.a, self.line = op, dst, a, line

    def __repr__(self):
        return "%s = %s %s" % (self.dst, self.op, self.a)


class Func:
    def __init__(self, name):
        self.name = name
        self.params = []     # (ty, name, attrs)
        self.ret = None
        self.blocks = {}     # label -> [Ins]
        self.order = []
        self._loops = None

    def succs(self, b):
        t = self.blocks[b][-1]
        if t.op == "br":
            return [t.a["t"]] if t.a["c"] is None else [t.a["t"], t.a["f"]]
        if t.op == "switch":
            return [t.a["default"]] + [l for _, l in t.a["cases"]]
        if t.op == "invoke":
            return [t.a["normal"]]
        return []

    def loops(self):
        """header -> set(blocks) natural loops (unwind edges ignored)"""
        if self._loops is not None:
            return self._loops
        entry = self.order[0]
        # reachable + rpo
        seen = {}
        post = []
        stack = [(entry, iter(self.succs(entry)))]
        seen[entry] = 1
        while stack:
            b, it = stack[-1]
            adv = False
            for s in it:
                if s not in seen:
                    seen[s] = 1
                    stack.append((s, iter(self.succs(s))))
                    adv = True
                    break
            if not adv:
                post.append(b)
                stack.pop()
        rpo = post[::-1]
        num = {b: i for i, b in enumerate(rpo)}
        preds = {b: [] for b in rpo}
        for b in rpo:
            for s in self.succs(b):
                preds[s].append(b)
        idom = {entry: entry}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            f1, f2 = p, new
                            while f1 != f2:
                                while num[f1] > num[f2]:
                                    f1 = idom[f1]
                                while num[f2] > num[f1]:
                                    f2 = idom[f2]
                            new = f1
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == entry:
                    return False
                b = idom[b]
        loops = {}
        for b in rpo:
            for s in self.succs(b):
                if num[s] <= num[b]:
                    if not dom(s, b):
                        raise IRError("irreducible loop in " + self.name)
                    body = loops.setdefault(s, {s})
                    work = [b]
                    while work:
                        x = work.pop()
                        if x in body:
                            continue
                        body.add(x)
                        work += preds[x]
        self._loops = loops
        return loops


BIN = {"add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "shl", "lshr", "ashr", "and", "or", "xor",
       "fadd", "fsub", "fmul", "fdiv", "frem"}
CASTS = {"sext", "zext", "trunc", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc",
         "ptrtoint", "inttoptr", "bitcast"}
FLAGS = {"nsw", "nuw", "exact", "inbounds", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn",
         "reassoc", "disjoint", "nneg", "volatile", "samesign", "nusw"}
DEF = re.compile(r'^define .*?@("(?:[^"\\]|\\.)*"|[-\w.$]+)\(')


class Module:
    def __init__(self, path):
        self.path = path
        text = open(path).read()
        lines = text.split("\n")
        self.lines = lines
        self.types = {}
        self.fn_at = {}
        self.declared = set()
        self.globals = {}
        self._f = {}
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith("define "):
                m = DEF.match(l)
                name = m.group(1).strip('"')
                self.fn_at[name] = i
                while lines[i] != "}":
                    i += 1
            elif l.startswith("declare "):
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-\w.$]+)\(', l)
                self.declared.add(m.group(1).strip('"'))
            elif l.startswith("%") and " = type " in l:
                nm, rest = l.split(" = type ", 1)
                self.types[nm[1:].strip('"')] = rest
            elif l.startswith("@"):
                m = re.match(r'@("(?:[^"\\]|\\.)*"|[-\w.$]+) = ', l)
                self.globals[m.group(1).strip('"')] = l
            i += 1
        self._ty = {}
        self._size = {}
        names = list(self.fn_at) + list(self.declared)
        self.dem = demangle(names)
        self.by_dem = {}
        for k in self.fn_at:
            self.by_dem.setdefault(self.dem[k], k)

    # ---- layout
    def resolve(self, t):
        if t.k != "named":
            return t
        r = self._ty.get(t.a)
        if r is None:
            s = self.types[t.a]
            if s.strip() == "opaque":
                r = Ty("opaque")
            else:
                r = P(tokenize(s), self).type()
            self._ty[t.a] = r
        return r

    def sizealign(self, t):
        t0 = t
        key = None
        if t.k == "named":
            key = t.a
            if key in self._size:
                return self._size[key]
        t = self.resolve(t)
        k = t.k
        if k == "int":
            b = max(1, (t.a + 7) // 8)
            s = 1
            while s < b:
                s *= 2
            r = (s, min(s, 16))
        elif k == "double" or k == "ptr":
            r = (8, 8)
        elif k == "float":
            r = (4, 4)
        elif k == "x86_fp80":
            r = (16, 16)
        elif k == "array":
            s, a = self.sizealign(t.b)
            r = (s * t.a, a)
        elif k == "vector":
            s, a = self.sizealign(t.b)
            r = (s * t.a, s * t.a)
        elif k == "struct":
            off = 0
            al = 1
            for f in t.a:
                s, a = self.sizealign(f)
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            r = ((off + al - 1) // al * al, al)
        elif k == "packed":
            r = (sum(self.sizealign(f)[0] for f in t.a), 1)
        elif k == "opaque":
            r = (0, 1)
        else:
            raise IRError("sizeof %r" % t0)
        if key:
            self._size[key] = r
        return r

    def size(self, t):
        return self.sizealign(t)[0]

    def field_off(self, t, idx):
        t = self.resolve(t)
        if t.k == "packed":
            return sum(self.size(f) for f in t.a[:idx]), t.a[idx]
        off = 0
        for i, f in enumerate(t.a):
            s, a = self.sizealign(f)
            off = (off + a - 1) // a * a
            if i == idx:
                return off, f
            off += s
        raise IRError("field")

    # ---- functions
    def func(self, name):
        f = self._f.get(name)
        if f is None:
            f = self._parse(name)
            self._f[name] = f
        return f

    def _parse(self, name):
        i = self.fn_at[name]
        head = self.lines[i]
        f = Func(name)
        p = P(tokenize(head), self)
        p.expect("define")
        SK = {"dso_local", "linkonce_odr", "internal", "weak_odr", "private", "available_externally",
              "hidden", "protected", "unnamed_addr", "local_unnamed_addr", "weak", "external", "noinline"}
        while p.peek() in SK or p.peek() in PARAM_ATTRS or p.peek() in PAREN_ATTRS:
            if p.peek() in SK:
                p.next()
            else:
                p.param_attrs()
        f.ret = p.type() if p.peek(1) != "(" or True else None
        # type() swallows nothing here: name token follows
        p.next()
        p.expect("(")
        if not p.accept(")"):
            while True:
                if p.accept("..."):
                    p.expect(")")
                    break
                t = p.type()
                at = p.param_attrs()
                nm = p.next()[1:].strip('"')
                f.params.append((t, nm, at))
                if p.accept(")"):
                    break
                p.expect(",")
        i += 1
        cur = None
        first = str(len([1 for q in f.params if q[1].isdigit()]))
        while self.lines[i] != "}":
            l = self.lines[i]
            ln = i
            i += 1
            if not l or l.isspace():
                continue
            m = re.match(r'^("(?:[^"\\]|\\.)*"|[-\w.$]+):', l)
            if m:
                cur = m.group(1).strip('"')
                f.blocks[cur] = []
                f.order.append(cur)
                continue
            if cur is None:
                cur = first
                f.blocks[cur] = []
                f.order.append(cur)
            s = l.strip()
            # continuation lines
            if s.startswith("invoke ") or " = invoke " in s:
                while " unwind label " not in s:
                    s += " " + self.lines[i].strip()
                    i += 1
            if s.startswith("switch "):
                while "]" not in s:
                    s += " " + self.lines[i].strip()
                    i += 1
            if " = landingpad " in s:
                while i < len(self.lines) and re.match(r"\s+(cleanup|catch|filter)", self.lines[i]):
                    i += 1
                ins = Ins("landingpad", s.split(" = ")[0][1:], None, ln)
            else:
                ins = self._ins(s, ln)
            if ins is not None:
                f.blocks[cur].append(ins)
        return f

    def _ins(self, s, ln):
        dst = None
        m = re.match(r'^%("(?:[^"\\]|\\.)*"|[-\w.$]+) = ', s)
        if m:
            dst = m.group(1).strip('"')
            s = s[m.end():]
        p = P(tokenize(s), self)
        op = p.next()
        if op in ("tail", "musttail", "notail"):
            op = p.next()
        if op == "alloca":
            t = p.type()
            n = None
            while p.accept(","):
                if p.peek() == "align":
                    p.next(); p.next()
                else:
                    n = p.tv()
            return Ins("alloca", dst, {"t": t, "n": n}, ln)
        if op == "load":
            while p.peek() in FLAGS or p.peek() == "atomic":
                p.next()
            t = p.type()
            p.expect(",")
            return Ins("load", dst, {"t": t, "p": p.tv()[1]}, ln)
        if op == "store":
            while p.peek() in FLAGS or p.peek() == "atomic":
                p.next()
            t, v = p.tv()
            p.expect(",")
            return Ins("store", dst, {"t": t, "v": v, "p": p.tv()[1]}, ln)
        if op == "getelementptr":
            while p.peek() in FLAGS:
                p.next()
            bt = p.type()
            p.expect(",")
            ops = [p.tv()]
            while p.accept(","):
                if p.peek() and p.peek()[0] == "!":
                    break
                ops.append(p.tv())
            return Ins("gep", dst, {"bt": bt, "ops": ops}, ln)
        if op in BIN:
            fl = set()
            while p.peek() in FLAGS:
                fl.add(p.next())
            t = p.type()
            a = p.value(t)
            p.expect(",")
            b = p.value(t)
            return Ins("bin", dst, {"op": op, "t": t, "a": a, "b": b, "fl": fl}, ln)
        if op == "fneg":
            while p.peek() in FLAGS:
                p.next()
            t = p.type()
            return Ins("fneg", dst, {"t": t, "a": p.value(t)}, ln)
        if op in ("icmp", "fcmp"):
            while p.peek() in FLAGS:
                p.next()
            pr = p.next()
            t = p.type()
            a = p.value(t)
            p.expect(",")
            b = p.value(t)
            return Ins(op, dst, {"pr": pr, "t": t, "a": a, "b": b}, ln)
        if op in CASTS:
            while p.peek() in FLAGS:
                p.next()
            t, v = p.tv()
            p.expect("to")
            return Ins("cast", dst, {"op": op, "t": t, "v": v, "to": p.type()}, ln)
        if op == "br":
            if p.peek() == "label":
                p.next()
                return Ins("br", None, {"c": None, "t": p.next()[1:].strip('"')}, ln)
            t, c = p.tv()
            p.expect(","); p.expect("label")
            a = p.next()[1:].strip('"')
            p.expect(","); p.expect("label")
            b = p.next()[1:].strip('"')
            return Ins("br", None, {"c": c, "t": a, "f": b}, ln)
        if op == "switch":
            t, c = p.tv()
            p.expect(","); p.expect("label")
            d = p.next()[1:].strip('"')
            p.expect("[")
            cases = []
            while not p.accept("]"):
                _, v = p.tv()
                p.expect(","); p.expect("label")
                cases.append((v[1], p.next()[1:].strip('"')))
            return Ins("switch", None, {"t": t, "c": c, "default": d, "cases": cases}, ln)
        if op == "ret":
            t = p.type()
            return Ins("ret", None, {"t": t, "v": None if t.k == "void" else p.value(t)}, ln)
        if op == "unreachable":
            return Ins("unreachable", None, {}, ln)
        if op == "resume":
            return Ins("unreachable", None, {}, ln)
        if op == "phi":
            while p.peek() in FLAGS:
                p.next()
            t = p.type()
            inc = []
            while True:
                p.expect("[")
                v = p.value(t)
                p.expect(",")
                inc.append((v, p.next()[1:].strip('"')))
                p.expect("]")
                if not p.accept(","):
                    break
                if p.peek() and p.peek()[0] == "!":
                    break
            return Ins("phi", dst, {"t": t, "inc": inc}, ln)
        if op == "select":
            while p.peek() in FLAGS:
                p.next()
            _, c = p.tv()
            p.expect(",")
            t, a = p.tv()
            p.expect(",")
            _, b = p.tv()
            return Ins("select", dst, {"c": c, "t": t, "a": a, "b": b}, ln)
        if op in ("extractvalue", "insertvalue"):
            t, v = p.tv()
            a = {"t": t, "v": v}
            if op == "insertvalue":
                p.expect(",")
                a["et"], a["e"] = p.tv()
            idx = []
            while p.accept(","):
                if p.peek()[0] == "!":
                    break
                idx.append(int(p.next()))
            a["idx"] = idx
            return Ins(op, dst, a, ln)
        if op == "freeze":
            t, v = p.tv()
            return Ins("copy", dst, {"v": v, "t": t}, ln)
        if op in ("call", "invoke"):
            while True:
                x = p.peek()
                if x in FLAGS or x in ("fastcc", "ccc"):
                    p.next()
                elif x in PARAM_ATTRS or x in PAREN_ATTRS:
                    p.param_attrs()
                else:
                    break
            t = p.type()
            if t.k == "func":
                t = t.a
            if p.peek() == "asm":
                return Ins("asm", dst, {}, ln)
            callee = p.value(PTR)
            p.expect("(")
            args = []
            if not p.accept(")"):
                while True:
                    at = p.type()
                    if at.k == "metadata":
                        d = 0
                        while not (d == 0 and p.peek() in (",", ")")):
                            y = p.next()
                            if y == "(":
                                d += 1
                            elif y == ")":
                                d -= 1
                        args.append((at, ("undef",), {}))
                    else:
                        aa = p.param_attrs()
                        args.append((at, p.value(at), aa))
                    if p.accept(")"):
                        break
                    p.expect(",")
            a = {"t": t, "f": callee, "args": args}
            if op == "invoke":
                while p.peek() != "to":
                    p.next()
                p.next()
                p.expect("label")
                a["normal"] = p.next()[1:].strip('"')
            return Ins(op, dst, a, ln)
        if op in ("fence",):
            return None
        if op in ("atomicrmw", "cmpxchg", "va_arg", "extractelement", "insertelement", "shufflevector"):
            return Ins("unsupported", dst, {"what": s}, ln)
        raise IRError("instr? " + s[:200])


def demangle(names):
    names = list(names)
    r = subprocess.run(["llvm-cxxfilt-18"], input="\n".join(names) + "\n", capture_output=True, text=True)
    out = r.stdout.split("\n")
    return dict(zip(names, out))
